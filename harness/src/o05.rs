//! O05: received broadcasts reach those who wait for them

use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake};

use everscale_network::overlay::{Overlay as Ov, OverlayOptions};
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::dht::{ed_key, Overlay};
use crate::ov::*;
use crate::wire::*;
use crate::Ctx;

type Wait = Pin<Box<dyn Future<Output = u32> + Send>>;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

fn number(d: &[u8]) -> u32 {
    d.get(..4).map(|d| u32::from_le_bytes(d.try_into().unwrap())).unwrap_or(u32::MAX)
}

fn packet(id: &Overlay, src: &Ident, n: u32) -> Vec<u8> {
    let data = n.to_le_bytes().to_vec();
    let mut b = Bcast {
        src: ed_key(src),
        certificate: false,
        flags: ANY_SENDER,
        data: data.clone(),
        date: unix_now(),
        signature: Vec::new(),
        fec: None,
        tail: Vec::new(),
    };
    b.sign(src, &data);
    b.to_bytes(&id.id)
}

enum Queue {
    Node(Box<Member>, Ident),
    #[cfg(feature = "internals")]
    Raw(Arc<everscale_network::overlay::BroadcastReceiver<u32>>),
}

impl Queue {
    async fn node(rng: &mut Rand) -> Self {
        let id = Overlay::gen(rng);
        let src = Ident::gen(rng);
        Queue::Node(Box::new(Member::quiet(rng, 1, id, OverlayOptions::default(), 1).await), src)
    }
    async fn any(rng: &mut Rand, raw: bool) -> (Self, bool) {
        #[cfg(feature = "internals")]
        if raw {
            return (Queue::Raw(Default::default()), true);
        }
        let _ = raw;
        (Self::node(rng).await, false)
    }
    fn push(&mut self, rng: &mut Rand, n: u32) {
        match self {
            Queue::Node(m, src) => {
                let p = packet(&m.id, src, n);
                m.send(rng, 1, p);
            }
            #[cfg(feature = "internals")]
            Queue::Raw(q) => {
                let _ = &rng;
                q.push(n)
            }
        }
    }
    fn wait(&self) -> Wait {
        match self {
            Queue::Node(m, _) => {
                let ov: Arc<Ov> = m.ov.clone();
                Box::pin(async move { number(&ov.wait_for_broadcast().await.data) })
            }
            #[cfg(feature = "internals")]
            Queue::Raw(q) => {
                let q = q.clone();
                Box::pin(async move { q.pop().await })
            }
        }
    }
    fn len(&self) -> usize {
        match self {
            Queue::Node(m, _) => m.ov.metrics().received_broadcasts_data_len,
            #[cfg(feature = "internals")]
            Queue::Raw(q) => q.data_len(),
        }
    }
}

struct Env {
    q: Queue,
    waits: BTreeMap<usize, (Wait, Arc<Flag>)>,
    n: u32,
}

impl Env {
    fn told(&self) -> Vec<usize> {
        self.waits.iter().filter(|(_, (_, f))| f.0.load(Ordering::SeqCst)).map(|(c, _)| *c).collect()
    }
    /// `settle`: everything calms down before the next step
    async fn step(&mut self, rng: &mut Rand, op: &str, c: usize, calm: bool) {
        let mut ev = match op {
            "push" => {
                self.n += 1;
                self.q.push(rng, self.n);
                json!({"e": "Push", "v": self.n})
            }
            "poll" => {
                let (wait, flag) = self.waits.entry(c).or_insert_with(|| (self.q.wait(), Arc::new(Flag(AtomicBool::new(false)))));
                flag.0.store(false, Ordering::SeqCst);
                let waker = flag.clone().into();
                match wait.as_mut().poll(&mut Context::from_waker(&waker)) {
                    Poll::Ready(v) => {
                        self.waits.remove(&c);
                        json!({"e": "Poll", "c": c, "ready": true, "v": v})
                    }
                    Poll::Pending => json!({"e": "Poll", "c": c, "ready": false, "v": 0}),
                }
            }
            _ => {
                self.waits.remove(&c);
                json!({"e": "Cancel", "c": c})
            }
        };
        if calm {
            settle().await;
        }
        ev["settled"] = json!(calm);
        ev["told"] = json!(self.told());
        ev["len"] = json!(self.q.len());
        emit(ev);
    }

    async fn drain(&mut self, rng: &mut Rand) {
        for _ in 0..200 {
            let mut told = self.told();
            let Some(c) = told.pop() else { break };
            self.step(rng, "poll", c, true).await;
        }
        emit(json!({"e": "Drained"}));
    }
}

fn replay(rng: &mut Rand, script: &[Value], raw: bool) {
    scenario(json!({"kind": "script"}), || async {
        let (q, direct) = Queue::any(rng, raw).await;
        let mut e = Env { q, waits: BTreeMap::new(), n: 0 };
        for s in script {
            let c = s.get(1).and_then(|c| c.as_u64()).unwrap_or(0) as usize;
            // (with the steps in between for the real packets)
            let calm = !direct || rng.gen_range(0..3) == 0;
            e.step(rng, s[0].as_str().unwrap(), c, calm).await;
        }
        settle().await;
        e.drain(rng).await;
    });
}

fn random(rng: &mut Rand, raw: bool) {
    scenario(json!({"kind": "random"}), || async {
        let (q, direct) = Queue::any(rng, raw).await;
        let mut e = Env { q, waits: BTreeMap::new(), n: 0 };
        let consumers = rng.gen_range(1..6);
        let cancels = rng.gen_range(0..4);
        for _ in 0..rng.gen_range(5..80) {
            let c = rng.gen_range(1..=consumers);
            let calm = !direct || rng.gen_range(0..3) == 0;
            match rng.gen_range(0..8) {
                0..=2 => e.step(rng, "push", 0, calm).await,
                3 if cancels > 0 && e.waits.contains_key(&c) => e.step(rng, "cancel", c, calm).await,
                4 => {
                    settle().await;
                    e.drain(rng).await
                }
                5 => match e.told().choose(rng) {
                    Some(c) => e.step(rng, "poll", *c, calm).await,
                    None => {}
                },
                _ => e.step(rng, "poll", c, calm).await,
            }
        }
        settle().await;
        e.drain(rng).await;
        // everything that is left can be had at once
        for _ in 0..200 {
            if e.q.len() == 0 {
                break;
            }
            e.step(rng, "poll", 1, true).await;
            e.drain(rng).await;
        }
    });
}

type Push = Arc<dyn Fn(u32) + Send + Sync>;
type Pop = Arc<dyn Fn() -> Wait + Send + Sync>;

async fn race(rng: &mut Rand, push: Push, pop: Pop, producers: u32, each: u32, consumers: usize, cancels: bool) {
    let got: Arc<Mutex<Vec<(usize, u32)>>> = Default::default();
    let mut tasks = Vec::new();
    for c in 1..=consumers {
        let (pop, got) = (pop.clone(), got.clone());
        let salt: u64 = rng.gen();
        tasks.push(tokio::spawn(async move {
            let mut r = <Rand as rand::SeedableRng>::seed_from_u64(salt);
            loop {
                let v = if cancels && r.gen::<bool>() {
                    let n = r.gen_range(0..3);
                    let stop = async {
                        for _ in 0..n {
                            tokio::task::yield_now().await;
                        }
                    };
                    tokio::select! {
                        v = pop() => v,
                        _ = stop => continue,
                    }
                } else {
                    pop().await
                };
                got.lock().unwrap().push((c, v));
            }
        }));
    }
    let mut threads = Vec::new();
    for p in 1..=producers {
        let push = push.clone();
        let pause = rng.gen_range(0..3);
        threads.push(tokio::spawn(async move {
            for n in 1..=each {
                push(p * 10_000 + n);
                if pause == 0 || n % (pause * 4) == 0 {
                    tokio::task::yield_now().await;
                }
            }
        }));
    }
    // (the deadline is only for lost ones)
    for _ in 0..4000 {
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        tick();
        if got.lock().unwrap().len() as u32 >= producers * each {
            break;
        }
    }
    for t in tasks {
        t.abort();
    }
    let got = got.lock().unwrap();
    let got: Vec<Vec<u32>> =
        (1..=producers).map(|p| got.iter().filter(|(_, v)| v / 10_000 == p).map(|(_, v)| v % 10_000).collect()).collect();
    emit(json!({"e": "Threads", "each": each, "consumers": consumers, "got": got}));
}

fn threads(rng: &mut Rand, raw: bool) {
    reset_event(json!({"kind": "threads"}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_time().build().expect("runtime");
    rt.block_on(async {
        let (producers, consumers, cancels) = (rng.gen_range(1..4), rng.gen_range(1..5), rng.gen::<bool>());
        match Queue::any(rng, raw).await.0 {
            #[cfg(feature = "internals")]
            Queue::Raw(q) => {
                let p = q.clone();
                let push: Push = Arc::new(move |n| p.push(n));
                let pop: Pop = Arc::new(move || {
                    let q = q.clone();
                    Box::pin(async move { q.pop().await })
                });
                race(rng, push, pop, producers, 150, consumers, cancels).await;
            }
            Queue::Node(mut m, src) => {
                // (one order is not known here)
                let consumers = consumers + 1;
                let total = producers * 20;
                let packets: Vec<_> = (0..total)
                    .map(|i| {
                        let n = (i % producers + 1) * 10_000 + i / producers + 1;
                        let p = packet(&m.id, &src, n);
                        (n, m.ps[0].packet(rng, &m.local, vec![Msg::Custom(p)], 1))
                    })
                    .collect();
                let (a, to) = (m.ps[0].addr, m.node.wire.to_node.clone());
                let ov = m.ov.clone();
                let push: Push = Arc::new(move |n| {
                    let p = packets.iter().find(|(m, _)| *m == n).unwrap();
                    to.send((p.1.clone(), a)).ok();
                });
                let pop: Pop = Arc::new(move || {
                    let ov = ov.clone();
                    Box::pin(async move { number(&ov.wait_for_broadcast().await.data) })
                });
                race(rng, push, pop, producers, 20, consumers, cancels).await;
            }
        }
    });
    check_panics();
    rt.shutdown_background();
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "O05");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    let n = ctx.n(400, 4000).min(scripts.len());
    for s in &scripts[..n] {
        replay(&mut rng, s["script"].as_array().unwrap(), false);
    }
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap(), true);
    }
    for i in 0..ctx.n(300, 6000) {
        random(&mut rng, i % 4 > 0);
    }
    for i in 0..ctx.n(80, 2000) {
        threads(&mut rng, i % 4 > 0);
    }
}
