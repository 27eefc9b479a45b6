//! A06: queries

use std::sync::{Arc, Mutex};
use std::time::Duration;

use everscale_network::adnl::NodeOptions;
use everscale_network::proto::adnl::Pong;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::wire::*;
use crate::Ctx;

/// Answers below are valid for typed queries, others are not
const GARBAGE: i64 = 100;

fn payload(a: i64) -> Vec<u8> {
    if a >= GARBAGE {
        vec![a as u8; 5]
    } else {
        // large ones do not fit one packet
        let mut v = tl_proto::serialize(Pong { value: a as u64 });
        if a >= 50 {
            v.resize(3000, a as u8);
        }
        v
    }
}

fn decode(data: &[u8]) -> i64 {
    (0..200).find(|a| payload(*a) == data).unwrap_or(-9)
}

struct Q {
    peer: usize,
    id: Option<[u8; 32]>,
    handle: tokio::task::JoinHandle<()>,
    done: Arc<Mutex<Option<i64>>>,
    reported: bool,
}

struct Env {
    node: TestNode,
    ident: Ident,
    puppets: Vec<Puppet>,
    queries: Vec<Q>,
}

impl Env {
    async fn new(rng: &mut Rand, channels: bool) -> Self {
        let ident = Ident::gen(rng);
        let mut node = TestNode::create(addr(1, 100), &[ident.clone()], NodeOptions::default(), None);
        node.adnl.start().unwrap();
        let mut puppets: Vec<Puppet> = (0..2).map(|i| Puppet::new(rng, addr(10 + i, 1000))).collect();
        for (i, p) in puppets.iter_mut().enumerate() {
            p.hello(rng, &node, &ident).await;
            if channels && i == 0 {
                p.establish(rng, &mut node, &ident).await;
            }
        }
        node.sent();
        Env { node, ident, puppets, queries: Vec::new() }
    }

    fn finished(&mut self) -> Vec<[i64; 2]> {
        let mut res = Vec::new();
        for (i, q) in self.queries.iter_mut().enumerate() {
            if !q.reported {
                if let Some(r) = *q.done.lock().unwrap() {
                    q.reported = true;
                    res.push([i as i64 + 1, r]);
                }
            }
        }
        res
    }

    fn count(&self) -> usize {
        self.node.adnl.metrics().query_count
    }

    /// reads what the puppets got and remembers ids of queries
    fn read(&mut self, expected: &[u8]) {
        let mut id = None;
        let mut parts: Vec<(u32, Vec<u8>)> = Vec::new();
        for (data, _) in self.node.sent() {
            for p in &self.puppets {
                let Some(o) = p.open(&data) else { continue };
                for m in o.body.messages {
                    match m {
                        Msg::Query(i, q) if q == expected => id = Some(i),
                        Msg::Part { offset, data, .. } => parts.push((offset, data)),
                        _ => {}
                    }
                }
            }
        }
        if !parts.is_empty() {
            parts.sort();
            let raw: Vec<u8> = parts.into_iter().flat_map(|p| p.1).collect();
            if let Some(Msg::Query(i, q)) = Msg::parse(&raw) {
                if q == expected {
                    id = Some(i);
                }
            }
        }
        if let Some(q) = self.queries.last_mut() {
            q.id = id;
        }
    }

    async fn start(&mut self, rng: &mut Rand, to: u64, typed: bool, fail: bool, large: bool) {
        let peer = rng.gen_range(0..2);
        let t0 = elapsed_ms();
        let n = self.queries.len() as u64;
        let done = Arc::new(Mutex::new(None));
        let adnl = self.node.adnl.clone();
        let local = self.ident.id;
        let remote = if fail { Ident::gen(rng).id } else { self.puppets[peer].me.id };
        let mut raw = tl_proto::serialize(Pong { value: 1000 + n });
        if large {
            raw.resize(2500, 3);
        }
        let handle = tokio::spawn({
            let (done, raw) = (done.clone(), raw.clone());
            async move {
                let r = if typed {
                    match adnl
                        .query::<_, Pong>(&local, &remote, Pong { value: 1000 + n }, Some(to))
                        .await
                    {
                        Ok(Some(Pong { value })) => value as i64,
                        Ok(None) => -1,
                        Err(_) => -2,
                    }
                } else {
                    match adnl.query_raw(&local, &remote, raw.into(), Some(to)).await {
                        Ok(Some(data)) => decode(&data),
                        Ok(None) => -1,
                        Err(_) => -2,
                    }
                };
                *done.lock().unwrap() = Some(r);
            }
        });
        self.queries.push(Q { peer, id: None, handle, done, reported: false });
        settle().await;
        self.read(&if typed { tl_proto::serialize(Pong { value: 1000 + n }) } else { raw });
        let sent = self.queries.last().unwrap().id.is_some();
        emit(json!({"e": "Start", "q": n + 1, "to": to, "typed": typed, "fail": fail, "sent": sent,
            "t0": t0, "t": elapsed_ms(), "finished": self.finished(), "count": self.count()}));
    }

    /// answers in one packet; query 0 is one nobody asked
    async fn answer(&mut self, rng: &mut Rand, list: &[(usize, i64)], kind: u8, other_peer: bool) {
        let t0 = elapsed_ms();
        let mut msgs = Vec::new();
        let mut peer = 0;
        let mut logged = Vec::new();
        for (q, a) in list {
            let id = match q {
                0 => rng.gen(),
                q => match self.queries[q - 1].id {
                    Some(id) => {
                        peer = self.queries[q - 1].peer;
                        id
                    }
                    None => continue,
                },
            };
            logged.push(json!([q, a]));
            msgs.push(Msg::Answer(id, payload(*a)));
        }
        if other_peer {
            peer = 1 - peer;
        }
        let ident = self.ident.clone();
        for m in &msgs {
            // large answers go in parts, before the small ones
            if m.to_bytes().len() > 1000 {
                for part in Puppet::parts(m, 1000) {
                    let p = self.puppets[peer].packet(rng, &ident, vec![part], kind);
                    self.node.inject(p, self.puppets[peer].addr);
                }
            }
        }
        let small: Vec<Msg> = msgs.iter().filter(|m| m.to_bytes().len() <= 1000).cloned().collect();
        if !small.is_empty() {
            let p = self.puppets[peer].packet(rng, &ident, small, kind);
            self.node.inject(p, self.puppets[peer].addr);
        }
        let (large, small): (Vec<Value>, Vec<Value>) =
            logged.into_iter().partition(|v| (50..GARBAGE).contains(&v[1].as_i64().unwrap()));
        settle().await;
        let list: Vec<Value> = large.into_iter().chain(small).collect();
        emit(json!({"e": "Answer", "list": list, "t0": t0, "t": elapsed_ms(), "finished": self.finished(), "count": self.count()}));
    }

    async fn wait(&mut self, ms: u64) {
        let t0 = elapsed_ms();
        sleep_ms(ms).await;
        emit(json!({"e": "Wait", "t0": t0, "t": elapsed_ms(), "finished": self.finished(), "count": self.count()}));
    }

    async fn cancel(&mut self, q: usize) {
        let t0 = elapsed_ms();
        self.queries[q - 1].handle.abort();
        settle().await;
        emit(json!({"e": "Cancel", "q": q, "t0": t0, "t": elapsed_ms(), "finished": self.finished(), "count": self.count()}));
    }
}

fn replay(rng: &mut Rand, script: &[Value]) {
    let channels = rng.gen();
    scenario(json!({}), || async {
        let mut env = Env::new(rng, channels).await;
        for s in script {
            let u = |k: &str| s[k].as_u64().unwrap_or_default();
            match s["op"].as_str().unwrap() {
                "Start" => env.start(rng, u("to"), false, false, false).await,
                "Fail" => env.start(rng, u("to"), false, true, false).await,
                "Answer" => env.answer(rng, &[(u("q") as usize, u("a") as i64)], 0, false).await,
                "Wait" => env.wait(u("ms")).await,
                "Cancel" => env.cancel(u("q") as usize).await,
                _ => panic!("op"),
            }
        }
    });
}

fn random(rng: &mut Rand) {
    let channels = rng.gen();
    scenario(json!({}), || async {
        let mut env = Env::new(rng, channels).await;
        for _ in 0..rng.gen_range(5..30) {
            let n = env.queries.len();
            match rng.gen_range(0..10) {
                0..=2 => {
                    let to = *pick(rng, &[10, 100, 137, 500, 1000, 2500, 5000, 60_000]);
                    let (typed, fail, large) = (rng.gen(), rng.gen_range(0..8) == 0, rng.gen_range(0..5) == 0);
                    env.start(rng, to, typed, fail, large).await
                }
                3..=6 if n > 0 => {
                    let mut list = Vec::new();
                    for _ in 0..*pick(rng, &[1, 1, 1, 2, 3]) {
                        let q = if rng.gen_range(0..8) == 0 { 0 } else { rng.gen_range(n.saturating_sub(5)..=n) };
                        let a = match rng.gen_range(0..8) {
                            0 => rng.gen_range(50..60),
                            1 => rng.gen_range(GARBAGE..GARBAGE + 10),
                            _ => rng.gen_range(0..50),
                        };
                        list.push((q, a));
                    }
                    let (kind, other) = (rng.gen_range(0..3), rng.gen_range(0..6) == 0);
                    env.answer(rng, &list, kind, other).await
                }
                7 if n > 0 => {
                    let q = rng.gen_range(1..=n);
                    env.cancel(q).await
                }
                _ => env.wait(*pick(rng, &[1, 9, 50, 99, 300, 1000, 3000, 7000])).await,
            }
        }
        env.wait(70_000).await;
    });
}

/// Many queries at once on several threads, answered in random order and repeatedly
fn burst(rng: &mut Rand) {
    reset_event(json!({}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    rt.block_on(async {
        let ident = Ident::gen(rng);
        let mut node = TestNode::create(addr(1, 100), &[ident.clone()], NodeOptions::default(), None);
        node.adnl.start().unwrap();
        let mut p = Puppet::new(rng, addr(10, 1000));
        let hello = p.handshake(rng, &ident, vec![Msg::Nop]);
        node.inject(hello, p.addr);
        for _ in 0..200 {
            tokio::time::sleep(Duration::from_millis(2)).await;
            if node.adnl.metrics().peer_count == 1 {
                break;
            }
        }
        const N: usize = 40;
        let mut handles = Vec::new();
        for q in 0..N {
            let (adnl, local, peer) = (node.adnl.clone(), ident.id, p.me.id);
            let raw = tl_proto::serialize(Pong { value: q as u64 });
            // every fourth query gives up early
            let to = if q % 4 == 0 { 15 } else { 20_000 };
            handles.push(tokio::spawn(async move {
                match adnl.query_raw(&local, &peer, raw.into(), Some(to)).await {
                    Ok(Some(data)) => {
                        let v: Option<Pong> = tl_proto::deserialize(&data).ok();
                        v.map(|v| v.value as i64).unwrap_or(-9)
                    }
                    Ok(None) => -1,
                    Err(_) => -2,
                }
            }));
        }
        let mut ids = Vec::new();
        for _ in 0..200 {
            tokio::time::sleep(Duration::from_millis(1)).await;
            for (data, _) in node.sent() {
                if let Some(o) = p.open(&data) {
                    for m in o.body.messages {
                        if let Msg::Query(id, q) = m {
                            let v: Pong = tl_proto::deserialize(&q).unwrap();
                            ids.push((id, v.value));
                        }
                    }
                }
            }
            if ids.len() == N {
                break;
            }
        }
        let mut list = Vec::new();
        for (id, v) in &ids {
            for dup in 0..3u64 {
                list.push((*id, *v + 1000 * dup));
            }
        }
        list.shuffle(rng);
        let packets: Vec<_> = list
            .iter()
            .map(|(id, v)| p.handshake(rng, &ident, vec![Msg::Answer(*id, tl_proto::serialize(Pong { value: *v }))]))
            .collect();
        for packet in packets {
            node.inject(packet, p.addr);
        }
        let mut results = Vec::new();
        for h in handles {
            results.push(match tokio::time::timeout(Duration::from_secs(10), h).await {
                Ok(Ok(r)) => r,
                _ => -8,
            });
            tick();
        }
        check_panics();
        let own: Vec<bool> = results
            .iter()
            .enumerate()
            .map(|(q, r)| if *r >= 0 { *r % 1000 == q as i64 } else { *r == -1 && q % 4 == 0 })
            .collect();
        emit(json!({"e": "Burst", "results": results, "own": own, "asked": ids.len(), "count": node.adnl.metrics().query_count}));
    });
    rt.shutdown_background();
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A06");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(1500, 30_000));
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(300, 5000) {
        random(&mut rng);
    }
    for _ in 0..ctx.n(5, 60) {
        burst(&mut rng);
    }
}
