//! A04: packet history

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

use everscale_network::adnl::NodeOptions;
#[cfg(feature = "internals")]
use everscale_network::util::verif::PacketsHistory;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::wire::*;
use crate::Ctx;

/// Numbers are logged as `region * 100000 + offset`, the regions are far from each other
const REGIONS: [u64; 5] = [0, 1 << 20, (1 << 33) + 77, 1 << 62, u64::MAX - 2000];
const STEP: u64 = 100_000;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
struct Num(u64);

impl Num {
    fn real(self) -> u64 {
        REGIONS[(self.0 / STEP) as usize] + self.0 % STEP
    }
    fn max_off(region: u64) -> u64 {
        if region == 4 {
            2000
        } else {
            20_000
        }
    }
}

/// Next number to try, given the state
fn next(rng: &mut Rand, high: u64, seen: &[u64], region: &mut u64) -> Num {
    let base = *region * STEP;
    let cap = base + Num::max_off(*region);
    let lo = base + u64::from(*region == 0);
    let cur = high.max(lo);
    let clamp = |x: i64| (x.max(lo as i64) as u64).min(cap);
    let c = cur as i64;
    let n = match rng.gen_range(0..20) {
        0..=4 => clamp(c + 1),
        5 | 6 => clamp(c + rng.gen_range(1..20)),
        7 | 8 if !seen.is_empty() => *pick(rng, seen),
        9 | 10 if !seen.is_empty() => seen[seen.len().saturating_sub(rng.gen_range(1..8)).min(seen.len() - 1)],
        11 | 12 => clamp(c - rng.gen_range(0..=256)),
        13 => clamp(c - *pick(rng, &[255, 256, 257, 511, 512, 513, 254])),
        14 => clamp(c - rng.gen_range(257..800)),
        15 => {
            let b = (Num(cur).real() / 256 + rng.gen_range(0..3)).wrapping_mul(256);
            let d = b.wrapping_sub(Num(base).real());
            clamp(base as i64 + (d.min(30_000)) as i64 + rng.gen_range(-2..3))
        }
        16 => clamp(c + *pick(rng, &[255, 256, 257, 511, 512, 513, 1024])),
        17 => clamp(c + rng.gen_range(100..600)),
        18 if *region < 4 && rng.gen_range(0..10) == 0 => {
            *region += 1;
            let b = *region * STEP;
            b + rng.gen_range(0..300)
        }
        _ => clamp(c + 1),
    };
    Num(n)
}

#[cfg(feature = "internals")]
fn deliver(h: &PacketsHistory, n: Num) -> Option<bool> {
    tick();
    let r = catch_unwind(AssertUnwindSafe(|| h.deliver_packet(n.real())));
    if r.is_err() {
        check_panics();
    }
    r.ok()
}

#[cfg(feature = "internals")]
fn object(rng: &mut Rand, steps: usize, start_region: u64) {
    reset_event(json!({"kind": "object"}));
    let h = PacketsHistory::for_recv();
    let mut high = 0;
    let mut seen = Vec::new();
    let mut region = start_region;
    for _ in 0..steps {
        if rng.gen_range(0..150) == 0 {
            h.reset();
            emit(json!({"e": "ResetHistory", "hs": [1]}));
            high = 0;
            seen.clear();
            region = start_region;
            continue;
        }
        let n = next(rng, high, &seen, &mut region);
        let Some(r) = deliver(&h, n) else { return };
        emit(json!({"e": "Deliver", "h": 1, "n": n.0, "res": r}));
        if r {
            high = high.max(n.0);
            if seen.len() > 1500 {
                seen.remove(0);
            }
            seen.push(n.0);
        }
    }
}

/// a script of numbers relative to a start (model-generated)
#[cfg(feature = "internals")]
fn scripted(ops: &[Value], region: u64, start: u64) {
    reset_event(json!({"kind": "script"}));
    let h = PacketsHistory::for_recv();
    for op in ops {
        match op["n"].as_u64() {
            Some(n) => {
                let n = Num(region * STEP + start + n);
                let Some(r) = deliver(&h, n) else { return };
                emit(json!({"e": "Deliver", "h": 1, "n": n.0, "res": r}));
            }
            None => {
                h.reset();
                emit(json!({"e": "ResetHistory", "hs": [1]}));
            }
        }
    }
}

/// Several threads deliver the same numbers at once
#[cfg(feature = "internals")]
fn race(rng: &mut Rand, rounds: usize) {
    reset_event(json!({"kind": "race"}));
    let h = Arc::new(PacketsHistory::for_recv());
    let mut high: u64 = rng.gen_range(1..600);
    for _ in 0..rounds {
        let span = *pick(rng, &[2u64, 3, 16, 64, 200]);
        let top = high + rng.gen_range(0..=span);
        let lo = top.saturating_sub(256).max(1);
        let mut set: Vec<u64> = (0..rng.gen_range(1..12))
            .map(|_| rng.gen_range(lo.max(top.saturating_sub(span))..=top))
            .collect();
        set.sort();
        set.dedup();
        let threads = rng.gen_range(2..5);
        let counts: Arc<Vec<AtomicUsize>> = Arc::new(set.iter().map(|_| AtomicUsize::new(0)).collect());
        let bad = Arc::new(AtomicUsize::new(0));
        let barrier = Arc::new(Barrier::new(threads));
        let handles: Vec<_> = (0..threads)
            .map(|_| {
                let mut order: Vec<usize> = (0..set.len()).collect();
                order.shuffle(rng);
                let (h, counts, barrier, set, bad) =
                    (h.clone(), counts.clone(), barrier.clone(), set.clone(), bad.clone());
                std::thread::spawn(move || {
                    barrier.wait();
                    for i in order {
                        match catch_unwind(AssertUnwindSafe(|| h.deliver_packet(set[i]))) {
                            Ok(true) => {
                                counts[i].fetch_add(1, Ordering::SeqCst);
                            }
                            Ok(false) => {}
                            Err(_) => {
                                bad.fetch_add(1, Ordering::SeqCst);
                            }
                        }
                    }
                })
            })
            .collect();
        for t in handles {
            t.join().ok();
        }
        check_panics();
        let acc: Vec<usize> = counts.iter().map(|c| c.load(Ordering::SeqCst)).collect();
        emit(json!({"e": "Race", "h": 1, "set": set, "accepted": acc, "threads": threads}));
        high = high.max(*set.last().unwrap());
    }
}

/// The peer gets to know the keys of the channel it has offered
async fn confirmed(rng: &mut Rand, node: &mut TestNode, p: &mut Puppet, ident: &Ident) {
    node.adnl.send_custom_message(&ident.id, &p.me.id, b"hello").unwrap();
    settle().await;
    for (data, _) in node.sent() {
        if let Some(o) = p.open(&data) {
            for m in o.body.messages {
                if let Msg::Confirm { key, .. } = m {
                    p.add_chan(rng, ident, key);
                }
            }
        }
    }
}

/// The whole node: what is delivered to the subscriber
fn node(seed: u64, steps: usize) {
    let mut rng = rng(seed, "A04 node");
    scenario(json!({"kind": "node"}), || async move {
        let rng = &mut rng;
        let ident = Ident::gen(rng);
        let mut node = TestNode::create(
            addr(1, 100),
            &[ident.clone()],
            NodeOptions { packet_history_enabled: true, ..Default::default() },
            None,
        );
        let rec = Arc::new(Recorder::default());
        node.adnl.add_message_subscriber(rec.clone()).unwrap();
        node.adnl.start().unwrap();

        let mut puppets: Vec<Puppet> = (0..2).map(|i| Puppet::new(rng, addr(10 + i, 1000))).collect();
        let mut high = [0u64; 4];
        let mut seen: [Vec<u64>; 4] = Default::default();
        let mut region = [0u64; 4];

        // first contact and channel
        for (i, p) in puppets.iter_mut().enumerate() {
            let key = keypair(rng);
            p.link(rng, &ident).my_key = key;
            let create = Msg::Create { key: *key.public_key.as_bytes(), date: unix_now() };
            let data = vec![1, 2, 3, 4, i as u8];
            let b = {
                let mut b = p.body(rng, &ident, vec![create, Msg::Custom(data.clone())]);
                b.seqno = Some(1);
                b
            };
            let raw = b.signed(rng, &p.me.clone());
            node.inject(seal_handshake(rng, &ident.full, &raw, None), p.addr);
            settle().await;
            let ok = rec.take().iter().any(|g| g.2 == data);
            emit(json!({"e": "Deliver", "h": 1 + 2 * i, "n": 1, "res": ok}));
            high[2 * i] = 1;
            seen[2 * i].push(1);
            confirmed(rng, &mut node, p, &ident).await;
        }

        for step in 0..steps {
            let i = rng.gen_range(0..2);
            let priority = rng.gen::<bool>();
            let handshake = !priority && rng.gen_range(0..3) == 0;
            let hi = 2 * i + priority as usize;
            if rng.gen_range(0..60) == 0 {
                // the peer restarts: both histories start from scratch
                puppets[i].reinit += 1;
                for k in [2 * i, 2 * i + 1] {
                    high[k] = 0;
                    seen[k].clear();
                    region[k] = 0;
                }
                let data = [&[9u8; 4][..], &(step as u32).to_le_bytes()[..]].concat();
                let key = keypair(rng);
                puppets[i].link(rng, &ident).my_key = key;
                let create = Msg::Create { key: *key.public_key.as_bytes(), date: unix_now() + step as u32 };
                let mut b = puppets[i].body(rng, &ident, vec![create, Msg::Custom(data.clone())]);
                b.seqno = Some(1);
                let raw = b.signed(rng, &puppets[i].me.clone());
                node.inject(seal_handshake(rng, &ident.full, &raw, None), puppets[i].addr);
                settle().await;
                emit(json!({"e": "ResetHistory", "hs": [2 * i + 1, 2 * i + 2]}));
                let ok = rec.take().iter().any(|g| g.2 == data);
                emit(json!({"e": "Deliver", "h": 1 + 2 * i, "n": 1, "res": ok}));
                high[2 * i] = 1;
                seen[2 * i].push(1);
                confirmed(rng, &mut node, &mut puppets[i], &ident).await;
                continue;
            }
            let n = next(rng, high[hi], &seen[hi], &mut region[hi]);
            let data = [&[7u8; 4][..], &(step as u32).to_le_bytes()[..]].concat();
            let p = &mut puppets[i];
            let pkt = if handshake {
                let mut b = p.body(rng, &ident, vec![Msg::Custom(data.clone())]);
                b.seqno = Some(n.real());
                let raw = b.signed(rng, &p.me.clone());
                seal_handshake(rng, &ident.full, &raw, None)
            } else {
                let mut b = p.channel_body(rng, &ident, vec![Msg::Custom(data.clone())], priority);
                b.seqno = Some(n.real());
                let raw = b.to_bytes(rng);
                let Some(c) = p.link(rng, &ident).chans.last() else { continue };
                seal_channel(if priority { &c.out_pri } else { &c.out_ord }, &raw, None)
            };
            node.inject(pkt, puppets[i].addr);
            settle().await;
            let ok = rec.take().iter().any(|g| g.2 == data);
            emit(json!({"e": "Deliver", "h": hi + 1, "n": n.0, "res": ok}));
            if ok {
                high[hi] = high[hi].max(n.0);
                seen[hi].push(n.0);
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    #[allow(unused_mut, unused_variables)]
    let mut rng = rng(ctx.seed, "A04");
    #[cfg(feature = "internals")]
    objects(ctx, &mut rng);
    for i in 0..ctx.n(6, 80) {
        node(ctx.seed * 1000 + i as u64, 150);
    }
}

#[cfg(feature = "internals")]
fn objects(ctx: &Ctx, rng: &mut Rand) {
    for s in &ctx.scripts {
        let region = *pick(rng, &[0, 0, 1, 2, 4]);
        let start = 1 + rng.gen_range(0..700);
        scripted(s["script"].as_array().unwrap(), region, start);
    }
    for i in 0..ctx.n(24, 400) {
        let steps = rng.gen_range(50..700);
        object(rng, steps, [0, 0, 0, 1, 2, 3, 4, 4][i % 8]);
    }
    for _ in 0..ctx.n(60, 1500) {
        race(rng, 60);
    }
}
