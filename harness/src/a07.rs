//! A07: incarnations of peers and of the node

use rand::seq::SliceRandom;
use rand::Rng;

use crate::adnl::*;
use crate::core::*;
use crate::Ctx;

/// Date of the source by its kind
fn src_of(rng: &mut Rand, w: &World, p: usize, kind: &str, tolerance: i64) -> i64 {
    let cur = w.peers[p - 1].date;
    let now = now_date();
    match kind {
        "none" => -1,
        "zero" => 0,
        "older" => cur - 1 - rng.gen_range(0..100),
        "newer" => (cur + 1 + rng.gen_range(0..5)).min(now),
        "now" => now,
        "edge" => now + tolerance,
        "over" => now + tolerance + 1,
        "future" => now + tolerance + rng.gen_range(2..100_000),
        "max" => i32::MAX as i64 - 100_000,
        _ => cur,
    }
}

fn dst_of(rng: &mut Rand, w: &mut World, l: usize, p: usize, kind: &str) -> i64 {
    let cur = match w.pair(l, p).node_date {
        0 => w.started,
        d => d,
    };
    match kind {
        "zero" => 0,
        "older" => cur - 1 - rng.gen_range(0..3) * rng.gen_range(0..50),
        "newer" => cur + 1,
        "future" => cur + rng.gen_range(2..100_000),
        _ => cur,
    }
}

const SRC: [&str; 14] =
    ["none", "zero", "older", "older", "newer", "now", "edge", "over", "future", "max", "same", "same", "same", "same"];
const DST: [&str; 8] = ["zero", "older", "newer", "future", "same", "same", "same", "same"];

async fn packet(rng: &mut Rand, w: &mut World, l: usize, p: usize, src: &str, dst: &str, seqno: i64, tolerance: i64) {
    let n = w.next() as i64;
    let m = if rng.gen_range(0..5) == 0 { M("Query", n, 0, 0) } else { M("Custom", n, 0, 0) };
    let mut k = w.sound(l, p, "hs", vec![m]);
    k.src = src_of(rng, w, p, src, tolerance);
    k.dst = if k.src == -1 { -1 } else { dst_of(rng, w, l, p, dst) };
    if seqno != 0 {
        k.seqno = seqno;
    }
    if rng.gen_range(0..8) == 0 {
        k.confirm = rng.gen_range(0..6);
    }
    w.packet(rng, k).await;
}

fn random(rng: &mut Rand) {
    let options = Options {
        history: rng.gen_range(0..4) > 0,
        required: true,
        tolerance: *pick(rng, &[60, 60, 5, 0]),
        reset: 3,
        version: None,
        priority: true,
    };
    let tolerance = options.tolerance as i64;
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        w.pass(rng.gen_range(0..3)).await;
        for _ in 0..rng.gen_range(10..40) {
            let (l, p) = (*pick(rng, &[1, 1, 1, 2]), *pick(rng, &[1, 1, 1, 2]));
            match rng.gen_range(0..20) {
                0 => w.restart().await,
                1 => w.pass(rng.gen_range(1..4)).await,
                2 => {
                    // the peer restarts
                    restarted(rng, &mut w, p, false);
                }
                3 => w.remove(l, p),
                4 => w.add(l, p, p),
                5 | 6 => w.send(l, p).await,
                7 => w.establish(rng, l, p).await,
                8 | 9 => {
                    // the node resets the pair
                    for _ in 0..2 {
                        w.query(l, p, 1).await;
                        w.pass(rng.gen_range(4..6)).await;
                    }
                    if rng.gen() {
                        w.send(l, p).await;
                    }
                }
                10 if !w.history.is_empty() => {
                    let i = rng.gen_range(0..w.history.len());
                    w.replay(rng, i, false).await;
                }
                11 => {
                    let n = w.next() as i64;
                    let tr = *pick(rng, &["ord", "pri"]);
                    let mut k = w.sound(l, p, tr, vec![M("Custom", n, 0, 0)]);
                    if rng.gen_range(0..3) == 0 {
                        let (src, dst) = (*pick(rng, &SRC), *pick(rng, &DST));
                        k.src = src_of(rng, &w, p, src, tolerance);
                        k.dst = if k.src == -1 { -1 } else { dst_of(rng, &mut w, l, p, dst) };
                    }
                    w.packet(rng, k).await;
                }
                _ => {
                    let (src, dst) = (*pick(rng, &SRC), *pick(rng, &DST));
                    let seqno = *pick(rng, &[0, 0, 0, 0, 1, 2, 3, 300, -1]);
                    packet(rng, &mut w, l, p, src, dst, seqno, tolerance).await;
                }
            }
        }
        w.probe(rng).await;
    });
}

/// The peer is restarted several times and numbers its packets anew each time
fn incarnations(rng: &mut Rand) {
    let options = Options { history: true, required: true, tolerance: 60, reset: 3, version: None, priority: true };
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        let (l, p) = (rng.gen_range(1..=NL), rng.gen_range(1..=NP));
        let step = *pick(rng, &[1, 1, 2, 40, 700]);
        for _ in 0..rng.gen_range(2..4) {
            w.establish(rng, l, p).await;
            for _ in 0..rng.gen_range(1..8) {
                let n = w.next() as i64;
                let tr = *pick(rng, &["ord", "pri", "pri"]);
                let mut k = w.sound(l, p, tr, vec![M("Custom", n, 0, 0)]);
                if rng.gen_range(0..4) > 0 {
                    let i = (tr == "pri") as usize;
                    w.pair(l, p).seqno[i] += step - 1;
                    k.seqno += step - 1;
                }
                if rng.gen_range(0..4) == 0 {
                    k.confirm = rng.gen_range(0..4);
                }
                w.packet(rng, k).await;
                if rng.gen_range(0..4) == 0 {
                    w.query(l, p, 1).await;
                }
            }
            match rng.gen_range(0..4) {
                0 => w.lose(l, p, 3).await,
                1 => w.restart().await,
                _ => {}
            }
            w.pass(1).await;
            restarted(rng, &mut w, p, false);
        }
        w.probe_pair(rng, l, p).await;
        w.probe_pair(rng, l, p).await;
    });
}

fn restarted(rng: &mut Rand, w: &mut World, p: usize, forgets: bool) {
    w.peers[p - 1].date = now_date();
    for pair in w.peers[p - 1].pairs.iter_mut() {
        pair.seqno = [0, 0];
        pair.own.clear();
        if forgets || rng.gen() {
            pair.node_date = 0;
        }
    }
}

fn replay(rng: &mut Rand, script: &[Value]) {
    let (tolerance, reset) = (2, 3);
    let options = Options { history: true, required: true, tolerance, reset, version: None, priority: true };
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        let (l, p) = (rng.gen_range(1..=NL), rng.gen_range(1..=NP));
        for e in script {
            match e["op"].as_str().unwrap() {
                "In" => {
                    let n = w.next() as i64;
                    let mut k = w.sound(l, p, "hs", vec![M("Custom", n, 0, 0)]);
                    k.src = src_of(rng, &w, p, e["src"].as_str().unwrap(), tolerance as i64);
                    k.dst = if k.src == -1 { -1 } else { dst_of(rng, &mut w, l, p, e["dst"].as_str().unwrap()) };
                    if e["seq"] == "repeated" && k.seqno > 1 {
                        k.seqno -= 1;
                        w.pair(l, p).seqno[0] -= 1;
                    }
                    w.packet(rng, k).await;
                }
                "Send" => w.send(l, p).await,
                "Reset" => {
                    w.establish(rng, l, p).await;
                    w.lose(l, p, reset as u64).await;
                }
                "PeerRestart" => {
                    w.pass(1).await;
                    restarted(rng, &mut w, p, true);
                }
                "NodeRestart" => {
                    w.pass(1).await;
                    w.restart().await;
                }
                "Readd" => {
                    let a = w.peers[p - 1].addr;
                    w.remove(l, p);
                    w.add(l, p, a);
                }
                op => panic!("unknown operation {op}"),
            }
        }
        w.probe_pair(rng, l, p).await;
        // the answer has told the peer what to use
        w.probe_pair(rng, l, p).await;
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A07");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(500, 12_000));
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(200, 6000) {
        random(&mut rng);
    }
    for _ in 0..ctx.n(80, 1500) {
        incarnations(&mut rng);
    }
}
