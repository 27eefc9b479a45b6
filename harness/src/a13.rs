//! A13: the kind of channel of every packet

use rand::seq::SliceRandom;
use rand::Rng;

use crate::adnl::*;
use crate::core::*;
use crate::Ctx;

/// A packet of the peer in its newest channel: with a query or not
async fn hear(rng: &mut Rand, w: &mut World, l: usize, p: usize, tr: &str, query: bool, numbered: bool, good: bool) {
    let n = w.next() as i64;
    let m = if query { M("Query", n, 0, 0) } else { M(*pick(rng, &["Custom", "Nop"]), n, 0, 0) };
    let m = if m.0 == "Nop" { M("Nop", 0, 0, 0) } else { m };
    let tr = *["ord", "pri", "hs"].iter().find(|t| **t == tr).unwrap();
    let mut k = w.sound(l, p, tr, vec![m]);
    if !numbered {
        k.seqno = -1;
    }
    k.altered = !good;
    w.packet(rng, k).await;
}

/// The peer starts anew
fn renew(w: &mut World, p: usize) {
    w.peers[p - 1].date = now_date();
    for pair in w.peers[p - 1].pairs.iter_mut() {
        pair.seqno = [0, 0];
        pair.own.clear();
    }
}

fn options(history: bool, priority: bool, reset: u32) -> Options {
    Options { history, priority, reset, ..Default::default() }
}

fn replay(rng: &mut Rand, script: &[Value]) {
    let b = |v: &Value| v.as_bool().unwrap();
    let options = options(b(&script[0]["history"]), b(&script[0]["priority"]), 1000);
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        let (l, p) = (rng.gen_range(1..=NL), rng.gen_range(1..=NP));
        w.establish(rng, l, p).await;
        for e in &script[1..] {
            match e["op"].as_str().unwrap() {
                "Send" => {
                    for _ in 0..e["n"].as_u64().unwrap() {
                        w.send(l, p).await;
                    }
                }
                "Query" => {
                    w.query(l, p, 2000).await;
                }
                "Hear" => hear(rng, &mut w, l, p, e["tr"].as_str().unwrap(), b(&e["query"]), b(&e["numbered"]), b(&e["good"])).await,
                "Renew" => {
                    w.pass(1).await;
                    renew(&mut w, p);
                    w.establish(rng, l, p).await;
                }
                "Replace" => w.establish(rng, l, p).await,
                op => panic!("unknown operation {op}"),
            }
        }
        for _ in 0..2 {
            w.send(l, p).await;
        }
    });
}

fn random(rng: &mut Rand) {
    let reset = *pick(rng, &[3, 30, 1000]);
    let options = options(rng.gen(), rng.gen_range(0..4) > 0, reset);
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        let pairs = [(1, 1), (2, 1), (1, 2)];
        for (l, p) in pairs {
            w.establish(rng, l, p).await;
        }
        // some of the peers know nothing of priority channels
        let able: Vec<bool> = (0..2).map(|_| rng.gen()).collect();
        for _ in 0..rng.gen_range(10..35) {
            let (l, p) = *pick(rng, &pairs);
            match rng.gen_range(0..24) {
                0..=7 => {
                    for _ in 0..rng.gen_range(1..7) {
                        w.send(l, p).await;
                    }
                }
                8..=10 => {
                    let sec = *pick(rng, &[1, 2, 100]);
                    w.query(l, p, sec).await;
                }
                11..=17 => {
                    let tr = if able[p - 1] { *pick(rng, &["pri", "pri", "ord", "hs"]) } else { *pick(rng, &["ord", "ord", "hs"]) };
                    let (query, numbered, good) = (rng.gen(), rng.gen_range(0..4) > 0, rng.gen_range(0..4) > 0);
                    hear(rng, &mut w, l, p, tr, query, numbered, good).await;
                }
                18 => w.pass(rng.gen_range(1..5)).await,
                19 => w.establish(rng, l, p).await,
                20 => w.offer(rng, l, p).await,
                21 => {
                    w.pass(1).await;
                    renew(&mut w, p);
                    w.establish(rng, l, p).await;
                }
                22 if reset < 1000 => {
                    w.lose(l, p, reset as u64).await;
                    w.establish(rng, l, p).await;
                }
                _ => {
                    let a = w.peers[p - 1].addr;
                    w.remove(l, p);
                    w.add(l, p, a);
                    w.establish(rng, l, p).await;
                }
            }
        }
        w.probe(rng).await;
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A13");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(350, 12_000));
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(120, 4000) {
        random(&mut rng);
    }
}
