//! A03: identities of a node are kept apart

use rand::seq::SliceRandom;
use rand::Rng;

use crate::a01::{messages, prepare, STATES};
use crate::adnl::*;
use crate::core::*;
use crate::Ctx;

async fn step(rng: &mut Rand, w: &mut World, l: usize, p: usize, reset: u64) {
    match rng.gen_range(0..16) {
        0 => w.add(l, p, p),
        1 => w.remove(l, p),
        2 => w.establish(rng, l, p).await,
        3 => w.offer(rng, l, p).await,
        4..=6 => w.send(l, p).await,
        7 => {
            w.query(l, p, rng.gen_range(1..4)).await;
        }
        8 => {
            for _ in 0..2 {
                w.query(l, p, 1).await;
                w.pass(reset + rng.gen_range(0..3)).await;
            }
        }
        9 if !w.history.is_empty() => {
            let i = rng.gen_range(0..w.history.len());
            w.replay(rng, i, false).await;
        }
        _ => {
            let tr = *pick(rng, &["hs", "ord", "pri"]);
            let msgs = messages(rng, w, l, p);
            let k = w.sound(l, p, tr, msgs);
            w.packet(rng, k).await;
        }
    }
}

fn random(rng: &mut Rand) {
    let reset = 3;
    let options = Options { history: rng.gen(), required: true, tolerance: 60, reset, version: None, priority: true };
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        for p in 1..=2 {
            for l in 1..=NL {
                let state = *pick(rng, &STATES);
                prepare(rng, &mut w, l, p, state).await;
            }
        }
        for _ in 0..rng.gen_range(8..30) {
            // the same peer and several identities
            let (l, p) = *pick(rng, &[(1, 1), (2, 1), (1, 1), (2, 1), (1, 2), (2, 2)]);
            step(rng, &mut w, l, p, reset as u64).await;
        }
        w.probe(rng).await;
    });
}

fn replay(rng: &mut Rand, script: &[Value]) {
    let reset = 3;
    let options = Options { history: true, required: true, tolerance: 60, reset, version: None, priority: true };
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        let p = 1;
        for e in script {
            let l = e["l"].as_u64().unwrap() as usize;
            match e["op"].as_str().unwrap() {
                "Hello" => {
                    let k = w.sound(l, p, "hs", vec![M("Nop", 0, 0, 0)]);
                    w.packet(rng, k).await;
                }
                "Offer" => w.offer(rng, l, p).await,
                "Establish" => w.establish(rng, l, p).await,
                "Chan" => {
                    let n = w.next() as i64;
                    let k = w.sound(l, p, "ord", vec![M("Custom", n, 0, 0)]);
                    w.packet(rng, k).await;
                }
                "Send" => w.send(l, p).await,
                "Remove" => w.remove(l, p),
                "Add" => w.add(l, p, 2),
                "Reset" => w.lose(l, p, reset as u64).await,
                op => panic!("unknown operation {op}"),
            }
        }
        for l in 1..=NL {
            w.probe_pair(rng, l, p).await;
        }
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A03");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(400, 8000));
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(200, 6000) {
        random(&mut rng);
    }
}
