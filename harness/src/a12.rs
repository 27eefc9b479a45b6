//! A12: silent channels are dropped, live ones are kept

use rand::seq::SliceRandom;
use rand::Rng;

use crate::a01::spoil;
use crate::adnl::*;
use crate::core::*;
use crate::Ctx;

async fn alive(rng: &mut Rand, w: &mut World, l: usize, p: usize, tr: &'static str, bad: bool) {
    let n = w.next() as i64;
    let pending = w.pending();
    let m = match rng.gen_range(0..5) {
        0 => M("Nop", 0, 0, 0),
        1 if !pending.is_empty() => M("Answer", *pick(rng, &pending) as i64, 0, 0),
        _ => M("Custom", n, 0, 0),
    };
    let mut k = w.sound(l, p, tr, vec![m]);
    if bad {
        spoil(rng, w, &mut k);
    }
    w.packet(rng, k).await;
}

fn random(rng: &mut Rand) {
    let reset = *pick(rng, &[2, 5, 30]);
    let options = Options { history: rng.gen_range(0..4) == 0, required: true, tolerance: 60, reset, version: None, priority: true };
    let reset = reset as u64;
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        w.establish(rng, 1, 1).await;
        if rng.gen() {
            w.establish(rng, 2, 1).await;
        }
        if rng.gen() {
            w.establish(rng, 1, 2).await;
        }
        for _ in 0..rng.gen_range(10..40) {
            let (l, p) = *pick(rng, &[(1, 1), (1, 1), (1, 1), (1, 1), (2, 1), (1, 2)]);
            match rng.gen_range(0..16) {
                0..=3 => {
                    let sec = *pick(rng, &[1, 1, 1, 2, reset, reset + 1, reset + 2]);
                    w.query(l, p, sec).await;
                }
                4 | 5 => w.pass(*pick(rng, &[1, 2])).await,
                6..=8 => w.pass(*pick(rng, &[reset - 1, reset, reset + 1, reset + 2])).await,
                9 | 10 => {
                    let (tr, bad) = (*pick(rng, &["ord", "pri", "ord", "pri", "hs"]), rng.gen_range(0..3) == 0);
                    alive(rng, &mut w, l, p, tr, bad).await
                }
                11 => w.establish(rng, l, p).await,
                12 => w.offer(rng, l, p).await,
                13 => w.send(l, p).await,
                14 if rng.gen_range(0..3) == 0 => w.remove(l, p),
                _ => {
                    // what a silent channel ends with
                    w.query(l, p, 1).await;
                    w.pass(1).await;
                    w.query(l, p, reset + rng.gen_range(0..3)).await;
                    if rng.gen_range(0..3) == 0 {
                        w.pass(reset / 2).await;
                        let tr = *pick(rng, &["ord", "pri", "hs"]);
                        alive(rng, &mut w, l, p, tr, false).await;
                    }
                    w.pass(reset + 3).await;
                }
            }
        }
        w.pass(2 * reset + 3).await;
        w.probe(rng).await;
    });
}

fn replay(rng: &mut Rand, script: &[Value]) {
    let reset = 3;
    let options = Options { history: false, required: true, tolerance: 60, reset, version: None, priority: true };
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        let p = 1;
        w.establish(rng, 1, p).await;
        for e in script {
            let l = e["l"].as_u64().unwrap_or(1) as usize;
            match e["op"].as_str().unwrap() {
                "Query" => {
                    w.query(l, p, e["d"].as_u64().unwrap()).await;
                }
                "Pass" => w.pass(e["d"].as_u64().unwrap()).await,
                "Hear" => {
                    let tr = if e["tr"] == "hs" { "hs" } else { *pick(rng, &["ord", "pri"]) };
                    let mut k = w.sound(l, p, tr, vec![M("Nop", 0, 0, 0)]);
                    k.altered = !e["good"].as_bool().unwrap();
                    w.packet(rng, k).await;
                }
                "Replace" => w.establish(rng, l, p).await,
                op => panic!("unknown operation {op}"),
            }
        }
        w.pass(2 * reset as u64 + 1).await;
        w.probe_pair(rng, 1, p).await;
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A12");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(600, 12_000));
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(200, 6000) {
        random(&mut rng);
    }
}
