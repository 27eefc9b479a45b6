//! A01: packets are authenticated

use rand::seq::SliceRandom;
use rand::Rng;

use crate::adnl::*;
use crate::core::*;
use crate::Ctx;

/// Messages of a packet: harmless, or such that their effect is seen
pub fn messages(rng: &mut Rand, w: &mut World, l: usize, p: usize) -> Vec<M> {
    let l = l.max(1);
    let n = *pick(rng, &[1, 1, 1, 2, 3, 0]);
    (0..n)
        .map(|_| match rng.gen_range(0..12) {
            0..=3 => M("Custom", w.next() as i64, 0, 0),
            4 | 5 => M("Query", w.next() as i64, 0, 0),
            6 | 7 => {
                let pending = w.pending();
                let n = if pending.is_empty() || rng.gen_range(0..4) == 0 { 0 } else { *pick(rng, &pending) };
                M("Answer", n as i64, 0, 0)
            }
            8 => M("Nop", 0, 0, 0),
            9 => {
                let k = w.new_key(rng, l, p);
                M("Create", k as i64, now_date() - rng.gen_range(0..3), 0)
            }
            10 => {
                let k = match w.pair(l, p).own.last() {
                    Some(k) => *k,
                    None => w.new_key(rng, l, p),
                };
                M("Create", k as i64, now_date() - rng.gen_range(0..3), 0)
            }
            _ => {
                let k = match w.pair(l, p).own.choose(rng) {
                    Some(k) => *k,
                    None => w.new_key(rng, l, p),
                };
                let pk = match w.pair(l, p).theirs.choose(rng) {
                    Some(k) if rng.gen_range(0..5) > 0 => *k,
                    _ => 0,
                };
                M("Confirm", k as i64, pk as i64, now_date() - rng.gen_range(0..3))
            }
        })
        .collect()
}

/// Spoils some fields of a packet
pub fn spoil(rng: &mut Rand, w: &mut World, k: &mut Pkt) {
    for _ in 0..*pick(rng, &[1, 1, 1, 1, 2, 2, 3]) {
        match rng.gen_range(0..13) {
            0 | 1 => k.altered = true,
            2 => k.ver = *pick(rng, &[0, 0, 1, 2, 256, 65535]),
            3 => k.from = *pick(rng, &["full", "bad", "none"]),
            4 => k.short = *pick(rng, &["match", "mismatch", "none"]),
            5 => {
                k.from = "none";
                k.short = "match"
            }
            6 | 7 => k.sig = "bad",
            8 => k.sig = "none",
            9 => k.list = rng.gen_range(0..5),
            10 => k.lgood = false,
            11 if k.tr == "hs" => k.l = 0,
            _ => {
                if let Some(c) = (k.tr != "hs").then(|| w.old_channel(rng, k.l, k.p)).flatten() {
                    (k.mk, k.pk) = c;
                }
            }
        }
    }
}

/// Brings a pair to some state
pub async fn prepare(rng: &mut Rand, w: &mut World, l: usize, p: usize, state: &str) {
    match state {
        "unknown" => {}
        "added" => w.add(l, p, rng.gen_range(1..5)),
        "seen" => {
            let k = w.sound(l, p, "hs", vec![M("Nop", 0, 0, 0)]);
            w.packet(rng, k).await;
        }
        "offered" => {
            w.offer(rng, l, p).await;
            w.send(l, p).await;
        }
        _ => w.establish(rng, l, p).await,
    }
}

pub const STATES: [&str; 5] = ["unknown", "added", "seen", "offered", "ready"];

fn random(rng: &mut Rand) {
    let options = Options { history: rng.gen(), required: rng.gen_range(0..4) > 0, ..Default::default() };
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        for p in 1..=2 {
            for l in 1..=NL {
                let state = *pick(rng, &STATES);
                prepare(rng, &mut w, l, p, state).await;
            }
        }
        for _ in 0..rng.gen_range(8..40) {
            let (l, p) = (rng.gen_range(1..=NL), *pick(rng, &[1, 1, 1, 2, 3]));
            match rng.gen_range(0..20) {
                0 => w.send(l, p).await,
                1 | 2 => {
                    let sec = rng.gen_range(1..4);
                    w.query(l, p, sec).await;
                }
                3 | 4 if !w.history.is_empty() => {
                    let i = rng.gen_range(0..w.history.len());
                    let altered = rng.gen();
                    w.replay(rng, i, altered).await;
                }
                5 => w.pass(1).await,
                _ => {
                    let tr = *pick(rng, &["hs", "ord", "pri"]);
                    let msgs = messages(rng, &mut w, l, p);
                    let mut k = w.sound(l, p, tr, msgs);
                    if rng.gen_range(0..8) > 0 {
                        spoil(rng, &mut w, &mut k);
                    }
                    w.packet(rng, k).await;
                }
            }
        }
        w.probe(rng).await;
    });
}

fn word(v: &Value, options: &[&'static str]) -> &'static str {
    let s = v.as_str().unwrap();
    options.iter().copied().find(|o| *o == s).expect("word of a script")
}

/// Histories of the model with the same options: each of them on a pair of its own
fn replay(rng: &mut Rand, history: bool, required: bool, scripts: &[Value]) {
    let options = Options { history, required, ..Default::default() };
    scenario(json!({"opts": options.json()}), || async {
        let mut w = World::new(rng, options);
        let mut pairs: Vec<_> = (1..=NL).flat_map(|l| (1..=NP).map(move |p| (l, p))).collect();
        pairs.shuffle(rng);
        for (s, (l, p)) in scripts.iter().zip(&pairs) {
            let (l, p) = (*l, *p);
            prepare(rng, &mut w, l, p, s[0]["state"].as_str().unwrap()).await;
            for e in &s.as_array().unwrap()[1..] {
                let e = &e["p"];
                let n = w.next() as i64;
                let m = match e["m"].as_str().unwrap() {
                    "Custom" => M("Custom", n, 0, 0),
                    "Query" => M("Query", n, 0, 0),
                    m => {
                        let key = w.new_key(rng, l, p) as i64;
                        let mk = w.pair(l, p).theirs.last().copied().unwrap_or(0) as i64;
                        match m {
                            "Create" => M("Create", key, now_date(), 0),
                            _ => M("Confirm", key, mk, now_date()),
                        }
                    }
                };
                let mut k = w.sound(l, p, word(&e["tr"], &["hs", "ord", "pri"]), vec![m]);
                if k.tr != "hs" {
                    // in the channel that is in use, not with the new key
                    if let Some(c) = w.in_use(l, p) {
                        (k.mk, k.pk) = c;
                    }
                }
                k.altered = e["altered"].as_bool().unwrap();
                k.ver = e["ver"].as_i64().unwrap();
                k.from = word(&e["from"], &["none", "full", "bad"]);
                k.short = word(&e["short"], &["none", "match", "mismatch"]);
                k.sig = word(&e["sig"], &["good", "bad", "none"]);
                k.list = e["list"].as_u64().unwrap() as usize;
                k.lgood = e["lgood"].as_bool().unwrap();
                w.packet(rng, k).await;
            }
            w.probe_pair(rng, l, p).await;
        }
    });
}

fn replay_all(ctx: &Ctx, rng: &mut Rand) {
    for history in [false, true] {
        for required in [false, true] {
            let mut scripts: Vec<Value> = ctx
                .scripts
                .iter()
                .map(|s| s["script"].clone())
                .filter(|s| s[0]["history"] == history && s[0]["required"] == required)
                .collect();
            scripts.shuffle(rng);
            scripts.truncate(ctx.n(420, usize::MAX));
            for s in scripts.chunks(NL * NP) {
                replay(rng, history, required, s);
            }
        }
    }
}

/// Packets that end within their heads: nothing comes of them
fn cut(rng: &mut Rand, tr: &'static str, version: i64) {
    scenario(json!({"opts": Options::default().json()}), || async {
        let mut w = World::new(rng, Options::default());
        prepare(rng, &mut w, 1, 1, if tr == "hs" { "seen" } else { "ready" }).await;
        for n in 1..104 {
            let mut k = w.sound(1, 1, tr, vec![M("Nop", 0, 0, 0)]);
            k.altered = true;
            k.cut = Some(n);
            k.ver = version;
            w.packet(rng, k).await;
        }
        w.probe(rng).await;
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A01");
    replay_all(ctx, &mut rng);
    for tr in ["hs", "ord", "pri"] {
        for version in [-1, 0] {
            cut(&mut rng, tr, version);
        }
    }
    for _ in 0..ctx.n(200, 6000) {
        random(&mut rng);
    }
}
