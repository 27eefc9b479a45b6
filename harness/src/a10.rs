//! A10: peers set

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use everscale_network::adnl::{NodeIdShort, PeersSet};
type FastDashSet<K> = dashmap::DashSet<K, ahash::RandomState>;
use rand::Rng;

use crate::core::*;
use crate::Ctx;

const NPEERS: usize = 9;

struct Env {
    ids: Vec<NodeIdShort>,
    sets: Vec<Arc<PeersSet>>,
}

impl Env {
    fn idx(&self, id: &NodeIdShort) -> usize {
        self.ids.iter().position(|i| i == id).map(|i| i + 1).unwrap_or(99)
    }
    fn list(&self, ids: &[NodeIdShort]) -> Vec<usize> {
        ids.iter().map(|i| self.idx(i)).collect()
    }
    fn id(&self, n: usize) -> NodeIdShort {
        self.ids[n - 1]
    }
    /// all views of the set
    fn view(&self, s: usize) -> Value {
        let set = &self.sets[s - 1];
        let iter: Vec<usize> = set.iter().map(|i| self.idx(i)).collect();
        let cloned = self.list(&set.clone_inner());
        let mut got = Vec::new();
        let mut i = 0;
        while let Some(id) = set.get(i) {
            got.push(self.idx(&id));
            i += 1;
        }
        let has: Vec<bool> = self.ids.iter().map(|i| set.contains(i)).collect();
        json!({"iter": iter, "cloned": cloned, "got": got, "has": has, "len": set.len(),
               "empty": set.is_empty(), "full": set.is_full(), "version": set.version()})
    }
}

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    if r.is_none() {
        check_panics();
    }
    r
}

fn exec(env: &mut Env, op: &Value) -> Option<()> {
    let u = |k: &str| op[k].as_u64().unwrap_or_default() as usize;
    let list = |k: &str| -> Vec<usize> {
        op[k].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap() as usize).collect()).unwrap_or_default()
    };
    let s = u("s");
    match op["op"].as_str().unwrap() {
        "New" => {
            let init = list("init");
            let ids: Vec<_> = init.iter().map(|i| env.id(*i)).collect();
            let cap = u("cap") as u32;
            let set = guarded(|| {
                if init.is_empty() && !op["force"].as_bool().unwrap_or(false) {
                    PeersSet::with_capacity(cap)
                } else {
                    PeersSet::with_peers_and_capacity(&ids, cap)
                }
            })?;
            env.sets.push(Arc::new(set));
            let s = env.sets.len();
            emit(json!({"e": "New", "s": s, "cap": cap, "init": init, "view": env.view(s)}));
        }
        "Insert" => {
            let set = env.sets[s - 1].clone();
            let id = env.id(u("p"));
            let r = guarded(|| set.insert(id))?;
            emit(json!({"e": "Insert", "s": s, "p": u("p"), "res": r, "view": env.view(s)}));
        }
        "Remove" => {
            let set = env.sets[s - 1].clone();
            let id = env.id(u("p"));
            let r = guarded(|| set.remove(&id))?;
            emit(json!({"e": "Remove", "s": s, "p": u("p"), "res": r, "view": env.view(s)}));
        }
        "Extend" => {
            let set = env.sets[s - 1].clone();
            let l = list("list");
            let ids: Vec<_> = l.iter().map(|i| env.id(*i)).collect();
            guarded(|| set.extend(ids))?;
            emit(json!({"e": "Extend", "s": s, "list": l, "view": env.view(s)}));
        }
        "Random" => {
            let set = env.sets[s - 1].clone();
            let ex = u("except");
            let except = (ex != 0).then(|| env.id(ex));
            let amount = match u("amount") {
                9 => u32::MAX,
                n => n as u32,
            };
            let r = guarded(|| set.get_random_peers(amount, except.as_ref()))?;
            emit(json!({"e": "Random", "s": s, "amount": u("amount"), "except": ex,
                "res": env.list(&r), "view": env.view(s)}));
        }
        "Fill" => {
            let set = env.sets[s - 1].clone();
            let from = env.sets[u("from") - 1].clone();
            let ex = list("except");
            let use_ex = op["useExcept"].as_bool().unwrap_or(true);
            let except: FastDashSet<NodeIdShort> = Default::default();
            for e in &ex {
                except.insert(env.id(*e));
            }
            guarded(|| set.randomly_fill_from(&from, u("amount") as u32, use_ex.then_some(&except)))?;
            emit(json!({"e": "Fill", "s": s, "from": u("from"), "amount": u("amount"),
                "except": if use_ex { ex } else { vec![] }, "view": env.view(s)}));
        }
        "Drain" => {
            // consuming iteration of a set: it must be the last use of it
            let set = env.sets.remove(s - 1);
            let set = Arc::try_unwrap(set).ok()?;
            let r: Vec<NodeIdShort> = guarded(|| set.into_iter().collect())?;
            emit(json!({"e": "Drain", "s": s, "res": env.list(&r)}));
            return None;
        }
        other => panic!("unknown op {other}"),
    }
    Some(())
}

fn run_ops(ids: &[NodeIdShort], ops: &[Value]) {
    reset_event(json!({}));
    let mut env = Env { ids: ids.to_vec(), sets: Vec::new() };
    for op in ops {
        if exec(&mut env, op).is_none() {
            return;
        }
    }
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A10");
    let ids: Vec<NodeIdShort> = (0..NPEERS).map(|_| NodeIdShort::new(rng.gen())).collect();
    for s in &ctx.scripts {
        run_ops(&ids, s["script"].as_array().unwrap());
    }
    // members come and go for long
    for _ in 0..ctx.n(120, 2500) {
        let n = rng.gen_range(0..=NPEERS);
        let init: Vec<usize> = (0..n).map(|_| rng.gen_range(1..=NPEERS)).collect();
        let mut ops = vec![json!({"op": "New", "cap": rng.gen_range(2..NPEERS), "init": init, "force": rng.gen::<bool>()})];
        let removals = rng.gen_range(1..6);
        for _ in 0..rng.gen_range(10..60) {
            let op = if rng.gen_range(0..10) < removals { "Remove" } else { "Insert" };
            ops.push(json!({"op": op, "s": 1, "p": rng.gen_range(1..=NPEERS)}));
        }
        ops.push(json!({"op": "Drain", "s": 1}));
        run_ops(&ids, &ops);
    }
    for _ in 0..ctx.n(250, 4000) {
        let mut ops = Vec::new();
        for _ in 0..2 {
            let n = *pick(&mut rng, &[0, 0, 3, 6, 8]);
            let init: Vec<usize> = (0..n).map(|_| rng.gen_range(1..=NPEERS)).collect();
            ops.push(json!({"op": "New", "cap": rng.gen_range(0..6), "init": init, "force": rng.gen::<bool>()}));
        }
        for _ in 0..rng.gen_range(1..25) {
            let s = rng.gen_range(1..=2);
            ops.push(match rng.gen_range(0..12) {
                10 | 11 => json!({"op": "Remove", "s": s, "p": rng.gen_range(1..=NPEERS)}),
                0..=4 => json!({"op": "Insert", "s": s, "p": rng.gen_range(1..=NPEERS)}),
                5 => {
                    let n = rng.gen_range(0..6);
                    let l: Vec<usize> = (0..n).map(|_| rng.gen_range(1..=NPEERS)).collect();
                    json!({"op": "Extend", "s": s, "list": l})
                }
                6 | 7 => json!({"op": "Random", "s": s, "amount": rng.gen_range(0..10),
                    "except": rng.gen_range(0..=NPEERS)}),
                _ => {
                    let n = rng.gen_range(0..4);
                    let l: Vec<usize> = (0..n).map(|_| rng.gen_range(1..=NPEERS)).collect();
                    json!({"op": "Fill", "s": s, "from": rng.gen_range(1..=2), "amount": rng.gen_range(0..4),
                        "except": l, "useExcept": rng.gen_range(0..3) > 0})
                }
            });
        }
        if rng.gen::<bool>() {
            ops.push(json!({"op": "Drain", "s": rng.gen_range(1..=2)}));
        }
        run_ops(&ids, &ops);
    }
}
