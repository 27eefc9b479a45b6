//! A09: keystore

use std::panic::{catch_unwind, AssertUnwindSafe};

use everscale_network::adnl::{Keystore, NodeIdShort};
use rand::Rng;

use crate::core::*;
use crate::wire::Ident;
use crate::Ctx;

const NKEYS: usize = 4;
const NTAGS: usize = 4;

/// 1-based index of the key with this id, 0 if unknown
fn index(keys: &[Ident], id: &NodeIdShort) -> usize {
    keys.iter().position(|k| &k.id == id).map(|i| i + 1).unwrap_or(0)
}

/// Looks up everything
fn project(store: &Keystore, keys: &[Ident]) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
    let good = |want: Option<&Ident>, key: &everscale_network::adnl::Key| -> usize {
        // 99: a key which is not what its identifiers say
        let i = index(keys, key.id());
        let Some(k) = keys.get(i.wrapping_sub(1)) else { return 99 };
        let data = b"some data";
        let sig = key.secret_key().sign_raw(data, key.full_id().public_key());
        if key.full_id() != &k.full
            || !k.full.public_key().verify_raw(data, &sig)
            || want.map(|w| w.id != k.id).unwrap_or(false)
        {
            return 99;
        }
        i
    };
    let by_tag = (0..NTAGS)
        .map(|t| store.key_by_tag(t + 1).map(|k| good(None, k)).unwrap_or(0))
        .collect();
    let by_id = keys
        .iter()
        .map(|k| store.key_by_id(&k.id).map(|x| good(Some(k), x)).unwrap_or(0))
        .collect();
    let mut listed: Vec<usize> = store
        .keys()
        .iter()
        .map(|(id, k)| if id == k.id() { good(None, k) } else { 99 })
        .collect();
    listed.sort();
    (by_tag, by_id, listed)
}

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn script(keys: &[Ident], ops: &[(usize, usize)], tagmul: usize) {
    reset_event(json!({}));
    let _ = tagmul;
    let mut store = Keystore::default();
    for (key, tag) in ops {
        let r = guarded(|| store.add_key(keys[*key - 1].secret, *tag));
        let Some(r) = r else {
            check_panics();
            return;
        };
        let (by_tag, by_id, listed) = project(&store, keys);
        let res = match &r {
            Ok(id) => index(keys, id),
            Err(_) => 0,
        };
        emit(json!({"e": "Add", "key": key, "tag": tag, "ok": r.is_ok(), "res": res,
            "byTag": by_tag, "byId": by_id, "listed": listed}));
    }
}

fn build_script(keys: &[Ident], ops: &[(usize, usize)], one_by_one: bool) {
    reset_event(json!({}));
    let list: Vec<_> = ops.iter().map(|(k, t)| json!([k, t])).collect();
    let r = guarded(|| {
        if one_by_one {
            let mut b = Keystore::builder();
            for (k, t) in ops {
                b = b.with_tagged_key(keys[*k - 1].secret, *t).ok()?;
            }
            Some(b.build())
        } else {
            Keystore::builder()
                .with_tagged_keys(ops.iter().map(|(k, t)| (keys[*k - 1].secret, *t)))
                .ok()
                .map(|b| b.build())
        }
    });
    match r {
        None => {
            check_panics();
        }
        Some(None) => emit(json!({"e": "Build", "ops": list, "ok": false,
            "byTag": [], "byId": [], "listed": []})),
        Some(Some(store)) => {
            let (by_tag, by_id, listed) = project(&store, keys);
            emit(json!({"e": "Build", "ops": list, "ok": true,
                "byTag": by_tag, "byId": by_id, "listed": listed}))
        }
    }
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A09");
    let keys: Vec<Ident> = (0..NKEYS).map(|_| Ident::gen(&mut rng)).collect();

    // every sequence of the model
    for s in &ctx.scripts {
        let ops: Vec<(usize, usize)> = s["script"]
            .as_array()
            .unwrap()
            .iter()
            .map(|o| (o["key"].as_u64().unwrap() as usize, o["tag"].as_u64().unwrap() as usize))
            .collect();
        script(&keys, &ops, 1);
    }
    for _ in 0..ctx.n(150, 3000) {
        let len = rng.gen_range(1..24);
        let ops: Vec<_> = (0..len)
            .map(|_| (rng.gen_range(1..=NKEYS), rng.gen_range(1..=NTAGS)))
            .collect();
        script(&keys, &ops, 1);
    }
    for i in 0..ctx.n(150, 2000) {
        let len = rng.gen_range(0..5);
        let ops: Vec<_> = (0..len)
            .map(|_| (rng.gen_range(1..=NKEYS), rng.gen_range(1..=NTAGS)))
            .collect();
        build_script(&keys, &ops, i % 2 == 0);
    }
}
