//! D01: values signed by the owner of their key; D02: lists of overlay members

use std::collections::HashMap;

use everscale_crypto::tl::PublicKey;
use everscale_network::dht::NodeOptions;
use everscale_network::proto;
use everscale_network::proto::dht::{KeyOwned, UpdateRule, ValueOwned};
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::dht::*;
use crate::wire::*;
use crate::Ctx;

const MAX_NAME: usize = 20;
const MAX_IDX: u32 = 3;

struct Env {
    d: DhtNode,
    p: Puppet,
    owners: Vec<Ident>,
    members: Vec<Ident>,
    overlays: Vec<Overlay>,
    keys: Vec<KeyOwned>,
    vals: HashMap<Vec<u8>, u32>,
    entries: HashMap<Vec<u8>, (usize, u32)>,
    n: u32,
    /// own store calls instead of the ones of a peer
    local: bool,
    gc: u64,
}

/// What is stored, and what it is said to be
struct Item {
    v: ValueOwned,
    rule: &'static str,
    owner: bool,
    keysig: bool,
    valsig: bool,
    form: bool,
    nodes: Vec<Value>,
}

impl Env {
    async fn new(rng: &mut Rand, local: bool) -> Self {
        let gc = *pick(rng, &[1000, 10_000]);
        let options = NodeOptions {
            max_key_name_len: MAX_NAME,
            max_key_index: MAX_IDX,
            storage_gc_interval_ms: gc,
            ..Default::default()
        };
        let mut d = DhtNode::create(rng, 1, options);
        let mut p = Puppet::new(rng, addr(10, 1000));
        let ident = d.ident.clone();
        p.establish(rng, &mut d.node, &ident).await;
        Env {
            d,
            p,
            owners: (0..3).map(|_| Ident::gen(rng)).collect(),
            members: (0..4).map(|_| Ident::gen(rng)).collect(),
            overlays: (0..2).map(|_| Overlay::gen(rng)).collect(),
            keys: Vec::new(),
            vals: HashMap::new(),
            entries: HashMap::new(),
            n: 0,
            local,
            gc,
        }
    }

    fn key(&mut self, key: &KeyOwned) -> usize {
        match self.keys.iter().position(|k| key_id(k) == key_id(key)) {
            Some(i) => i + 1,
            None => {
                self.keys.push(key.clone());
                self.keys.len()
            }
        }
    }

    fn signed(&mut self, rng: &mut Rand, owner: usize, name: &[u8], idx: u32, ttl: u32, bad: &str) -> Item {
        self.n += 1;
        let o = self.owners[owner].clone();
        let other = self.owners[(owner + 1) % self.owners.len()].clone();
        let len = *pick(rng, &[0, 10, 300, 1500]);
        let mut data = bytes(rng, len);
        data.extend(self.n.to_le_bytes());
        let (name, idx) = match bad {
            "name" => (bytes(rng, MAX_NAME + 1), idx),
            "idx" => (name.to_vec(), *pick(rng, &[MAX_IDX + 1, u32::MAX, 1 << 31])),
            _ => (name.to_vec(), idx),
        };
        let mut v = value(*o.id.as_slice(), ed_key(&o), &name, idx, UpdateRule::Signature, data, ttl);
        let mut item = Item { v: v.clone(), rule: "signed", owner: true, keysig: true, valsig: true, form: true, nodes: vec![] };
        match bad {
            // (signed values only)
            "rule" => {
                v.key.update_rule = UpdateRule::Anybody;
                item.rule = "anybody";
            }
            "owner" => {
                v.key.id = ed_key(&other);
                item.owner = false;
            }
            _ => {}
        }
        let signer = if bad == "owner" { &other } else { &o };
        match bad {
            "keysig" => match rng.gen_range(0..4) {
                0 => sign(&mut v, &other, &o),
                1 => {
                    // of another key of the owner
                    let mut w = v.clone();
                    w.key.key.idx ^= 1;
                    sign(&mut w, signer, signer);
                    v.key.signature = w.key.signature;
                    v.signature = o.sign_raw(&boxed(v.as_equivalent_ref())).to_vec().into();
                }
                2 => {
                    v.signature = o.sign_raw(&boxed(v.as_equivalent_ref())).to_vec().into();
                }
                _ => {
                    sign(&mut v, signer, signer);
                    v.key.signature = flip(rng, &v.key.signature);
                    v.signature = Default::default();
                    v.signature = o.sign_raw(&boxed(v.as_equivalent_ref())).to_vec().into();
                }
            },
            "valsig" => {
                sign(&mut v, signer, signer);
                match rng.gen_range(0..6) {
                    0 => v.ttl += 1,
                    1 => {
                        let mut d = v.value.to_vec();
                        d.push(1);
                        v.value = d.into();
                    }
                    2 => v.signature = Default::default(),
                    3 => sign(&mut v, &o, &other),
                    4 => v.signature = v.key.signature.clone(),
                    _ => v.signature = flip(rng, &v.signature),
                }
            }
            "form" => {
                // a public key which cannot sign
                let name = bytes(rng, 32);
                let arr: [u8; 32] = name.clone().try_into().unwrap();
                let id = match rng.gen_range(0..3) {
                    0 => PublicKey::Aes { key: &arr },
                    1 => PublicKey::Overlay { name: &name },
                    _ => PublicKey::Unencoded { data: &name },
                };
                v.key.id = id.as_equivalent_owned();
                v.key.key.id = pub_id(id);
                sign(&mut v, &o, &o);
                item.form = false;
            }
            _ => sign(&mut v, signer, signer),
        }
        item.keysig = bad != "keysig";
        item.valsig = bad != "valsig";
        item.v = v;
        self.vals.insert(boxed(item.v.as_equivalent_ref()), self.n);
        item
    }

    fn list(&mut self, rng: &mut Rand, o: usize, nodes: &[(usize, u32, bool)], ttl: u32, bad: &str) -> Item {
        let (id, key) = (self.overlays[o].id, self.overlays[o].key());
        let other = self.overlays[(o + 1) % 2].id;
        let mut list = Vec::new();
        for (m, ver, ok) in nodes {
            let mut e = self.overlays[o].member(&self.members[*m - 1], *ver);
            if !*ok {
                match rng.gen_range(0..5) {
                    0 => e.signature = flip(rng, &e.signature),
                    1 => e.version += 1,
                    2 => e = overlay_node(&self.members[*m - 1], other, *ver),
                    3 => e.id = ed_key(&self.members[*m % self.members.len()]),
                    _ => e.signature = Default::default(),
                }
            }
            if *ok {
                self.entries.insert(tl_proto::serialize(e.as_equivalent_ref()), (*m, *ver));
            }
            list.push(e);
        }
        let mut v = value(id, key, b"nodes", 0, UpdateRule::OverlayNodes, node_list(list), ttl);
        let mut item = Item {
            v: v.clone(),
            rule: "members",
            owner: true,
            keysig: true,
            valsig: true,
            form: true,
            nodes: nodes.iter().map(|(m, ver, ok)| json!([m, ver, ok])).collect(),
        };
        match bad {
            "owner" => {
                v.key.key.id = other;
                item.owner = false;
            }
            "keysig" => {
                let len = *pick(rng, &[1, 64]);
                v.key.signature = bytes(rng, len).into();
                item.keysig = false;
            }
            "valsig" => {
                let len = *pick(rng, &[1, 64]);
                v.signature = bytes(rng, len).into();
                item.valsig = false;
            }
            "name" => v.key.key.name = bytes(rng, MAX_NAME + 1).into(),
            "idx" => v.key.key.idx = *pick(rng, &[MAX_IDX + 1, u32::MAX]),
            "rule" => {
                v.key.update_rule = UpdateRule::Anybody;
                item.rule = "anybody";
            }
            "form" => {
                item.form = false;
                match rng.gen_range(0..5) {
                    0 => v.key.key.name = b"node".to_vec().into(),
                    1 => v.key.key.idx = 1,
                    2 => {
                        let m = &self.members[0];
                        v.key.id = ed_key(m);
                        v.key.key.id = *m.id.as_slice();
                    }
                    3 => v.value = v.value[..v.value.len() - 4].to_vec().into(),
                    _ => {
                        let len = *pick(rng, &[0, 4, 50]);
                        v.value = bytes(rng, len).into();
                    }
                }
            }
            "ruleswap" => {
                // signed rule for an overlay
                v.key.update_rule = UpdateRule::Signature;
                item.rule = "signed";
                item.form = false;
            }
            _ => {}
        }
        item.v = v;
        item
    }

    async fn align(&mut self) {
        let ms = elapsed_ms() % 1000;
        if ms > 700 {
            sleep_ms(1005 - ms).await;
        }
    }

    async fn store(&mut self, rng: &mut Rand, item: &Item) {
        self.align().await;
        let now = rel_now();
        let k = self.key(&item.v.key.key);
        let v = item.v.as_equivalent_ref();
        let val = if item.rule == "members" { 0 } else { self.vals.get(&boxed(v)).copied().unwrap_or(0) };
        let stored = if self.local && rng.gen() {
            self.d.dht.store_value(v).map(|f| f.only_locally()).is_ok()
        } else {
            let data = tl_proto::serialize(proto::rpc::DhtStore { value: v });
            let mut p = std::mem::replace(&mut self.p, Puppet::new(rng, addr(99, 99)));
            let answer = self.d.ask(rng, &mut p, data).await;
            self.p = p;
            answer.is_some()
        };
        let view = self.view(rng).await;
        emit(json!({"e": "Store", "k": k, "rule": item.rule, "ttl": rel(item.v.ttl), "val": val,
            "name": clamp(item.v.key.key.name.len()), "idx": clamp(item.v.key.key.idx as usize),
            "owner": item.owner, "keysig": item.keysig, "valsig": item.valsig, "form": item.form,
            "nodes": item.nodes, "stored": stored, "now": now, "after": rel_now(), "view": view,
            "count": self.d.dht.metrics().storage_len}));
    }

    async fn look(&mut self, rng: &mut Rand) {
        self.align().await;
        let now = rel_now();
        let view = self.view(rng).await;
        emit(json!({"e": "Look", "now": now, "after": rel_now(), "view": view, "count": self.d.dht.metrics().storage_len}));
    }

    async fn view(&mut self, rng: &mut Rand) -> Vec<Value> {
        let mut res = Vec::new();
        for i in 0..self.keys.len() {
            let id = key_id(&self.keys[i]);
            let k = rng.gen_range(1..=5);
            let data = tl_proto::serialize(proto::rpc::DhtFindValue { key: &id, k });
            let mut p = std::mem::replace(&mut self.p, Puppet::new(rng, addr(99, 99)));
            let answer = self.d.ask(rng, &mut p, data).await;
            self.p = p;
            res.push(self.read(i, answer));
        }
        res
    }

    fn read(&self, i: usize, answer: Option<Vec<u8>>) -> Value {
        let none = |whole| json!({"k": i + 1, "ttl": 0, "val": 0, "nodes": [], "whole": whole});
        let Some(answer) = answer else { return none(false) };
        let v = match tl_proto::deserialize::<proto::dht::ValueResult>(&answer) {
            Ok(proto::dht::ValueResult::ValueFound(v)) => v.0,
            Ok(proto::dht::ValueResult::ValueNotFound(_)) => return none(true),
            Err(_) => return none(false),
        };
        let same_key = v.key.key == self.keys[i].as_equivalent_ref();
        if v.key.update_rule == UpdateRule::Signature {
            let val = self.vals.get(&boxed(v)).copied().unwrap_or(0);
            return json!({"k": i + 1, "ttl": rel(v.ttl), "val": val, "nodes": [], "whole": same_key && val != 0});
        }
        let mut whole = same_key && v.signature.is_empty() && v.key.signature.is_empty() && pub_id(v.key.id) == *v.key.key.id;
        let mut nodes = Vec::new();
        match tl_proto::deserialize_as_boxed::<proto::overlay::NodesOwned>(v.value) {
            Ok(list) => {
                for n in list.nodes {
                    match self.entries.get(&tl_proto::serialize(n.as_equivalent_ref())) {
                        Some((m, ver)) if n.overlay == *v.key.key.id => nodes.push(json!([m, ver])),
                        _ => whole = false,
                    }
                }
            }
            Err(_) => whole = false,
        }
        json!({"k": i + 1, "ttl": rel(v.ttl), "val": 0, "nodes": nodes, "whole": whole})
    }

    async fn pass(&mut self, sec: u64) {
        sleep_ms(sec * 1000).await;
    }
}

fn clamp(n: usize) -> usize {
    n.min(1_000_000)
}

fn flip(rng: &mut Rand, d: &[u8]) -> bytes::Bytes {
    let mut d = d.to_vec();
    let i = rng.gen_range(0..d.len());
    d[i] ^= 1 << rng.gen_range(0..8);
    d.into()
}

fn info(kind: &str) -> Value {
    json!({"kind": kind, "maxname": MAX_NAME, "maxidx": MAX_IDX})
}

const BADS: &[&str] = &["keysig", "valsig", "owner", "form", "name", "idx", "rule"];

fn replay(rng: &mut Rand, script: &Value) {
    scenario(info("script"), || async {
        let mut e = Env::new(rng, false).await;
        for step in script.as_array().unwrap() {
            let op = step[0].as_str().unwrap();
            if op == "pass" {
                e.pass(1).await;
                e.look(rng).await;
                continue;
            }
            let k = step[1].as_u64().unwrap() as usize - 1;
            e.align().await;
            let ttl = unix_now() + step[2].as_u64().unwrap() as u32;
            let bad = if step[3] == "no" { "no" } else { *pick(rng, BADS) };
            let item = if op == "signed" {
                e.signed(rng, k, b"name", 0, ttl, bad)
            } else {
                let nodes: Vec<_> = step[4]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|n| (n[0].as_u64().unwrap() as usize, n[1].as_u64().unwrap() as u32, n[2].as_bool().unwrap()))
                    .collect();
                e.list(rng, k, &nodes, ttl, bad)
            };
            e.store(rng, &item).await;
        }
        e.pass(4).await;
        e.look(rng).await;
    });
}

fn random(rng: &mut Rand, members: bool) {
    scenario(info("random"), || async {
        let mut e = Env::new(rng, true).await;
        let mut old: Vec<Item> = Vec::new();
        let long = rng.gen();
        for _ in 0..rng.gen_range(5..40) {
            match rng.gen_range(0..10) {
                0 => {
                    let sec = if long { rng.gen_range(1..8) } else { rng.gen_range(1..3) };
                    e.pass(sec).await;
                    if rng.gen_range(0..4) == 0 {
                        e.pass(e.gc / 1000 + 2).await;
                    }
                    e.look(rng).await;
                }
                // one from before
                1 | 2 if !old.is_empty() => {
                    let i = rng.gen_range(0..old.len());
                    let item = &old[i];
                    e.store(rng, item).await;
                }
                _ => {
                    e.align().await;
                    let ttl = match rng.gen_range(0..12) {
                        0 => unix_now() - rng.gen_range(0..3),
                        1 => unix_now() + 1,
                        2 => unix_now() + 1_000_000,
                        _ => unix_now() + rng.gen_range(1..if long { 30 } else { 6 }),
                    };
                    let bad = if rng.gen_range(0..3) == 0 { *pick(rng, BADS) } else { "no" };
                    let item = if rng.gen_bool(if members { 0.9 } else { 0.15 }) {
                        let bad = if bad == "rule" && rng.gen() { "ruleswap" } else { bad };
                        let o = rng.gen_range(0..2);
                        let n = *pick(rng, &[0, 1, 1, 1, 2, 2, 2, 3, 4]);
                        let nodes: Vec<_> = (0..n)
                            .map(|_| (rng.gen_range(1..=4), *pick(rng, &[0, 1, 2, 3, 1000]), rng.gen_range(0..4) > 0))
                            .collect();
                        e.list(rng, o, &nodes, ttl, bad)
                    } else {
                        let names: &[&[u8]] = &[b"", b"name", b"address", b"nodes", &[7; MAX_NAME]];
                        let (o, name, idx) = (rng.gen_range(0..3), *pick(rng, names), rng.gen_range(0..=MAX_IDX));
                        let (name, idx) = if rng.gen() { (&b"name"[..], 0) } else { (name, idx) };
                        e.signed(rng, o, name, idx, ttl, bad)
                    };
                    e.store(rng, &item).await;
                    old.push(item);
                }
            }
            if e.keys.len() > 12 {
                break;
            }
        }
        e.pass(5).await;
        e.look(rng).await;
        e.pass(40).await;
        e.look(rng).await;
    });
}

pub fn run(ctx: &Ctx, members: bool) {
    let mut rng = rng(ctx.seed, if members { "D02" } else { "D01" });
    let mut scripts: Vec<_> = ctx.scripts.iter().map(|s| s["script"].clone()).collect();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(1000, 100_000));
    for s in &scripts {
        replay(&mut rng, s);
    }
    for _ in 0..ctx.n(200, 10_000) {
        random(&mut rng, members);
    }
}
