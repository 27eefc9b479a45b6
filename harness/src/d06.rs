//! D06: which nodes a DHT lookup asks; D03: what it makes of their answers

use std::collections::{HashMap, HashSet};
use std::net::SocketAddrV4;
use std::sync::{Arc, Mutex};

use bytes::Bytes;
use everscale_crypto::tl::PublicKey;
use everscale_network::dht::NodeOptions;
use everscale_network::proto;
use everscale_network::proto::dht::{KeyOwned, NodeOwned, NodesOwned, UpdateRule, ValueOwned, ValueResultOwned};
use futures_util::StreamExt;
use rand::seq::SliceRandom;
use rand::Rng;
use tl_proto::BoxedWrapper;

use crate::core::*;
use crate::dht::*;
use crate::wire::*;
use crate::Ctx;

const TIMEOUT: u64 = 1000;
/// contents which the caller cannot read
const BROKEN: u32 = 0x0bad_0bad;

/// The contents of a value as they are
struct Raw(Vec<u8>);

impl tl_proto::TlRead<'_> for Raw {
    type Repr = tl_proto::Boxed;
    fn read_from(packet: &[u8], offset: &mut usize) -> tl_proto::TlResult<Self> {
        let data = packet[*offset..].to_vec();
        *offset = packet.len();
        if data.len() < 4 || data[..4] == BROKEN.to_le_bytes() {
            return Err(tl_proto::TlError::InvalidData);
        }
        Ok(Raw(data))
    }
}

type Vals = Arc<Mutex<HashMap<Vec<u8>, u32>>>;

fn val_of(vals: &Vals, data: &[u8]) -> u32 {
    vals.lock().unwrap().get(data).copied().unwrap_or(99_999)
}

/// What a node answers
#[derive(Clone)]
enum Plan {
    Value(ValueOwned, Value),
    /// other nodes, and a forged description
    Nodes(Vec<usize>, bool),
    Garbage,
    Silent,
}

struct Env {
    d: DhtNode,
    others: Others,
    owners: Vec<Ident>,
    overlays: Vec<Overlay>,
    vals: Vals,
    n: u32,
    known: Vec<usize>,
    batch: usize,
    /// the lookup begins with its first question
    late_start: bool,
    lazy: bool,
}

/// Whose value is looked for
#[derive(Clone, Copy, PartialEq)]
enum Of {
    Owner(usize),
    Overlay(usize),
}

#[derive(Clone, Copy, PartialEq)]
enum Take {
    All,
    Lazily,
    Some(usize),
    Address,
}

impl Env {
    async fn new(rng: &mut Rand, batch: usize) -> Self {
        let options = NodeOptions { default_value_batch_len: batch, bad_peer_threshold: 0, ..Default::default() };
        let d = DhtNode::create(rng, 1, options);
        Env {
            d,
            others: Others::new(vec![]),
            owners: (0..4).map(|_| Ident::gen(rng)).collect(),
            overlays: (0..2).map(|_| Overlay::gen(rng)).collect(),
            vals: Default::default(),
            n: 0,
            known: vec![],
            batch,
            late_start: false,
            lazy: false,
        }
    }

    fn add_peer(&mut self, rng: &mut Rand, me: Ident) -> usize {
        let i = self.others.peers.len();
        let mut p = Puppet::new(rng, addr(20 + i as u8, 2000 + i as u16));
        p.me = me;
        self.others.peers.push(p);
        i + 1
    }

    fn describe(&self, p: usize) -> NodeOwned {
        let peer = &self.others.peers[p - 1];
        dht_node(&peer.me, address_list(peer.addr, unix_now() - 10, 0), 1)
    }

    fn learn(&mut self, p: usize) {
        let n = self.describe(p);
        self.d.dht.add_dht_peer(n).unwrap().unwrap();
        if !self.known.contains(&p) {
            self.known.push(p);
        }
    }

    async fn make_bad(&mut self, p: usize) {
        let id = self.others.peers[p - 1].me.id;
        self.d.dht.ping(&id).await.ok();
        self.others.queries(&mut self.d.node);
    }

    fn key(&self, of: Of, idx: u32) -> KeyOwned {
        match of {
            Of::Owner(o) => KeyOwned { id: *self.owners[o].id.as_slice(), name: b"address".to_vec().into(), idx },
            Of::Overlay(o) => KeyOwned { id: self.overlays[o].id, name: b"nodes".to_vec().into(), idx },
        }
    }

    /// A value for the key with the given fault; `real`: a list of addresses
    fn value(&mut self, rng: &mut Rand, of: Of, idx: u32, fault: &str, real: bool) -> (ValueOwned, Value) {
        self.n += 1;
        let n = self.n;
        let mut said = json!({"rule": "signed", "val": n, "key": true, "owner": true, "keysig": true, "valsig": true,
            "form": true, "nodes": [], "fresh": true, "whole": true, "owned": 0});
        let mut ttl = unix_now() + *pick(rng, &[60, 100, 100_000]);
        if fault == "fresh" {
            ttl = unix_now() - *pick(rng, &[0, 1, 100, 100_000]);
            said["fresh"] = json!(false);
        }
        let mut key = self.key(of, idx);
        let v = match of {
            Of::Owner(o) => {
                let owner = self.owners[o].clone();
                let other = self.owners[(o + 1) % self.owners.len()].clone();
                said["owned"] = json!(o + 1);
                let mut data = if real {
                    let a = SocketAddrV4::new([10, 9, (n >> 8) as u8, n as u8].into(), 7);
                    let mut list = address_list(a, unix_now() - 10, 0);
                    if fault == "whole" {
                        match rng.gen_range(0..3) {
                            0 => list.address = None,
                            1 => list.expire_at = unix_now() - 50,
                            _ => list.reinit_date = unix_now() + 50_000,
                        }
                    }
                    boxed(list)
                } else {
                    let mut d = if fault == "whole" { BROKEN } else { 0x0d0d_0001 }.to_le_bytes().to_vec();
                    d.extend(n.to_le_bytes());
                    let len = *pick(rng, &[0, 40, 1000, 3000]);
                    d.extend(bytes(rng, len));
                    d
                };
                if real && fault == "whole" && rng.gen() {
                    data.truncate(6);
                }
                if fault == "whole" {
                    said["whole"] = json!(false);
                }
                self.vals.lock().unwrap().insert(data.clone(), n);
                let (mut id, mut signer) = (ed_key(&owner), owner.clone());
                if fault == "key" {
                    said["key"] = json!(false);
                    match rng.gen_range(0..4) {
                        0 => key.idx += 1,
                        1 => key.name = b"addres".to_vec().into(),
                        2 => key.name = b"address\0".to_vec().into(),
                        _ => {
                            // another one's
                            key = self.key(Of::Owner((o + 1) % self.owners.len()), idx);
                            id = ed_key(&other);
                            signer = other.clone();
                        }
                    }
                }
                if fault == "owner" {
                    said["owner"] = json!(false);
                    id = match rng.gen_range(0..3) {
                        0 => PublicKey::Overlay { name: owner.id.as_slice() }.as_equivalent_owned(),
                        1 => PublicKey::Unencoded { data: &[1] }.as_equivalent_owned(),
                        _ => ed_key(&other),
                    };
                    signer = other.clone();
                }
                let mut v = value(key.id, id, &key.name, key.idx, UpdateRule::Signature, data, ttl);
                if fault == "rule" {
                    said["rule"] = json!("other");
                    v.key.update_rule = *pick(rng, &[UpdateRule::Anybody, UpdateRule::OverlayNodes]);
                    match rng.gen_range(0..3) {
                        0 => {}
                        1 => {
                            sign(&mut v, &other, &other);
                        }
                        _ => v.value = node_list(vec![]).into(),
                    }
                    return (v, said);
                }
                let flip = |rng: &mut Rand, d: &[u8]| {
                    let mut d = d.to_vec();
                    let i = rng.gen_range(0..d.len());
                    d[i] ^= 1 << rng.gen_range(0..8);
                    Bytes::from(d)
                };
                match fault {
                    "keysig" => {
                        said["keysig"] = json!(false);
                        sign(&mut v, &other, &signer);
                        if rng.gen() {
                            v.key.signature = if rng.gen() { Bytes::new() } else { flip(rng, &v.key.signature) };
                            v.signature = Bytes::new();
                            v.signature = signer.sign_raw(&boxed(v.as_equivalent_ref())).to_vec().into();
                        }
                    }
                    "valsig" => {
                        said["valsig"] = json!(false);
                        sign(&mut v, &signer, &signer);
                        match rng.gen_range(0..5) {
                            0 => v.ttl += 1,
                            1 => {
                                let mut d = v.value.to_vec();
                                let i = d.len() - 1;
                                d[i] ^= 1;
                                self.vals.lock().unwrap().insert(d.clone(), n);
                                v.value = d.into();
                            }
                            2 => v.signature = Bytes::new(),
                            3 => v.signature = v.key.signature.clone(),
                            _ => v.signature = flip(rng, &v.signature),
                        }
                    }
                    _ => sign(&mut v, &signer, &signer),
                }
                v
            }
            Of::Overlay(o) => {
                said["rule"] = json!("members");
                let mut nodes = Vec::new();
                let mut list = Vec::new();
                let bad_at = rng.gen_range(0..3);
                for i in 0..rng.gen_range(1..4) {
                    let m = rng.gen_range(0..self.owners.len());
                    let mut e = self.overlays[o].member(&self.owners[m], n);
                    let ok = fault != "entry" || i != bad_at;
                    if !ok {
                        match rng.gen_range(0..3) {
                            0 => e.version += 1,
                            1 => e = overlay_node(&self.owners[m], self.overlays[1 - o].id, n),
                            _ => e.signature = Bytes::new(),
                        }
                    }
                    nodes.push(json!([m + 1, n, ok]));
                    list.push(e);
                }
                said["nodes"] = json!(nodes);
                let mut data = node_list(list);
                if fault == "whole" {
                    said["whole"] = json!(false);
                    data.truncate(data.len() - 3);
                }
                self.vals.lock().unwrap().insert(data.clone(), n);
                let mut id = self.overlays[o].key();
                let mut rule = UpdateRule::OverlayNodes;
                if idx != 0 {
                    said["form"] = json!(false);
                }
                match fault {
                    "key" => {
                        said["key"] = json!(false);
                        if rng.gen() {
                            key = self.key(Of::Overlay(1 - o), idx);
                            id = self.overlays[1 - o].key();
                        } else {
                            key.idx += 1;
                        }
                    }
                    "owner" => {
                        said["owner"] = json!(false);
                        id = if rng.gen() { self.overlays[1 - o].key() } else { ed_key(&self.owners[0]) };
                    }
                    "rule" => {
                        said["rule"] = json!("other");
                        rule = UpdateRule::Anybody;
                    }
                    "keysig" | "valsig" => {
                        // nobody can sign it
                        said["rule"] = json!("signed");
                        said["keysig"] = json!(false);
                        rule = UpdateRule::Signature;
                    }
                    _ => {}
                }
                value(key.id, id, &key.name, key.idx, rule, data, ttl)
            }
        };
        (v, said)
    }

    /// A lookup in which the nodes answer as planned, after some delay
    async fn lookup(&mut self, rng: &mut Rand, of: Of, idx: u32, full: bool, new: bool, take: Take, plans: &HashMap<usize, Plan>) {
        let key = self.key(of, idx);
        self.start(&key, full, new, take != Take::Lazily);
        self.lazy = take == Take::Lazily;
        let dht = self.d.dht.clone();
        let vals = self.vals.clone();
        let call = tokio::spawn(async move {
            if take == Take::Address {
                let id = everscale_network::adnl::NodeIdShort::new(key.id);
                let val = match dht.find_address(&id).await {
                    Ok((a, full)) if full.compute_short_id() == id => {
                        let [_, _, x, y] = a.ip().octets();
                        (x as u32) << 8 | y as u32
                    }
                    Ok(_) => 99_999,
                    Err(_) => 0,
                };
                emit(json!({"e": "First", "val": val, "t": elapsed_ms()}));
                return;
            }
            let name = std::str::from_utf8(&key.name).unwrap();
            let mut s = dht.entry(&key.id, name).with_key_index(key.idx).values::<Raw>().use_new_peers(new);
            if full {
                s = s.use_full_batch();
            }
            let mut got = 0;
            while let Some((k, Raw(data))) = s.next().await {
                let val = if key_id(&k.key) == key_id(&key) { val_of(&vals, &data) } else { 99_998 };
                emit(json!({"e": "Yield", "val": val}));
                got += 1;
                if take == Take::Some(got) {
                    emit(json!({"e": "Stop"}));
                    return;
                }
                if take == Take::Lazily {
                    sleep_ms(700).await;
                }
            }
            emit(json!({"e": "End", "t": elapsed_ms()}));
        });
        self.pump(rng, call, &self.key(of, idx), plans).await;
    }

    fn start(&self, key: &KeyOwned, full: bool, new: bool, eager: bool) {
        let id = key_id(key);
        let aff: Vec<_> = self.others.peers.iter().map(|p| shared_bits(p.me.id.as_slice(), &id)).collect();
        let bad: Vec<_> = (1..=self.others.peers.len())
            .filter(|p| self.d.dht.is_bad_peer(&self.others.peers[p - 1].me.id))
            .collect();
        emit(json!({"e": "Start", "aff": aff, "batch": if full { 0 } else { self.batch }, "new": new, "eager": eager,
            "bad": bad, "known": self.known, "t": elapsed_ms()}));
    }

    async fn pump(&mut self, rng: &mut Rand, call: tokio::task::JoinHandle<()>, key: &KeyOwned, plans: &HashMap<usize, Plan>) {
        let local = self.d.ident.clone();
        let id = key_id(key);
        let mut queue: Vec<(u64, usize, [u8; 32], u64)> = Vec::new();
        let deadline = elapsed_ms() + 120_000;
        while !call.is_finished() && elapsed_ms() < deadline {
            for (i, qid, data) in self.others.queries(&mut self.d.node) {
                let p = i + 1;
                let t = elapsed_ms();
                if std::mem::replace(&mut self.late_start, false) {
                    self.start(key, false, true, false);
                }
                let right = tl_proto::deserialize::<proto::rpc::DhtFindValue>(&data).map(|q| *q.key == id && q.k > 0).unwrap_or(false);
                emit(json!({"e": "Ask", "p": p, "t": t, "until": t + TIMEOUT, "right": right}));
                let delay = match rng.gen_range(0..8) {
                    // (one which reads slowly may still take late answers)
                    0 if !self.lazy => rng.gen_range(TIMEOUT + 100..TIMEOUT + 600),
                    1 => rng.gen_range(0..TIMEOUT - 100),
                    _ => rng.gen_range(0..50),
                };
                queue.push((t + delay, p, qid, t + TIMEOUT));
            }
            let now = elapsed_ms();
            let (due, rest) = queue.into_iter().partition::<Vec<_>, _>(|q| q.0 <= now);
            queue = rest;
            for (_, p, qid, until) in due {
                let late = now + 30 > until;
                let plan = plans.get(&p).cloned().unwrap_or(Plan::Silent);
                let (data, mut ev, named) = match plan {
                    Plan::Silent => continue,
                    Plan::Value(v, said) => (tl_proto::serialize(ValueResultOwned::ValueFound(BoxedWrapper(v))), said, vec![]),
                    Plan::Nodes(list, forged) => {
                        let mut nodes: Vec<_> = list.iter().map(|p| self.describe(*p)).collect();
                        if forged {
                            let p = rng.gen_range(1..=self.others.peers.len());
                            let mut n = self.describe(p);
                            n.version += 1;
                            nodes.push(n);
                            nodes.shuffle(rng);
                        }
                        (tl_proto::serialize(ValueResultOwned::ValueNotFound(NodesOwned { nodes })), json!({}), list)
                    }
                    Plan::Garbage => {
                        let len = *pick(rng, &[1, 4, 50]);
                        (bytes(rng, len), json!({}), vec![])
                    }
                };
                if !late && !call.is_finished() {
                    ev["kind"] = json!(if ev.get("rule").is_some() { "value" } else { "other" });
                    ev["e"] = json!("Answer");
                    ev["p"] = json!(p);
                    ev["t"] = json!(now);
                    ev["named"] = json!(named);
                    for x in named {
                        if !self.known.contains(&x) {
                            self.known.push(x);
                        }
                    }
                    emit(ev);
                }
                let again = rng.gen_range(0..8) == 0;
                self.others.answer(rng, &self.d.node, &local, p - 1, qid, data.clone());
                if again {
                    self.others.answer(rng, &self.d.node, &local, p - 1, qid, data);
                }
                settle().await;
            }
            sleep_ms(1).await;
        }
        if !call.is_finished() {
            emit(json!({"e": "Hangs"}));
            call.abort();
        }
        settle().await;
    }

    /// One question to one node
    async fn direct(&mut self, rng: &mut Rand, of: Of, idx: u32, p: usize, plan: Plan) {
        let key = self.key(of, idx);
        let (dht, vals, id) = (self.d.dht.clone(), self.vals.clone(), self.others.peers[p - 1].me.id);
        let call = tokio::spawn(async move {
            let name = std::str::from_utf8(&key.name).unwrap();
            match dht.entry(&key.id, name).with_key_index(key.idx).value_from::<Raw>(&id).await {
                Ok(Some((k, Raw(data)))) if key_id(&k.key) == key_id(&key) => val_of(&vals, &data),
                Ok(Some(_)) => 99_998,
                _ => 0,
            }
        });
        let local = self.d.ident.clone();
        let mut ev = json!({"kind": "other", "said": 0});
        while !call.is_finished() {
            for (i, qid, _) in self.others.queries(&mut self.d.node) {
                let Plan::Value(v, said) = plan.clone() else { continue };
                ev = said;
                ev["kind"] = json!("value");
                ev["said"] = ev["val"].clone();
                let data = tl_proto::serialize(ValueResultOwned::ValueFound(BoxedWrapper(v)));
                self.others.answer(rng, &self.d.node, &local, i, qid, data);
            }
            sleep_ms(1).await;
        }
        ev["e"] = json!("Direct");
        ev["val"] = json!(call.await.unwrap());
        emit(ev);
    }

    /// A value is stored at all nodes and looked for afterwards
    async fn store(&mut self, rng: &mut Rand, plans: &HashMap<usize, Plan>, o: usize, want: usize) {
        let key = self.key(Of::Owner(o), 0);
        let (v, _) = self.value(rng, Of::Owner(o), 0, "no", false);
        let dht = self.d.dht.clone();
        let vals = self.vals.clone();
        let asked: Arc<Mutex<Vec<usize>>> = Default::default();
        let done: Arc<Mutex<bool>> = Default::default();
        // the nodes receive the value first
        let call = {
            let done = done.clone();
            let k2 = key.clone();
            tokio::spawn(async move {
                let mut got = 0;
                let res = dht
                    .store_value(v.as_equivalent_ref())
                    .unwrap()
                    .then_check(move |k: proto::dht::KeyDescriptionOwned, Raw(data)| {
                        let val = if key_id(&k.key) == key_id(&k2) { val_of(&vals, &data) } else { 99_998 };
                        emit(json!({"e": "Yield", "val": val}));
                        got += 1;
                        Ok(got == want)
                    })
                    .await;
                *done.lock().unwrap() = matches!(res, Ok(true));
            })
        };
        let local = self.d.ident.clone();
        let mut pending: Vec<(u64, usize, [u8; 32])> = Vec::new();
        settle().await;
        for (i, qid, data) in self.others.queries(&mut self.d.node) {
            if tl_proto::deserialize::<proto::rpc::DhtStore>(&data).is_ok() {
                asked.lock().unwrap().push(i + 1);
                pending.push((elapsed_ms(), i, qid));
            }
        }
        emit(json!({"e": "Stored", "asked": *asked.lock().unwrap(), "known": self.known}));
        // (the lookup begins when the last one has answered)
        let silent = rng.gen_range(0..3) == 0;
        let mut last = pending.len();
        for (_, i, qid) in pending {
            last -= 1;
            if last == 0 && silent {
                break;
            }
            self.others.answer(rng, &self.d.node, &local, i, qid, tl_proto::serialize(proto::dht::Stored));
        }
        self.late_start = true;
        self.lazy = false;
        self.pump(rng, call, &key, plans).await;
        if std::mem::replace(&mut self.late_start, false) {
            self.start(&key, false, true, false);
        }
        if *done.lock().unwrap() {
            emit(json!({"e": "Stop"}));
        } else {
            emit(json!({"e": "End", "t": elapsed_ms()}));
        }
    }

    /// The members of an overlay with their addresses
    async fn members(&mut self, rng: &mut Rand, o: usize) {
        let dht = self.d.dht.clone();
        let id = everscale_network::overlay::IdShort::from(self.overlays[o].id);
        let call = tokio::spawn(async move { dht.find_overlay_nodes(&id).await.unwrap_or_default() });
        let local = self.d.ident.clone();
        let deadline = elapsed_ms() + 120_000;
        let list_key = key_id(&self.key(Of::Overlay(o), 0));
        let faulty = *pick(rng, &[0.0, 0.3, 0.8]);
        let homeless: HashSet<usize> = {
            let all = rng.gen_range(0..3) == 0;
            (0..self.owners.len()).filter(|_| all || rng.gen_range(0..3) == 0).collect()
        };
        let quiet = *pick(rng, &[0.0, 0.15]);
        // (each round finds new members, there are few)
        let mut questions = 0;
        while !call.is_finished() && elapsed_ms() < deadline && questions < 600 {
            for (i, qid, data) in self.others.queries(&mut self.d.node) {
                questions += 1;
                let Ok(q) = tl_proto::deserialize::<proto::rpc::DhtFindValue>(&data) else { continue };
                let of = if *q.key == list_key {
                    Of::Overlay(o)
                } else {
                    match (0..self.owners.len()).find(|m| key_id(&self.key(Of::Owner(*m), 0)) == *q.key) {
                        Some(m) => Of::Owner(m),
                        None => continue,
                    }
                };
                if let Of::Owner(m) = of {
                    if homeless.contains(&m) {
                        let data = tl_proto::serialize(ValueResultOwned::ValueNotFound(NodesOwned { nodes: vec![] }));
                        self.others.answer(rng, &self.d.node, &local, i, qid, data);
                        continue;
                    }
                }
                if rng.gen_bool(quiet) {
                    continue;
                }
                let fault = if rng.gen_bool(faulty) { *pick(rng, FAULTS) } else { "no" };
                let (v, mut said) = self.value(rng, of, 0, fault, true);
                said["e"] = json!("Said");
                emit(said);
                let data = tl_proto::serialize(ValueResultOwned::ValueFound(BoxedWrapper(v)));
                self.others.answer(rng, &self.d.node, &local, i, qid, data);
                settle().await;
            }
            sleep_ms(5).await;
        }
        let ended = call.is_finished();
        let mut found = Vec::new();
        if ended {
            for (a, n) in call.await.unwrap() {
                let m = self.owners.iter().position(|x| n.id == ed_key(x)).map(|m| m + 1).unwrap_or(0);
                let [_, _, x, y] = a.ip().octets();
                found.push(json!([m, n.version, (x as u32) << 8 | y as u32]));
            }
        } else {
            call.abort();
        }
        emit(json!({"e": "Members", "ended": ended, "found": found}));
    }

    fn plan(&mut self, rng: &mut Rand, of: Of, idx: u32, forged: f64, real: bool) -> Plan {
        let n = self.others.peers.len();
        match rng.gen_range(0..10) {
            0..=4 => {
                let fault = if rng.gen_bool(forged) { *pick(rng, FAULTS) } else { "no" };
                let (v, said) = self.value(rng, of, idx, fault, real);
                Plan::Value(v, said)
            }
            5..=7 => {
                let forged = rng.gen_range(0..4) == 0;
                let bad: Vec<_> = (1..=n).filter(|p| self.d.dht.is_bad_peer(&self.others.peers[p - 1].me.id)).collect();
                let list = (0..rng.gen_range(0..4)).map(|_| rng.gen_range(1..=n)).filter(|p| !bad.contains(p)).collect();
                Plan::Nodes(list, forged)
            }
            8 => Plan::Garbage,
            _ => Plan::Silent,
        }
    }
}

const FAULTS: &[&str] = &["key", "owner", "keysig", "valsig", "rule", "fresh", "whole", "entry"];

fn replay(rng: &mut Rand, s: &Value, forged: bool) {
    scenario(json!({"kind": "script"}), || async {
        let batch = s[1].as_u64().unwrap() as usize;
        let mut e = Env::new(rng, batch.max(1)).await;
        let of = Of::Owner(0);
        let id = key_id(&e.key(of, 0));
        for a in s[0].as_array().unwrap() {
            let a = a.as_u64().unwrap() as usize;
            let me = loop {
                let me = Ident::gen(rng);
                if shared_bits(me.id.as_slice(), &id) == a {
                    break me;
                }
            };
            e.add_peer(rng, me);
        }
        let start = s[4].as_u64().unwrap() as usize;
        for p in 1..=start {
            e.learn(p);
        }
        if s[3] == true {
            e.make_bad(1).await;
        }
        let mut plans = HashMap::new();
        let mut next = start;
        for step in s[5].as_array().unwrap() {
            let p = step[0].as_u64().unwrap() as usize;
            let plan = match step[1].as_str().unwrap() {
                "value" => {
                    let fault = if forged && rng.gen() { *pick(rng, FAULTS) } else { "no" };
                    let (v, said) = e.value(rng, of, 0, fault, false);
                    Plan::Value(v, said)
                }
                "node" => {
                    next = (next + 1).min(e.others.peers.len());
                    Plan::Nodes(if next > start { vec![next] } else { vec![] }, false)
                }
                _ => pick(rng, &[Plan::Silent, Plan::Garbage, Plan::Nodes(vec![], true)]).clone(),
            };
            plans.insert(p, plan);
        }
        e.lookup(rng, of, 0, batch == 0, s[2] == true, Take::All, &plans).await;
    });
}

fn random(rng: &mut Rand, genuine: bool) {
    scenario(json!({"kind": "random"}), || async {
        let batch = *pick(rng, &[5, 5, 1, 2, 3]);
        let mut e = Env::new(rng, batch).await;
        let max = if rng.gen_range(0..4) == 0 { 30 } else { 12 };
        let n = rng.gen_range(1..max);
        for _ in 0..n {
            let me = Ident::gen(rng);
            e.add_peer(rng, me);
        }
        let start = rng.gen_range(1..=n);
        let mut order: Vec<_> = (1..=n).collect();
        order.shuffle(rng);
        for p in &order[..start] {
            e.learn(*p);
        }
        if rng.gen_range(0..3) == 0 {
            for _ in 0..rng.gen_range(1..3) {
                let p = *pick(rng, &order[..start]);
                e.make_bad(p).await;
            }
        }
        for _ in 0..rng.gen_range(1..4) {
            let of = if rng.gen_range(0..3) == 0 { Of::Overlay(rng.gen_range(0..2)) } else { Of::Owner(rng.gen_range(0..4)) };
            let idx = *pick(rng, &[0, 0, 0, 1]);
            let forged = if genuine { 0.7 } else { 0.2 };
            match rng.gen_range(0..if genuine { 8 } else { 6 }) {
                0 => {
                    let o = rng.gen_range(0..4);
                    let plans = (1..=n).map(|p| (p, e.plan(rng, Of::Owner(o), 0, forged, false))).collect();
                    let want = rng.gen_range(1..4);
                    e.store(rng, &plans, o, want).await;
                }
                1 => {
                    let o = rng.gen_range(0..4);
                    let plans = (1..=n).map(|p| (p, e.plan(rng, Of::Owner(o), 0, forged, true))).collect();
                    e.lookup(rng, Of::Owner(o), 0, false, false, Take::Address, &plans).await;
                }
                6 => {
                    let fault = if rng.gen() { "no" } else { *pick(rng, FAULTS) };
                    let (v, said) = e.value(rng, of, idx, fault, false);
                    let p = *pick(rng, &order[..start]);
                    e.direct(rng, of, idx, p, Plan::Value(v, said)).await;
                }
                7 => {
                    let o = rng.gen_range(0..2);
                    e.members(rng, o).await;
                }
                _ => {
                    let plans = (1..=n).map(|p| (p, e.plan(rng, of, idx, forged, false))).collect();
                    let take = match rng.gen_range(0..6) {
                        0 => Take::Lazily,
                        1 => Take::Some(rng.gen_range(1..4)),
                        _ => Take::All,
                    };
                    let (full, new) = (rng.gen_range(0..3) == 0, rng.gen());
                    e.lookup(rng, of, idx, full, new, take, &plans).await;
                }
            }
            sleep_ms(2000).await;
            e.others.queries(&mut e.d.node);
        }
    });
}

pub fn run(ctx: &Ctx, genuine: bool) {
    let mut rng = rng(ctx.seed, if genuine { "D03" } else { "D06" });
    let mut scripts: Vec<_> = ctx.scripts.iter().map(|s| s["script"].clone()).collect();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(600, 60_000));
    for s in &scripts {
        replay(&mut rng, s, genuine);
    }
    for _ in 0..ctx.n(250, 10_000) {
        random(&mut rng, genuine);
    }
}
