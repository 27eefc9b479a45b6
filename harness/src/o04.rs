//! O04: members of an overlay

use std::net::SocketAddrV4;
use std::sync::Arc;

use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::{NewPeerContext, NodeIdShort, PeerFilter, PeersSet};
use everscale_network::overlay::{BroadcastTarget, OverlayOptions};
use everscale_network::proto;
use everscale_network::proto::overlay::NodeOwned;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::dht::*;
use crate::ov::*;
use crate::wire::*;
use crate::Ctx;

/// Refuses addresses of this network
const DENIED: u8 = 200;

struct Filter;

impl PeerFilter for Filter {
    fn check(&self, _: NewPeerContext, addr: SocketAddrV4, _: &NodeIdShort) -> bool {
        addr.ip().octets()[3] != DENIED
    }
}

/// An entry, where it comes from and what it is said to be
#[derive(Clone)]
struct Entry {
    node: NodeOwned,
    addr: SocketAddrV4,
    p: usize,
    v: u32,
    ok: bool,
    acc: bool,
}

impl Entry {
    fn json(&self) -> Value {
        json!({"p": self.p, "v": self.v, "ok": self.ok, "acc": self.acc})
    }
}

fn list(es: &[Entry]) -> Value {
    es.iter().map(Entry::json).collect()
}

struct Env {
    m: Member,
    base: u32,
    cap: usize,
    period: Option<u64>,
    /// time of the last view
    last: u64,
    count: u32,
}

impl Env {
    async fn new(rng: &mut Rand, cap: u32, period: Option<u64>, peers: usize, private: bool) -> Self {
        let id = Overlay::gen(rng);
        let gc = match period {
            Some(p) => *pick(rng, &[p, p / 2, p / 10]),
            None => 1000,
        };
        let options = OverlayOptions {
            max_neighbours: cap,
            overlay_peers_timeout_ms: period.unwrap_or(10_000_000),
            broadcast_gc_interval_ms: gc,
            broadcast_target_count: *pick(rng, &[100, 1000, u32::MAX]),
            ..Default::default()
        };
        let (n, others) = if private { (peers, 0) } else { (0, peers) };
        let m = Member::create_with(rng, 1, id, options, n, others, private, Some(Arc::new(Filter))).await;
        let mut env = Self { m, base: unix_now() - 1000, cap: cap as usize, period, last: 0, count: 0 };
        let ids: Vec<usize> = (1..=n).collect();
        let view = env.view(rng).await;
        emit(json!({"e": "Start", "peers": ids, "cap": env.cap, "view": view}));
        env
    }

    fn id(&self, p: usize) -> NodeIdShort {
        if p == 0 { self.m.local.id } else { self.m.ps[p - 1].me.id }
    }

    fn idx(&self, id: &NodeIdShort) -> usize {
        (0..=self.m.ps.len()).find(|p| self.id(*p) == *id).unwrap_or(99)
    }

    fn ident(&self, p: usize) -> Ident {
        if p == 0 { self.m.local.clone() } else { self.m.ps[p - 1].me.clone() }
    }

    fn good(&self, p: usize, v: u32) -> Entry {
        let addr = if p == 0 { addr(77, 1000) } else { self.m.ps[p - 1].addr };
        Entry { node: self.m.id.member(&self.ident(p), self.base + v), addr, p, v, ok: true, acc: true }
    }

    fn refused(&self, rng: &mut Rand, p: usize, v: u32) -> Entry {
        let mut e = self.good(p, v);
        e.addr = if rng.gen() { self.m.node.addr } else { addr(DENIED, 1000) };
        e.acc = false;
        e
    }

    fn bad(&self, rng: &mut Rand, p: usize, v: u32) -> Entry {
        let mut e = self.good(p, v);
        e.ok = false;
        let stranger = Ident::gen(rng);
        match rng.gen_range(0..9) {
            0 => e.node.version += 1,
            // of another overlay
            1 => e.node = overlay_node(&self.ident(p), rng.gen(), self.base + v),
            // ... put into this one
            2 => {
                e.node = overlay_node(&self.ident(p), rng.gen(), self.base + v);
                e.node.overlay = self.m.id.id;
            }
            // signed by somebody else
            3 => {
                e.node = self.m.id.member(&stranger, self.base + v);
                e.node.id = ed_key(&self.ident(p));
            }
            4 => {
                let mut s = e.node.signature.to_vec();
                let i = rng.gen_range(0..s.len());
                s[i] ^= 1 << rng.gen_range(0..8);
                e.node.signature = s.into();
            }
            5 => {
                let mut s = e.node.signature.to_vec();
                if rng.gen() {
                    s.pop();
                } else {
                    s.push(0);
                }
                e.node.signature = s.into();
            }
            6 => e.node.signature = Default::default(),
            // not a key of a node
            7 => e.node.id = PublicKeyOwned::Overlay { name: self.ident(p).full.public_key().as_bytes().to_vec().into() },
            _ => e.node.id = PublicKeyOwned::Aes { key: *self.ident(p).full.public_key().as_bytes() },
        }
        e
    }

    fn entry(&self, rng: &mut Rand) -> Entry {
        let p = if rng.gen_range(0..12) == 0 { 0 } else { rng.gen_range(1..=self.m.ps.len()) };
        let v = *pick(rng, &[0, 1, 1, 2, 3]);
        match rng.gen_range(0..8) {
            0 | 1 => self.bad(rng, p, v),
            2 => self.refused(rng, p, v),
            _ => self.good(p, v),
        }
    }

    /// An entry as somebody has got it. `None`: it is not a valid one
    fn read(&self, node: &NodeOwned) -> Value {
        let p = (0..=self.m.ps.len()).find(|p| ed_key(&self.ident(*p)) == node.id);
        match p {
            Some(p) if tl_proto::serialize(node) == tl_proto::serialize(self.m.id.member(&self.ident(p), node.version)) => {
                json!({"p": p, "v": node.version as i64 - self.base as i64})
            }
            _ => json!({"p": 99, "v": 0}),
        }
    }

    /// Our own entry and those of others
    fn passed(&self, nodes: &proto::overlay::NodesOwned) -> (bool, Value) {
        // (made at most a second ago)
        let own = |n: &NodeOwned| {
            unix_now() - n.version.min(unix_now()) <= 1
                && tl_proto::serialize(n) == tl_proto::serialize(&self.m.id.member(&self.m.local, n.version))
        };
        match nodes.nodes.split_first() {
            Some((first, rest)) => (own(first), rest.iter().map(|n| self.read(n)).collect()),
            None => (false, json!([])),
        }
    }

    /// What can be seen after a step
    async fn view(&mut self, rng: &mut Rand) -> Value {
        let now = elapsed_ms();
        let ov = self.m.ov.clone();
        self.count += 1;
        self.m.customs();
        let mut data = vec![7; 40];
        data.extend_from_slice(&self.count.to_le_bytes());
        ov.broadcast(&self.m.node.adnl, data, None, BroadcastTarget::RandomNeighbours);
        // (counted before anything else could happen)
        let metrics = ov.metrics();
        let dst = PeersSet::with_capacity(100);
        let amount = *pick(rng, &[0, 1, 2, 3, 100]);
        ov.write_cached_peers(amount, &dst);
        let some: Vec<_> = dst.clone_inner().iter().map(|p| self.idx(p)).collect();
        let all = 0..=self.m.ps.len();
        let known: Vec<_> = all.clone().filter(|p| ov.is_known_peer(&self.id(*p))).collect();
        let active: Vec<_> = all.filter(|p| ov.is_active_public_peer(&self.id(*p))).collect();
        settle().await;
        let neigh: Vec<_> = self.m.customs().into_iter().map(|(p, _)| p).collect();
        let renewals = match self.period {
            Some(p) => (now - self.last) / p + 1,
            None => 0,
        };
        self.last = now;
        json!({"known": known, "active": active, "neigh": neigh, "some": some, "amount": amount, "renewals": renewals,
            "counts": [metrics.known_peers, metrics.neighbours, metrics.node_count]})
    }

    async fn add(&mut self, rng: &mut Rand, es: &[Entry]) {
        let adnl = &self.m.node.adnl;
        let (done, added) = if es.len() == 1 && rng.gen() {
            match self.m.ov.add_public_peer(adnl, es[0].addr, es[0].node.as_equivalent_ref()) {
                Ok(p) => (true, p.into_iter().collect()),
                Err(_) => (false, Vec::new()),
            }
        } else {
            match self.m.ov.add_public_peers(adnl, es.iter().map(|e| (e.addr, e.node.as_equivalent_ref()))) {
                Ok(p) => (true, p),
                Err(_) => (false, Vec::new()),
            }
        };
        let added: Vec<_> = added.iter().map(|p| self.idx(p)).collect();
        let view = self.view(rng).await;
        emit(json!({"e": "Add", "list": list(es), "done": done, "added": added, "view": view}));
    }

    async fn remove(&mut self, rng: &mut Rand, p: usize) {
        let done = self.m.ov.remove_public_peer(&self.id(p));
        let view = self.view(rng).await;
        emit(json!({"e": "Remove", "p": p, "done": done, "view": view}));
    }

    async fn ask(&mut self, rng: &mut Rand, from: usize, es: &[Entry]) {
        let mut data = self.m.ov.query_prefix().to_vec();
        let peers = proto::overlay::NodesOwned { nodes: es.iter().map(|e| e.node.clone()).collect() };
        data.extend(tl_proto::serialize(proto::rpc::OverlayGetRandomPeersOwned { peers }));
        let id: [u8; 32] = rng.gen();
        let q = Msg::Query(id, data);
        let msgs = if q.to_bytes().len() > 1000 { Puppet::parts(&q, 900) } else { vec![q] };
        let kind = rng.gen_range(0..3);
        let p = &mut self.m.ps[from - 1];
        self.m.node.sent();
        for m in msgs {
            let packet = p.packet(rng, &self.m.local, vec![m], kind);
            self.m.node.inject(packet, p.addr);
        }
        settle().await;
        let mut answer = None;
        for (i, m) in self.m.seen.messages(&self.m.ps, &mut self.m.node) {
            match m {
                Msg::Answer(a, data) if i == from && a == id => answer = Some(data),
                _ => {}
            }
        }
        let nodes = answer.and_then(|d| tl_proto::deserialize_as_boxed::<proto::overlay::NodesOwned>(&d).ok());
        let answered = nodes.is_some();
        let (own, sent) = nodes.map(|n| self.passed(&n)).unwrap_or((false, json!([])));
        let view = self.view(rng).await;
        emit(json!({"e": "Ask", "from": from, "list": list(es), "answered": answered, "own": own, "sent": sent, "view": view}));
    }

    async fn exchange(&mut self, rng: &mut Rand, with: usize, es: &[Entry], answer: &str) {
        self.m.node.sent();
        let peer = self.id(with);
        let (ov, adnl) = (self.m.ov.clone(), self.m.node.adnl.clone());
        let how = rng.gen_range(0..5);
        let some: Vec<usize> = (1..=self.m.ps.len()).filter(|_| rng.gen()).collect();
        let (except, filter): (Value, Option<Box<dyn everscale_network::overlay::ExistingPeersFilter>>) = match how {
            0 => (json!([]), Some(Box::new(()))),
            1 => (json!((0..=self.m.ps.len()).collect::<Vec<_>>()), Some(Box::new(true))),
            2 => (json!(some), Some(Box::new(some.iter().map(|p| self.id(*p)).collect::<std::collections::HashSet<_>>()))),
            _ => (json!([-1]), None),
        };
        let call = tokio::spawn(async move {
            match filter {
                None => ov.exchange_random_peers(&adnl, &peer, Some(500)).await,
                Some(f) => ov.exchange_random_peers_ext(&adnl, &peer, Some(500), f.as_ref()).await,
            }
        });
        settle().await;
        let (mut own, mut sent) = (false, json!("nothing"));
        for (i, m) in self.m.seen.messages(&self.m.ps, &mut self.m.node) {
            let Msg::Query(id, data) = m else { continue };
            if i != with {
                continue;
            }
            let Some(data) = data.strip_prefix(self.m.ov.query_prefix()) else { continue };
            let Ok(q) = tl_proto::deserialize::<proto::rpc::OverlayGetRandomPeersOwned>(data) else { continue };
            (own, sent) = self.passed(&q.peers);
            let data = match answer {
                "nodes" => boxed(proto::overlay::NodesOwned { nodes: es.iter().map(|e| e.node.clone()).collect() }),
                "none" => continue,
                _ => {
                    let n = rng.gen_range(0..60);
                    bytes(rng, n)
                }
            };
            let a = Msg::Answer(id, data);
            let msgs = if a.to_bytes().len() > 1000 { Puppet::parts(&a, 900) } else { vec![a] };
            let p = &mut self.m.ps[with - 1];
            for m in msgs {
                let packet = p.packet(rng, &self.m.local, vec![m], 0);
                self.m.node.inject(packet, p.addr);
            }
        }
        for _ in 0..100 {
            sleep_ms(10).await;
            if call.is_finished() {
                break;
            }
        }
        let (result, found) = match call.is_finished() {
            false => ("unfinished", Vec::new()),
            true => match call.await {
                Ok(Ok(Some(ids))) => ("nodes", ids),
                Ok(Ok(None)) => ("none", Vec::new()),
                Ok(Err(_)) => ("error", Vec::new()),
                Err(_) => ("panic", Vec::new()),
            },
        };
        let found: Vec<_> = found.iter().map(|p| self.idx(p)).collect();
        let view = self.view(rng).await;
        emit(json!({"e": "Exchange", "with": with, "list": list(es), "answer": answer, "own": own, "sent": sent,
            "except": except, "result": result, "found": found, "view": view}));
    }

    async fn take(&mut self, rng: &mut Rand) {
        let got: Vec<_> = self.m.ov.take_new_peers().into_values().map(|n| self.read(&n)).collect();
        let view = self.view(rng).await;
        emit(json!({"e": "Take", "list": got, "view": view}));
    }

    async fn random(&mut self, rng: &mut Rand, private: bool) {
        let n = self.m.ps.len();
        let with = rng.gen_range(1..=n);
        let len = *pick(rng, &[0, 1, 1, 2, 5]);
        let es: Vec<_> = (0..len).map(|_| self.entry(rng)).collect();
        match rng.gen_range(if private { 5 } else { 0 }..12) {
            0..=3 => {
                let len = *pick(rng, &[1, 1, 2, 5]);
                let es: Vec<_> = (0..len).map(|_| self.entry(rng)).collect();
                self.add(rng, &es).await
            }
            4..=6 => self.remove(rng, with).await,
            7 | 8 => self.ask(rng, with, &es).await,
            9 => {
                let answer = *pick(rng, &["nodes", "nodes", "nodes", "none", "garbage"]);
                self.exchange(rng, with, &es, answer).await
            }
            10 => self.take(rng).await,
            _ => {
                let ms = match self.period {
                    Some(p) => rng.gen_range(1..5) * p,
                    None => rng.gen_range(1..100_000),
                };
                sleep_ms(ms).await;
                let view = self.view(rng).await;
                emit(json!({"e": "Renew", "view": view}));
            }
        }
    }
}

async fn replay(rng: &mut Rand, script: &[Value]) {
    let cap = script[0]["cap"].as_u64().unwrap() as u32;
    let mut env = Env::new(rng, cap, None, 3, false).await;
    // the third one is always there
    if rng.gen() {
        let e = env.good(3, 1);
        env.add(rng, &[e]).await;
    }
    for op in &script[1..] {
        let entry = |env: &Env, rng: &mut Rand| {
            let e = &op["list"][0];
            let (p, v) = (e["p"].as_u64().unwrap() as usize, e["v"].as_u64().unwrap() as u32);
            if !e["ok"].as_bool().unwrap() {
                env.bad(rng, p, v)
            } else if !e["acc"].as_bool().unwrap() {
                env.refused(rng, p, v)
            } else {
                env.good(p, v)
            }
        };
        match op["op"].as_str().unwrap() {
            "Add" => {
                let e = entry(&env, rng);
                env.add(rng, &[e]).await
            }
            "Remove" => env.remove(rng, op["p"].as_u64().unwrap() as usize).await,
            _ => {
                let e = entry(&env, rng);
                let from = rng.gen_range(1..=3);
                if rng.gen() {
                    env.ask(rng, from, &[e]).await
                } else {
                    env.exchange(rng, from, &[e], "nodes").await
                }
            }
        }
    }
    env.take(rng).await;
}

/// Every active peer is a neighbour sometimes
async fn rotation(rng: &mut Rand) {
    let cap = rng.gen_range(1..4);
    let n = rng.gen_range(2..6);
    let mut env = Env::new(rng, cap, Some(1000), n, rng_private(cap)).await;
    if env.m.n == 0 {
        let mut es: Vec<_> = (1..=n).map(|p| env.good(p, 1)).collect();
        es.shuffle(rng);
        env.add(rng, &es).await;
        if n > 2 {
            env.remove(rng, 1).await;
        }
    }
    let mut neigh = Vec::new();
    for _ in 0..120 {
        sleep_ms(2000).await;
        let view = env.view(rng).await;
        neigh.push(view["neigh"].clone());
    }
    emit(json!({"e": "Rotation", "neigh": neigh}));
}

fn rng_private(cap: u32) -> bool {
    cap == 2
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "O04");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(500, 6000));
    for s in &scripts {
        let script = s["script"].as_array().unwrap().clone();
        scenario(json!({"kind": "replay"}), || replay(&mut rng, &script));
    }
    for _ in 0..ctx.n(200, 3000) {
        let cap = *pick(&mut rng, &[1, 2, 3, 5, 8, 200]);
        let n = rng.gen_range(2..9);
        let period = if rng.gen_range(0..3) == 0 { Some(*pick(&mut rng, &[1000, 3000])) } else { None };
        let private = rng.gen_range(0..5) == 0;
        scenario(json!({"kind": "random", "cap": cap, "private": private, "period": period.unwrap_or(0)}), || async {
            let mut env = Env::new(&mut rng, cap, period, n, private).await;
            for _ in 0..25 {
                env.random(&mut rng, private).await;
            }
        });
    }
    for _ in 0..ctx.n(10, 100) {
        scenario(json!({"kind": "rotation"}), || rotation(&mut rng));
    }
}
