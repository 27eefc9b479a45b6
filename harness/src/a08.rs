//! A08: the peer table

use std::collections::HashSet;
use std::net::SocketAddrV4;
use std::sync::{Arc, Mutex};

use everscale_network::adnl::{NewPeerContext, NodeIdShort, NodeOptions, PeerFilter};
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::wire::*;
use crate::Ctx;

pub const OWN: usize = 9;

/// 1.. - addresses of peers, OWN - the address of the node
fn address(a: usize) -> SocketAddrV4 {
    if a == OWN {
        addr(1, 100)
    } else {
        addr(20 + a as u8, 2000 + a as u16)
    }
}

const CONTEXTS: [NewPeerContext; 3] = [NewPeerContext::AdnlPacket, NewPeerContext::Dht, NewPeerContext::PublicOverlay];

/// Refuses the listed (context, peer, address)
struct Filter {
    refused: HashSet<(usize, NodeIdShort, SocketAddrV4)>,
    other: Mutex<usize>,
}

impl PeerFilter for Filter {
    fn check(&self, ctx: NewPeerContext, addr: SocketAddrV4, peer_id: &NodeIdShort) -> bool {
        let ctx = CONTEXTS.iter().position(|c| *c == ctx).unwrap() + 1;
        *self.other.lock().unwrap() += 1;
        !self.refused.contains(&(ctx, *peer_id, addr))
    }
}

struct Env {
    node: TestNode,
    rec: Arc<Recorder>,
    locals: Vec<Ident>,
    /// an identity the node does not have
    foreign: Ident,
    puppets: Vec<Puppet>,
}

impl Env {
    fn local(&self, l: usize) -> Ident {
        self.locals.get(l - 1).unwrap_or(&self.foreign).clone()
    }

    fn addr_index(a: SocketAddrV4) -> usize {
        (1..10).find(|i| address(*i) == a).unwrap_or(99)
    }

    /// known addresses of all pairs
    fn view(&self) -> Value {
        let mut table = Vec::new();
        for l in &self.locals {
            let row: Vec<usize> = self
                .puppets
                .iter()
                .map(|p| self.node.adnl.get_peer_address(&l.id, &p.me.id).map(Self::addr_index).unwrap_or(0))
                .collect();
            table.push(row);
        }
        let foreign = self.puppets.iter().any(|p| self.node.adnl.get_peer_address(&self.foreign.id, &p.me.id).is_some());
        json!({"table": table, "count": self.node.adnl.metrics().peer_count, "foreign": foreign})
    }

    fn add(&mut self, l: usize, p: usize, a: usize, ctx: usize) {
        let local = self.local(l);
        // peer 0: the local identity itself
        let (id, full) = if p == 0 { (local.id, local.full) } else { (self.puppets[p - 1].me.id, self.puppets[p - 1].me.full) };
        let r = match self.node.adnl.add_peer(CONTEXTS[ctx - 1], &local.id, &id, address(a), full) {
            Ok(true) => "added",
            Ok(false) => "refused",
            Err(_) => "error",
        };
        emit(json!({"e": "Add", "l": l, "p": p, "a": a, "ctx": ctx, "res": r, "view": self.view()}));
    }

    fn remove(&mut self, l: usize, p: usize) {
        let local = self.local(l);
        let r = match self.node.adnl.remove_peer(&local.id, &self.puppets[p - 1].me.id) {
            Ok(true) => "removed",
            Ok(false) => "unknown",
            Err(_) => "error",
        };
        emit(json!({"e": "Remove", "l": l, "p": p, "res": r, "view": self.view()}));
    }

    fn got(&self, local: &Ident, p: usize, data: &[u8]) -> Option<bool> {
        let got = self.rec.take();
        match got.len() {
            0 => Some(false),
            1 => (got[0].0 == local.id && got[0].1 == self.puppets[p - 1].me.id && got[0].2 == data).then_some(true),
            _ => None,
        }
    }

    /// A packet of the peer: handshake with an address list (a > 0) or without; the
    /// list is good, expired, or from the future
    async fn packet(&mut self, rng: &mut Rand, l: usize, p: usize, a: usize, list: &str) {
        let local = self.local(l);
        let data = bytes(rng, 8);
        let mut body = self.puppets[p - 1].body(rng, &local, vec![Msg::Custom(data.clone())]);
        let now = unix_now();
        body.address = (a > 0).then(|| match list {
            "good" => address_list(address(a), now - 5, now + 1000),
            "eternal" => address_list(address(a), now - 5, 0),
            "expired" => address_list(address(a), now - 5, now - 10),
            "future" => address_list(address(a), now + 1000, now + 2000),
            _ => {
                let mut l = address_list(address(a), now - 5, now + 1000);
                l.address = None;
                l
            }
        });
        let raw = body.signed(rng, &self.puppets[p - 1].me.clone());
        self.node.inject(seal_handshake(rng, &local.full, &raw, None), self.puppets[p - 1].addr);
        settle().await;
        emit(json!({"e": "Packet", "l": l, "p": p, "a": a, "list": list,
            "delivered": self.got(&local, p, &data), "view": self.view()}));
    }

    /// A packet in the last channel the peer has established
    async fn channel(&mut self, rng: &mut Rand, l: usize, p: usize, priority: bool) {
        let local = self.local(l);
        let data = bytes(rng, 8);
        let Some(packet) = self.puppets[p - 1].channel(rng, &local, vec![Msg::Custom(data.clone())], priority) else { return };
        self.node.inject(packet, self.puppets[p - 1].addr);
        settle().await;
        emit(json!({"e": "Channel", "l": l, "p": p, "delivered": self.got(&local, p, &data), "view": self.view()}));
    }

    /// What the node sends when asked to
    async fn send(&mut self, rng: &mut Rand, l: usize, p: usize) {
        let local = self.local(l);
        let data = bytes(rng, 8);
        self.node.sent();
        let ok = self.node.adnl.send_custom_message(&local.id, &self.puppets[p - 1].me.id, &data).is_ok();
        settle().await;
        let sent = self.node.sent();
        let mut kind = "none";
        let mut to = 0;
        let mut sound = true;
        let count = sent.len();
        for (packet, addr) in sent {
            to = Self::addr_index(addr);
            match self.puppets[p - 1].open(&packet) {
                Some(o) => {
                    sound &= o.body.messages.iter().any(|m| *m == Msg::Custom(data.clone())) && o.from == local.id;
                    kind = if o.kind == "handshake" { "handshake" } else { "channel" };
                    // do not learn the new channel key: only Establish does
                }
                None => sound = false,
            }
        }
        emit(json!({"e": "Send", "l": l, "p": p, "ok": ok, "count": count, "kind": kind, "to": to, "sound": sound,
            "view": self.view()}));
    }

    /// The peer makes a new channel (only with known peers)
    async fn establish(&mut self, rng: &mut Rand, l: usize, p: usize) {
        let local = self.local(l);
        if self.node.adnl.get_peer_address(&local.id, &self.puppets[p - 1].me.id).is_none() {
            return;
        }
        let key = keypair(rng);
        self.puppets[p - 1].link(rng, &local).my_key = key;
        // newer than any channel before
        sleep_ms(1000).await;
        let create = Msg::Create { key: *key.public_key.as_bytes(), date: unix_now() };
        let mut body = self.puppets[p - 1].body(rng, &local, vec![create]);
        body.address = None;
        let raw = body.signed(rng, &self.puppets[p - 1].me.clone());
        self.node.inject(seal_handshake(rng, &local.full, &raw, None), self.puppets[p - 1].addr);
        settle().await;
        self.node.sent();
        self.node.adnl.send_custom_message(&local.id, &self.puppets[p - 1].me.id, b"establish").ok();
        settle().await;
        let mut confirmed = false;
        for (data, _) in self.node.sent() {
            if let Some(o) = self.puppets[p - 1].open(&data) {
                for m in o.body.messages {
                    if let Msg::Confirm { key: k, peer_key, .. } = m {
                        confirmed |= peer_key == *key.public_key.as_bytes();
                        self.puppets[p - 1].add_chan(rng, &local, k);
                    }
                }
            }
        }
        if confirmed {
            let packet = self.puppets[p - 1].channel(rng, &local, vec![Msg::Nop], false).unwrap();
            self.node.inject(packet, self.puppets[p - 1].addr);
            settle().await;
        }
        self.rec.take();
        emit(json!({"e": "Establish", "l": l, "p": p, "confirmed": confirmed, "view": self.view()}));
    }

    fn matching(&mut self, l: usize) {
        let local = self.local(l);
        let mut map: std::collections::HashMap<SocketAddrV4, usize, ahash::RandomState> = Default::default();
        for a in 1..6 {
            map.insert(address(a), a);
        }
        let r: Vec<Value> = match self.node.adnl.match_peer_addresses(&local.id, map) {
            Some(m) => m
                .into_iter()
                .map(|(a, id)| json!([a, self.puppets.iter().position(|p| p.me.id == id).map(|i| i + 1).unwrap_or(0)]))
                .collect(),
            None => vec![json!([0, 0])],
        };
        emit(json!({"e": "Match", "l": l, "res": r, "view": self.view()}));
    }
}

fn env(rng: &mut Rand, refused: &[(usize, usize, usize)]) -> Env {
    let locals: Vec<Ident> = (0..2).map(|_| Ident::gen(rng)).collect();
    let foreign = Ident::gen(rng);
    let puppets: Vec<Puppet> = (0..2).map(|i| Puppet::new(rng, addr(10 + i, 1000))).collect();
    let filter = Filter {
        refused: refused.iter().map(|(c, p, a)| (*c, puppets[*p - 1].me.id, address(*a))).collect(),
        other: Default::default(),
    };
    let filter: Option<Arc<dyn PeerFilter>> = if refused.is_empty() && rng.gen() { None } else { Some(Arc::new(filter)) };
    let node = TestNode::create(addr(1, 100), &locals, NodeOptions::default(), filter);
    let rec = Arc::new(Recorder::default());
    node.adnl.add_message_subscriber(rec.clone()).unwrap();
    node.adnl.start().unwrap();
    Env { node, rec, locals, foreign, puppets }
}

async fn probe(env: &mut Env, rng: &mut Rand) {
    for l in 1..=2 {
        for p in 1..=2 {
            env.channel(rng, l, p, rng_bool(l, p)).await;
            env.packet(rng, l, p, 0, "good").await;
            env.send(rng, l, p).await;
        }
        env.matching(l);
    }
}

fn rng_bool(l: usize, p: usize) -> bool {
    (l + p) % 2 == 0
}

fn replay(rng: &mut Rand, script: &[Value]) {
    let refused = [(1, 1, 2), (2, 2, 1)];
    scenario(json!({"refused": refused}), || async {
        let mut env = env(rng, &refused);
        for s in script {
            let u = |k: &str| s[k].as_u64().unwrap_or_default() as usize;
            match s["op"].as_str().unwrap() {
                "Add" => env.add(u("l"), u("p"), u("a"), 2),
                "Remove" => env.remove(u("l"), u("p")),
                "Packet" => env.packet(rng, u("l"), u("p"), u("a"), "good").await,
                "Establish" => env.establish(rng, u("l"), u("p")).await,
                _ => panic!("op"),
            }
        }
        probe(&mut env, rng).await;
    });
}

fn random(rng: &mut Rand) {
    let refused: Vec<(usize, usize, usize)> =
        (0..rng.gen_range(0..8)).map(|_| (rng.gen_range(1..=3), rng.gen_range(1..=2), rng.gen_range(1..=4))).collect();
    scenario(json!({"refused": refused}), || async {
        let mut env = env(rng, &refused);
        for _ in 0..rng.gen_range(10..50) {
            // the third identity is not one of the node
            let l = if rng.gen_range(0..12) == 0 { 3 } else { rng.gen_range(1..=2) };
            let p = rng.gen_range(1..=2);
            match rng.gen_range(0..16) {
                0..=3 => {
                    let a = if rng.gen_range(0..10) == 0 { OWN } else { rng.gen_range(1..=4) };
                    let p = if rng.gen_range(0..10) == 0 { 0 } else { p };
                    env.add(l, p, a, rng.gen_range(1..=3));
                }
                4 | 5 => env.remove(l, p),
                6..=8 => {
                    let list = *pick(rng, &["good", "good", "good", "eternal", "expired", "future", "empty"]);
                    let a = if rng.gen_range(0..12) == 0 { OWN } else { rng.gen_range(0..=4) };
                    env.packet(rng, l, p, a, list).await
                }
                9 | 10 => env.channel(rng, l, p, rng_bool(l, p)).await,
                11 | 12 => env.send(rng, l, p).await,
                13 if l < 3 => env.matching(l),
                _ if l < 3 => env.establish(rng, l, p).await,
                _ => {}
            }
        }
        probe(&mut env, rng).await;
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A08");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(700, 20_000));
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(300, 5000) {
        random(&mut rng);
    }
}
