//! A node with two identities and three scripted peers: everything that happens to a
//! pair (identity, peer) is done here and logged (A01, A03, A07, A12)

use std::collections::HashMap;
use std::net::SocketAddrV4;
use std::sync::Arc;

use everscale_crypto::ed25519::KeyPair;
use everscale_network::adnl::{NewPeerContext, NodeOptions};
use everscale_network::proto::adnl::Pong;
use everscale_network::proto::rpc::AdnlPing;
use rand::Rng;

use crate::core::*;
use crate::wire::*;

pub const NL: usize = 2;
pub const NP: usize = 3;

pub fn address(a: usize) -> SocketAddrV4 {
    addr(20 + a as u8, 2000 + a as u16)
}

fn address_index(a: SocketAddrV4) -> usize {
    (1..9).find(|i| address(*i) == a).unwrap_or(99)
}

const CUSTOM: u32 = 0x0c0c_5501;

fn custom(n: u32) -> Vec<u8> {
    let mut v = CUSTOM.to_le_bytes().to_vec();
    v.extend_from_slice(&n.to_le_bytes());
    v
}

/// dates are logged as seconds since BASE - 100000, 0 is "none"
pub fn date_out(d: u32) -> i64 {
    if d == 0 {
        0
    } else {
        rel(d) + 100_000
    }
}

pub fn date_in(d: i64) -> u32 {
    if d == 0 {
        0
    } else {
        (BASE as i64 + d - 100_000) as u32
    }
}

pub fn now_date() -> i64 {
    date_out(unix_now())
}

/// A message of the trace
#[derive(Clone, Debug, PartialEq)]
pub struct M(pub &'static str, pub i64, pub i64, pub i64);

impl M {
    fn json(&self) -> Value {
        json!([self.0, self.1, self.2, self.3])
    }
}

/// A packet to be made (fields as in specs/Adnl.tla)
#[derive(Clone, Debug)]
pub struct Pkt {
    /// 0: an identity the node does not have
    pub l: usize,
    pub p: usize,
    pub tr: &'static str,
    pub mk: usize,
    pub pk: usize,
    pub altered: bool,
    /// altered by leaving only so many bytes
    pub cut: Option<usize>,
    pub ver: i64,
    pub from: &'static str,
    pub short: &'static str,
    pub sig: &'static str,
    pub list: usize,
    pub lgood: bool,
    pub src: i64,
    pub dst: i64,
    pub seqno: i64,
    pub confirm: i64,
    pub msgs: Vec<M>,
}

impl Pkt {
    fn json(&self) -> Value {
        json!({"e": "In", "l": self.l, "p": self.p, "tr": self.tr, "mk": self.mk, "pk": self.pk,
            "altered": self.altered, "ver": self.ver, "from": self.from, "short": self.short, "sig": self.sig,
            "list": self.list, "lgood": self.lgood, "src": self.src, "dst": self.dst, "seqno": self.seqno,
            "confirm": self.confirm, "msgs": self.msgs.iter().map(M::json).collect::<Vec<_>>()})
    }
}

struct ChanRec {
    l: usize,
    p: usize,
    mk: usize,
    pk: usize,
    chan: Chan,
}

/// What a scripted peer keeps for one identity of the node
#[derive(Default, Clone)]
pub struct PairSim {
    /// own channel keys, newest last
    pub own: Vec<usize>,
    /// keys the node has shown, newest last
    pub theirs: Vec<usize>,
    /// last used sequence numbers (ordinary, priority)
    pub seqno: [i64; 2],
    /// last sequence number of the node
    pub seen: [i64; 2],
    /// incarnation of the node
    pub node_date: i64,
    /// date of the last channel offer
    pub created: i64,
}

pub struct PeerSim {
    pub me: Ident,
    pub addr: usize,
    pub date: i64,
    pub pairs: Vec<PairSim>,
}

struct Pending {
    n: u32,
    id: Option<[u8; 32]>,
    deadline: u64,
    task: tokio::task::JoinHandle<Option<Vec<u8>>>,
}

pub struct Options {
    pub history: bool,
    pub required: bool,
    pub tolerance: u32,
    pub reset: u32,
    /// the version in the packets of the node (chosen with its world)
    pub version: Option<u16>,
    /// the node prefers priority channels
    pub priority: bool,
}

impl Default for Options {
    fn default() -> Self {
        Self { history: false, required: true, tolerance: 60, reset: 30, version: None, priority: true }
    }
}

impl Options {
    pub fn json(&self) -> Value {
        json!({"history": self.history, "required": self.required, "tolerance": self.tolerance, "reset": self.reset, "priority": self.priority})
    }
}

pub struct World {
    pub node: TestNode,
    rec: Arc<Recorder>,
    pub locals: Vec<Ident>,
    foreign: Ident,
    pub peers: Vec<PeerSim>,
    /// channel keys by number - 1
    keys: Vec<[u8; 32]>,
    pairs: HashMap<usize, KeyPair>,
    chans: Vec<ChanRec>,
    options: Options,
    queries: Vec<Pending>,
    /// identifiers of the queries of both sides
    ids: HashMap<[u8; 32], u32>,
    pub n: u32,
    /// incarnation of the node
    pub started: i64,
    pub history: Vec<(Pkt, Vec<u8>, SocketAddrV4)>,
}

fn node_options(o: &Options) -> NodeOptions {
    NodeOptions {
        packet_history_enabled: o.history,
        packet_signature_required: o.required,
        clock_tolerance_sec: o.tolerance,
        channel_reset_timeout_sec: o.reset,
        version: o.version,
        force_use_priority_channels: o.priority,
        ..Default::default()
    }
}

fn start_node(locals: &[Ident], o: &Options) -> (TestNode, Arc<Recorder>) {
    let node = TestNode::create(addr(1, 100), locals, node_options(o), None);
    let rec = Arc::new(Recorder::default());
    node.adnl.add_message_subscriber(rec.clone()).unwrap();
    node.adnl.start().unwrap();
    (node, rec)
}

impl World {
    pub fn new(rng: &mut Rand, mut options: Options) -> Self {
        // (a node writes any)
        options.version = (rng.gen_range(0..4) == 0).then(|| *pick(rng, &[0, 1, 255, 256, 0x0102, u16::MAX]));
        let locals: Vec<Ident> = (0..NL).map(|_| Ident::gen(rng)).collect();
        let peers = (0..NP)
            .map(|i| PeerSim {
                me: Ident::gen(rng),
                addr: i + 1,
                date: now_date() - 1000,
                pairs: vec![PairSim::default(); NL],
            })
            .collect();
        let (node, rec) = start_node(&locals, &options);
        emit(json!({"e": "Restart", "now": now_date(), "view": view(&node, &locals, &[])}));
        Self {
            node,
            rec,
            locals,
            foreign: Ident::gen(rng),
            peers,
            keys: Vec::new(),
            pairs: HashMap::new(),
            chans: Vec::new(),
            options,
            queries: Vec::new(),
            ids: HashMap::new(),
            n: 0,
            started: now_date(),
            history: Vec::new(),
        }
    }

    pub fn pair(&mut self, l: usize, p: usize) -> &mut PairSim {
        &mut self.peers[p - 1].pairs[l - 1]
    }

    pub fn next(&mut self) -> u32 {
        self.n += 1;
        self.n
    }

    fn view(&self) -> Value {
        let ids: Vec<_> = self.peers.iter().map(|p| p.me.id).collect();
        view(&self.node, &self.locals, &ids)
    }

    fn key_index(&mut self, key: [u8; 32]) -> usize {
        match self.keys.iter().position(|k| *k == key) {
            Some(i) => i + 1,
            None => {
                self.keys.push(key);
                self.keys.len()
            }
        }
    }

    /// A new channel key of a peer
    pub fn new_key(&mut self, rng: &mut Rand, l: usize, p: usize) -> usize {
        let pair = keypair(rng);
        let i = self.key_index(*pair.public_key.as_bytes());
        self.pairs.insert(i, pair);
        self.pair(l, p).own.push(i);
        for mk in self.pair(l, p).theirs.clone() {
            self.make_chan(l, p, mk, i);
        }
        i
    }

    fn make_chan(&mut self, l: usize, p: usize, mk: usize, pk: usize) {
        if self.chans.iter().any(|c| (c.l, c.p, c.mk, c.pk) == (l, p, mk, pk)) {
            return;
        }
        let Some(theirs) = everscale_crypto::ed25519::PublicKey::from_bytes(self.keys[mk - 1]) else { return };
        let chan = chan(&self.peers[p - 1].me.id, &self.locals[l - 1].id, &self.pairs[&pk], &theirs);
        self.chans.push(ChanRec { l, p, mk, pk, chan });
    }

    /// Key of the node for this pair becomes known
    fn learn_key(&mut self, l: usize, p: usize, key: [u8; 32]) -> usize {
        let mk = self.key_index(key);
        if !self.pair(l, p).theirs.contains(&mk) {
            self.pair(l, p).theirs.push(mk);
            for pk in self.pair(l, p).own.clone() {
                self.make_chan(l, p, mk, pk);
            }
        }
        mk
    }

    /// Keys of the newest channel of the pair
    pub fn newest(&mut self, l: usize, p: usize) -> Option<(usize, usize)> {
        let pair = self.pair(l, p);
        Some((*pair.theirs.last()?, *pair.own.last()?))
    }

    /// Keys of the channel of the last packet accepted in a channel, if any
    pub fn in_use(&mut self, l: usize, p: usize) -> Option<(usize, usize)> {
        let pair = self.pair(l, p);
        let mk = *pair.theirs.last()?;
        let own = pair.own.clone();
        let offered = self.history.iter().rev().find_map(|(k, ..)| {
            (k.l == l && k.p == p).then(|| k.msgs.iter().find(|m| m.0 == "Create").map(|m| m.1 as usize)).flatten()
        })?;
        own.contains(&offered).then_some((mk, offered))
    }

    /// Keys of any channel of the pair
    pub fn old_channel(&self, rng: &mut Rand, l: usize, p: usize) -> Option<(usize, usize)> {
        let all: Vec<_> = self.chans.iter().filter(|c| c.l == l && c.p == p).map(|c| (c.mk, c.pk)).collect();
        (!all.is_empty()).then(|| *pick(rng, &all))
    }

    /// What the packets of the node say
    fn outgoing(&mut self) -> Vec<Value> {
        let mut res = Vec::new();
        for (data, to) in self.node.sent() {
            let mut found = None;
            'hs: for p in 1..=NP {
                if let Some(o) = read_handshake(&self.peers[p - 1].me, &data) {
                    let l = self.locals.iter().position(|l| l.id == o.from).map(|l| l + 1).unwrap_or(0);
                    found = Some((l, p, "hs", 0, 0, o));
                    break 'hs;
                }
            }
            if found.is_none() {
                'ch: for c in &self.chans {
                    for (kind, s) in [("ord", &c.chan.in_ord), ("pri", &c.chan.in_pri)] {
                        if let Some((version, raw)) = open_channel(s, &data) {
                            if let Some((body, _)) = Body::parse(&raw) {
                                let o = Opened { kind, chan: 0, version, body, from: self.locals[c.l - 1].id, signed: false };
                                found = Some((c.l, c.p, kind, c.mk, c.pk, o));
                                break 'ch;
                            }
                        }
                    }
                }
            }
            let Some((l, p, tr, mk, pk, o)) = found else {
                res.push(json!({"l": 0, "p": 0, "to": address_index(to), "tr": "?", "mk": 0, "pk": 0, "seqno": 0,
                    "confirm": 0, "src": -1, "dst": -1, "msgs": [], "sound": false}));
                continue;
            };
            let b = &o.body;
            let mut sound = l > 0
                && o.version == self.options.version
                && b.from_short.is_none()
                && b.address.map(|a| a.address.map(|a| (a.ip, a.port)) == Some((u32::from(*self.node.addr.ip()), self.node.addr.port() as u32)) && (a.expire_at == 0 || a.expire_at > unix_now())).unwrap_or(false)
                && b.seqno.is_some()
                && b.confirm_seqno.is_some();
            sound &= match tr {
                "hs" => b.from.is_some() && o.signed && b.reinit.is_some(),
                _ => b.from.is_none() && b.reinit.is_none() && b.signature.is_none(),
            };
            let mut msgs = Vec::new();
            for m in b.messages.clone() {
                msgs.push(self.describe(l, p, &m, &mut sound));
            }
            let (src, dst) = b.reinit.map(|(a, b)| (date_out(a), date_out(b))).unwrap_or((-1, -1));
            let i = (tr == "pri") as usize;
            if l > 0 {
                let pair = self.pair(l, p);
                pair.seen[i] = b.seqno.unwrap_or_default() as i64;
                if src > 0 {
                    pair.node_date = src;
                }
            }
            res.push(json!({"l": l, "p": p, "to": address_index(to), "tr": tr, "mk": mk, "pk": pk,
                "seqno": o.body.seqno.unwrap_or_default() as i64, "confirm": o.body.confirm_seqno.unwrap_or_default() as i64,
                "src": src, "dst": dst, "msgs": msgs.iter().map(M::json).collect::<Vec<_>>(), "sound": sound}));
        }
        res
    }

    fn describe(&mut self, l: usize, p: usize, m: &Msg, sound: &mut bool) -> M {
        match m {
            Msg::Nop => M("Nop", 0, 0, 0),
            Msg::Create { key, date } if l > 0 => M("Create", self.learn_key(l, p, *key) as i64, date_out(*date), 0),
            Msg::Confirm { key, peer_key, date } if l > 0 => {
                let mk = self.learn_key(l, p, *key);
                M("Confirm", mk as i64, self.key_index(*peer_key) as i64, date_out(*date))
            }
            Msg::Custom(d) => {
                let n = d.get(4..8).map(|b| u32::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
                *sound &= custom(n) == *d;
                M("Custom", n as i64, 0, 0)
            }
            Msg::Query(id, d) => {
                let n = tl_proto::deserialize::<AdnlPing>(d).map(|p| p.value as u32).unwrap_or(0);
                if let Some(q) = self.queries.iter_mut().find(|q| q.n == n && q.id.is_none()) {
                    q.id = Some(*id);
                }
                self.ids.insert(*id, n);
                *sound &= n > 0;
                M("Query", n as i64, 0, 0)
            }
            Msg::Answer(id, d) => {
                let n = self.ids.get(id).copied().unwrap_or(0);
                *sound &= matches!(tl_proto::deserialize::<Pong>(d), Ok(p) if p.value == n as u64);
                M("Answer", n as i64, 0, 0)
            }
            m => {
                *sound = false;
                M(m.kind(), 0, 0, 0)
            }
        }
    }

    fn deliveries(&self) -> Vec<Value> {
        self.rec
            .take()
            .into_iter()
            .map(|(local, peer, data)| {
                let l = self.locals.iter().position(|l| l.id == local).map(|l| l + 1).unwrap_or(0);
                let p = self.peers.iter().position(|p| p.me.id == peer).map(|p| p + 1).unwrap_or(0);
                let n = data.get(4..8).map(|b| u32::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
                json!([l, p, if custom(n) == data { n } else { 0 }])
            })
            .collect()
    }

    /// Time passes up to the specified moment; queries fail on the way
    pub async fn until(&mut self, ms: u64) {
        loop {
            let next = self.queries.iter().map(|q| q.deadline).min();
            match next {
                Some(d) if d <= ms => {
                    let target = d + 3;
                    let now = elapsed_ms();
                    if target > now {
                        sleep_ms(target - now).await;
                    }
                    let i = self.queries.iter().position(|q| q.deadline == d).unwrap();
                    let q = self.queries.remove(i);
                    let failed = q.task.is_finished() && matches!(q.task.await, Ok(None));
                    emit(json!({"e": "QueryFailed", "n": q.n, "now": now_date(), "failed": failed, "view": self.view()}));
                }
                _ => break,
            }
        }
        let now = elapsed_ms();
        if ms > now {
            sleep_ms(ms - now).await;
        }
    }

    pub async fn pass(&mut self, sec: u64) {
        let t = elapsed_ms() / 1000 * 1000 + sec * 1000 + 50;
        self.until(t.max(elapsed_ms())).await;
    }

    /// Events happen in the first half of a second
    async fn align(&mut self) {
        if elapsed_ms() % 1000 > 400 {
            self.pass(1).await;
        }
    }

    pub fn add(&mut self, l: usize, p: usize, a: usize) {
        let me = &self.peers[p - 1].me;
        let ok = self
            .node
            .adnl
            .add_peer(NewPeerContext::Dht, &self.locals[l - 1].id, &me.id, address(a), me.full)
            .unwrap_or(false);
        emit(json!({"e": "Add", "l": l, "p": p, "a": a, "ok": ok, "view": self.view()}));
    }

    pub fn remove(&mut self, l: usize, p: usize) {
        self.node.adnl.remove_peer(&self.locals[l - 1].id, &self.peers[p - 1].me.id).ok();
        emit(json!({"e": "Remove", "l": l, "p": p, "view": self.view()}));
    }

    pub async fn restart(&mut self) {
        self.align().await;
        for q in self.queries.drain(..) {
            q.task.abort();
        }
        self.node.adnl.shutdown();
        settle().await;
        let (node, rec) = start_node(&self.locals, &self.options);
        self.node = node;
        self.rec = rec;
        self.started = now_date();
        emit(json!({"e": "Restart", "now": now_date(), "view": self.view()}));
    }

    pub async fn send(&mut self, l: usize, p: usize) {
        self.align().await;
        let n = self.next();
        let ok = self.node.adnl.send_custom_message(&self.locals[l - 1].id, &self.peers[p - 1].me.id, &custom(n)).is_ok();
        settle().await;
        let out = self.outgoing();
        emit(json!({"e": "Send", "l": l, "p": p, "n": n, "ok": ok, "now": now_date(), "out": out,
            "delivered": self.deliveries(), "view": self.view()}));
    }

    /// A query of the node that times out after so many seconds
    pub async fn query(&mut self, l: usize, p: usize, sec: u64) -> u32 {
        self.align().await;
        let n = self.next();
        let mut deadline = elapsed_ms() / 1000 * 1000 + sec * 1000 + 500;
        while self.queries.iter().any(|q| q.deadline.abs_diff(deadline) < 8) {
            deadline += 8;
        }
        let (adnl, local, peer) = (self.node.adnl.clone(), self.locals[l - 1].id, self.peers[p - 1].me.id);
        let timeout = deadline - elapsed_ms();
        let sent = Arc::new(std::sync::Mutex::new(None));
        let result = sent.clone();
        let task = tokio::spawn(async move {
            let r = adnl.query_raw(&local, &peer, tl_proto::serialize(AdnlPing { value: n as u64 }).into(), Some(timeout)).await;
            *result.lock().unwrap() = Some(r.is_ok());
            r.ok().flatten()
        });
        self.queries.push(Pending { n, id: None, deadline, task });
        settle().await;
        let ok = sent.lock().unwrap().unwrap_or(true);
        let out = self.outgoing();
        if !ok {
            self.queries.pop();
        }
        emit(json!({"e": "Query", "l": l, "p": p, "n": n, "ok": ok, "now": now_date(), "out": out,
            "delivered": self.deliveries(), "view": self.view()}));
        n
    }

    /// Numbers of the pending queries
    pub fn pending(&self) -> Vec<u32> {
        self.queries.iter().map(|q| q.n).collect()
    }

    fn message(&mut self, rng: &mut Rand, m: &M) -> Msg {
        match *m {
            M("Custom", n, ..) => Msg::Custom(custom(n as u32)),
            M("Query", n, ..) => {
                let id: [u8; 32] = rng.gen();
                self.ids.insert(id, n as u32);
                Msg::Query(id, tl_proto::serialize(AdnlPing { value: n as u64 }))
            }
            M("Answer", n, ..) => {
                let id = self.queries.iter().find(|q| q.n as i64 == n).and_then(|q| q.id).unwrap_or_else(|| rng.gen());
                Msg::Answer(id, tl_proto::serialize(Pong { value: n as u64 }))
            }
            M("Create", k, d, _) => Msg::Create { key: self.keys[k as usize - 1], date: date_in(d) },
            M("Confirm", k, pk, d) => Msg::Confirm {
                key: self.keys[k as usize - 1],
                peer_key: if pk > 0 { self.keys[pk as usize - 1] } else { rng.gen() },
                date: date_in(d),
            },
            _ => Msg::Nop,
        }
    }

    /// Makes the packet
    fn build(&mut self, rng: &mut Rand, k: &Pkt) -> Vec<u8> {
        let peer = self.peers[k.p - 1].me.clone();
        let other = self.peers[k.p % NP].me.clone();
        let local = if k.l > 0 { self.locals[k.l - 1].clone() } else { self.foreign.clone() };
        let messages: Vec<Msg> = k.msgs.clone().iter().map(|m| self.message(rng, m)).collect();
        let now = unix_now();
        let mut address = (k.list > 0).then(|| address_list(address(k.list), now - 5, if rng.gen() { now + 1000 } else { 0 }));
        if let Some(a) = address.as_mut().filter(|_| !k.lgood) {
            match rng.gen_range(0..3) {
                0 => a.expire_at = now - 10,
                1 => a.reinit_date = now + self.options.tolerance + 100,
                _ => a.address = None,
            }
        }
        let body = Body {
            from: (k.from != "none").then(|| *peer.full.public_key().as_bytes()),
            from_short: match k.short {
                "match" => Some(*peer.id.as_slice()),
                // (an unsigned packet that only names another peer is one of that peer)
                "mismatch" if k.from == "none" && k.sig == "none" => Some(rng.gen()),
                "mismatch" => Some(if rng.gen() { *other.id.as_slice() } else { rng.gen() }),
                _ => None,
            },
            messages,
            address,
            seqno: (k.seqno >= 0).then_some(k.seqno as u64),
            confirm_seqno: (k.confirm >= 0).then_some(k.confirm as u64),
            reinit: (k.src >= 0).then(|| (date_in(k.src), date_in(k.dst))),
            ..Default::default()
        }
        .with_extra(rng);
        let raw = match k.sig {
            "good" => body.clone().signed(rng, &peer),
            "none" => body.to_bytes(rng),
            _ => match rng.gen_range(0..4) {
                0 if k.from != "none" || k.short != "mismatch" => body.clone().signed(rng, &other),
                0 =>  body.clone().signed(rng, &self.foreign.clone()),
                1 => Body { signature: Some(bytes(rng, 64)), ..body.clone() }.to_bytes(rng),
                2 => Body { signature: Some(vec![0; 64]), ..body.clone() }.to_bytes(rng),
                // signed, then changed
                _ => {
                    let mut raw = body.clone().signed(rng, &peer);
                    let i = 5 + rng.gen_range(0..3);
                    raw[i] ^= 1 << rng.gen_range(0..8);
                    raw
                }
            },
        };
        let raw = if k.from == "bad" { bad_source(raw) } else { raw };
        let version = (k.ver >= 0).then_some(k.ver as u16);
        let mut data = match k.tr {
            "hs" => {
                // for another identity
                let wrong = k.altered && k.cut.is_none() && rng.gen_range(0..6) == 0;
                let mut d = seal_handshake(rng, if wrong { &self.foreign.full } else { &local.full }, &raw, version);
                if wrong {
                    d[..32].copy_from_slice(local.id.as_slice());
                    return d;
                }
                d
            }
            tr => {
                let c = self.chans.iter().find(|c| (c.l, c.p, c.mk, c.pk) == (k.l, k.p, k.mk, k.pk)).expect("channel");
                let (right, wrong) = if tr == "pri" { (&c.chan.out_pri, &c.chan.out_ord) } else { (&c.chan.out_ord, &c.chan.out_pri) };
                if k.altered && k.cut.is_none() {
                    match rng.gen_range(0..8) {
                        // the key of the other kind
                        0 => return seal_channel(&Side { id: right.id, secret: wrong.secret }, &raw, version),
                        // a packet of the node back to it
                        1 => return seal_channel(&c.chan.in_ord, &raw, version),
                        _ => {}
                    }
                }
                seal_channel(right, &raw, version)
            }
        };
        if let Some(n) = k.cut {
            data.truncate(n.min(data.len() - 1));
        } else if k.altered {
            match rng.gen_range(0..6) {
                // (within the heads of packets, of which there are several, or anywhere)
                0 => {
                    let n = match rng.gen_range(0..4) {
                        0 => *pick(rng, &[31, 32, 33, 63, 64, 65, 66, 67, 68, 69, 95, 96, 97, 98, 99, 100, 101]),
                        1 => rng.gen_range(1..104),
                        _ => rng.gen_range(1..data.len()),
                    };
                    data.truncate(n.min(data.len() - 1));
                }
                1 => data.extend_from_slice(&bytes(rng, 4)),
                2 => {
                    // only the contents
                    let i = rng.gen_range(64..data.len());
                    data[i] ^= 1 << rng.gen_range(0..8);
                }
                _ => {
                    let i = rng.gen_range(0..data.len());
                    // the sign of the ephemeral key does not matter
                    let bit = if i == 63 { rng.gen_range(0..7) } else { rng.gen_range(0..8) };
                    data[i] ^= 1 << bit;
                }
            }
        }
        data
    }

    async fn deliver(&mut self, k: &Pkt, data: Vec<u8>, from: SocketAddrV4) {
        self.align().await;
        let now = now_date();
        self.node.inject(data, from);
        settle().await;
        let out = self.outgoing();
        let mut answered = Vec::new();
        let mut i = 0;
        while i < self.queries.len() {
            if self.queries[i].task.is_finished() {
                let q = self.queries.remove(i);
                let right = match q.task.await {
                    Ok(Some(d)) => matches!(tl_proto::deserialize::<Pong>(&d), Ok(p) if p.value == q.n as u64),
                    _ => false,
                };
                answered.push(if right { q.n as i64 } else { -(q.n as i64) });
            } else {
                i += 1;
            }
        }
        let mut ev = k.json();
        let extra = json!({"now": now, "out": out, "delivered": self.deliveries(), "answered": answered, "view": self.view()});
        ev.as_object_mut().unwrap().extend(extra.as_object().unwrap().clone());
        emit(ev);
    }

    pub async fn packet(&mut self, rng: &mut Rand, k: Pkt) {
        self.align().await;
        let data = self.build(rng, &k);
        let from = address(rng.gen_range(1..5));
        self.history.push((k.clone(), data.clone(), from));
        self.deliver(&k, data, from).await;
    }

    /// A packet seen before comes again, maybe changed
    pub async fn replay(&mut self, rng: &mut Rand, i: usize, altered: bool) {
        let (mut k, mut data, from) = self.history[i].clone();
        if altered && !k.altered {
            k.altered = true;
            let i = rng.gen_range(0..data.len());
            let bit = if i == 63 { rng.gen_range(0..7) } else { rng.gen_range(0..8) };
            data[i] ^= 1 << bit;
        }
        self.deliver(&k, data, from).await;
    }

    /// A well-formed packet of the peer: a handshake or in the newest channel
    pub fn sound(&mut self, l: usize, p: usize, tr: &'static str, msgs: Vec<M>) -> Pkt {
        let chan = if tr == "hs" { None } else { self.newest(l, p) };
        let (tr, (mk, pk)) = match chan {
            Some(c) => (tr, c),
            None => ("hs", (0, 0)),
        };
        let (date, addr) = (self.peers[p - 1].date, self.peers[p - 1].addr);
        let i = (tr == "pri") as usize;
        let pair = self.pair(l, p);
        pair.seqno[i] += 1;
        let hs = tr == "hs";
        Pkt {
            l,
            p,
            tr,
            mk,
            pk,
            altered: false,
            cut: None,
            ver: -1,
            from: if hs { "full" } else { "none" },
            short: "none",
            sig: if hs { "good" } else { "none" },
            list: addr,
            lgood: true,
            src: if hs { date } else { -1 },
            dst: if hs { pair.node_date } else { -1 },
            seqno: pair.seqno[i],
            confirm: 0,
            msgs,
        }
    }

    /// The peer makes a channel: offers, is confirmed, and uses it
    pub async fn establish(&mut self, rng: &mut Rand, l: usize, p: usize) {
        self.pass(1).await;
        let key = self.new_key(rng, l, p);
        let k = self.sound(l, p, "hs", vec![M("Create", key as i64, now_date(), 0)]);
        self.packet(rng, k).await;
        self.send(l, p).await;
        let k = self.sound(l, p, "ord", vec![M("Nop", 0, 0, 0)]);
        self.packet(rng, k).await;
    }

    pub async fn offer(&mut self, rng: &mut Rand, l: usize, p: usize) {
        let key = self.new_key(rng, l, p);
        let k = self.sound(l, p, "hs", vec![M("Create", key as i64, now_date(), 0)]);
        self.packet(rng, k).await;
    }

    /// Both directions of every pair are tried
    pub async fn probe(&mut self, rng: &mut Rand) {
        for l in 1..=NL {
            for p in 1..=NP {
                self.probe_pair(rng, l, p).await;
            }
        }
    }

    pub async fn probe_pair(&mut self, rng: &mut Rand, l: usize, p: usize) {
        for tr in ["ord", "pri", "hs"] {
            let n = self.next();
            let k = self.sound(l, p, tr, vec![M("Custom", n as i64, 0, 0)]);
            self.packet(rng, k).await;
        }
        self.send(l, p).await;
    }

    /// The channel of the pair is lost: queries in it fail until it is dropped
    pub async fn lose(&mut self, l: usize, p: usize, reset: u64) {
        for _ in 0..2 {
            self.query(l, p, 1).await;
            self.pass(reset + 2).await;
        }
    }
}

fn view(node: &TestNode, locals: &[Ident], peers: &[everscale_network::adnl::NodeIdShort]) -> Value {
    let m = node.adnl.metrics();
    let addrs: Vec<Vec<usize>> = locals
        .iter()
        .map(|l| match peers.is_empty() {
            true => vec![0; NP],
            false => peers.iter().map(|p| node.adnl.get_peer_address(&l.id, p).map(address_index).unwrap_or(0)).collect(),
        })
        .collect();
    json!({"addrs": addrs, "peers": m.peer_count, "chans": m.channels_by_peers_len, "ids": m.channels_by_id_len,
        "queries": m.query_count})
}

/// Another kind of key in place of the source: 4 + 4 bytes of tags precede it
fn bad_source(mut raw: Vec<u8>) -> Vec<u8> {
    // constructor, length-prefixed random bytes (4 or 16), flags
    let o = &mut 4usize;
    <&[u8] as tl_proto::TlRead>::read_from(&raw, o).ok();
    let at = *o + 4;
    if at + 4 <= raw.len() {
        let tag = tl_proto::serialize(everscale_crypto::tl::PublicKey::Aes { key: &[0; 32] });
        raw[at..at + 4].copy_from_slice(&tag[..4]);
    }
    raw
}
