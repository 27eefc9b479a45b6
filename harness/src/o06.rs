//! O06: several overlays on one node

use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use everscale_network::adnl::{NodeIdShort, NodeOptions};
use everscale_network::overlay::{self, IdShort, OverlayOptions};
use everscale_network::{proto, rldp, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::dht::*;
use crate::ov::*;
use crate::r04::{symbols, unpack, Assembly};
use crate::rldp::{answer_message, negate, query_message, read_answer, read_query, Fec, Part};
use crate::wire::*;
use crate::Ctx;

type Calls = Arc<Mutex<Vec<(usize, NodeIdShort, NodeIdShort, u32, Vec<u8>)>>>;

const REPLIES: &[&str] = &["answer", "silent", "reject", "fail"];

/// An application behind an overlay. The fifth byte of a query says what to do
struct App {
    h: usize,
    calls: Calls,
}

#[async_trait::async_trait]
impl QuerySubscriber for App {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        self.calls.lock().unwrap().push((self.h, *ctx.local_id, *ctx.peer_id, constructor, query.to_vec()));
        match query.get(4) {
            Some(0) => Ok(QueryConsumingResult::Consumed(Some(answer(self.h, &query)))),
            Some(1) => Ok(QueryConsumingResult::Consumed(None)),
            Some(2) => Ok(QueryConsumingResult::Rejected(query)),
            _ => anyhow::bail!("failed"),
        }
    }
}

fn answer(h: usize, query: &[u8]) -> Vec<u8> {
    let mut a = vec![h as u8];
    a.extend_from_slice(&sha(query));
    a.push(0);
    a
}

const NO: usize = 3;

struct Env {
    node: TestNode,
    overlays: Arc<overlay::Node>,
    rldp: Arc<rldp::Node>,
    ids: Vec<Overlay>,
    ps: Vec<Puppet>,
    made: HashMap<usize, Arc<overlay::Overlay>>,
    given: Arc<Mutex<Vec<(usize, Vec<u8>)>>>,
    calls: Calls,
    seen: Seen,
    contents: Vec<Vec<u8>>,
    src: Ident,
    date: u32,
}

impl Env {
    async fn new(rng: &mut Rand) -> Self {
        let idents = [Ident::gen(rng), Ident::gen(rng)];
        let mut node = TestNode::create(addr(1, 101), &idents, NodeOptions::default(), None);
        let overlays = overlay::Node::new(node.adnl.clone(), 0).unwrap();
        let options = rldp::NodeOptions { query_max_timeout_ms: 800, ..Default::default() };
        let rldp = rldp::Node::new(node.adnl.clone(), vec![overlays.query_subscriber()], options).unwrap();
        node.adnl.start().unwrap();
        let mut ps = Vec::new();
        for i in 0..4 {
            let mut p = Puppet::new(rng, addr(10 + i, 1000));
            for l in &idents {
                if rng.gen_range(0..3) > 0 {
                    p.establish(rng, &mut node, l).await;
                } else {
                    p.hello(rng, &node, l).await;
                }
            }
            ps.push(p);
        }
        node.sent();
        // (the first ones are small, the others have several symbols)
        let contents = (0..6).map(|i| bytes(rng, if i < 3 { 40 } else { 500 * i - 500 })).collect();
        Self {
            node,
            overlays,
            rldp,
            ids: (0..NO).map(|_| Overlay::gen(rng)).collect(),
            ps,
            made: HashMap::new(),
            given: Default::default(),
            calls: Default::default(),
            seen: Default::default(),
            contents,
            src: Ident::gen(rng),
            date: unix_now(),
        }
    }

    fn short(&self, o: usize) -> IdShort {
        IdShort::from(self.ids[o - 1].id)
    }

    /// The overlay with this short id, if it is one of ours
    fn overlay_of(&self, data: &[u8], query: bool) -> Option<(usize, Vec<u8>)> {
        (1..=NO).find_map(|o| {
            let overlay = &self.ids[o - 1].id;
            let prefix = if query {
                tl_proto::serialize(proto::rpc::OverlayQuery { overlay })
            } else {
                tl_proto::serialize(proto::overlay::Message { overlay })
            };
            Some((o, data.strip_prefix(prefix.as_slice())?.to_vec()))
        })
    }

    fn query_prefix(&self, o: usize) -> Vec<u8> {
        tl_proto::serialize(proto::rpc::OverlayQuery { overlay: &self.ids[o - 1].id })
    }

    /// (there is one identity for public overlays, and one for the private ones)
    fn kind_of(&self, id: &NodeIdShort) -> &'static str {
        if *id == self.node.idents[0].id {
            "public"
        } else if *id == self.node.idents[1].id {
            "private"
        } else {
            "nobody"
        }
    }

    /// What has happened, apart from packets for peers
    fn add_seen(&self, e: Value, asked: Option<(&NodeIdShort, usize, &[u8])>) {
        let mut e = e;
        let given: Vec<_> = std::mem::take(&mut *self.given.lock().unwrap());
        let given: Vec<_> = given
            .iter()
            .map(|(o, d)| json!([o, self.contents.iter().position(|c| c == d).map(|c| c + 1).unwrap_or(0)]))
            .collect();
        let calls: Vec<_> = std::mem::take(&mut *self.calls.lock().unwrap());
        let calls: Vec<_> = calls
            .iter()
            .map(|(h, local, peer, ctor, q)| {
                let same = asked.map_or(false, |(l, p, d)| {
                    l == local && self.ps[p - 1].me.id == *peer && d == q && d[..4] == ctor.to_le_bytes()
                });
                json!([h, same])
            })
            .collect();
        let num = |id: &IdShort| (1..=NO).find(|o| self.short(*o) == *id).unwrap_or(99);
        let ids: Vec<_> = self.overlays.metrics().map(|(id, _)| num(&id)).collect();
        let found: Vec<_> = (1..=NO).filter(|o| self.overlays.get_overlay(&self.short(*o)).is_ok()).collect();
        let x = e.as_object_mut().unwrap();
        x.insert("given".into(), json!(given));
        x.insert("calls".into(), json!(calls));
        x.insert("ids".into(), json!(ids));
        x.insert("found".into(), json!(found));
        x.entry("relayed").or_insert(json!([]));
        emit(e);
    }

    async fn make(&mut self, rng: &mut Rand, o: usize, kind: &str) {
        let options = OverlayOptions {
            broadcast_target_count: 100,
            secondary_broadcast_target_count: 100,
            secondary_fec_broadcast_target_count: 100,
            ..Default::default()
        };
        let mut neigh: Vec<usize> = (1..=self.ps.len()).filter(|_| rng.gen()).collect();
        neigh.shuffle(rng);
        let id = self.short(o);
        let before = self.made.get(&o).map(|ov| ov.metrics().known_peers);
        let (ov, made) = if kind == "public" {
            neigh.clear();
            self.overlays.add_public_overlay(&id, options)
        } else {
            let peers: Vec<_> = neigh.iter().map(|p| self.ps[p - 1].me.id).collect();
            self.overlays.add_private_overlay(&id, self.node.adnl.key_by_tag(1).unwrap().clone(), &peers, options)
        };
        let was = self.kind_of(ov.overlay_key().id());
        let same = match self.made.get(&o) {
            Some(first) => Arc::ptr_eq(first, &ov) && before == Some(ov.metrics().known_peers),
            None => {
                let (queue, from) = (self.given.clone(), ov.clone());
                tokio::spawn(async move {
                    loop {
                        let b = from.wait_for_broadcast().await;
                        queue.lock().unwrap().push((o, b.data));
                    }
                });
                self.made.insert(o, ov.clone());
                *ov.id() == id
            }
        };
        let same = same && self.overlays.get_overlay(&id).map_or(false, |x| Arc::ptr_eq(&x, &ov));
        settle().await;
        self.add_seen(json!({"e": "Make", "o": o, "kind": kind, "neigh": neigh, "made": made, "same": same, "was": was}), None);
    }

    async fn sub(&mut self, o: usize, h: usize) {
        let app = Arc::new(App { h, calls: self.calls.clone() });
        let done = self.overlays.add_overlay_subscriber(self.short(o), app);
        settle().await;
        self.add_seen(json!({"e": "Sub", "o": o, "h": h, "done": done}), None);
    }

    async fn join(&mut self, o: usize, p: usize) {
        let Some(ov) = self.made.get(&o) else { return };
        if self.kind_of(ov.overlay_key().id()) != "public" {
            return;
        }
        let entry = self.ids[o - 1].member(&self.ps[p - 1].me, unix_now());
        ov.add_public_peer(&self.node.adnl, self.ps[p - 1].addr, entry.as_equivalent_ref()).unwrap();
        settle().await;
        self.add_seen(json!({"e": "Join", "o": o, "p": p}), None);
    }

    fn inject(&mut self, rng: &mut Rand, from: usize, local: usize, m: Msg) {
        let msgs = if m.to_bytes().len() > 1000 { Puppet::parts(&m, 900) } else { vec![m] };
        let kind = rng.gen_range(0..3);
        let ident = self.node.idents[local].clone();
        let p = &mut self.ps[from - 1];
        for m in msgs {
            let packet = p.packet(rng, &ident, vec![m], kind);
            self.node.inject(packet, p.addr);
        }
    }

    fn local_of(&self, rng: &mut Rand, o: usize) -> usize {
        match self.made.get(&o) {
            Some(ov) if rng.gen_range(0..5) > 0 => (self.kind_of(ov.overlay_key().id()) == "private") as usize,
            _ => rng.gen_range(0..2),
        }
    }

    /// A packet of a broadcast in the overlay
    fn packet(&self, c: usize, i: Option<u32>) -> (Bcast, u32) {
        let data = &self.contents[c - 1];
        let (fec, payload, k) = match i {
            None => (None, data.clone(), 0),
            Some(i) => {
                let fec = Fec::new(data, 768);
                (Some((sha(data), data.len() as u32, i, fec.params)), fec.symbol(i), fec.count())
            }
        };
        let mut b = Bcast {
            src: ed_key(&self.src),
            certificate: false,
            flags: ANY_SENDER,
            data: payload.clone(),
            date: self.date,
            signature: Vec::new(),
            fec,
            tail: Vec::new(),
        };
        b.sign(&self.src, &payload);
        (b, k)
    }

    async fn message(&mut self, rng: &mut Rand, o: usize, kind: &str, c: usize, i: Option<u32>) {
        let from = rng.gen_range(1..=self.ps.len());
        let local = self.local_of(rng, o);
        let (b, k) = self.packet(c, i);
        let prefix = tl_proto::serialize(proto::overlay::Message { overlay: &self.ids[o - 1].id });
        let mut data = b.to_bytes(&self.ids[o - 1].id);
        if kind == "junk" {
            let body = data[prefix.len()..].to_vec();
            data = match rng.gen_range(0..7) {
                // not for an overlay
                0 => body,
                1 => [tl_proto::serialize(proto::overlay::Message { overlay: &rng.gen() }), body].concat(),
                2 => data[..rng.gen_range(0..data.len())].to_vec(),
                3 => [prefix, tl_proto::serialize(proto::overlay::Broadcast::Unicast { data: &body })].concat(),
                4 => [prefix, tl_proto::serialize(proto::overlay::Broadcast::BroadcastNotFound)].concat(),
                5 => [prefix, tl_proto::serialize(proto::overlay::Broadcast::FecCompleted { hash: &sha(&self.contents[c - 1]) })].concat(),
                _ => [self.query_prefix(o), body].concat(),
            };
        }
        self.inject(rng, from, local, Msg::Custom(data.clone()));
        settle().await;
        let mut relayed = Vec::new();
        for (p, m) in self.seen.messages(&self.ps, &mut self.node) {
            if let Msg::Custom(d) = m {
                let to = self.overlay_of(&d, false).map(|x| x.0).unwrap_or(0);
                relayed.push(json!([to, p, d == data]));
            }
        }
        self.add_seen(
            json!({"e": "Message", "kind": kind, "o": o, "c": c, "i": i.unwrap_or(0), "k": k, "from": from, "relayed": relayed}),
            None,
        );
    }

    /// A query of a peer, and the answer to it
    async fn answer_to(&mut self, rng: &mut Rand, from: usize, local: usize, data: Vec<u8>, by_rldp: bool) -> Option<Vec<u8>> {
        self.node.sent();
        let id: [u8; 32] = rng.gen();
        if !by_rldp {
            self.inject(rng, from, local, Msg::Query(id, data));
            settle().await;
            for (i, m) in self.seen.messages(&self.ps, &mut self.node) {
                match m {
                    Msg::Answer(a, data) if i == from && a == id => return Some(data),
                    _ => {}
                }
            }
            return None;
        }
        let transfer: [u8; 32] = rng.gen();
        for part in symbols(transfer, &query_message(&id, 10_000, u32::MAX, &data)) {
            self.inject(rng, from, local, part.msg());
        }
        let mut assembly = Assembly::default();
        for _ in 0..20 {
            settle().await;
            let got = self.seen.messages(&self.ps, &mut self.node);
            let parts = got.into_iter().filter_map(|(i, m)| match m {
                Msg::Custom(d) if i == from => Part::parse(&d),
                _ => None,
            });
            if let Some((id2, message)) = assembly.add(parts.collect()) {
                self.inject(rng, from, local, Part::Complete { id: id2, part: 0 }.msg());
                settle().await;
                self.node.sent();
                return match read_answer(&message) {
                    Some((i, d)) if i == id && id2 == negate(transfer) => Some(unpack(&d)),
                    _ => Some(b"strange".to_vec()),
                };
            }
            sleep_ms(5).await;
        }
        None
    }

    async fn query(&mut self, rng: &mut Rand, o: usize, kind: &str) {
        let from = rng.gen_range(1..=self.ps.len());
        let local = self.local_of(rng, o);
        let reply = rng.gen_range(0..REPLIES.len());
        let mut app = bytes(rng, 4);
        app.push(reply as u8);
        let n = rng.gen_range(0..40);
        app.extend(bytes(rng, n));
        app.push(0);
        let peers = proto::overlay::NodesOwned { nodes: Default::default() };
        let ask = tl_proto::serialize(proto::rpc::OverlayGetRandomPeersOwned { peers });
        let prefix = self.query_prefix(o);
        let data = match kind {
            "app" => [prefix, app.clone()].concat(),
            "peers" => [prefix, ask].concat(),
            _ => match rng.gen_range(0..6) {
                // not for an overlay
                0 => app.clone(),
                1 => ask,
                // for another one
                2 => [tl_proto::serialize(proto::rpc::OverlayQuery { overlay: &rng.gen() }), app.clone()].concat(),
                3 => [tl_proto::serialize(proto::rpc::OverlayQuery { overlay: &rng.gen() }), ask].concat(),
                // incomplete
                4 => prefix[..rng.gen_range(0..=prefix.len())].to_vec(),
                _ => [prefix, ask[..rng.gen_range(4..ask.len())].to_vec()].concat(),
            },
        };
        let by_rldp = rng.gen();
        let got = self.answer_to(rng, from, local, data, by_rldp).await;
        let nodes = got.as_ref().and_then(|d| tl_proto::deserialize_as_boxed::<proto::overlay::NodesOwned>(d).ok());
        let (mut by, mut members, mut own, mut list) = (0, false, false, Vec::new());
        match (nodes, got) {
            (Some(nodes), _) => {
                members = true;
                for (i, n) in nodes.nodes.iter().enumerate() {
                    let entry = n.as_equivalent_ref();
                    let valid = self.short(o).verify_overlay_node(&entry).is_ok();
                    let p = self.ps.iter().position(|p| ed_key(&p.me) == n.id);
                    let me = self.made.get(&o).map_or(false, |ov| ov.overlay_key().full_id().as_tl().as_equivalent_owned() == n.id);
                    if i == 0 {
                        own = valid && me;
                    } else {
                        list.push(if valid { p.map(|p| p + 1).unwrap_or(99) } else { 98 });
                    }
                }
            }
            (None, Some(d)) => by = (1..4).find(|h| answer(*h, &app) == d).unwrap_or(99),
            _ => {}
        }
        let ident = self.node.idents[local].id;
        self.add_seen(
            json!({"e": "Query", "kind": kind, "o": o, "from": from, "rldp": by_rldp, "reply": REPLIES[reply], "by": by,
                "members": members, "own": own, "list": list}),
            Some((&ident, from, &app)),
        );
    }

    /// The node sends something in an overlay
    async fn send(&mut self, rng: &mut Rand, o: usize) {
        let Some(ov) = self.made.get(&o).cloned() else { return };
        let p = rng.gen_range(1..=self.ps.len());
        let peer = self.ps[p - 1].me.id;
        let how = *pick(rng, &["message", "adnl", "rldp"]);
        let len = *pick(rng, &[4, 60, 900]);
        // (of a length which is a whole number of words, and it does not look like a compressed one)
        let mut data = bytes(rng, len);
        data[len - 1] = 0;
        self.node.sent();
        let (adnl, rl, d) = (self.node.adnl.clone(), self.rldp.clone(), data.clone());
        let call = match how {
            "message" => {
                ov.send_message(&adnl, &peer, &data).unwrap();
                None
            }
            _ => Some(tokio::spawn(async move {
                let query = tl_proto::RawBytes::<tl_proto::Boxed>::new(&d);
                if how == "adnl" {
                    ov.adnl_query(&adnl, &peer, query, Some(500)).await.ok().flatten()
                } else {
                    ov.rldp_query(&rl, &peer, query, None).await.ok().and_then(|r| r.0)
                }
            })),
        };
        let reply = [bytes(rng, 32), vec![0; 4]].concat();
        let mut to = Vec::new();
        let mut assembly = Assembly::default();
        for _ in 0..5 {
            settle().await;
            let mut got = Vec::new();
            for (packet, a) in self.node.sent() {
                let Some(i) = self.ps.iter().position(|p| p.addr == a) else { continue };
                let Some(opened) = self.ps[i].open(&packet) else { continue };
                for m in opened.body.messages {
                    got.push((i + 1, opened.from, m));
                }
            }
            // (parts of an ADNL message)
            let mut parts: HashMap<[u8; 32], (usize, NodeIdShort, Vec<u8>)> = HashMap::new();
            let mut whole = Vec::new();
            for (i, from, m) in got {
                match m {
                    Msg::Part { hash, total, data, .. } => {
                        let e = parts.entry(hash).or_insert((i, from, Vec::new()));
                        e.2.extend_from_slice(&data);
                        if e.2.len() == total as usize {
                            whole.extend(Msg::parse(&e.2).map(|m| (i, from, m)));
                        }
                    }
                    m => whole.push((i, from, m)),
                }
            }
            for (i, from, m) in whole {
                let local = self.node.idents.iter().position(|x| x.id == from).unwrap_or(0);
                match m {
                    Msg::Custom(d) if how == "message" => {
                        let x = self.overlay_of(&d, false).unwrap_or_default();
                        to.push(json!([i, x.0, self.kind_of(&from), x.1 == data]));
                    }
                    Msg::Query(id, d) if how == "adnl" => {
                        let x = self.overlay_of(&d, true).unwrap_or_default();
                        to.push(json!([i, x.0, self.kind_of(&from), x.1 == data]));
                        self.inject(rng, i, local, Msg::Answer(id, reply.clone()));
                    }
                    Msg::Custom(d) if how == "rldp" => {
                        let Some(part) = Part::parse(&d) else { continue };
                        let Some((id, message)) = assembly.add(vec![part]) else { continue };
                        let Some((query_id, _, seen)) = read_query(&message) else { continue };
                        let x = self.overlay_of(&unpack(&seen), true).unwrap_or_default();
                        to.push(json!([i, x.0, self.kind_of(&from), x.1 == data]));
                        self.inject(rng, i, local, Part::Complete { id, part: 0 }.msg());
                        for part in symbols(negate(id), &answer_message(&query_id, &reply)) {
                            self.inject(rng, i, local, part.msg());
                        }
                    }
                    _ => {}
                }
            }
            sleep_ms(2).await;
        }
        let answered = match call {
            Some(call) => {
                for _ in 0..200 {
                    if call.is_finished() {
                        break;
                    }
                    sleep_ms(10).await;
                }
                call.is_finished() && call.await.ok().flatten() == Some(reply)
            }
            None => false,
        };
        self.node.sent();
        self.add_seen(json!({"e": "Send", "o": o, "p": p, "how": how, "to": to, "answered": answered}), None);
    }

    async fn random(&mut self, rng: &mut Rand) {
        let o = rng.gen_range(1..=NO);
        match rng.gen_range(0..20) {
            0 | 1 => {
                let kind = if rng.gen() { "public" } else { "private" };
                self.make(rng, o, kind).await
            }
            2 => self.sub(o, rng.gen_range(1..4)).await,
            3 | 4 => self.join(o, rng.gen_range(1..=self.ps.len())).await,
            5..=7 => {
                let c = rng.gen_range(1..=3);
                self.message(rng, o, "ord", c, None).await
            }
            8..=11 => {
                let c = *pick(rng, &[4, 4, 4, 5, 6]);
                let k = self.packet(c, Some(0)).1;
                let i = rng.gen_range(0..k);
                self.message(rng, o, "fec", c, Some(i)).await
            }
            12 => {
                let i = if rng.gen() { Some(0) } else { None };
                self.message(rng, o, "junk", 1, i).await
            }
            13 | 14 => self.query(rng, o, "peers").await,
            15..=17 => self.query(rng, o, "app").await,
            18 => self.query(rng, o, "junk").await,
            _ => self.send(rng, o).await,
        }
    }
}

async fn replay(rng: &mut Rand, script: &[Value]) {
    let mut env = Env::new(rng).await;
    for op in script {
        let o = op["o"].as_u64().unwrap() as usize;
        match op["op"].as_str().unwrap() {
            "Make" => {
                env.make(rng, o, op["kind"].as_str().unwrap()).await;
                env.join(o, o).await;
            }
            "Sub" => env.sub(o, op["h"].as_u64().unwrap() as usize).await,
            "Ord" => env.message(rng, o, "ord", 1, None).await,
            // (two symbols)
            "Fec" => env.message(rng, o, "fec", 4, Some(op["i"].as_u64().unwrap() as u32 - 1)).await,
            _ => env.query(rng, o, op["kind"].as_str().unwrap()).await,
        }
    }
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "O06");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(600, 8000));
    for s in &scripts {
        let script = s["script"].as_array().unwrap().clone();
        scenario(json!({"kind": "replay"}), || replay(&mut rng, &script));
    }
    for _ in 0..ctx.n(200, 3000) {
        scenario(json!({"kind": "random"}), || async {
            let mut env = Env::new(&mut rng).await;
            for o in 1..=NO {
                if rng.gen_range(0..3) > 0 {
                    let kind = if rng.gen() { "public" } else { "private" };
                    env.make(&mut rng, o, kind).await;
                }
            }
            for _ in 0..40 {
                env.random(&mut rng).await;
            }
        });
    }
}
