//! A11: dispatch of messages and queries

use std::borrow::Cow;
use std::sync::{Arc, Mutex};

use everscale_network::adnl::NodeOptions;
use everscale_network::proto::adnl::Pong;
use everscale_network::proto::rpc::AdnlPing;
use everscale_network::{MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::wire::*;
use crate::Ctx;

/// Constructors 1..=3 are handled by the subscribers, 0 is the ping and -1 a too
/// short payload
const CONSTRUCTORS: [u32; 4] = [0, 0x1111_0001, 0x2222_0002, 0x3333_0003];

fn constructor_index(c: u32) -> i64 {
    if c == AdnlPing::TL_ID {
        0
    } else {
        CONSTRUCTORS.iter().position(|x| *x == c).map(|i| i as i64).unwrap_or(99)
    }
}

fn payload(c: i64, n: u32) -> Vec<u8> {
    match c {
        -1 => vec![1; (n % 4) as usize],
        0 => tl_proto::serialize(AdnlPing { value: n as u64 }),
        c => {
            let mut v = CONSTRUCTORS[c as usize].to_le_bytes().to_vec();
            v.extend_from_slice(&n.to_le_bytes());
            if n % 7 == 3 {
                v.resize(2000, 1);
            }
            v
        }
    }
}

fn answer(sub: usize, n: u32) -> Vec<u8> {
    let mut v = vec![0xaa, 0xbb, 0xcc, sub as u8];
    v.extend_from_slice(&n.to_le_bytes());
    v.resize(8 + if n % 5 == 1 { 3000 } else { 4 }, 0x5a);
    v
}

type Log = Arc<Mutex<Vec<Value>>>;

/// number of a request with its constructor and whether it is intact
fn request(data: &[u8], constructor: u32) -> (i64, u32, bool) {
    let c = constructor_index(constructor);
    let n = match data.get(4..8) {
        Some(b) => u32::from_le_bytes(b.try_into().unwrap()),
        None => 0,
    };
    (c, n, c < 99 && payload(c, n) == data)
}

struct Sub {
    index: usize,
    /// what to do with each constructor (0..=3)
    acts: Vec<String>,
    log: Log,
    ids: (everscale_network::adnl::NodeIdShort, everscale_network::adnl::NodeIdShort),
}

#[async_trait::async_trait]
impl MessageSubscriber for Sub {
    async fn try_consume_custom<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, data: &'a [u8]) -> anyhow::Result<bool> {
        let (c, n, ok) = request(data, constructor);
        let ok = ok && (*ctx.local_id, *ctx.peer_id) == self.ids;
        self.log.lock().unwrap().push(json!(["message", self.index, c, n, ok]));
        match self.acts[c as usize % 4].as_str() {
            "take" => Ok(true),
            "pass" => Ok(false),
            _ => anyhow::bail!("failed"),
        }
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Sub {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        let (c, n, ok) = request(&query, constructor);
        let ok = ok && (*ctx.local_id, *ctx.peer_id) == self.ids;
        self.log.lock().unwrap().push(json!(["query", self.index, c, n, ok]));
        match self.acts[c as usize % 4].as_str() {
            "take" => Ok(QueryConsumingResult::Consumed(Some(answer(self.index, n)))),
            "silent" => Ok(QueryConsumingResult::Consumed(None)),
            "pass" => Ok(QueryConsumingResult::Rejected(query)),
            _ => anyhow::bail!("failed"),
        }
    }
}

struct Env {
    node: TestNode,
    ident: Ident,
    p: Puppet,
    log: Log,
    n: u32,
    added: (usize, usize),
}

impl Env {
    fn new(rng: &mut Rand) -> Self {
        let ident = Ident::gen(rng);
        let node = TestNode::create(addr(1, 100), &[ident.clone()], NodeOptions::default(), None);
        let p = Puppet::new(rng, addr(10, 1000));
        Env { node, ident, p, log: Default::default(), n: 0, added: (0, 0) }
    }

    fn add(&mut self, kind: &str, acts: &[String]) {
        let index = if kind == "message" { self.added.0 + 1 } else { self.added.1 + 1 };
        let sub = Arc::new(Sub { index, acts: acts.to_vec(), log: self.log.clone(), ids: (self.ident.id, self.p.me.id) });
        let ok = match kind {
            "message" => self.node.adnl.add_message_subscriber(sub).is_ok(),
            _ => self.node.adnl.add_query_subscriber(sub).is_ok(),
        };
        if ok {
            if kind == "message" {
                self.added.0 += 1
            } else {
                self.added.1 += 1
            }
        }
        emit(json!({"e": "Subscribe", "kind": kind, "acts": acts, "ok": ok}));
    }

    fn start(&mut self) {
        let ok = self.node.adnl.start().is_ok();
        emit(json!({"e": "StartNode", "ok": ok}));
    }

    /// items: (kind, constructor)
    async fn packet(&mut self, rng: &mut Rand, items: &[(String, i64)], transport: u8) {
        let mut msgs = Vec::new();
        let mut logged = Vec::new();
        let mut ids = Vec::new();
        for (kind, c) in items {
            self.n += 1;
            let data = payload(*c, self.n);
            logged.push(json!([kind, c, self.n]));
            msgs.push(match kind.as_str() {
                "message" => Msg::Custom(data),
                _ => {
                    let id: [u8; 32] = rng.gen();
                    ids.push((id, self.n));
                    Msg::Query(id, data)
                }
            });
        }
        let ident = self.ident.clone();
        self.node.sent();
        if msgs.len() == 1 && msgs[0].to_bytes().len() > 1000 {
            for part in Puppet::parts(&msgs[0], 1000) {
                let p = self.p.packet(rng, &ident, vec![part], transport);
                self.node.inject(p, self.p.addr);
            }
        } else {
            let p = self.p.packet(rng, &ident, msgs, transport);
            self.node.inject(p, self.p.addr);
        }
        settle().await;
        // answers: (subscriber, number); the ping is answered by 0
        let mut answers = Vec::new();
        let mut parts: std::collections::BTreeMap<[u8; 32], Vec<(u32, Vec<u8>)>> = Default::default();
        let mut got = Vec::new();
        for (data, to) in self.node.sent() {
            let Some(o) = self.p.open(&data) else {
                answers.push(json!([-1, 0]));
                continue;
            };
            if to != self.p.addr || o.from != ident.id {
                answers.push(json!([-2, 0]));
            }
            for m in o.body.messages {
                match m {
                    Msg::Part { hash, offset, data, .. } => parts.entry(hash).or_default().push((offset, data)),
                    m => got.push(m),
                }
            }
        }
        for (_, mut p) in parts {
            p.sort();
            let raw: Vec<u8> = p.into_iter().flat_map(|p| p.1).collect();
            if let Some(m) = Msg::parse(&raw) {
                got.push(m);
            }
        }
        for m in got {
            if let Msg::Answer(id, data) = m {
                let n = ids.iter().find(|i| i.0 == id).map(|i| i.1).unwrap_or(0);
                let sub = match tl_proto::deserialize::<Pong>(&data) {
                    Ok(p) => {
                        if p.value == n as u64 {
                            0
                        } else {
                            -3
                        }
                    }
                    Err(_) => (1..9).find(|s| answer(*s, n) == data).map(|s| s as i64).unwrap_or(-4),
                };
                answers.push(json!([sub, n]));
            }
        }
        let calls = std::mem::take(&mut *self.log.lock().unwrap());
        emit(json!({"e": "Packet", "items": logged, "calls": calls, "answers": answers}));
    }
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_owned()).collect()
}

/// the actions of a script are for constructor 1, the rest are passed
fn replay(rng: &mut Rand, script: &[Value]) {
    let transport = rng.gen_range(0..3);
    scenario(json!({}), || async {
        let mut env = Env::new(rng);
        let mut channel = false;
        for s in script {
            match s["op"].as_str().unwrap() {
                "Subscribe" => env.add(s["kind"].as_str().unwrap(), &strings(&s["acts"])),
                "StartNode" => {
                    env.start();
                    if transport > 0 && !channel {
                        channel = true;
                        let (mut node, ident) = (env.node, env.ident.clone());
                        env.p.establish(rng, &mut node, &ident).await;
                        env.node = node;
                    }
                }
                _ => {
                    let items: Vec<(String, i64)> = s["items"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|i| (i[0].as_str().unwrap().to_owned(), i[1].as_i64().unwrap()))
                        .collect();
                    env.packet(rng, &items, transport).await
                }
            }
        }
    });
}

fn random(rng: &mut Rand) {
    scenario(json!({}), || async {
        let mut env = Env::new(rng);
        let mut running = false;
        let early = rng.gen_range(0..4) == 0;
        for i in 0..rng.gen_range(8..24) {
            let choice = rng.gen_range(0..10);
            if !running {
                match choice {
                    0..=6 => {
                        let kind = *pick(rng, &["message", "query"]);
                        let options: &[&str] =
                            if kind == "message" { &["take", "pass", "pass", "fail"] } else { &["take", "silent", "pass", "pass", "fail"] };
                        let acts: Vec<String> = (0..4).map(|_| pick(rng, options).to_string()).collect();
                        env.add(kind, &acts);
                    }
                    7 if early => {
                        // what arrives before the start waits in the socket
                    }
                    _ => {
                        env.start();
                        running = true;
                        if rng.gen() {
                            let (mut node, ident) = (env.node, env.ident.clone());
                            env.p.establish(rng, &mut node, &ident).await;
                            env.log.lock().unwrap().clear();
                            env.node = node;
                        }
                    }
                }
            } else if choice == 0 && i % 3 == 0 {
                if rng.gen() {
                    env.start();
                } else {
                    env.add(*pick(rng, &["message", "query"]), &["take".into(), "take".into(), "take".into(), "take".into()]);
                }
            } else {
                let items: Vec<(String, i64)> = (0..*pick(rng, &[1, 1, 2, 3]))
                    .map(|_| (pick(rng, &["message", "query", "query"]).to_string(), rng.gen_range(-1..4)))
                    .map(|(k, c)| if k == "message" && c == 0 { (k, 1) } else { (k, c) })
                    .collect();
                let transport = rng.gen_range(0..3);
                if items.len() > 1 && items.iter().any(|(_, _)| true) {
                    // several requests in a packet must be small
                    env.n += (7 - env.n % 7) % 7 + 3;
                }
                env.packet(rng, &items, transport).await;
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A11");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(2000, 40_000));
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(500, 8000) {
        random(&mut rng);
    }
}
