//! R03: how many queries are in progress, and what remains of them

use std::collections::HashMap;

use everscale_network::adnl::NewPeerContext;
use everscale_network::rldp::NodeOptions;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::r01::{answer_of, application, query_payload};
use crate::rldp::*;
use crate::wire::*;
use crate::Ctx;

type Task = tokio::task::JoinHandle<Option<Option<Vec<u8>>>>;

struct Query {
    q: u32,
    /// index of the peer from 1
    p: usize,
    task: Task,
    transfer: Option<([u8; 32], [u8; 32])>,
}

struct Env {
    r: RldpNode,
    ps: Vec<Puppet>,
    queries: Vec<Query>,
    transfers: HashMap<[u8; 32], u32>,
    asked: Vec<Value>,
    cancelled: Vec<Value>,
    /// everything that shall be answered at once
    n: u32,
}

impl Env {
    async fn new(rng: &mut Rand, options: NodeOptions) -> Self {
        let mut r = RldpNode::create(rng, 1, options, application());
        let ident = r.ident.clone();
        let mut ps = Vec::new();
        for i in 0..2 {
            let mut p = Puppet::new(rng, addr(10 + i, 1000));
            p.establish(rng, &mut r.node, &ident).await;
            ps.push(p);
        }
        r.node.sent();
        Env { r, ps, queries: Vec::new(), transfers: HashMap::new(), asked: Vec::new(), cancelled: Vec::new(), n: 0 }
    }

    fn ask(&mut self, rng: &mut Rand, q: u32, p: usize) {
        let (rldp, l, peer) = (self.r.rldp.clone(), self.r.ident.id, self.ps[p - 1].me.id);
        let data = query_payload(rng, q, 40, 0, 1, 1, 0);
        let task = tokio::spawn(async move { rldp.query(&l, &peer, data, None).await.ok().map(|r| r.0) });
        self.queries.push(Query { q, p, task, transfer: None });
        self.asked.push(json!([q, p]));
        self.n = self.n.max(q);
    }

    async fn send(&mut self, rng: &mut Rand, p: usize, part: Part) {
        let ident = self.r.ident.clone();
        let packet = self.ps[p - 1].packet(rng, &ident, vec![part.msg()], 1);
        self.r.node.inject(packet, self.ps[p - 1].addr);
    }

    /// The peer reacts to a query which it has seen
    async fn react(&mut self, rng: &mut Rand, q: u32, how: &str) -> bool {
        let Some(x) = self.queries.iter().find(|x| x.q == q) else { return false };
        let (Some((id, query_id)), p) = (x.transfer, x.p) else { return false };
        let m = match how {
            "answer" => answer_message(&query_id, &bytes(rng, 20)),
            "garbage" => bytes(rng, 30),
            "complete" => {
                self.send(rng, p, Part::Complete { id, part: 0 }).await;
                return true;
            }
            // the first symbol of a longer answer
            "begin" => answer_message(&query_id, &bytes(rng, 2000)),
            "bogus" => {
                let fec = [*pick(rng, &[0, 1, u32::MAX]), *pick(rng, &[0, 7, 768, u32::MAX]), 1];
                let total = *pick(rng, &[0, 1, 100, u64::MAX]);
                let data = bytes(rng, 64);
                let (part, seqno) = (*pick(rng, &[0, 1, u32::MAX]), *pick(rng, &[0, 1, u32::MAX]));
                self.send(rng, p, Part::Chunk { id: negate(id), fec, part, total, seqno, data }).await;
                return true;
            }
            _ => return false,
        };
        let fec = Fec::new(&m, 768);
        self.send(rng, p, Part::Chunk { id: negate(id), fec: fec.params, part: 0, total: m.len() as u64, seqno: 0, data: fec.symbol(0) }).await;
        true
    }

    fn cancel(&mut self, q: u32) {
        if let Some(x) = self.queries.iter().find(|x| x.q == q) {
            if !x.task.is_finished() {
                x.task.abort();
                self.cancelled.push(json!([q, x.p]));
            }
        }
    }

    fn look(&mut self, started: &mut Vec<Value>) {
        let sent = self.r.node.sent();
        for p in &self.ps {
            for (data, to) in &sent {
                if *to != p.addr {
                    continue;
                }
                let Some(o) = p.open(data) else { continue };
                for m in o.body.messages {
                    let Msg::Custom(d) = m else { continue };
                    let Some(Part::Chunk { id, data, fec, .. }) = Part::parse(&d) else { continue };
                    if self.transfers.contains_key(&id) {
                        continue;
                    }
                    let Some((query_id, _, payload)) = read_query(&data[..(fec[0] as usize).min(data.len())]) else { continue };
                    let q = u32::from_le_bytes(payload[4..8].try_into().unwrap());
                    self.transfers.insert(id, q);
                    if let Some(x) = self.queries.iter_mut().find(|x| x.q == q) {
                        x.transfer = Some((id, query_id));
                        started.push(json!([q, x.p]));
                    } else {
                        started.push(json!([q, 0]));
                    }
                }
            }
        }
    }

    /// Some time passes; what the outside sees of it
    async fn pass(&mut self, ms: u64) {
        let mut started = Vec::new();
        let mut left = ms;
        loop {
            sleep_ms(left.min(50)).await;
            left -= left.min(50);
            self.look(&mut started);
            if left == 0 {
                break;
            }
        }
        let (mut ended, mut failed) = (Vec::new(), Vec::new());
        let mut i = 0;
        while i < self.queries.len() {
            if self.queries[i].task.is_finished() {
                let x = self.queries.remove(i);
                match x.task.await {
                    Ok(_) if x.transfer.is_some() => ended.push(json!([x.q, x.p])),
                    Ok(_) => failed.push(json!([x.q, x.p])),
                    Err(_) => {}
                }
            } else {
                i += 1;
            }
        }
        self.r.handler.take();
        let (asked, cancelled) = (std::mem::take(&mut self.asked), std::mem::take(&mut self.cancelled));
        let m = self.r.rldp.metrics();
        emit(json!({"e": "Step", "asked": asked, "cancelled": cancelled, "started": started, "ended": ended, "failed": failed, "t": elapsed_ms(),
            "len": m.transfers_cache_len}));
    }

    async fn end(&mut self) {
        // whatever is left ends by itself
        let mut n = 0;
        while !self.queries.is_empty() && n < 200 {
            self.pass(200).await;
            n += 1;
        }
        for _ in 0..4 {
            self.pass(20_000).await;
        }
        self.r.rldp.gc();
        let m = self.r.rldp.metrics();
        emit(json!({"e": "Quiet", "t": elapsed_ms(), "len": m.transfers_cache_len, "peers": m.peer_count}));
    }
}

fn replay(rng: &mut Rand, max: usize, script: &[Value]) {
    scenario(json!({"kind": "script", "max": max}), || async {
        let options = NodeOptions { max_peer_queries: max, ..Default::default() };
        let mut env = Env::new(rng, options).await;
        for s in script {
            let (q, p) = (s[1].as_u64().unwrap() as u32, s[2].as_u64().unwrap() as usize);
            match s[0].as_str().unwrap() {
                "ask" => env.ask(rng, q, p),
                "cancel" => env.cancel(q),
                how => {
                    env.react(rng, q, how).await;
                }
            }
            env.pass(30).await;
        }
        env.end().await;
    });
}

fn random(rng: &mut Rand) {
    let max = *pick(rng, &[1, 2, 3, 16]);
    scenario(json!({"kind": "random", "max": max}), || async {
        let timeout = *pick(rng, &[10_000, 2000]);
        let options = NodeOptions { max_peer_queries: max, query_max_timeout_ms: timeout, ..Default::default() };
        let mut env = Env::new(rng, options).await;
        let ident = env.r.ident.clone();
        let many = if max == 16 { 40 } else { 10 };
        let removals = rng.gen_range(0..3) == 0;
        let mut gone = [false; 2];
        for _ in 0..rng.gen_range(5..40) {
            let n = env.n;
            match rng.gen_range(0..14) {
                0..=3 => {
                    for _ in 0..rng.gen_range(1..=many / 5) {
                        let p = rng.gen_range(1..=2);
                        let q = env.n + 1;
                        env.ask(rng, q, p);
                    }
                }
                4..=7 if n > 0 => {
                    let q = rng.gen_range(1..=n);
                    let how = *pick(rng, &["answer", "answer", "garbage", "complete", "begin", "bogus"]);
                    env.react(rng, q, how).await;
                }
                8 if n > 0 => env.cancel(rng.gen_range(1..=n)),
                9 => env.r.rldp.gc(),
                10 if removals => {
                    let p = rng.gen_range(0..2);
                    let (me, a) = (env.ps[p].me.clone(), env.ps[p].addr);
                    if gone[p] {
                        env.r.node.adnl.add_peer(NewPeerContext::Dht, &ident.id, &me.id, a, me.full).unwrap();
                        let _ = env.ps[p].establish(rng, &mut env.r.node, &ident).await;
                    } else {
                        env.r.node.adnl.remove_peer(&ident.id, &me.id).unwrap();
                    }
                    gone[p] = !gone[p];
                }
                11 => {
                    // a query of the peer
                    let p = rng.gen_range(1..=2);
                    let mode = *pick(rng, &[0, 1, 2, 3, 4]);
                    let (alen, delay, limit) = (*pick(rng, &[1, 2000]), *pick(rng, &[100, 5000]), *pick(rng, &[5, 1 << 20]));
                    let body = query_payload(rng, 999, 40, mode, 5, alen, delay);
                    let m = query_message(&rng.gen(), limit, 0, &body);
                    let m = if rng.gen_range(0..4) == 0 { bytes(rng, 40) } else { m };
                    let fec = Fec::new(&m, 768);
                    // sometimes only a part of it
                    let total = m.len() as u64 + if rng.gen_range(0..4) == 0 { 1000 } else { 0 };
                    let id: [u8; 32] = rng.gen();
                    for _ in 0..rng.gen_range(1..3) {
                        env.send(rng, p, Part::Chunk { id, fec: fec.params, part: 0, total, seqno: 0, data: fec.symbol(0) }).await;
                    }
                    if rng.gen_range(0..3) > 0 {
                        settle().await;
                        env.send(rng, p, Part::Complete { id: negate(id), part: 0 }).await;
                    }
                }
                12 => env.pass(*pick(rng, &[600, 3000, 11_000])).await,
                _ => {}
            }
            env.pass(*pick(rng, &[30, 30, 30, 100])).await;
        }
        env.end().await;
    });
}

/// Two nodes and a network with faults, everything is gone at the end
fn nodes(rng: &mut Rand) {
    scenario(json!({"kind": "nodes", "max": 1000}), || async {
        let faults = Faults { loss: *pick(rng, &[0.0, 0.2, 0.5, 0.95]), dup: 0.2, delay: *pick(rng, &[0, 30]), noise: 0.0 };
        let nodes: Vec<_> = (0..2)
            .map(|i| RldpNode::create(rng, i + 1, NodeOptions { max_peer_queries: 2, ..Default::default() }, application()))
            .collect();
        let mut net = RldpNet::new(nodes, faults);
        net.quiet = true;
        for q in 1..=rng.gen_range(2..8u32) {
            let from = rng.gen_range(0..2);
            let (mode, delay, len) = (*pick(rng, &[0, 1, 2, 3, 4]), *pick(rng, &[1, 400, 3000]), *pick(rng, &[1, 700, 5000]));
            let qlen = *pick(rng, &[40, 900, 4000]);
            let query = query_payload(rng, q, qlen, mode, q, len, delay);
            net.ask(q, from, 1 - from, query, answer_of(q, len), None);
            for _ in 0..rng.gen_range(0..30) {
                net.step(rng, 5).await;
            }
            if rng.gen_range(0..4) == 0 {
                if let Some(a) = net.asked.choose(rng) {
                    a.task.abort();
                }
            }
        }
        let mut n = 0;
        while (!net.asked.is_empty() || n % 10 != 0) && n < 30_000 {
            net.step(rng, 5).await;
            n += 1;
        }
        net.faults.delay = 0;
        for _ in 0..160 {
            net.step(rng, 500).await;
        }
        for n in &net.nodes {
            n.rldp.gc();
            let m = n.rldp.metrics();
            emit(json!({"e": "Quiet", "t": elapsed_ms(), "len": m.transfers_cache_len, "peers": m.peer_count}));
        }
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "R03");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(250, 20_000));
    for s in &scripts {
        replay(&mut rng, 2, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(100, 5000) {
        random(&mut rng);
    }
    for _ in 0..ctx.n(20, 600) {
        nodes(&mut rng);
    }
}
