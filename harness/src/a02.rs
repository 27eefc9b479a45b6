//! A02: two nodes make channels over a bad network

use std::sync::Arc;

use everscale_network::adnl::{NewPeerContext, NodeOptions};
use everscale_network::proto::adnl::Pong;
use everscale_network::proto::rpc::AdnlPing;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::adnl::{date_out, now_date};
use crate::core::*;
use crate::wire::*;
use crate::Ctx;

const CUSTOM: u32 = 0x0c0c_5502;

fn custom(n: u32) -> Vec<u8> {
    let mut v = CUSTOM.to_le_bytes().to_vec();
    v.extend_from_slice(&n.to_le_bytes());
    v
}

struct Pending {
    n: usize,
    q: u32,
    deadline: u64,
    task: tokio::task::JoinHandle<Option<Vec<u8>>>,
}

struct Net {
    ids: Vec<Ident>,
    nodes: Vec<TestNode>,
    recs: Vec<Arc<Recorder>>,
    history: bool,
    reset: u32,
    versions: [Option<u16>; 2],
    keys: Vec<[u8; 32]>,
    /// target and contents of packet i - 1
    pkts: Vec<(usize, Vec<u8>)>,
    delivered: Vec<bool>,
    pending: Vec<Pending>,
    queries: std::collections::HashMap<[u8; 32], u32>,
    q: u32,
    sent: [usize; 2],
}

fn place(n: usize) -> std::net::SocketAddrV4 {
    addr(n as u8, 100 + n as u16)
}

fn start(id: &Ident, n: usize, history: bool, reset: u32, version: Option<u16>) -> (TestNode, Arc<Recorder>) {
    let options = NodeOptions {
        packet_history_enabled: history,
        // which of the channels is used cannot be told from outside
        force_use_priority_channels: false,
        clock_tolerance_sec: 60,
        channel_reset_timeout_sec: reset,
        version,
        ..Default::default()
    };
    let node = TestNode::create(place(n), std::slice::from_ref(id), options, None);
    let rec = Arc::new(Recorder::default());
    node.adnl.add_message_subscriber(rec.clone()).unwrap();
    node.adnl.start().unwrap();
    (node, rec)
}

impl Net {
    fn new(rng: &mut Rand, history: bool, reset: u32, known: [bool; 2]) -> Self {
        let ids = vec![Ident::gen(rng), Ident::gen(rng)];
        let versions = [any_version(rng), any_version(rng)];
        let (a, ra) = start(&ids[0], 1, history, reset, versions[0]);
        let (b, rb) = start(&ids[1], 2, history, reset, versions[1]);
        let mut net = Self {
            ids,
            nodes: vec![a, b],
            recs: vec![ra, rb],
            history,
            reset,
            versions,
            keys: Vec::new(),
            pkts: Vec::new(),
            delivered: Vec::new(),
            pending: Vec::new(),
            queries: Default::default(),
            q: 0,
            sent: [0, 0],
        };
        net.introduce(1, known[0]);
        net.introduce(2, known[1]);
        net
    }

    fn introduce(&mut self, n: usize, known: bool) {
        if known {
            let other = &self.ids[2 - n];
            self.nodes[n - 1]
                .adnl
                .add_peer(NewPeerContext::Dht, &self.ids[n - 1].id, &other.id, place(3 - n), other.full)
                .unwrap();
        }
        emit(json!({"e": "Start", "n": n, "now": now_date(), "known": known, "view": self.view()}));
    }

    fn view(&self) -> Value {
        self.nodes
            .iter()
            .map(|n| {
                let m = n.adnl.metrics();
                json!({"peers": m.peer_count, "chans": m.channels_by_peers_len, "ids": m.channels_by_id_len, "queries": m.query_count})
            })
            .collect()
    }

    fn key(&mut self, key: [u8; 32]) -> usize {
        match self.keys.iter().position(|k| *k == key) {
            Some(i) => i + 1,
            None => {
                self.keys.push(key);
                self.keys.len()
            }
        }
    }

    fn collect(&mut self) -> Vec<Value> {
        let mut res = Vec::new();
        for n in 1..=2 {
            for (data, to) in self.nodes[n - 1].sent() {
                self.pkts.push((3 - n, data.clone()));
                self.delivered.push(false);
                self.sent[n - 1] += 1;
                let i = self.pkts.len();
                let sound = to == place(3 - n);
                let Some(o) = read_handshake(&self.ids[2 - n], &data) else {
                    res.push(json!({"n": n, "i": i, "tr": "ch", "sound": sound}));
                    continue;
                };
                let mut msgs = Vec::new();
                for m in &o.body.messages {
                    msgs.push(match m {
                        Msg::Nop => json!(["Nop", 0, 0, 0]),
                        Msg::Create { key, date } => json!(["Create", self.key(*key), date_out(*date), 0]),
                        Msg::Confirm { key, peer_key, date } => {
                            json!(["Confirm", self.key(*key), self.key(*peer_key), date_out(*date)])
                        }
                        Msg::Custom(d) => json!(["Custom", number(d), 0, 0]),
                        Msg::Query(id, d) => {
                            let q = tl_proto::deserialize::<AdnlPing>(d).map(|p| p.value as u32).unwrap_or(0);
                            self.queries.insert(*id, q);
                            json!(["Query", q, 0, 0])
                        }
                        Msg::Answer(_, d) => {
                            json!(["Answer", tl_proto::deserialize::<Pong>(d).map(|p| p.value as u32).unwrap_or(0), 0, 0])
                        }
                        m => json!([m.kind(), 0, 0, 0]),
                    });
                }
                let (src, dst) = o.body.reinit.map(|(a, b)| (date_out(a), date_out(b))).unwrap_or((-1, -1));
                res.push(json!({"n": n, "i": i, "tr": "hs", "sound": sound && o.signed && o.from == self.ids[n - 1].id,
                    "src": src, "dst": dst, "seqno": o.body.seqno.map(|v| v as i64).unwrap_or(-1),
                    "confirm": o.body.confirm_seqno.map(|v| v as i64).unwrap_or(-1), "msgs": msgs}));
            }
        }
        res
    }

    async fn until(&mut self, ms: u64) {
        while let Some(d) = self.pending.iter().map(|q| q.deadline).min().filter(|d| *d <= ms) {
            let now = elapsed_ms();
            if d + 3 > now {
                sleep_ms(d + 3 - now).await;
            }
            let i = self.pending.iter().position(|q| q.deadline == d).unwrap();
            let q = self.pending.remove(i);
            let failed = q.task.is_finished() && matches!(q.task.await, Ok(None));
            emit(json!({"e": "QueryFailed", "n": q.n, "q": q.q, "now": now_date(), "failed": failed, "view": self.view()}));
        }
        let now = elapsed_ms();
        if ms > now {
            sleep_ms(ms - now).await;
        }
    }

    async fn pass(&mut self, sec: u64) {
        let t = elapsed_ms() / 1000 * 1000 + sec * 1000 + 50;
        self.until(t).await;
    }

    async fn align(&mut self) {
        if elapsed_ms() % 1000 > 400 {
            self.pass(1).await;
        }
    }

    /// Returns the numbers of the sent packets
    async fn send(&mut self, n: usize) -> (u32, Vec<usize>) {
        self.align().await;
        self.q += 1;
        let q = self.q;
        let first = self.pkts.len();
        let ok = self.nodes[n - 1].adnl.send_custom_message(&self.ids[n - 1].id, &self.ids[2 - n].id, &custom(q)).is_ok();
        settle().await;
        let out = self.collect();
        emit(json!({"e": "Send", "n": n, "q": q, "ok": ok, "now": now_date(), "out": out,
            "delivered": self.got().0, "view": self.view()}));
        (q, (first..self.pkts.len()).collect())
    }

    async fn query(&mut self, n: usize, sec: u64) -> Vec<usize> {
        self.align().await;
        self.q += 1;
        let q = self.q;
        let first = self.pkts.len();
        let mut deadline = elapsed_ms() / 1000 * 1000 + sec * 1000 + 500;
        while self.pending.iter().any(|q| q.deadline.abs_diff(deadline) < 8) {
            deadline += 8;
        }
        let (adnl, local, peer) = (self.nodes[n - 1].adnl.clone(), self.ids[n - 1].id, self.ids[2 - n].id);
        let timeout = deadline - elapsed_ms();
        let task = tokio::spawn(async move {
            adnl.query_raw(&local, &peer, tl_proto::serialize(AdnlPing { value: q as u64 }).into(), Some(timeout)).await.ok().flatten()
        });
        settle().await;
        let ok = !task.is_finished();
        if ok {
            self.pending.push(Pending { n, q, deadline, task });
        }
        let out = self.collect();
        emit(json!({"e": "Query", "n": n, "q": q, "ok": ok, "now": now_date(), "out": out,
            "delivered": self.got().0, "view": self.view()}));
        (first..self.pkts.len()).collect()
    }

    fn got(&self) -> (Vec<u32>, bool) {
        let mut res = Vec::new();
        let mut sound = true;
        for n in 0..2 {
            for (local, peer, data) in self.recs[n].take() {
                sound &= local == self.ids[n].id && peer == self.ids[1 - n].id;
                res.push(number(&data));
            }
        }
        (res, sound)
    }

    /// Delivers packet i. Returns the delivered messages and the sent packets
    async fn deliver(&mut self, i: usize) -> (Vec<u32>, Vec<usize>) {
        self.arrive(i, None).await
    }

    /// Delivers a copy of packet i with an altered byte
    async fn deliver_altered(&mut self, rng: &mut Rand, i: usize) {
        let len = self.pkts[i].1.len();
        // not the id of a channel or a node
        let at = if rng.gen() { len - 1 } else { rng.gen_range(32..len) };
        self.arrive(i, Some(at)).await;
    }

    async fn arrive(&mut self, i: usize, altered: Option<usize>) -> (Vec<u32>, Vec<usize>) {
        self.align().await;
        let now = now_date();
        let first = self.pkts.len();
        let (to, mut data) = self.pkts[i].clone();
        match altered {
            Some(at) => data[at] ^= 0x40,
            None => self.delivered[i] = true,
        }
        self.nodes[to - 1].inject(data, place(3 - to));
        settle().await;
        let out = self.collect();
        let mut answered = Vec::new();
        let mut k = 0;
        while k < self.pending.len() {
            if self.pending[k].task.is_finished() {
                let q = self.pending.remove(k);
                let right = matches!(q.task.await, Ok(Some(d)) if matches!(tl_proto::deserialize::<Pong>(&d), Ok(p) if p.value == q.q as u64));
                answered.push(if right { q.q as i64 } else { -(q.q as i64) });
            } else {
                k += 1;
            }
        }
        let (got, sound) = self.got();
        let logged = if sound { got.clone() } else { vec![0; got.len()] };
        emit(json!({"e": "Deliver", "i": i + 1, "altered": altered.is_some(), "now": now, "out": out, "delivered": logged, "answered": answered, "view": self.view()}));
        (got, (first..self.pkts.len()).collect())
    }

    /// Delivers packets and whatever is sent because of that
    async fn deliver_all(&mut self, mut queue: Vec<usize>) -> Vec<u32> {
        let mut res = Vec::new();
        let mut left = 20;
        while let Some(i) = (!queue.is_empty()).then(|| queue.remove(0)) {
            let (got, more) = self.deliver(i).await;
            res.extend(got);
            queue.extend(more);
            left -= 1;
            if left == 0 {
                break;
            }
        }
        res
    }

    async fn restart(&mut self, n: usize, known: bool) {
        self.align().await;
        self.pass(1).await;
        self.pending.retain(|q| {
            if q.n == n {
                q.task.abort();
            }
            q.n != n
        });
        self.nodes[n - 1].adnl.shutdown();
        settle().await;
        let (node, rec) = start(&self.ids[n - 1], n, self.history, self.reset, self.versions[n - 1]);
        self.nodes[n - 1] = node;
        self.recs[n - 1] = rec;
        self.introduce(n, known);
    }

    /// The channel is lost: its queries fail until it is dropped
    async fn lose(&mut self, n: usize) {
        for _ in 0..2 {
            self.query(n, 1).await;
            self.pass(self.reset as u64 + 2).await;
        }
    }

    /// The network delivers again, both nodes send
    async fn heal(&mut self, first: usize) {
        let before = self.sent.into_iter().max().unwrap();
        let rounds = 3 + if self.history { before } else { 0 };
        let mut got = [false, false];
        for _ in 0..=rounds {
            self.pass(1).await;
            for n in [first, 3 - first] {
                let (q, out) = self.send(n).await;
                got[n - 1] = self.deliver_all(out).await.contains(&q);
            }
        }
        emit(json!({"e": "Healed", "got": got}));
    }
}

fn number(d: &[u8]) -> u32 {
    let n = d.get(4..8).map(|b| u32::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
    if custom(n) == d {
        n
    } else {
        0
    }
}

fn replay(rng: &mut Rand, history: bool, script: &[Value]) {
    scenario(json!({"opts": {"history": history, "reset": 3}}), || async {
        let mut net = Net::new(rng, history, 3, [true, true]);
        // packets by the numbers of the model
        let mut ids = std::collections::HashMap::new();
        let mut seq = 0;
        for e in script {
            let n = e["n"].as_u64().unwrap_or(0) as usize;
            match e["op"].as_str().unwrap() {
                "Send" => {
                    seq += 1;
                    if let Some(i) = net.send(n).await.1.first() {
                        ids.insert(seq, *i);
                    }
                }
                "Deliver" => {
                    seq += 1;
                    if let Some(i) = ids.get(&e["i"].as_u64().unwrap()) {
                        if rng.gen_range(0..6) == 0 {
                            net.deliver_altered(rng, *i).await;
                        }
                        if let Some(i) = net.deliver(*i).await.1.first() {
                            ids.insert(seq, *i);
                        }
                    }
                }
                "Reset" => net.lose(n).await,
                "Restart" => net.restart(n, true).await,
                op => panic!("unknown operation {op}"),
            }
        }
        net.heal(rng.gen_range(1..=2)).await;
    });
}

fn random(rng: &mut Rand) {
    let history = rng.gen_range(0..3) == 0;
    let reset = *pick(rng, &[2, 5, 30]);
    scenario(json!({"opts": {"history": history, "reset": reset}}), || async {
        let known = *pick(rng, &[[true, true], [true, false], [false, true]]);
        let mut net = Net::new(rng, history, reset, known);
        // share of the packets that get through at once
        let good = *pick(rng, &[0, 3, 7, 10]);
        for _ in 0..rng.gen_range(4..30) {
            let n = rng.gen_range(1..=2);
            match rng.gen_range(0..24) {
                0 => net.restart(n, true).await,
                1 => net.lose(n).await,
                2 => net.pass(*pick(rng, &[1, 1, 2, reset as u64 + 1])).await,
                3..=12 => {
                    let out = match rng.gen_range(0..4) {
                        0 => {
                            let sec = rng.gen_range(1..3);
                            net.query(n, sec).await
                        }
                        _ => net.send(n).await.1,
                    };
                    if rng.gen_range(0..10) < good {
                        net.deliver_all(out).await;
                    }
                }
                _ if !net.pkts.is_empty() => {
                    // any packet: a new one, an old one, one that has been delivered already
                    let fresh: Vec<usize> = (0..net.pkts.len()).filter(|i| !net.delivered[*i]).collect();
                    let i = match rng.gen_range(0..4) {
                        0 => rng.gen_range(0..net.pkts.len()),
                        1 => net.pkts.len() - 1,
                        _ if !fresh.is_empty() => *pick(rng, &fresh),
                        _ => rng.gen_range(0..net.pkts.len()),
                    };
                    if rng.gen_range(0..4) == 0 {
                        net.deliver_altered(rng, i).await;
                        // does it believe in the channel now?
                        if rng.gen() {
                            net.send(net.pkts[i].0).await;
                        }
                    } else {
                        net.deliver(i).await;
                    }
                }
                _ => {}
            }
        }
        // nobody can send without an address
        if net.nodes[0].adnl.metrics().peer_count == 0 {
            net.restart(1, true).await;
        }
        if net.nodes[1].adnl.metrics().peer_count == 0 {
            net.restart(2, true).await;
        }
        net.heal(rng.gen_range(1..=2)).await;
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A02");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(500, 20_000));
    for s in &scripts {
        let history = rng.gen_range(0..4) == 0;
        replay(&mut rng, history, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(250, 8000) {
        random(&mut rng);
    }
}
