//! R02: the state machine of RLDP transfers

use everscale_network::rldp::NodeOptions;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::rldp::*;
use crate::wire::*;
use crate::Ctx;

const LIMIT: u32 = 6_000_000;

fn options() -> NodeOptions {
    NodeOptions { max_answer_size: LIMIT, ..Default::default() }
}

fn replies(parts: &[Part], id: [u8; 32]) -> Vec<Value> {
    parts
        .iter()
        .filter(|p| p.id() == id)
        .map(|p| match p {
            Part::Confirm { part, seqno, .. } => json!(["Confirm", small(*part), small(*seqno)]),
            Part::Complete { part, .. } => json!(["Complete", small(*part), 0]),
            Part::Chunk { .. } => json!(["Chunk", 0, 0]),
        })
        .collect()
}

/// TLC has 32-bit integers
fn small(n: u32) -> u32 {
    n.min(i32::MAX as u32)
}

/// A message that is sent to the node
struct Outgoing {
    id: [u8; 32],
    data: Vec<u8>,
    query: Vec<u8>,
    /// parts with their start
    parts: Vec<Fec>,
}

struct Env {
    r: RldpNode,
    p: Puppet,
    x: Vec<Outgoing>,
    kind: u8,
}

impl Env {
    async fn new(rng: &mut Rand, limit: u32) -> Self {
        let handler = Handler::new(|_| Reply::Silent);
        let mut r = RldpNode::create(rng, 1, NodeOptions { max_answer_size: limit, ..options() }, handler);
        let mut p = Puppet::new(rng, addr(10, 1000));
        let ident = r.ident.clone();
        p.establish(rng, &mut r.node, &ident).await;
        r.node.sent();
        Env { r, p, x: Vec::new(), kind: *pick(rng, &[0, 1, 1, 2]) }
    }

    /// A new message of some parts, each of some symbols
    fn message(&mut self, rng: &mut Rand, counts: &[usize], packet_len: u16) -> usize {
        let n = self.x.len() as u32 + 1;
        let symbol = (packet_len - packet_len % 8) as usize;
        let lens: Vec<usize> = counts.iter().map(|c| c * symbol - rng.gen_range(0..symbol.min(4))).collect();
        let total: usize = lens.iter().sum();
        // header 48, length prefix and padding
        let mut len = total.saturating_sub(60).max(8);
        let mut data = Vec::new();
        let mut query = Vec::new();
        for _ in 0..16 {
            query = payload(rng, n, len);
            data = query_message(&rng.gen(), LIMIT as u64, unix_now() + 10, &query);
            if data.len() >= total {
                break;
            }
            len += 4.min(total - data.len());
        }
        // the rest goes to the last part
        let mut parts = Vec::new();
        let mut from = 0;
        for (i, l) in lens.iter().enumerate() {
            let to = if i + 1 == lens.len() { data.len() } else { (from + l).min(data.len()) };
            if to > from {
                parts.push(Fec::new(&data[from..to], packet_len));
            }
            from = to;
        }
        self.x.push(Outgoing { id: rng.gen(), data, query, parts });
        self.x.len()
    }

    async fn chunk(&mut self, rng: &mut Rand, x: usize, part: u32, total: u64, par: [u32; 3], esi: u32, data: Vec<u8>, good: bool) {
        let o = &self.x[x - 1];
        let m = Part::Chunk { id: o.id, fec: par, part, total, seqno: esi, data }.msg();
        let (ident, kind) = (self.r.ident.clone(), self.kind);
        let size = m.to_bytes().len();
        if size <= 1024 {
            let packet = self.p.packet(rng, &ident, vec![m], kind);
            self.r.node.inject(packet, self.p.addr);
        } else {
            for part in Puppet::parts(&m, 1000) {
                let packet = self.p.packet(rng, &ident, vec![part], kind);
                self.r.node.inject(packet, self.p.addr);
            }
        }
        settle().await;
        let got = collect(&self.p, &mut self.r.node);
        let id = self.x[x - 1].id;
        let other = got.iter().filter(|p| p.id() != id).count();
        let delivered = self.delivered();
        let total = total.min(i32::MAX as u64);
        emit(json!({"e": "Chunk", "x": x, "part": small(part), "total": total, "par": par.map(small), "esi": small(esi), "good": good,
            "replies": replies(&got, id), "other": other, "delivered": delivered, "t": elapsed_ms(), "len": self.x[x - 1].data.len()}));
    }

    fn delivered(&self) -> Vec<usize> {
        self.r
            .handler
            .take()
            .iter()
            .map(|(_, peer, d)| match self.x.iter().position(|x| x.query == *d) {
                Some(i) if *peer == self.p.me.id => i + 1,
                _ => 0,
            })
            .collect()
    }

    async fn true_chunk(&mut self, rng: &mut Rand, x: usize, part: usize, esi: u32) {
        let o = &self.x[x - 1];
        let fec = &o.parts[part];
        let (total, par, data) = (o.data.len() as u64, fec.params, fec.symbol(esi));
        self.chunk(rng, x, part as u32, total, par, esi, data, true).await
    }

    async fn wait(&mut self, ms: u64) {
        sleep_ms(ms).await;
        let got = collect(&self.p, &mut self.r.node);
        emit(json!({"e": "Wait", "t": elapsed_ms(), "sent": got.len(), "delivered": self.delivered()}));
    }
}

fn replay(rng: &mut Rand, script: &[Value], counts: &[usize]) {
    scenario(json!({"kind": "script", "limit": LIMIT}), || async {
        let mut env = Env::new(rng, LIMIT).await;
        let len = *pick(rng, &[64u16, 65, 128, 768]);
        let x = env.message(rng, counts, len);
        for s in script {
            let part = s["part"].as_u64().unwrap() as usize;
            let esi = s["esi"].as_u64().unwrap() as u32;
            let o = &env.x[x - 1];
            let fec = &o.parts[part.min(o.parts.len() - 1)];
            let mut total = o.data.len() as u64;
            let mut par = fec.params;
            let data = fec.symbol(esi);
            if s["total"] == "other" {
                total = if rng.gen() { total + 1 } else { LIMIT as u64 };
            }
            if s["total"] == "big" {
                total = *pick(rng, &[LIMIT as u64 + 1, u32::MAX as u64, u64::MAX]);
            }
            if s["par"] == "other" {
                par[0] += 1;
            }
            env.chunk(rng, x, part as u32, total, par, esi, data, true).await;
        }
    });
}

fn receiver(rng: &mut Rand) {
    let limit = *pick(rng, &[LIMIT, 3000, 800]);
    scenario(json!({"kind": "receiver", "limit": limit}), || async {
        let mut env = Env::new(rng, limit).await;
        let n = rng.gen_range(1..=2);
        for _ in 0..n {
            let counts: Vec<usize> = (0..rng.gen_range(1..=3)).map(|_| rng.gen_range(1..=12)).collect();
            let len = *pick(rng, &[64u16, 72, 100, 128, 768]);
            env.message(rng, &counts, len);
        }
        let bad = rng.gen_range(0..3) == 0;
        let mut at: Vec<usize> = vec![0; n];
        let mut sent: Vec<u32> = vec![0; n];
        for _ in 0..rng.gen_range(20..90) {
            let x = rng.gen_range(1..=n);
            let parts = env.x[x - 1].parts.len();
            let k = env.x[x - 1].parts[at[x - 1]].count();
            if rng.gen_range(0..20) == 0 && parts > 1 {
                // another part
                let part = rng.gen_range(0..parts);
                let esi = rng.gen_range(0..2 * k);
                env.true_chunk(rng, x, part, esi).await;
                continue;
            }
            if bad && rng.gen_range(0..4) == 0 {
                let o = &env.x[x - 1];
                let fec = &o.parts[at[x - 1]];
                let (mut total, mut par, mut esi, mut part) = (o.data.len() as u64, fec.params, rng.gen_range(0..2 * k), at[x - 1] as u32);
                let mut data = fec.symbol(esi);
                let mut good = true;
                match rng.gen_range(0..10) {
                    0 => total = *pick(rng, &[0, 1, total + 1, total - 1, limit as u64, u32::MAX as u64 + total, 1 << 40]),
                    1 => par[0] = *pick(rng, &[0, par[0] + 1, u32::MAX, 1 << 30]),
                    2 => par[1] = *pick(rng, &[0, 1, 7, 8, 63, par[1] + 8, 65535, 65536 + par[1], u32::MAX]),
                    3 => par[2] = *pick(rng, &[0, par[2] + 1, u32::MAX]),
                    4 => {
                        esi = *pick(rng, &[1 << 24, (1 << 24) + 1, u32::MAX]);
                        good = false;
                    }
                    5 => {
                        let l = *pick(rng, &[0, 1, data.len() - 1, data.len() - 8, data.len() + 1, data.len() + 8]);
                        data.resize(l, 0);
                        good = false;
                    }
                    6 | 7 => part = *pick(rng, &[part + 1, part + 2, parts as u32, u32::MAX]),
                    _ => par = [*pick(rng, &[0, u32::MAX]), 0, 0],
                }
                env.chunk(rng, x, part, total, par, esi, data, good).await;
                continue;
            }
            // the current part: source symbols first, some lost, some repeated
            let esi = match rng.gen_range(0..8) {
                0 => rng.gen_range(0..=sent[x - 1]),
                1 => rng.gen_range(0..3 * k),
                2 => 1000 + rng.gen_range(0..1 << 20),
                3 if rng.gen_range(0..8) == 0 => (1 << 24) - 1 - rng.gen_range(0..3),
                _ => {
                    sent[x - 1] += rng.gen_range(1..=2);
                    sent[x - 1] - 1
                }
            };
            env.true_chunk(rng, x, at[x - 1], esi).await;
            if sent[x - 1] > k + rng.gen_range(2..8) {
                if at[x - 1] + 1 < parts {
                    at[x - 1] += 1;
                }
                sent[x - 1] = 0;
            }
            if rng.gen_range(0..60) == 0 {
                env.wait(*pick(rng, &[10, 1000, 5000])).await;
            }
        }
        // whatever happened before, complete the transfers that still can be
        for x in 1..=n {
            for part in 0..env.x[x - 1].parts.len() {
                for esi in 0..env.x[x - 1].parts[part].count() {
                    env.true_chunk(rng, x, part, esi).await;
                }
            }
        }
    });
}

/// Receives what the node sends
struct Incoming {
    id: [u8; 32],
    data: Vec<u8>,
    encoders: Vec<Option<Fec>>,
    part: u32,
    decoder: Option<everscale_raptorq::Decoder>,
    done: bool,
    last: Option<u32>,
    count: u32,
}

const SLICE: usize = 2_000_000;

fn sender(rng: &mut Rand, len: usize, answer: bool, loss: f64, evil: bool, silent: Option<u64>, delay: u64) {
    let opts = options();
    scenario(json!({"kind": "sender", "limit": LIMIT, "slen": len, "answer": answer, "wave": opts.query_wave_interval_ms, "delay": delay}), || async {
        // the payload whose message has the wanted length
        let mut payload_len = len.saturating_sub(if answer { 36 } else { 48 } + 4);
        loop {
            let l = if answer { answer_message(&[0; 32], &vec![0; payload_len]).len() } else { query_message(&[0; 32], 0, 0, &vec![0; payload_len]).len() };
            if l <= len || payload_len < 8 {
                break;
            }
            payload_len -= 1;
        }
        let body = payload(rng, 1, payload_len.max(8));
        let b = body.clone();
        let handler = Handler::new(move |_| Reply::Answer(b.clone()));
        let mut r = RldpNode::create(rng, 1, opts, handler);
        let mut p = Puppet::new(rng, addr(10, 1000));
        let ident = r.ident.clone();
        p.establish(rng, &mut r.node, &ident).await;
        r.node.sent();

        let mut query_task = None;
        let mut x = Incoming { id: [0; 32], data: Vec::new(), encoders: Vec::new(), part: 0, decoder: None, done: false, last: None, count: 0 };
        let mut query_id = [0u8; 32];
        if answer {
            // ask
            query_id = rng.gen();
            let q = query_message(&query_id, LIMIT as u64, unix_now() + 10, &payload(rng, 9, 40));
            let fec = Fec::new(&q, 768);
            let id: [u8; 32] = rng.gen();
            x.id = negate(id);
            let m = Part::Chunk { id, fec: fec.params, part: 0, total: q.len() as u64, seqno: 0, data: fec.symbol(0) }.msg();
            let packet = p.packet(rng, &ident, vec![m], 1);
            r.node.inject(packet, p.addr);
        } else {
            let (rldp, l, peer) = (r.rldp.clone(), ident.id, p.me.id);
            let b = body.clone();
            query_task = Some(tokio::spawn(async move { rldp.query(&l, &peer, b, None).await.ok().and_then(|r| r.0) }));
        }
        let mut full: Option<Vec<u8>> = None;
        let mut replied = false;
        let mut idle = 0;
        let mut stalled = false;
        let limit_steps = 4000;
        let mut late: std::collections::VecDeque<(u64, Part)> = Default::default();
        let lossy_acks = rng.gen_range(0..2) == 0;
        settle().await;
        for step in 0..limit_steps {
            let got = collect(&p, &mut r.node);
            let mut chunks = Vec::new();
            let mut sound = true;
            let mut send: Vec<Part> = Vec::new();
            let mut head = json!([0, 0, [0, 0, 0]]);
            for c in got {
                let Part::Chunk { id, fec, part, total, seqno, data } = c else { continue };
                if answer && id != x.id {
                    continue;
                }
                if x.data.is_empty() && !answer {
                    x.id = id;
                }
                if full.is_none() && answer {
                    full = Some(answer_message(&query_id, &body));
                }
                if full.is_none() && !answer && part == 0 && seqno == 0 && data.len() >= 48 {
                    let word = |i: usize| u32::from_le_bytes(data[i..i + 4].try_into().unwrap());
                    let max = word(36) as u64 | (word(40) as u64) << 32;
                    full = Some(query_message(data[4..36].try_into().unwrap(), max, word(44), &body));
                }
                sound &= id == x.id && full.as_ref().map(|f| f.len() as u64 == total).unwrap_or(false);
                head = json!([part, total, fec.map(small)]);
                // contents of symbols of the sender can be checked once the message is known
                if let Some(f) = &full {
                    let i = part as usize;
                    while x.encoders.len() <= i && i < 16 {
                        x.encoders.push(None);
                    }
                    let from = i * SLICE;
                    if i < 16 && from < f.len() {
                        let to = (from + SLICE).min(f.len());
                        let e = x.encoders[i].get_or_insert_with(|| Fec::new(&f[from..to], 768));
                        sound &= e.params == fec && e.symbol(seqno) == data;
                    } else {
                        sound = false;
                    }
                }
                chunks.push((part, seqno));
                if x.done || rng.gen_bool(loss) || silent.map(|s| step >= s).unwrap_or(false) {
                    continue;
                }
                if part < x.part {
                    send.push(Part::Complete { id: x.id, part });
                    continue;
                }
                if part > x.part || data.len() != 768 || fec[0] == 0 {
                    continue;
                }
                let d = x.decoder.get_or_insert_with(|| fec_decoder(fec));
                x.last = Some(seqno);
                match d.decode(fec_packet(seqno, data)) {
                    Some(d) => {
                        x.data.extend_from_slice(&d);
                        x.decoder = None;
                        x.count = 0;
                        if x.data.len() < total as usize {
                            x.part += 1;
                        } else {
                            x.done = true;
                        }
                        send.push(Part::Complete { id: x.id, part });
                    }
                    None => {
                        x.count += 1;
                        if x.count % 10 == 0 {
                            send.push(Part::Confirm { id: x.id, part, seqno });
                        }
                    }
                }
            }
            let parts: Vec<u32> = chunks.iter().map(|c| c.0).collect();
            let one = parts.windows(2).all(|w| w[0] == w[1]);
            let esis: Vec<u32> = chunks.iter().map(|c| small(c.1)).collect();
            emit(json!({"e": "Wave", "t": elapsed_ms(), "head": head, "one": one, "esis": esis, "sound": sound}));
            if chunks.is_empty() {
                idle += 1;
                stalled = true;
            } else {
                idle = 0;
            }
            if evil && rng.gen_range(0..6) == 0 {
                let part = *pick(rng, &[x.part, x.part, x.part.wrapping_sub(1), x.part + 1, x.part + 2, 0, u32::MAX]);
                let seqno = *pick(rng, &[0, 1, 100, 5000, 1 << 24, u32::MAX]);
                send.push(match rng.gen_range(0..3) {
                    // (a false report of the current part is the end of it)
                    0 if part != x.part && part != x.part + 1 => Part::Complete { id: x.id, part },
                    1 => Part::Confirm { id: if rng.gen() { x.id } else { rng.gen() }, part, seqno },
                    _ => Part::Complete { id: rng.gen(), part: x.part },
                });
            }
            if x.done && !answer && !replied {
                // the answer
                if let Some((id, _, q)) = read_query(&x.data) {
                    let a = answer_message(&id, &payload(rng, 5, 30));
                    let fec = Fec::new(&a, 768);
                    send.push(Part::Chunk { id: negate(x.id), fec: fec.params, part: 0, total: a.len() as u64, seqno: 0, data: fec.symbol(0) });
                    emit(json!({"e": "Received", "whole": q == body, "t": elapsed_ms()}));
                } else {
                    emit(json!({"e": "Received", "whole": false, "t": elapsed_ms()}));
                }
                replied = true;
            }
            if x.done && answer && !replied {
                let whole = read_answer(&x.data).map(|(i, d)| i == query_id && d == body).unwrap_or(false);
                emit(json!({"e": "Received", "whole": whole, "t": elapsed_ms()}));
                replied = true;
            }
            late.extend(send.into_iter().map(|s| (elapsed_ms() + delay, s)));
            while late.front().map(|l| l.0 <= elapsed_ms()).unwrap_or(false) {
                let s = late.pop_front().unwrap().1;
                let ack = !matches!(s, Part::Chunk { .. });
                if ack && lossy_acks && rng.gen_bool(loss) {
                    continue;
                }
                let ours = s.id() == x.id;
                match &s {
                    Part::Confirm { part, seqno, .. } => emit(json!({"e": "Confirm", "part": small(*part), "seqno": small(*seqno), "ours": ours, "t": elapsed_ms()})),
                    Part::Complete { part, .. } => emit(json!({"e": "Complete", "part": small(*part), "ours": ours, "t": elapsed_ms()})),
                    Part::Chunk { .. } => emit(json!({"e": "Reply", "t": elapsed_ms()})),
                }
                let packet = p.packet(rng, &ident, vec![s.msg()], 1);
                r.node.inject(packet, p.addr);
            }
            if idle > 3 && late.is_empty() && (stalled || x.done) {
                break;
            }
            sleep_ms(20).await;
        }
        emit(json!({"e": "End", "t": elapsed_ms(), "silent": silent.is_some(), "evil": evil}));
        drop(query_task);
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "R02");
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(500, 20000));
    for s in &scripts {
        let counts: Vec<usize> = s["counts"].as_array().map(|c| c.iter().map(|c| c.as_u64().unwrap() as usize).collect()).unwrap_or_else(|| vec![2, 1]);
        replay(&mut rng, s["script"].as_array().unwrap(), &counts);
    }
    for _ in 0..ctx.n(70, 2500) {
        receiver(&mut rng);
    }
    for i in 0..ctx.n(12, 240) {
        let len = *pick(&mut rng, &[60, 768, 769, 5000, 20_000, 100_000, 400_000]);
        let loss = *pick(&mut rng, &[0.0, 0.05, 0.3, 0.6]);
        let silent = (rng.gen_range(0..5) == 0).then(|| rng.gen_range(0..6));
        let evil = rng.gen();
        let delay = *pick(&mut rng, &[0, 0, 100, 400]);
        sender(&mut rng, len, i % 2 == 0, loss, evil, silent, delay);
    }
    // long ones
    for i in 0..ctx.n(2, 48) {
        let len = match i % 2 {
            0 => *pick(&mut rng, &[SLICE + 1, SLICE + 700, 2_300_000, 4_000_000, 4_100_000]),
            _ => *pick(&mut rng, &[900_000, 1_100_000, 1_500_000, SLICE]),
        };
        let loss = *pick(&mut rng, &[0.01, 0.02, 0.1]);
        let evil = rng.gen_range(0..3) == 0;
        let delay = if i % 2 == 0 { *pick(&mut rng, &[0, 100, 300]) } else { *pick(&mut rng, &[1200, 2000]) };
        sender(&mut rng, len, (i / 2 + i) % 2 == 0, loss, evil, None, delay);
    }
}
