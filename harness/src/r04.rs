//! R04: sizes of queries and answers, with and without compression

use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use everscale_network::rldp::NodeOptions;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::rldp::*;
use crate::wire::*;
use crate::Ctx;

const TAG: u8 = 0x80;

/// Own version of the format
fn pack(data: &[u8]) -> Vec<u8> {
    let mut res = zstd::stream::encode_all(data, 3).unwrap();
    res.extend(zstd::stream::encode_all(&(data.len() as u32).to_be_bytes()[..], 3).unwrap());
    res.push(TAG);
    res
}

/// What the other side makes of it
pub fn unpack(data: &[u8]) -> Vec<u8> {
    if data.last() == Some(&TAG) {
        if let Ok(mut d) = zstd::stream::decode_all(&data[..data.len() - 1]) {
            if d.len() >= 4 {
                let len = d.split_off(d.len() - 4);
                if u32::from_be_bytes(len.try_into().unwrap()) as usize == d.len() {
                    return d;
                }
            }
        }
    }
    data.to_vec()
}

/// A payload of about (packed) or exactly the length
fn content(rng: &mut Rand, kind: &str, n: u32, len: usize) -> Vec<u8> {
    let len = len.max(4);
    match kind {
        "random" => {
            let mut d = bytes(rng, len);
            // the tag alone means nothing
            if rng.gen_range(0..3) == 0 {
                *d.last_mut().unwrap() = TAG;
            }
            d
        }
        "flat" => {
            let mut d = vec![n as u8; len];
            d[0] = (n >> 8) as u8;
            if rng.gen_range(0..2) == 0 {
                *d.last_mut().unwrap() = TAG;
            }
            d
        }
        // itself the outcome of a compression, of something or almost so
        _ => {
            let inner = bytes(rng, len.saturating_sub(28));
            match rng.gen_range(0..6) {
                0 => {
                    let mut d = zstd::stream::encode_all(&inner[..], 3).unwrap();
                    d.extend(zstd::stream::encode_all(&(inner.len() as u32 + 1).to_be_bytes()[..], 3).unwrap());
                    d.push(TAG);
                    d
                }
                1 => {
                    let mut d = zstd::stream::encode_all(&inner[..], 3).unwrap();
                    d.push(TAG);
                    d
                }
                2 => {
                    // of something huge
                    let big = vec![n as u8; *pick(rng, &[1000usize, 50_000, 3_000_000])];
                    pack(&big)
                }
                3 => {
                    let inner = bytes(rng, 10);
                    pack(&inner)
                }
                _ => {
                    let mut d = pack(&inner);
                    // of the exact length
                    let mut k = inner.len();
                    for _ in 0..60 {
                        k = match d.len().cmp(&len) {
                            std::cmp::Ordering::Greater if k > 0 => k - 1,
                            std::cmp::Ordering::Less => k + 1,
                            _ => break,
                        };
                        d = pack(&bytes(rng, k));
                    }
                    d
                }
            }
        }
    }
}

fn size(rng: &mut Rand, kind: &str, limit: usize) -> usize {
    let slack = 128 + limit / 128;
    match kind {
        "under" => rng.gen_range(4..=limit.saturating_sub(slack).max(5)),
        "near" => rng.gen_range(limit.saturating_sub(slack).max(4)..=limit.max(5)),
        "over" => match rng.gen_range(0..3) {
            0 => limit + rng.gen_range(1..=slack),
            1 => limit + rng.gen_range(1..=4),
            _ => limit * rng.gen_range(2..6) + rng.gen_range(0..100),
        },
        _ => rng.gen_range(4..=limit * 2),
    }
}

type Answers = Arc<Mutex<HashMap<Vec<u8>, Vec<u8>>>>;

fn application(answers: &Answers) -> Arc<Handler> {
    let answers = answers.clone();
    Handler::new(move |d| match answers.lock().unwrap().get(d) {
        Some(a) => Reply::Answer(a.clone()),
        None => Reply::Answer(b"unknown query".to_vec()),
    })
}

struct Case {
    la: usize,
    lb: usize,
    fa: bool,
    fb: bool,
    queries: Vec<(Vec<u8>, Vec<u8>)>,
}

/// A query of one node to another
fn nodes(rng: &mut Rand, case: Case, info: Value) {
    scenario(json!({"kind": "nodes", "case": info, "la": case.la, "lb": case.lb, "force": [case.fa, case.fb]}), || async {
        let answers: Answers = Default::default();
        let nodes: Vec<_> = [(case.la, case.fa), (case.lb, case.fb)]
            .into_iter()
            .enumerate()
            .map(|(i, (limit, force))| {
                let options = NodeOptions { max_answer_size: limit as u32, force_compression: force, query_max_timeout_ms: 800, ..Default::default() };
                RldpNode::create(rng, i as u8 + 1, options, application(&answers))
            })
            .collect();
        let mut net = RldpNet::new(nodes, CLEAN);
        net.wire = true;
        for (i, (query, answer)) in case.queries.iter().enumerate() {
            let q = i as u32 + 1;
            answers.lock().unwrap().insert(query.clone(), answer.clone());
            emit(json!({"e": "Ask", "q": q, "qlen": query.len(), "alen": answer.len(), "la": case.la, "lb": case.lb}));
            net.ask(q, 0, 1, query.clone(), answer.clone(), None);
            let mut quiet = 0;
            while quiet < 3 {
                net.step(rng, 10).await;
                quiet = if net.asked.is_empty() { quiet + 1 } else { 0 };
                if elapsed_ms() > 100_000 {
                    break;
                }
            }
        }
        emit(json!({"e": "End"}));
    });
}

/// A payload of a puppet, honestly encoded
fn encode(rng: &mut Rand, data: &[u8]) -> Vec<u8> {
    if unpack(data) != data || rng.gen() {
        pack(data)
    } else {
        data.to_vec()
    }
}

const FAR: u32 = 1_000_000_000;

/// A peer answers to a node
fn answers(rng: &mut Rand, la: usize, fa: bool, queries: Vec<(Vec<u8>, Vec<u8>)>) {
    scenario(json!({"kind": "answers", "la": la, "force": fa}), || async {
        let options = NodeOptions { max_answer_size: la as u32, force_compression: fa, query_max_timeout_ms: 800, ..Default::default() };
        let mut r = RldpNode::create(rng, 1, options, application(&Default::default()));
        let mut p = Puppet::new(rng, addr(10, 1000));
        let ident = r.ident.clone();
        p.establish(rng, &mut r.node, &ident).await;
        r.node.sent();
        for (i, (query, answer)) in queries.into_iter().enumerate() {
            let q = i as u32 + 1;
            emit(json!({"e": "Ask", "q": q, "qlen": query.len(), "alen": answer.len(), "la": la, "lb": FAR}));
            let (rldp, l, peer, data) = (r.rldp.clone(), ident.id, p.me.id, query.clone());
            let task = tokio::spawn(async move { rldp.query(&l, &peer, data, None).await.ok().map(|r| r.0) });
            let mut assembly = Assembly::default();
            let mut n = 0;
            let mut answered = false;
            while !task.is_finished() && n < 10_000 {
                settle().await;
                let parts = collect(&p, &mut r.node);
                if !answered {
                    if let Some((id, message)) = assembly.add(parts) {
                        let Some((query_id, announced, seen)) = read_query(&message) else {
                            emit(json!({"e": "Missing"}));
                            break;
                        };
                        let known = unpack(&seen) == query && announced == la as u64;
                        emit(json!({"e": "Called", "q": q, "at": 2, "known": known}));
                        let complete = Part::Complete { id, part: 0 };
                        let mut out = vec![complete];
                        let m = answer_message(&query_id, &encode(rng, &answer));
                        out.extend(symbols(negate(id), &m));
                        for part in out {
                            let chan = p.packet(rng, &ident, vec![part.msg()], 1);
                            r.node.inject(chan, p.addr);
                        }
                        answered = true;
                        continue;
                    }
                }
                sleep_ms(10).await;
                n += 1;
            }
            let (res, whole) = match task.await {
                Ok(Some(Some(d))) => ("answer", d == answer),
                Ok(Some(None)) => ("none", true),
                Ok(None) => ("error", true),
                Err(_) => ("lost", false),
            };
            emit(json!({"e": "Result", "q": q, "res": res, "whole": whole, "wire": 0}));
        }
        emit(json!({"e": "End"}));
    });
}

/// A peer asks a node
fn asks(rng: &mut Rand, la: u64, lb: usize, fb: bool, queries: Vec<(Vec<u8>, Vec<u8>)>) {
    scenario(json!({"kind": "asks", "la": la.min(FAR as u64), "lb": lb, "force": fb}), || async {
        let table: Answers = Default::default();
        let options = NodeOptions { max_answer_size: lb as u32, force_compression: fb, query_max_timeout_ms: 800, ..Default::default() };
        let mut r = RldpNode::create(rng, 1, options, application(&table));
        let mut p = Puppet::new(rng, addr(10, 1000));
        let ident = r.ident.clone();
        p.establish(rng, &mut r.node, &ident).await;
        r.node.sent();
        for (i, (query, answer)) in queries.into_iter().enumerate() {
            let q = i as u32 + 1;
            table.lock().unwrap().insert(query.clone(), answer.clone());
            emit(json!({"e": "Ask", "q": q, "qlen": query.len(), "alen": answer.len(), "la": la.min(FAR as u64), "lb": lb}));
            let (id, query_id): ([u8; 32], [u8; 32]) = (rng.gen(), rng.gen());
            let m = query_message(&query_id, la, u32::MAX, &encode(rng, &query));
            for part in symbols(id, &m) {
                let chan = p.packet(rng, &ident, vec![part.msg()], 1);
                r.node.inject(chan, p.addr);
            }
            let mut assembly = Assembly::default();
            let mut result = ("none", true, 0);
            for _ in 0..40 {
                settle().await;
                if let Some((id2, message)) = assembly.add(collect(&p, &mut r.node)) {
                    result = match read_answer(&message) {
                        Some((i, d)) if i == query_id && id2 == negate(id) => ("answer", unpack(&d) == answer, d.len()),
                        _ => ("strange", false, 0),
                    };
                    let chan = p.packet(rng, &ident, vec![Part::Complete { id: id2, part: 0 }.msg()], 1);
                    r.node.inject(chan, p.addr);
                    break;
                }
                sleep_ms(10).await;
            }
            for (_, _, data) in r.handler.take() {
                emit(json!({"e": "Called", "q": q, "at": 1, "known": data == query}));
            }
            emit(json!({"e": "Result", "q": q, "res": result.0, "whole": result.1, "wire": result.2}));
        }
        emit(json!({"e": "End"}));
    });
}

/// All source symbols of a message of one part
pub fn symbols(id: [u8; 32], message: &[u8]) -> Vec<Part> {
    let fec = Fec::new(message, 768);
    (0..fec.count())
        .map(|i| Part::Chunk { id, fec: fec.params, part: 0, total: message.len() as u64, seqno: i, data: fec.symbol(i) })
        .collect()
}

/// The receiver of one message of one part
#[derive(Default)]
pub struct Assembly {
    decoder: Option<(([u8; 32], [u32; 3]), everscale_raptorq::Decoder)>,
}

impl Assembly {
    pub fn add(&mut self, parts: Vec<Part>) -> Option<([u8; 32], Vec<u8>)> {
        for part in parts {
            let Part::Chunk { id, fec, seqno, data, .. } = part else { continue };
            if self.decoder.as_ref().map_or(true, |d| d.0 != (id, fec)) {
                self.decoder = Some(((id, fec), fec_decoder(fec)));
            }
            if let Some(d) = self.decoder.as_mut().unwrap().1.decode(fec_packet(seqno, data)) {
                return Some((id, d));
            }
        }
        None
    }
}

fn random_queries(rng: &mut Rand, la: usize, lb: usize, n: u32) -> Vec<(Vec<u8>, Vec<u8>)> {
    (0..n)
        .map(|i| {
            let mut one = |limit| {
                let s = *pick(rng, &["under", "under", "near", "over", "any"]);
                let k = *pick(rng, &["random", "flat", "packed", "packed"]);
                let len = size(rng, s, limit);
                content(rng, k, i + 1, len)
            };
            (one(lb), one(la))
        })
        .collect()
}

const LIMITS: &[usize] = &[50, 128, 256, 300, 1000, 3000, 20_000];

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "R04");
    let rng = &mut rng;
    let mut scripts: Vec<_> = ctx.scripts.iter().map(|s| s["script"][0].clone()).collect();
    scripts.shuffle(rng);
    scripts.truncate(ctx.n(350, 100_000));
    for s in scripts {
        let (la, lb) = (s[0].as_u64().unwrap() as usize, s[1].as_u64().unwrap() as usize);
        let qlen = size(rng, s[4].as_str().unwrap(), lb);
        let query = content(rng, s[5].as_str().unwrap(), 1, qlen);
        let alen = size(rng, s[6].as_str().unwrap(), la);
        let answer = content(rng, s[7].as_str().unwrap(), 2, alen);
        let case = Case { la, lb, fa: s[2].as_bool().unwrap(), fb: s[3].as_bool().unwrap(), queries: vec![(query, answer)] };
        nodes(rng, case, s);
    }
    for _ in 0..ctx.n(60, 3000) {
        let (la, lb) = (*pick(rng, LIMITS), *pick(rng, LIMITS));
        let n = rng.gen_range(1..5);
        let queries = random_queries(rng, la, lb, n);
        let (fa, fb) = (rng.gen(), rng.gen());
        nodes(rng, Case { la, lb, fa, fb, queries }, json!("random"));
    }
    // close to each other, one after another
    for _ in 0..ctx.n(6, 60) {
        let (la, lb) = (*pick(rng, LIMITS), *pick(rng, LIMITS));
        let (qk, ak) = (*pick(rng, &["random", "flat"]), *pick(rng, &["random", "flat"]));
        let queries = (0..24)
            .map(|i| {
                let q = (lb + i / 5 * 8).saturating_sub(16 + i % 3);
                let a = (la + i % 6 * 8).saturating_sub(16 + i % 5);
                (content(rng, qk, i as u32, q), content(rng, ak, i as u32, a))
            })
            .collect();
        let (fa, fb) = (rng.gen(), rng.gen());
        nodes(rng, Case { la, lb, fa, fb, queries }, json!("close"));
    }
    for _ in 0..ctx.n(100, 3000) {
        let la = *pick(rng, LIMITS);
        let n = rng.gen_range(1..5);
        let queries = random_queries(rng, la, 1000, n);
        let fa = rng.gen();
        answers(rng, la, fa, queries);
    }
    for _ in 0..ctx.n(100, 3000) {
        let (la, lb) = (*pick(rng, LIMITS), *pick(rng, LIMITS));
        let n = rng.gen_range(1..5);
        let queries = random_queries(rng, la, lb, n);
        let announced = *pick(rng, &[la as u64, la as u64, la as u64, 0, 1, FAR as u64, u64::MAX, u32::MAX as u64 + 1]);
        let fb = rng.gen();
        asks(rng, announced, lb, fb, queries);
    }
}
