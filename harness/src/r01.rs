//! R01: queries between nodes on a network with faults

use everscale_network::rldp::NodeOptions;
use rand::Rng;

use crate::core::*;
use crate::rldp::*;
use crate::wire::*;
use crate::Ctx;

/// How the application treats a query is written in its first bytes
pub fn query_payload(rng: &mut Rand, q: u32, len: usize, mode: u8, answer_seed: u32, answer_len: u32, delay: u32) -> Vec<u8> {
    let mut d = payload(rng, q, len.max(32));
    d[8] = mode;
    d[12..16].copy_from_slice(&answer_seed.to_le_bytes());
    d[16..20].copy_from_slice(&answer_len.to_le_bytes());
    d[20..24].copy_from_slice(&delay.to_le_bytes());
    d
}

pub fn answer_of(seed: u32, len: u32) -> Vec<u8> {
    let mut r = rng(seed as u64, "answer");
    // now and then easily compressed
    if seed % 3 == 0 {
        let mut d = vec![seed as u8; len as usize];
        if let Some(b) = d.last_mut() {
            *b = 1;
        }
        return d;
    }
    payload(&mut r, seed, len as usize)
}

fn word(d: &[u8], i: usize) -> u32 {
    u32::from_le_bytes(d[i..i + 4].try_into().unwrap())
}

pub fn application() -> std::sync::Arc<Handler> {
    Handler::new(|d| {
        if d.len() < 32 {
            return Reply::Silent;
        }
        let answer = || answer_of(word(d, 12), word(d, 16));
        match d[8] {
            0 => Reply::Answer(answer()),
            1 => Reply::Silent,
            2 => Reply::Reject,
            3 => Reply::Fail,
            _ => Reply::Later(word(d, 20) as u64, answer()),
        }
    })
}

fn random(rng: &mut Rand, large: bool) {
    // mild: some packets are lost, late or doubled; otherwise anything may happen
    let mild = rng.gen_range(0..3) > 0;
    let faults = if mild {
        Faults { loss: *pick(rng, &[0.0, 0.05, 0.2, 0.3]), dup: *pick(rng, &[0.0, 0.2]), delay: *pick(rng, &[0, 5, 40]), noise: *pick(rng, &[0.0, 0.05]) }
    } else {
        Faults { loss: *pick(rng, &[0.0, 0.3, 0.6, 0.9]), dup: *pick(rng, &[0.0, 0.5]), delay: *pick(rng, &[0, 40, 1000, 4000]), noise: *pick(rng, &[0.0, 0.3]) }
    };
    let force = [rng.gen(), rng.gen()];
    scenario(json!({"kind": "random", "mild": mild, "faults": format!("{faults:?}")}), || async {
        let nodes: Vec<_> = (0..2)
            .map(|i| {
                let options = NodeOptions { force_compression: force[i], ..Default::default() };
                RldpNode::create(rng, i as u8 + 1, options, application())
            })
            .collect();
        let mut net = RldpNet::new(nodes, faults);
        let n = if large { 2 } else { rng.gen_range(1..=10) };
        let mut at: Vec<u64> = (0..n).map(|_| rng.gen_range(0..if large { 50 } else { 3000 })).collect();
        at.sort();
        let mut next = 0;
        let mut quiet = 0;
        let partition = (!mild && rng.gen_range(0..2) == 0).then(|| rng.gen_range(0..3000u64));
        while next < n || !net.asked.is_empty() || quiet < 30 {
            while next < n && at[next] <= elapsed_ms() {
                let q = next as u32 + 1;
                let from = rng.gen_range(0..2);
                let sizes: &[usize] = if large { &[100, 800_000, 2_000_000, 2_100_000] } else { &[32, 100, 700, 768, 769, 2000, 10_000, 60_000] };
                let asizes: &[u32] = if large { &[800_000, 1_999_964, 1_999_965, 2_000_100, 4_100_000] } else { &[0, 1, 4, 100, 700, 768, 769, 2000, 10_000, 60_000] };
                let qlen = *pick(rng, sizes) + rng.gen_range(0..5);
                let alen = *pick(rng, asizes);
                let mode = *pick(rng, &[0, 0, 0, 0, 1, 2, 3, 4, 4]);
                let seed = rng.gen_range(1..1_000_000);
                let delay = *pick(rng, &[1, 50, 200, 300, 3000]);
                let query = query_payload(rng, q, qlen, mode, seed, alen, delay);
                let roundtrip = *pick(rng, &[None, None, Some(1), Some(50), Some(800), Some(20_000)]);
                emit(json!({"e": "Ask", "q": q, "from": from, "to": 1 - from, "qlen": qlen, "alen": alen, "t": elapsed_ms(),
                    "answers": mode == 0 || mode >= 4, "delay": if mode >= 4 { delay } else { 0 }}));
                net.ask(q, from, 1 - from, query, answer_of(seed, alen), roundtrip);
                next += 1;
            }
            if let Some(p) = partition {
                net.faults.loss = if (p..p + 2000).contains(&elapsed_ms()) { 1.0 } else { faults.loss };
            }
            let before = net.in_flight();
            let ms = if large { 5 } else { *pick(rng, &[1, 2, 5]) };
            net.step(rng, ms).await;
            let idle = next >= n && net.asked.is_empty() && before == 0;
            quiet = if idle { quiet + 1 } else { 0 };
            if elapsed_ms() > 120_000 {
                break;
            }
        }
        emit(json!({"e": "End", "t": elapsed_ms()}));
    });
}

/// Transfers which last longer than the timeout, but make progress
fn lasting(rng: &mut Rand) {
    let faults = Faults { loss: *pick(rng, &[0.0, 0.05]), dup: 0.0, delay: *pick(rng, &[0, 20]), noise: 0.0 };
    scenario(json!({"kind": "lasting", "mild": true, "faults": format!("{faults:?}")}), || async {
        let nodes: Vec<_> =
            (0..2).map(|i| RldpNode::create(rng, i as u8 + 1, NodeOptions::default(), application())).collect();
        let mut net = RldpNet::new(nodes, faults);
        let (qlen, alen) = *pick(rng, &[(700_000, 100), (900_000, 100), (1_300_000, 3000), (900_000, 900_000)]);
        // (not compressible)
        let seed = rng.gen_range(1..300_000) * 3 + 1;
        let query = query_payload(rng, 1, qlen, 0, seed, alen, 0);
        let roundtrip = *pick(rng, &[Some(1), Some(20), Some(100)]);
        emit(json!({"e": "Ask", "q": 1, "from": 0, "to": 1, "qlen": qlen, "alen": alen, "t": elapsed_ms(), "answers": true, "delay": 0}));
        net.ask(1, 0, 1, query, answer_of(seed, alen), roundtrip);
        while !net.asked.is_empty() && elapsed_ms() < 120_000 {
            net.step(rng, 5).await;
        }
        emit(json!({"e": "End", "t": elapsed_ms()}));
    });
}

/// A peer that answers with something else
fn puppet(rng: &mut Rand) {
    scenario(json!({"kind": "puppet", "mild": false}), || async {
        let mut r = RldpNode::create(rng, 1, NodeOptions::default(), application());
        let mut p = Puppet::new(rng, addr(10, 1000));
        let ident = r.ident.clone();
        p.establish(rng, &mut r.node, &ident).await;
        r.node.sent();
        for q in 1..=rng.gen_range(1..=4u32) {
            let qlen = *pick(rng, &[32usize, 300, 600]);
            let alen = *pick(rng, &[0usize, 10, 400, 600]);
            let mut query = payload(rng, q, qlen);
            query[0] |= 1;
            let answer = payload(rng, q, alen);
            emit(json!({"e": "Ask", "q": q, "from": 0, "to": 2, "qlen": qlen, "alen": alen, "t": elapsed_ms(), "answers": true, "delay": 0}));
            let (rldp, l, peer, data) = (r.rldp.clone(), ident.id, p.me.id, query.clone());
            let task = tokio::spawn(async move { rldp.query(&l, &peer, data, None).await.ok().map(|r| r.0) });
            settle().await;
            // the query of one symbol
            let Some((id, message)) = collect(&p, &mut r.node).into_iter().find_map(|c| match c {
                Part::Chunk { id, data, fec, .. } => Some((id, data[..(fec[0] as usize).min(data.len())].to_vec())),
                _ => None,
            }) else {
                emit(json!({"e": "Missing"}));
                break;
            };
            let Some((query_id, _, seen)) = read_query(&message) else {
                emit(json!({"e": "Missing"}));
                break;
            };
            let known = seen == query;
            emit(json!({"e": "Called", "q": q, "at": 2, "known": known, "t": elapsed_ms()}));
            let kind = *pick(rng, &["good", "good", "id", "query", "trail", "garbage", "short", "transfer"]);
            let other: [u8; 32] = rng.gen();
            let mut transfer = negate(id);
            let m = match kind {
                "id" => answer_message(&other, &answer),
                "query" => query_message(&query_id, 1000, 0, &answer),
                "trail" => [answer_message(&query_id, &answer), vec![0; 4]].concat(),
                "garbage" => bytes(rng, alen.max(4)),
                "short" => {
                    let m = answer_message(&query_id, &answer);
                    m[..m.len() - 4].to_vec()
                }
                _ => answer_message(&query_id, &answer),
            };
            if kind == "transfer" {
                transfer = other;
            }
            let fec = Fec::new(&m, 768);
            let chunk = Part::Chunk { id: transfer, fec: fec.params, part: 0, total: m.len() as u64, seqno: 0, data: fec.symbol(0) };
            let chan = p.packet(rng, &ident, vec![chunk.msg()], 1);
            r.node.inject(chan, p.addr);
            // until the query ends
            let mut n = 0;
            while !task.is_finished() && n < 100_000 {
                sleep_ms(10).await;
                r.node.sent();
                n += 1;
            }
            let (res, whole) = match task.await {
                Ok(Some(Some(d))) => ("answer", d == answer && (kind == "good" || kind == "trail")),
                Ok(Some(None)) => ("none", kind != "good"),
                Ok(None) => ("error", kind != "good"),
                Err(_) => ("lost", false),
            };
            emit(json!({"e": "Result", "q": q, "res": res, "whole": whole, "kind": kind, "t": elapsed_ms()}));
        }
        emit(json!({"e": "End", "t": elapsed_ms()}));
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "R01");
    for _ in 0..ctx.n(250, 6000) {
        random(&mut rng, false);
    }
    for _ in 0..ctx.n(8, 200) {
        random(&mut rng, true);
    }
    for _ in 0..ctx.n(4, 60) {
        lasting(&mut rng);
    }
    for _ in 0..ctx.n(80, 2000) {
        puppet(&mut rng);
    }
}
