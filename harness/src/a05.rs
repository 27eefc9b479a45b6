//! A05: large messages

use std::sync::Arc;

use everscale_network::adnl::NodeOptions;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::wire::*;
use crate::Ctx;

/// Custom message whose serialized form has the length (a multiple of 4, at least 264)
fn message(rng: &mut Rand, len: usize) -> (Vec<u8>, Vec<u8>) {
    let data = bytes(rng, len - 8);
    let raw = Msg::Custom(data.clone()).to_bytes();
    assert_eq!(raw.len(), len);
    (data, raw)
}

struct Env {
    node: TestNode,
    rec: Arc<Recorder>,
    idents: Vec<Ident>,
    puppets: Vec<Puppet>,
    /// payload and serialized message
    msgs: Vec<(Vec<u8>, Vec<u8>)>,
}

impl Env {
    fn new(rng: &mut Rand, lens: &[usize], locals: usize, peers: usize) -> Self {
        let idents: Vec<Ident> = (0..locals).map(|_| Ident::gen(rng)).collect();
        let node = TestNode::create(addr(1, 100), &idents, NodeOptions::default(), None);
        let rec = Arc::new(Recorder::default());
        node.adnl.add_message_subscriber(rec.clone()).unwrap();
        node.adnl.start().unwrap();
        let puppets = (0..peers).map(|i| Puppet::new(rng, addr(10 + i as u8, 1000))).collect();
        let msgs = lens.iter().map(|l| message(rng, *l)).collect();
        Env { node, rec, idents, puppets, msgs }
    }

    /// deliveries as <<dst, src, message>>
    fn delivered(&self) -> Vec<[usize; 3]> {
        self.rec
            .take()
            .iter()
            .map(|(local, peer, data)| {
                [
                    self.idents.iter().position(|i| i.id == *local).map(|i| i + 1).unwrap_or(0),
                    self.puppets.iter().position(|p| p.me.id == *peer).map(|i| i + 1).unwrap_or(0),
                    self.msgs.iter().position(|m| m.0 == *data).map(|i| i + 1).unwrap_or(0),
                ]
            })
            .collect()
    }

    async fn part(&mut self, rng: &mut Rand, dst: usize, src: usize, m: usize, part: Part) {
        let ident = self.idents[dst - 1].clone();
        let (_, raw) = &self.msgs[m - 1];
        let msg = Msg::Part {
            hash: sha(raw),
            total: part.total,
            offset: part.offset as u32,
            data: part.data.clone(),
        };
        let good = raw.get(part.offset..part.offset + part.data.len()) == Some(part.data.as_slice());
        let packet = self.puppets[src - 1].handshake(rng, &ident, vec![msg]);
        let from = self.puppets[src - 1].addr;
        self.node.inject(packet, from);
        settle().await;
        emit(json!({"e": "Part", "dst": dst, "src": src, "m": m, "off": part.offset, "len": part.data.len(),
            "total": part.total, "good": good, "t": elapsed_ms(), "delivered": self.delivered(),
            "live": self.node.adnl.metrics().incoming_transfers_len}));
    }

    fn true_part(&self, m: usize, offset: usize, len: usize) -> Part {
        let raw = &self.msgs[m - 1].1;
        Part { offset, total: raw.len() as u32, data: raw[offset..offset + len].to_vec() }
    }

    async fn wait(&mut self, ms: u64) {
        sleep_ms(ms).await;
        emit(json!({"e": "Wait", "t": elapsed_ms(), "delivered": self.delivered(),
            "live": self.node.adnl.metrics().incoming_transfers_len}));
    }
}

struct Part {
    offset: usize,
    total: u32,
    data: Vec<u8>,
}

fn replay(rng: &mut Rand, script: &[Value]) {
    const U: usize = 400;
    scenario(json!({"lens": [3 * U]}), || async {
        let mut env = Env::new(rng, &[3 * U], 1, 1);
        for s in script {
            if s.get("wait").is_some() {
                env.wait(7000).await;
                continue;
            }
            let (off, len) = (s["off"].as_u64().unwrap() as usize * U, s["len"].as_u64().unwrap() as usize * U);
            let mut part = env.true_part(1, off, len);
            if !s["ok"].as_bool().unwrap() {
                if let Some(b) = part.data.first_mut() {
                    *b ^= 1;
                }
            }
            env.part(rng, 1, 1, 1, part).await;
        }
    });
}

/// Cuts a message at random places
fn cut(rng: &mut Rand, total: usize) -> Vec<(usize, usize)> {
    let max = *pick(rng, &[300, 600, 1024, 1024]);
    let mut res = Vec::new();
    let mut off = 0;
    while off < total {
        let len = if max == 1024 && rng.gen::<bool>() { 1024 } else { rng.gen_range(1..=max) };
        let len = len.min(total - off);
        res.push((off, len));
        off += len;
    }
    res
}

fn random(rng: &mut Rand) {
    let locals = rng.gen_range(1..=2);
    let peers = rng.gen_range(1..=2);
    let lens: Vec<usize> = (0..rng.gen_range(1..=3)).map(|_| 4 * rng.gen_range(100..1200)).collect();
    let adversary = rng.gen::<bool>();
    scenario(json!({"lens": lens}), || async {
        let mut env = Env::new(rng, &lens, locals, peers);
        // what is in flight
        let mut flight: Vec<(usize, usize, usize, usize, usize)> = Vec::new();
        let send_all = |rng: &mut Rand, flight: &mut Vec<(usize, usize, usize, usize, usize)>, m: usize| {
            let (dst, src) = (rng.gen_range(1..=locals), rng.gen_range(1..=peers));
            for (o, l) in cut(rng, lens[m - 1]) {
                flight.push((dst, src, m, o, l));
                if rng.gen_range(0..5) == 0 {
                    flight.push((dst, src, m, o, l));
                }
            }
        };
        for m in 1..=lens.len() {
            send_all(rng, &mut flight, m);
            if rng.gen::<bool>() {
                send_all(rng, &mut flight, m);
            }
        }
        let mut budget = 60;
        while budget > 0 && !flight.is_empty() {
            budget -= 1;
            match rng.gen_range(0..20) {
                0 => {
                    // lost
                    let i = rng.gen_range(0..flight.len());
                    flight.swap_remove(i);
                }
                1 => env.wait(*pick(rng, &[1, 500, 1500, 1999, 2500, 3000, 4000, 7001, 9000])).await,
                2 => {
                    let m = rng.gen_range(1..=lens.len());
                    send_all(rng, &mut flight, m);
                }
                3 | 4 if adversary => {
                    let (dst, src, m, o, l) = *pick(rng, &flight);
                    let mut part = env.true_part(m, o, l);
                    match rng.gen_range(0..8) {
                        0 => part.data.clear(),
                        1 => part.data[0] ^= 0x80,
                        2 => part.total = part.total.wrapping_add(4),
                        3 => part.total = *pick(rng, &[0, 1, u32::MAX, 1 << 31]),
                        4 => part.offset += rng.gen_range(1..500),
                        5 => part.data.truncate(l / 2),
                        6 => part.data.extend_from_slice(&[7; 16]),
                        _ => {
                            part.offset = part.total as usize;
                            if rng.gen::<bool>() {
                                part.data.clear()
                            }
                        }
                    }
                    if part.data.len() > 1100 {
                        part.data.truncate(1100);
                    }
                    env.part(rng, dst, src, m, part).await;
                }
                _ => {
                    let i = rng.gen_range(0..flight.len());
                    let (dst, src, m, o, l) = flight[i];
                    if rng.gen_range(0..8) > 0 {
                        flight.swap_remove(i);
                    }
                    let part = env.true_part(m, o, l);
                    env.part(rng, dst, src, m, part).await;
                }
            }
        }
        env.wait(7001).await;
    });
}

/// How a node splits what it sends: before a channel exists, while it is not
/// confirmed, and in a channel
fn split(rng: &mut Rand, sizes: &[usize]) {
    scenario(json!({"lens": []}), || async {
        let mut env = Env::new(rng, &[], 1, 1);
        let ident = env.idents[0].clone();
        let mut p = env.puppets.pop().unwrap();
        let key = keypair(rng);
        p.link(rng, &ident).my_key = key;
        // makes the peer known
        let hello = p.handshake(rng, &ident, vec![Msg::Nop]);
        env.node.inject(hello, p.addr);
        settle().await;
        for stage in 0..3 {
            if stage == 1 {
                let create = Msg::Create { key: *key.public_key.as_bytes(), date: unix_now() };
                let packet = p.handshake(rng, &ident, vec![create]);
                env.node.inject(packet, p.addr);
                settle().await;
            }
            if stage == 2 {
                // anything in the channel makes it ready
                env.node.adnl.send_custom_message(&ident.id, &p.me.id, b"1234").unwrap();
                settle().await;
                for (data, _) in env.node.sent() {
                    if let Some(o) = p.open(&data) {
                        for m in o.body.messages {
                            if let Msg::Confirm { key, .. } = m {
                                p.add_chan(rng, &ident, key);
                            }
                        }
                    }
                }
                let packet = p.channel(rng, &ident, vec![Msg::Nop], false).expect("channel");
                env.node.inject(packet, p.addr);
                settle().await;
            }
            for size in sizes {
                let data = bytes(rng, *size);
                let raw = Msg::Custom(data.clone()).to_bytes();
                let sent = env.node.adnl.send_custom_message(&ident.id, &p.me.id, &data).is_ok();
                settle().await;
                let mut parts = Vec::new();
                let mut whole = 0;
                let mut sound = sent;
                let mut packet_sizes = Vec::new();
                for (packet, to) in env.node.sent() {
                    packet_sizes.push(packet.len());
                    sound &= to == p.addr;
                    let Some(o) = p.open(&packet) else {
                        sound = false;
                        continue;
                    };
                    for m in o.body.messages {
                        match m {
                            Msg::Part { hash, total, offset, data } => {
                                let o = offset as usize;
                                sound &= hash == sha(&raw)
                                    && total as usize == raw.len()
                                    && raw.get(o..o + data.len()) == Some(data.as_slice());
                                parts.push((o, data.len()));
                            }
                            Msg::Custom(d) => {
                                sound &= d == data;
                                whole += 1;
                            }
                            Msg::Create { .. } | Msg::Confirm { .. } => {}
                            _ => sound = false,
                        }
                    }
                }
                // the order of packets does not matter
                parts.sort();
                emit(json!({"e": "Split", "stage": stage, "size": size, "len": raw.len(), "parts": parts, "whole": whole,
                    "sound": sound, "sizes": packet_sizes}));
            }
        }
    });
}

fn end_to_end(rng: &mut Rand, version: Option<u16>) {
    scenario(json!({"lens": []}), || async {
        let (ia, ib) = (Ident::gen(rng), Ident::gen(rng));
        let options = NodeOptions { version, ..Default::default() };
        let mut a = TestNode::create(addr(1, 100), &[ia.clone()], options, None);
        let mut b = TestNode::create(addr(2, 200), &[ib.clone()], options, None);
        let rec = Arc::new(Recorder::default());
        b.adnl.add_message_subscriber(rec.clone()).unwrap();
        a.adnl.start().unwrap();
        b.adnl.start().unwrap();
        let ctx = everscale_network::adnl::NewPeerContext::AdnlPacket;
        a.adnl.add_peer(ctx, &ia.id, &ib.id, b.addr, ib.full).unwrap();
        b.adnl.add_peer(ctx, &ib.id, &ia.id, a.addr, ia.full).unwrap();
        for _ in 0..6 {
            let size = *pick(rng, &[0, 4, 900, 930, 1000, 1011, 1012, 1013, 1020, 1024, 1500, 2048, 2100, 3000, 4096, 5000, 17_000, 100_000]);
            let size = size + rng.gen_range(0..5);
            let mut data = bytes(rng, size);
            if data.len() < 4 {
                data = vec![9; 4];
            }
            if a.adnl.send_custom_message(&ia.id, &ib.id, &data).is_err() {
                emit(json!({"e": "EndToEnd", "size": size, "missing": false, "delivered": 0, "wrong": 0}));
                continue;
            }
            settle().await;
            let mut packets = a.sent();
            let missing = rng.gen_range(0..4) == 0 && !packets.is_empty();
            packets.shuffle(rng);
            if missing {
                packets.pop();
            }
            let mut seen = Vec::new();
            let (mut delivered, mut wrong) = (0, 0);
            while let Some((packet, from)) = packets.pop() {
                // duplicates only while the message is incomplete
                if !seen.is_empty() && rng.gen_range(0..4) == 0 {
                    let dup: &Vec<u8> = pick(rng, &seen);
                    b.inject(dup.clone(), from);
                    settle().await;
                }
                b.inject(packet.clone(), a.addr);
                seen.push(packet);
                settle().await;
                for (l, p, d) in rec.take() {
                    if l == ib.id && p == ia.id && d == data {
                        delivered += 1;
                    } else {
                        wrong += 1;
                    }
                }
            }
            // answers of b reach a
            for (packet, _) in b.sent() {
                a.inject(packet, b.addr);
            }
            settle().await;
            emit(json!({"e": "EndToEnd", "size": size, "missing": missing, "delivered": delivered, "wrong": wrong}));
            if rng.gen::<bool>() {
                b.adnl.send_custom_message(&ib.id, &ia.id, b"5678").unwrap();
                settle().await;
                for (packet, _) in b.sent() {
                    a.inject(packet, b.addr);
                }
                settle().await;
            }
        }
    });
}

/// Several threads
fn burst(rng: &mut Rand) {
    reset_event(json!({}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    rt.block_on(async {
        let lens: Vec<usize> = (0..16).map(|_| 4 * rng.gen_range(100..900)).collect();
        let mut env = Env::new(rng, &lens, 1, 2);
        let ident = env.idents[0].clone();
        for p in 0..2 {
            let hello = env.puppets[p].handshake(rng, &ident, vec![Msg::Nop]);
            env.node.inject(hello, env.puppets[p].addr);
        }
        tokio::time::sleep(std::time::Duration::from_millis(5)).await;
        let mut packets = Vec::new();
        for m in 1..=lens.len() {
            let raw = env.msgs[m - 1].1.clone();
            let max = *pick(rng, &[40, 100, 1024]);
            let mut off = 0;
            while off < raw.len() {
                let len = max.min(raw.len() - off);
                let msg = Msg::Part { hash: sha(&raw), total: raw.len() as u32, offset: off as u32, data: raw[off..off + len].to_vec() };
                packets.push(env.puppets[m % 2].handshake(rng, &ident, vec![msg]));
                off += len;
            }
        }
        packets.shuffle(rng);
        for p in packets {
            env.node.inject(p, addr(10, 1000));
        }
        let mut counts = vec![0; lens.len()];
        let mut wrong = 0;
        let mut calm = 0;
        for _ in 0..400 {
            tokio::time::sleep(std::time::Duration::from_millis(5)).await;
            tick();
            for (i, d) in env.delivered().into_iter().enumerate() {
                let _ = i;
                if d[2] == 0 || d[1] != d[2] % 2 + 1 {
                    wrong += 1;
                } else {
                    counts[d[2] - 1] += 1;
                }
            }
            if counts.iter().all(|c| *c > 0) {
                calm += 1;
                if calm > 3 {
                    break;
                }
            }
        }
        check_panics();
        emit(json!({"e": "Burst", "delivered": counts, "wrong": wrong}));
    });
    rt.shutdown_background();
}

/// Threads add the parts of the same messages at the same time
#[cfg(feature = "internals")]
fn race(rng: &mut Rand, rounds: usize) {
    use everscale_network::adnl::verif_net::Transfer;
    use std::sync::atomic::{AtomicUsize, Ordering};

    reset_event(json!({"kind": "race"}));
    let threads = rng.gen_range(2..=3usize);
    let size = *pick(rng, &[1usize, 4, 64]);
    let data = bytes(rng, threads * size);
    let id = sha(&data);
    let all: Arc<Vec<_>> = Arc::new((0..rounds).map(|_| (Transfer::new(data.len()), AtomicUsize::new(0))).collect());
    let turn: Arc<Vec<AtomicUsize>> = Arc::new((0..threads).map(|_| AtomicUsize::new(0)).collect());
    let wrong = Arc::new(AtomicUsize::new(0));
    let handles: Vec<_> = (0..threads)
        .map(|k| {
            let (all, turn, data, wrong) = (all.clone(), turn.clone(), data.clone(), wrong.clone());
            std::thread::spawn(move || {
                for (i, (t, n)) in all.iter().enumerate() {
                    turn[k].store(i + 1, Ordering::SeqCst);
                    let mut spins = 0u64;
                    while turn.iter().any(|t| t.load(Ordering::SeqCst) < i + 1) {
                        spins += 1;
                        if spins % 1024 == 0 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    if let Ok(Some(d)) = t.add_part(k * size, data[k * size..(k + 1) * size].to_vec(), &id) {
                        n.fetch_add(1, Ordering::SeqCst);
                        if d != *data {
                            wrong.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                    if i % 1000 == 0 {
                        tick();
                    }
                }
            })
        })
        .collect();
    for t in handles {
        t.join().ok();
    }
    check_panics();
    let mut delivered = [0usize; 4];
    for (_, n) in all.iter() {
        delivered[n.load(Ordering::SeqCst).min(3)] += 1;
    }
    // how many messages were delivered 0, 1, 2, more times
    emit(json!({"e": "Race", "rounds": rounds, "times": delivered, "wrong": wrong.load(Ordering::SeqCst)}));
}

#[cfg(not(feature = "internals"))]
fn race(_: &mut Rand, _: usize) {}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "A05");
    let mut scripts = ctx.scripts.clone();
    if !ctx.thorough {
        scripts.shuffle(&mut rng);
        scripts.truncate(2500);
    }
    for s in &scripts {
        replay(&mut rng, s["script"].as_array().unwrap());
    }
    for _ in 0..ctx.n(150, 2500) {
        random(&mut rng);
    }
    for i in 0..ctx.n(4, 40) {
        let mut sizes = vec![4, 100, 900, 1012, 1024, 1025, 2040, 2048, 2049, 3072, 3073, 4096, 5000, 10_000, 70_000];
        for _ in 0..10 {
            sizes.push(rng.gen_range(4..6000));
        }
        if i == 0 {
            sizes.extend(930..1030);
            sizes.push(1_000_000);
        }
        split(&mut rng, &sizes);
    }
    for i in 0..ctx.n(40, 600) {
        end_to_end(&mut rng, if i % 3 == 0 { Some(0) } else { None });
    }
    for _ in 0..ctx.n(6, 60) {
        burst(&mut rng);
    }
    for _ in 0..ctx.n(8, 60) {
        race(&mut rng, 50_000);
    }
}
