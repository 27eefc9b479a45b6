//! O01: authentic broadcasts; O02: at most once; O03: FEC broadcasts

use std::sync::Arc;

use everscale_network::overlay::{BroadcastTarget, OverlayOptions};
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::dht::{ed_key, Overlay};
use crate::ov::*;
use crate::rldp::{fec_decoder, fec_packet, Fec};
use crate::wire::*;
use crate::Ctx;

#[derive(Clone, Copy)]
struct Conf {
    n: usize,
    others: usize,
    timeout: u32,
    own: u32,
    ord: u32,
    fec: u32,
    max_log: u32,
    gc_ms: u64,
    private: bool,
    compress: bool,
    max_ord: usize,
    wave: usize,
    wave_ms: u64,
}

impl Conf {
    fn random(rng: &mut Rand) -> Self {
        Self {
            n: *pick(rng, &[0, 1, 2, 3, 4, 6]),
            others: *pick(rng, &[0, 1]),
            timeout: *pick(rng, &[1, 2, 4, 60]),
            own: *pick(rng, &[0, 1, 2, 5]),
            ord: *pick(rng, &[0, 1, 2, 3]),
            fec: *pick(rng, &[0, 1, 2, 3]),
            max_log: *pick(rng, &[0, 1, 5, 1000]),
            gc_ms: *pick(rng, &[100, 1000]),
            private: rng.gen_range(0..3) == 0,
            compress: rng.gen_range(0..3) == 0,
            max_ord: *pick(rng, &[768, 768, 0, 100]),
            wave: *pick(rng, &[20, 1, 3, 0x7fff_ffff]),
            wave_ms: *pick(rng, &[10, 1, 100]),
        }
    }

    fn options(&self) -> OverlayOptions {
        OverlayOptions {
            max_neighbours: 200,
            max_broadcast_log: self.max_log,
            broadcast_gc_interval_ms: self.gc_ms,
            max_ordinary_broadcast_len: self.max_ord,
            broadcast_target_count: self.own,
            secondary_broadcast_target_count: self.ord,
            secondary_fec_broadcast_target_count: self.fec,
            fec_broadcast_wave_len: self.wave,
            fec_broadcast_wave_interval_ms: self.wave_ms,
            broadcast_timeout_sec: self.timeout as u64,
            force_compression: self.compress,
            ..Default::default()
        }
    }

    fn info(&self, kind: &str) -> Value {
        json!({"kind": kind, "conf": {"n": self.n, "timeout": self.timeout, "ownTarget": self.own, "ordTarget": self.ord,
            "fecTarget": self.fec, "maxLog": self.max_log}})
    }
}

const PLAIN: Conf = Conf {
    n: 3,
    others: 0,
    timeout: 2,
    own: 2,
    ord: 2,
    fec: 2,
    max_log: 1000,
    gc_ms: 100,
    private: false,
    compress: false,
    max_ord: 768,
    wave: 20,
    wave_ms: 10,
};

/// A packet and what its source has meant
#[derive(Clone)]
struct Item {
    b: Bcast,
    /// contents of an ordinary broadcast
    plain: Vec<u8>,
    /// not a symbol of the announced contents
    lie: bool,
}

/// A FEC broadcast of some source
struct Object {
    src: Ident,
    flags: u32,
    hash: [u8; 32],
    enc: Fec,
    /// the symbols are not those of the contents with this hash
    lie: bool,
}

struct Env {
    m: Member,
    conf: Conf,
    srcs: Numbers<[u8; 32]>,
    contents: Numbers<[u8; 32]>,
    ids: Numbers<(usize, usize, u32, u32)>,
    pars: Numbers<[u32; 3]>,
    sent: Vec<Item>,
}

fn date_of(d: u32) -> i64 {
    rel(d).clamp(-1_000_000_000, 1_000_000_000)
}

impl Env {
    async fn new(rng: &mut Rand, conf: Conf) -> Self {
        let id = Overlay::gen(rng);
        let m = Member::new(rng, 1, id, conf.options(), conf.n, conf.others, conf.private).await;
        Self {
            m,
            conf,
            srcs: Default::default(),
            contents: Default::default(),
            ids: Default::default(),
            pars: Default::default(),
            sent: Vec::new(),
        }
    }

    fn got(&self) -> Vec<Value> {
        let all = self.m.delivered();
        all.iter().map(|(d, from)| json!([self.contents.find(&sha(d)), self.srcs.find(from.as_slice())])).collect()
    }

    fn describe(&mut self, i: &Item) -> Value {
        let b = &i.b;
        let src = b.src_id().map(|s| self.srcs.of(*s.as_slice())).unwrap_or(0);
        match &b.fec {
            None => {
                let c = self.contents.of(sha(&i.plain));
                let by = if b.flags & ANY_SENDER == 0 { src } else { 0 };
                let id = self.ids.of((c, by, b.flags, b.date));
                let sound = b.verify(&i.plain) && b.tail.is_empty();
                json!({"kind": "ord", "id": id, "c": c, "src": src, "date": date_of(b.date), "sound": sound})
            }
            Some((hash, size, esi, params)) => {
                let c = self.contents.of(*hash);
                let par = self.pars.of(*params);
                let sound = b.verify(&b.data) && b.tail.is_empty();
                let dims = symbols(*params);
                let fits = dims.is_some() && *size == params[0];
                let esi = if *esi < 1 << 30 { *esi } else { (1 << 30) + (esi & 0xffff) };
                json!({"kind": "fec", "c": c, "src": src, "par": par, "esi": esi, "date": date_of(b.date),
                    "sound": sound, "fits": fits, "lie": i.lie, "k": dims.map(|d| d.1).unwrap_or(0)})
            }
        }
    }

    async fn recv(&mut self, rng: &mut Rand, from: usize, i: &Item) {
        let data = i.b.to_bytes(&self.m.id.id);
        let p = self.describe(i);
        let now = rel_now();
        self.m.send(rng, from, data.clone());
        settle().await;
        let (mut to, mut intact) = (Vec::new(), true);
        for (i, d) in self.m.customs() {
            to.push(i);
            intact &= d == data;
        }
        let got = self.got();
        emit(json!({"e": "Recv", "from": from, "p": p, "now": now, "to": to, "intact": intact, "got": got}));
        if self.sent.len() < 200 {
            self.sent.push(i.clone());
        }
    }

    async fn quiet(&mut self, ms: u64) {
        sleep_ms(ms).await;
        let (to, got) = (self.m.customs().len(), self.got());
        let to: Vec<_> = (0..to).collect();
        emit(json!({"e": "Quiet", "to": to, "got": got}));
    }

    /// Everything becomes outdated
    async fn idle(&mut self) {
        sleep_ms(self.conf.timeout as u64 * 4000 + 5000).await;
        let (to, got) = (self.m.customs().len(), self.got());
        let to: Vec<_> = (0..to).collect();
        emit(json!({"e": "Idle", "to": to, "got": got, "len": self.m.ov.metrics().owned_broadcasts_len}));
    }

    async fn own(&mut self, data: &[u8], by: Option<&Ident>, among: Option<Vec<usize>>) -> Vec<Item> {
        let now = rel_now();
        let src = by.unwrap_or(&self.m.local).clone();
        let ord = data.len() <= self.conf.max_ord;
        let c = self.contents.of(sha(data));
        let s = self.srcs.of(*src.id.as_slice());
        let date = unix_now();
        let b = if ord {
            let id = self.ids.of((c, 0, ANY_SENDER, date));
            json!({"kind": "ord", "id": id, "c": c, "src": s})
        } else {
            json!({"kind": "fec", "c": c, "src": s})
        };
        let target = match &among {
            Some(a) => BroadcastTarget::Explicit(Arc::new(a.iter().map(|i| self.m.ps[*i - 1].me.id).collect())),
            None => BroadcastTarget::RandomNeighbours,
        };
        let info = self.m.ov.broadcast(&self.m.node.adnl, data.to_vec(), by.map(|b| &b.key), target);
        // what everybody gets
        let mut lists: Vec<(usize, Vec<Vec<u8>>)> = Vec::new();
        let mut none = 0;
        let (mut before, mut end) = (now, now);
        while none < 3 {
            sleep_ms(if ord { 1 } else { self.conf.wave_ms + 1 }).await;
            let ms = self.m.customs();
            none = if ms.is_empty() { none + 1 } else { 0 };
            // (it was still being sent at this time)
            if !ms.is_empty() {
                end = before;
            }
            before = rel_now();
            for (i, d) in ms {
                match lists.iter_mut().find(|(j, _)| *j == i) {
                    Some((_, l)) => l.push(d),
                    None => lists.push((i, vec![d])),
                }
            }
        }
        let same = lists.iter().all(|(_, l)| *l == lists[0].1);
        let mut items = Vec::new();
        let (mut sound, mut suffice) = (true, true);
        if let Some((_, l)) = lists.first() {
            sound = l.iter().all(|d| match Bcast::parse(&self.m.id.id, d) {
                Some(b) => {
                    let ok = b.src_id() == Some(src.id) && b.flags == ANY_SENDER && rel(b.date) >= now && b.date <= unix_now();
                    items.push(Item { b, plain: data.to_vec(), lie: false });
                    ok
                }
                None => false,
            }) && l.len() == items.len();
            (sound, suffice) = self.judge(data, ord, &items, sound);
        }
        let to: Vec<_> = lists.iter().map(|(i, _)| *i).collect();
        let got = self.got();
        emit(json!({"e": "Own", "b": b, "now": now, "end": end, "accepted": info.packets > 0, "recipients": info.recipient_count,
            "explicit": among.is_some(), "among": among.unwrap_or_default(), "to": to, "sound": sound, "same": same, "suffice": suffice, "got": got}));
        items
    }

    /// whether the packets are sound, and enough
    fn judge(&self, data: &[u8], ord: bool, items: &[Item], mut sound: bool) -> (bool, bool) {
        let unpacked = |d: &[u8]| -> bool { d == data || zstd_content(d).map(|u| u == data).unwrap_or(false) };
        if ord {
            let ok = items.len() == 1 && items[0].b.fec.is_none() && items[0].b.verify(data);
            return (sound && ok, items.iter().all(|i| unpacked(&i.b.data)));
        }
        let mut whole = None;
        let mut params = None;
        let mut decoder = None;
        let mut esis = Vec::new();
        for i in items {
            let Some((hash, size, esi, par)) = i.b.fec else { return (false, false) };
            sound &= hash == sha(data) && size == par[0] && *params.get_or_insert(par) == par;
            sound &= !esis.contains(&esi) && i.b.verify(&i.b.data) && symbols(par).is_some();
            if !sound {
                return (false, false);
            }
            esis.push(esi);
            let decoder = decoder.get_or_insert_with(|| fec_decoder(par));
            if whole.is_none() {
                whole = decoder.decode(fec_packet(esi, i.b.data.clone()));
            }
        }
        let (Some(whole), Some(par)) = (whole, params) else { return (sound, false) };
        let enc = Fec::new(&whole, par[1] as u16);
        sound &= enc.params == par && items.iter().all(|i| enc.symbol(i.b.fec.unwrap().2) == i.b.data);
        (sound, unpacked(&whole))
    }
}

/// own view of compressed payloads
fn zstd_content(d: &[u8]) -> Option<Vec<u8>> {
    let (last, rest) = d.split_last()?;
    if *last != 0x80 {
        return None;
    }
    let mut u = zstd::decode_all(rest).ok()?;
    let n = u.len().checked_sub(4)?;
    let len = u32::from_be_bytes(u[n..].try_into().unwrap());
    u.truncate(n);
    (len as usize == n).then_some(u)
}

fn ord_item(src: &Ident, flags: u32, plain: &[u8], wire: Vec<u8>, date: u32) -> Item {
    let mut b = Bcast { src: ed_key(src), certificate: false, flags, data: wire, date, signature: Vec::new(), fec: None, tail: Vec::new() };
    b.sign(src, plain);
    Item { b, plain: plain.to_vec(), lie: false }
}

impl Object {
    fn new(src: &Ident, flags: u32, content: &[u8], wire: &[u8], packet_len: u16) -> Self {
        Self { src: src.clone(), flags, hash: sha(content), enc: Fec::new(wire, packet_len), lie: false }
    }
    fn item(&self, esi: u32, date: u32) -> Item {
        let fec = Some((self.hash, self.enc.params[0], esi, self.enc.params));
        let mut b = Bcast {
            src: ed_key(&self.src),
            certificate: false,
            flags: self.flags,
            data: self.enc.symbol(esi),
            date,
            signature: Vec::new(),
            fec,
            tail: Vec::new(),
        };
        let symbol = b.data.clone();
        b.sign(&self.src, &symbol);
        Item { b, plain: Vec::new(), lie: self.lie }
    }
}

/// Alters a packet; the signature is not renewed
fn spoil(rng: &mut Rand, i: &mut Item, others: &[Ident]) {
    let flip = |rng: &mut Rand, v: &mut Vec<u8>| {
        if v.is_empty() {
            v.push(1);
        } else {
            let n = rng.gen_range(0..v.len());
            v[n] ^= 1 << rng.gen_range(0..8);
        }
    };
    // (altered compressed data may still have the same contents)
    let packed = i.b.fec.is_none() && i.b.data != i.plain;
    match rng.gen_range(0..14) {
        0 | 1 => flip(rng, &mut i.b.signature),
        2 | 3 if !packed => {
            flip(rng, &mut i.b.data);
            if i.b.fec.is_none() {
                i.plain = i.b.data.clone();
            }
        }
        4 => i.b.date = i.b.date.wrapping_add(*pick(rng, &[1, u32::MAX])),
        5 => i.b.flags ^= 1 << *pick(rng, &[0, 0, 1, 31]),
        6 => {
            // another source takes it over
            let by = pick(rng, others).clone();
            i.b.src = ed_key(&by);
            if i.b.verify(&i.plain) || i.b.verify(&i.b.data) {
                flip(rng, &mut i.b.signature);
            }
        }
        7 => i.b.signature.truncate(*pick(rng, &[0, 1, 63])),
        8 => i.b.signature.extend([0; 4]),
        9 => i.b.tail = vec![0; 4 * rng.gen_range(1..3)],
        n => match &mut i.b.fec {
            None => flip(rng, &mut i.b.signature),
            Some((hash, size, esi, params)) => match n {
                10 => hash[rng.gen_range(0..32)] ^= 1,
                11 => *size = *pick(rng, &[size.wrapping_add(1), 0, u32::MAX]),
                12 => *esi = *pick(rng, &[*esi ^ 1, *esi + 1, u32::MAX, 0xffffff]),
                _ => {
                    let j = rng.gen_range(0..3);
                    params[j] = *pick(rng, &[params[j] + 1, 0, u32::MAX, params[j] ^ 8]);
                }
            },
        },
    }
}

/// What a source may sign although it makes no sense
fn nonsense(rng: &mut Rand, i: &mut Item, by: &Ident) {
    if let Some((_, size, esi, params)) = &mut i.b.fec {
        i.lie = true;
        match rng.gen_range(0..8) {
            0 => *size = *pick(rng, &[0, size.wrapping_add(1), u32::MAX]),
            1 => (*size, params[0]) = *pick(rng, &[(0, 0), (u32::MAX, u32::MAX), (1, 1)]),
            2 => params[1] = *pick(rng, &[0, 1, 7, 8, 63, 64, 65535, 65536, u32::MAX]),
            3 => params[2] = *pick(rng, &[0, 1, u32::MAX]),
            4 => *esi = *pick(rng, &[1 << 24, (1 << 24) - 1, (1 << 24) - 1024, u32::MAX, 1 << 31]),
            5 => i.b.data = Vec::new(),
            6 => {
                let l = *pick(rng, &[1, 64, 767, 769]);
                i.b.data.resize(l, 0);
            }
            _ => {
                let l = i.b.data.len();
                i.b.data = bytes(rng, l);
            }
        }
    } else {
        i.b.flags = *pick(rng, &[2, u32::MAX, 0x8000_0000]);
    }
    let signed = if i.b.fec.is_some() { i.b.data.clone() } else { i.plain.clone() };
    i.b.sign(by, &signed);
}

fn replay(rng: &mut Rand, script: &[Value], quick_log: bool) {
    let conf = Conf { max_log: if quick_log { 0 } else { 1000 }, private: rng.gen_range(0..4) == 0, ..PLAIN };
    scenario(conf.info("script"), || async {
        let mut e = Env::new(rng, conf).await;
        let (g, m) = (Ident::gen(rng), Ident::gen(rng));
        let content = crate::rldp::payload(rng, 1, 1000);
        let other = crate::rldp::payload(rng, 2, 1000);
        let ord = crate::rldp::payload(rng, 3, 100);
        let ms = *pick(rng, &[0, 500, 900, 990]);
        sleep_ms(ms).await;
        let (start, mut passed) = (unix_now() as i64, 0);
        for s in script {
            let from = rng.gen_range(1..=3);
            let date = |off: i64| (start + (passed + off) * conf.timeout as i64) as u32;
            match s[0].as_str().unwrap() {
                "fec" => {
                    let src = if s[1] == "g" { &g } else { &m };
                    let len = if s[2] == 1 { 768 } else { 512 };
                    let (sound, lie) = (s[5].as_bool().unwrap(), s[6].as_bool().unwrap());
                    let mut o = Object::new(src, ANY_SENDER, &content, if lie { &other } else { &content }, len);
                    o.lie = lie;
                    let mut i = o.item(s[3].as_u64().unwrap() as u32, date(s[4].as_i64().unwrap()));
                    if !sound {
                        let mut j = i.clone();
                        // (something else than the date and the number of the symbol)
                        loop {
                            spoil(rng, &mut j, &[g.clone(), m.clone()]);
                            if !j.b.verify(&j.b.data) || !j.b.tail.is_empty() {
                                break;
                            }
                        }
                        i = j;
                    }
                    e.recv(rng, from, &i).await;
                }
                "ord" => {
                    let mut i = ord_item(&g, ANY_SENDER, &ord, ord.clone(), date(s[2].as_i64().unwrap()));
                    if !s[3].as_bool().unwrap() {
                        spoil(rng, &mut i, &[m.clone()]);
                    }
                    e.recv(rng, from, &i).await;
                }
                "own" => {
                    let data = if s[1] == "ord" { &ord } else { &content };
                    e.own(data, None, None).await;
                }
                "pass" => {
                    passed += 1;
                    e.quiet(conf.timeout as u64 * 1000).await
                }
                s => panic!("unknown step {s}"),
            }
        }
        if quick_log {
            e.idle().await;
        }
    });
}

struct Pool {
    srcs: Vec<Ident>,
    ords: Vec<Vec<u8>>,
    objects: Vec<Object>,
    contents: Vec<Vec<u8>>,
    long: Vec<u8>,
}

impl Pool {
    fn new(rng: &mut Rand, e: &Env) -> Self {
        let mut srcs = vec![Ident::gen(rng), Ident::gen(rng)];
        if let Some(p) = e.m.ps.first() {
            srcs.push(p.me.clone());
        }
        let zeros = vec![0; 600];
        let inner = compressed(&bytes(rng, 300));
        let ords = vec![bytes(rng, 100), Vec::new(), zeros.clone(), bytes(rng, 5), inner];
        let contents = vec![
            crate::rldp::payload(rng, 1, 800),
            crate::rldp::payload(rng, 2, 1500),
            vec![1; 2000],
            compressed(&bytes(rng, 900)),
            crate::rldp::payload(rng, 3, 4000),
            bytes(rng, 3),
        ];
        let mut objects = Vec::new();
        for (i, c) in contents.iter().enumerate() {
            for src in &srcs {
                let flags = *pick(rng, &[ANY_SENDER, ANY_SENDER, 0, 2, 3]);
                let len = *pick(rng, &[768, 768, 768, 512, 200, 900]);
                let wire = if rng.gen_range(0..3) == 0 { compressed(c) } else { c.clone() };
                objects.push(Object::new(src, flags, c, &wire, len));
                if rng.gen_range(0..4) == 0 {
                    // announces contents which it has not
                    let mut o = Object::new(src, flags, c, &contents[(i + 1) % contents.len()], 768);
                    o.lie = true;
                    objects.push(o);
                }
            }
        }
        Self { srcs, ords, objects, contents, long: crate::rldp::payload(rng, 9, 25_000) }
    }

    fn date(rng: &mut Rand, t: u32) -> u32 {
        let now = unix_now();
        match rng.gen_range(0..12) {
            0 => now - t,
            1 => now - t - 1,
            2 => now + t,
            3 => now + t + 1,
            4 => *pick(rng, &[0, 1, u32::MAX, u32::MAX - 1]),
            5 => now - 1,
            _ => now,
        }
    }

    fn ord(&self, rng: &mut Rand, t: u32) -> Item {
        let src = pick(rng, &self.srcs);
        let plain = pick(rng, &self.ords);
        let flags = *pick(rng, &[ANY_SENDER, ANY_SENDER, 0]);
        let wire = if rng.gen_range(0..3) == 0 { compressed(plain) } else { plain.clone() };
        let date = Self::date(rng, t);
        ord_item(src, flags, plain, wire, date)
    }
}

fn random(rng: &mut Rand, fec: bool) {
    let conf = Conf::random(rng);
    if conf.n + conf.others == 0 {
        return;
    }
    scenario(conf.info("random"), || async {
        let mut e = Env::new(rng, conf).await;
        let pool = Pool::new(rng, &e);
        let peers = conf.n + conf.others;
        let mut echo: Vec<Item> = Vec::new();
        let mut at = 0;
        for _ in 0..rng.gen_range(5..60) {
            let from = rng.gen_range(1..=peers);
            let kind = rng.gen_range(0..20);
            match kind {
                // again
                0..=2 if !e.sent.is_empty() => {
                    let i = pick(rng, &e.sent).clone();
                    e.recv(rng, from, &i).await;
                }
                // back from the neighbours
                3 if !echo.is_empty() => {
                    let i = pick(rng, &echo).clone();
                    e.recv(rng, from, &i).await;
                }
                4 => {
                    let data = match rng.gen_range(0..6) {
                        0 | 1 => pick(rng, &pool.contents),
                        2 => &pool.long,
                        _ => pick(rng, &pool.ords),
                    };
                    let by = match rng.gen_range(0..3) {
                        0 => Some(pick(rng, &pool.srcs)),
                        _ => None,
                    };
                    let among = match rng.gen_range(0..4) {
                        0 => {
                            let mut v: Vec<_> = (1..=peers).collect();
                            v.shuffle(rng);
                            v.truncate(rng.gen_range(0..=peers));
                            Some(v)
                        }
                        _ => None,
                    };
                    let items = e.own(data, by, among).await;
                    if rng.gen::<bool>() && items.len() > 5 {
                        // all of it comes back, the newest at first
                        for i in items.iter().rev() {
                            e.recv(rng, from, i).await;
                        }
                    }
                    echo.extend(items.into_iter().rev().take(5));
                }
                5 => {
                    let ms = *pick(rng, &[500, 1000, conf.timeout as u64 * 1000, conf.timeout as u64 * 2000, 300]);
                    e.quiet(ms).await;
                }
                6 => {
                    // exactly at a border, late in the second
                    let ms = (1000 - elapsed_ms() % 1000 + 990) % 1000;
                    if ms > 0 {
                        e.quiet(ms).await;
                    }
                }
                7..=9 => {
                    let mut i = pool.ord(rng, conf.timeout);
                    i.b.certificate = rng.gen_range(0..5) == 0;
                    match rng.gen_range(0..6) {
                        0 | 1 => spoil(rng, &mut i, &pool.srcs),
                        2 => {
                            let by = pool.srcs.iter().find(|s| Some(s.id) == i.b.src_id()).unwrap();
                            nonsense(rng, &mut i, by)
                        }
                        _ => {}
                    }
                    e.recv(rng, from, &i).await;
                }
                _ if !fec => {}
                _ => {
                    // mostly the same broadcast
                    if rng.gen_range(0..6) == 0 {
                        at = rng.gen_range(0..pool.objects.len());
                    }
                    let n = if rng.gen_range(0..6) == 0 { rng.gen_range(0..pool.objects.len()) } else { at };
                    let o = &pool.objects[n];
                    let k = o.enc.count();
                    let esi = match rng.gen_range(0..8) {
                        0 => rng.gen_range(0..20 * k),
                        1 => *pick(rng, &[513, 600, 1 << 16, 1 << 20]),
                        _ => rng.gen_range(0..2 * k),
                    };
                    let date = Pool::date(rng, conf.timeout);
                    let mut i = o.item(esi, date);
                    i.b.certificate = rng.gen_range(0..8) == 0;
                    match rng.gen_range(0..10) {
                        0..=2 => spoil(rng, &mut i, &pool.srcs),
                        3 if rng.gen_range(0..3) == 0 => nonsense(rng, &mut i, &o.src),
                        _ => {}
                    }
                    e.recv(rng, from, &i).await;
                }
            }
        }
        if rng.gen::<bool>() {
            e.idle().await;
        }
    });
}

/// A FEC broadcast under loss, reordering and duplication, with other packets in between
fn transfer(rng: &mut Rand, big: bool) {
    let conf = Conf { n: 2, timeout: 60, max_log: 1000, ..Conf::random(rng) };
    scenario(conf.info("transfer"), || async {
        let mut e = Env::new(rng, conf).await;
        let (g, m) = (Ident::gen(rng), Ident::gen(rng));
        let len = match big {
            true => *pick(rng, &[450_000, 600_000]),
            false => *pick(rng, &[1, 768, 769, 1535, 1536, 1537, 5000, 10_000, 30_000]),
        };
        let content = if rng.gen::<bool>() { crate::rldp::payload(rng, 1, len) } else { vec![7; len] };
        let wire = if rng.gen_range(0..4) == 0 { compressed(&content) } else { content.clone() };
        let size = if big { 768 } else { *pick(rng, &[768, 768, 64, 100, 1000]) };
        let o = Object::new(&g, ANY_SENDER, &content, &wire, size);
        let k = o.enc.count();
        let evil = Object { lie: true, ..Object::new(&m, ANY_SENDER, &content, &vec![9; wire.len()], size) };
        let evil = Object { hash: o.hash, ..evil };
        let mut esis: Vec<u32> = match rng.gen_range(0..4) {
            0 => (0..k).collect(),
            1 => (0..k).rev().collect(),
            2 => (k..2 * k + 4).collect(),
            _ => (0..2 * k + 4).collect(),
        };
        if rng.gen::<bool>() && !big {
            esis.shuffle(rng);
        }
        let loss = if big { 0.0 } else { *pick(rng, &[0.0, 0.0, 0.3]) };
        let noise = if big { 0.02 } else { 0.2 };
        let mut n = 0;
        for esi in esis {
            if rng.gen_bool(loss) {
                continue;
            }
            let date = unix_now() - rng.gen_range(0..30);
            let from = rng.gen_range(1..=2);
            let i = o.item(esi, date);
            if rng.gen_bool(noise) {
                let mut j = i.clone();
                match rng.gen_range(0..3) {
                    0 => spoil(rng, &mut j, &[g.clone(), m.clone()]),
                    1 => j = evil.item(esi, date),
                    _ => {}
                }
                e.recv(rng, 3 - from, &j).await;
            }
            e.recv(rng, from, &i).await;
            n += 1;
            if n > k + 6 && big {
                break;
            }
        }
    });
}

/// Sending takes longer than packets are valid
fn slow(rng: &mut Rand) {
    let conf = Conf { n: 2, own: 2, timeout: *pick(rng, &[1, 2]), max_log: 0, gc_ms: 100, wave: 1, wave_ms: 150, ..Conf::random(rng) };
    scenario(conf.info("slow"), || async {
        let mut e = Env::new(rng, conf).await;
        let data = crate::rldp::payload(rng, 1, 25_000);
        let items = e.own(&data, None, None).await;
        e.own(&data, None, None).await;
        for i in items.iter().rev() {
            e.recv(rng, 1, i).await;
        }
        e.idle().await;
    });
}

/// Broadcasts of one node received by another
fn nodes(rng: &mut Rand) {
    let conf = Conf { n: 2, timeout: 60, max_log: 1000, ..Conf::random(rng) };
    scenario(conf.info("nodes"), || async {
        let id = Overlay::gen(rng);
        let other = Conf { own: 2, n: 2, others: 0, ..conf };
        let again = Overlay { name: id.name.clone(), id: id.id };
        let mut a = Member::new(rng, 50, again, other.options(), 2, 0, conf.private).await;
        let mut e = Env::new(rng, conf).await;
        e.m = Member::new(rng, 90, id, conf.options(), conf.n, conf.others, false).await;
        for n in 0..rng.gen_range(1..4) {
            let len = *pick(rng, &[0, 10, 700, 768, 769, 1000, 3000, 8000, 20_000]);
            let data = match rng.gen_range(0..3) {
                0 => vec![5; len],
                1 => compressed(&bytes(rng, len)),
                _ => crate::rldp::payload(rng, n, len),
            };
            a.ov.broadcast(&a.node.adnl, data.clone(), None, BroadcastTarget::RandomNeighbours);
            let mut packets = Vec::new();
            let mut none = 0;
            while none < 3 {
                sleep_ms(conf.wave_ms + 1).await;
                let ms: Vec<_> = a.customs().into_iter().collect();
                none = if ms.is_empty() { none + 1 } else { 0 };
                packets.extend(ms.into_iter().filter_map(|(_, d)| Bcast::parse(&a.id.id, &d)));
            }
            if rng.gen::<bool>() {
                packets.shuffle(rng);
            }
            let loss = *pick(rng, &[0.0, 0.0, 0.1, 0.5]);
            for b in packets {
                if !rng.gen_bool(loss) {
                    let from = rng.gen_range(1..=e.conf.n + e.conf.others);
                    e.recv(rng, from, &Item { b, plain: data.clone(), lie: false }).await;
                }
            }
        }
    });
}

/// Copies of packets which are processed at the same time by several threads
/// (and whether all of them were seen to leave)
fn burst(rng: &mut Rand) -> bool {
    let conf = Conf { n: 5, others: 0, ord: 2, fec: 2, timeout: 60, private: false, max_log: 1000, ..PLAIN };
    reset_event(conf.info("burst"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_time().build().expect("runtime");
    let finished = rt.block_on(async {
        let mut e = Env::new(rng, conf).await;
        let srcs = [Ident::gen(rng), Ident::gen(rng)];
        let (mut items, mut shared) = (Vec::new(), Vec::new());
        for n in 0..20 {
            let c = crate::rldp::payload(rng, n, 50);
            items.push(ord_item(&srcs[0], ANY_SENDER, &c, c.clone(), unix_now()));
        }
        for n in 20..24 {
            let c = crate::rldp::payload(rng, n, 1500);
            for src in srcs.iter().take(1 + n as usize % 2) {
                let o = Object::new(src, ANY_SENDER, &c, &c, 768);
                for esi in 0..3 {
                    if n % 2 == 1 {
                        shared.push(items.len());
                    }
                    items.push(o.item(esi, unix_now()));
                }
            }
        }
        let ps: Vec<_> = items.iter().map(|i| e.describe(i)).collect();
        let raw: Vec<_> = items.iter().map(|i| i.b.to_bytes(&e.m.id.id)).collect();
        let mut packets = Vec::new();
        for d in &raw {
            for from in 1..=4 {
                let m = Msg::Custom(d.clone());
                let msgs = if m.to_bytes().len() > 1000 { Puppet::parts(&m, 900) } else { vec![m] };
                for m in msgs {
                    packets.push((e.m.ps[from - 1].packet(rng, &e.m.local, vec![m], 1), e.m.ps[from - 1].addr));
                }
            }
        }
        for (p, a) in packets {
            e.m.node.inject(p, a);
        }
        let mut to: Vec<Vec<usize>> = vec![Vec::new(); raw.len()];
        let (mut got, mut intact) = (Vec::new(), true);
        let (mut quiet, mut total) = (0, 0);
        let mut finished = false;
        while total < 15_000 {
            settle().await;
            let ms = e.m.customs();
            let news = e.got();
            quiet = if ms.is_empty() && news.is_empty() { quiet + 1 } else { 0 };
            total += 1;
            for (i, d) in ms {
                match raw.iter().position(|r| *r == d) {
                    Some(n) => to[n].push(i),
                    None => intact = false,
                }
            }
            got.extend(news);
            // (packets of the second source may come too late)
            let two = |i: usize| shared.contains(&i);
            let done = got.len() >= 24 && (0..raw.len()).all(|i| to[i].len() >= 2 || (two(i) && to[i].is_empty()));
            if done && quiet > 30 {
                finished = true;
                break;
            }
        }
        emit(json!({"e": "Burst", "ps": ps, "to": to, "intact": intact, "got": got}));
        finished
    });
    check_panics();
    rt.shutdown_background();
    finished
}

pub fn run(ctx: &Ctx, id: &str) {
    let mut rng = rng(ctx.seed, id);
    let mut scripts = ctx.scripts.clone();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(1500, 40_000));
    for s in &scripts {
        let quick_log = rng.gen_range(0..3) > 0;
        replay(&mut rng, s["script"].as_array().unwrap(), quick_log);
    }
    let (randoms, transfers, pairs, big) = match id {
        "O03" => (ctx.n(30, 500), ctx.n(60, 2000), ctx.n(40, 1000), ctx.n(1, 6)),
        "O01" => (ctx.n(120, 4000), ctx.n(10, 200), ctx.n(10, 200), 0),
        _ => (ctx.n(120, 4000), ctx.n(10, 200), ctx.n(10, 200), 0),
    };
    for _ in 0..randoms {
        random(&mut rng, true);
    }
    for _ in 0..transfers {
        transfer(&mut rng, false);
    }
    for _ in 0..pairs {
        nodes(&mut rng);
    }
    for _ in 0..3 {
        slow(&mut rng);
    }
    if id == "O02" {
        for _ in 0..ctx.n(60, 1500) {
            if !burst(&mut rng) {
                break;
            }
        }
    }
    for _ in 0..big {
        transfer(&mut rng, true);
    }
}
