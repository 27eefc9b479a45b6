//! Independent implementation of the ADNL wire format, and a scripted remote peer.

use std::collections::HashMap;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::Arc;

use aes::cipher::{KeyIvInit, StreamCipher};
use everscale_crypto::ed25519;
use everscale_crypto::tl;
use everscale_network::adnl::verif_net::{take_wire, Wire};
use everscale_network::adnl::{self, Keystore, NodeIdFull, NodeIdShort, NodeOptions};
use everscale_network::proto;
use rand::Rng;
use sha2::Digest;
use tl_proto::{TlRead, TlWrite};

use crate::core::*;

pub fn sha(data: &[u8]) -> [u8; 32] {
    sha2::Sha256::digest(data).into()
}

fn cipher(secret: &[u8; 32], checksum: &[u8; 32], data: &mut [u8]) {
    let mut key = *secret;
    key[16..].copy_from_slice(&checksum[16..]);
    let mut iv = [0u8; 16];
    iv[..4].copy_from_slice(&checksum[..4]);
    iv[4..].copy_from_slice(&secret[20..]);
    ctr::Ctr64BE::<aes::Aes256>::new(&key.into(), &iv.into()).apply_keystream(data);
}

fn body_hash(version: Option<u16>, data: &[u8]) -> [u8; 32] {
    match version {
        None => sha(data),
        Some(v) => {
            let mut d = v.to_be_bytes().to_vec();
            d.extend_from_slice(data);
            sha(&d)
        }
    }
}

fn seal(prefix: Vec<u8>, secret: &[u8; 32], body: &[u8], version: Option<u16>) -> Vec<u8> {
    let checksum = body_hash(version, body);
    let mut out = prefix;
    if let Some(v) = version {
        let mut xor = [(v >> 8) as u8, v as u8, (v >> 8) as u8, v as u8];
        for (i, b) in out.iter().enumerate() {
            xor[i % 4] ^= b;
        }
        for (i, b) in checksum.iter().enumerate() {
            xor[i % 4] ^= b;
        }
        out.extend_from_slice(&xor);
    }
    out.extend_from_slice(&checksum);
    let start = out.len();
    out.extend_from_slice(body);
    cipher(secret, &checksum, &mut out[start..]);
    out
}

/// opens a packet with the specified prefix length; tries the versioned form first
fn open(data: &[u8], prefix: usize, secret: &[u8; 32]) -> Option<(Option<u16>, Vec<u8>)> {
    let p = prefix;
    if data.len() > p + 36 {
        let mut xor: [u8; 4] = data[p..p + 4].try_into().unwrap();
        for (i, b) in data[..p].iter().enumerate() {
            xor[i % 4] ^= b;
        }
        for (i, b) in data[p + 4..p + 36].iter().enumerate() {
            xor[i % 4] ^= b;
        }
        if xor[0] == xor[2] && xor[1] == xor[3] {
            let v = u16::from_be_bytes([xor[0], xor[1]]);
            let checksum: [u8; 32] = data[p + 4..p + 36].try_into().unwrap();
            let mut body = data[p + 36..].to_vec();
            cipher(secret, &checksum, &mut body);
            if body_hash(Some(v), &body) == checksum {
                return Some((Some(v), body));
            }
        }
    }
    if data.len() < p + 32 {
        return None;
    }
    let checksum: [u8; 32] = data[p..p + 32].try_into().unwrap();
    let mut body = data[p + 32..].to_vec();
    cipher(secret, &checksum, &mut body);
    (body_hash(None, &body) == checksum).then_some((None, body))
}

#[derive(Clone)]
pub struct Ident {
    pub secret: [u8; 32],
    pub key: Arc<adnl::Key>,
    pub full: NodeIdFull,
    pub id: NodeIdShort,
}

impl Ident {
    pub fn new(secret: [u8; 32]) -> Self {
        let key = adnl::Key::from_bytes(secret);
        Self {
            secret,
            full: *key.full_id(),
            id: *key.id(),
            key: Arc::new(key),
        }
    }

    pub fn gen(rng: &mut Rand) -> Self {
        Self::new(rng.gen())
    }

    pub fn sign_raw(&self, data: &[u8]) -> [u8; 64] {
        self.key.secret_key().sign_raw(data, self.full.public_key())
    }
}

pub fn seal_handshake(rng: &mut Rand, to: &NodeIdFull, body: &[u8], version: Option<u16>) -> Vec<u8> {
    let temp = ed25519::SecretKey::from_bytes(rng.gen()).expand();
    let temp_pub = ed25519::PublicKey::from(&temp);
    let secret = temp.compute_shared_secret(to.public_key());
    let mut prefix = to.compute_short_id().as_slice().to_vec();
    prefix.extend_from_slice(temp_pub.as_bytes());
    seal(prefix, &secret, body, version)
}

pub fn open_handshake(me: &Ident, data: &[u8]) -> Option<(Option<u16>, Vec<u8>)> {
    if data.len() < 96 || &data[..32] != me.id.as_slice() {
        return None;
    }
    let temp = ed25519::PublicKey::from_bytes(data[32..64].try_into().unwrap())?;
    let secret = me.key.secret_key().compute_shared_secret(&temp);
    open(data, 64, &secret)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Side {
    pub id: [u8; 32],
    pub secret: [u8; 32],
}

#[derive(Clone, Debug)]
pub struct Chan {
    pub in_ord: Side,
    pub in_pri: Side,
    pub out_ord: Side,
    pub out_pri: Side,
}

fn side(secret: [u8; 32]) -> Side {
    Side {
        id: tl_proto::hash(tl::PublicKey::Aes { key: &secret }),
        secret,
    }
}

fn swapped(s: [u8; 32]) -> [u8; 32] {
    let mut r = s;
    for i in 0..16 {
        r.swap(2 * i, 2 * i + 1);
    }
    r
}

pub fn chan(me: &NodeIdShort, peer: &NodeIdShort, my: &ed25519::KeyPair, their: &ed25519::PublicKey) -> Chan {
    let s = my.compute_shared_secret(their);
    let mut r = s;
    r.reverse();
    let (i, o) = match me.cmp(peer) {
        std::cmp::Ordering::Less => (s, r),
        std::cmp::Ordering::Equal => (s, s),
        std::cmp::Ordering::Greater => (r, s),
    };
    Chan {
        in_ord: side(i),
        in_pri: side(swapped(i)),
        out_ord: side(o),
        out_pri: side(swapped(o)),
    }
}

pub fn seal_channel(s: &Side, body: &[u8], version: Option<u16>) -> Vec<u8> {
    seal(s.id.to_vec(), &s.secret, body, version)
}

pub fn open_channel(s: &Side, data: &[u8]) -> Option<(Option<u16>, Vec<u8>)> {
    if data.len() < 64 || data[..32] != s.id {
        return None;
    }
    open(data, 32, &s.secret)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Msg {
    Answer([u8; 32], Vec<u8>),
    Custom(Vec<u8>),
    Confirm { key: [u8; 32], peer_key: [u8; 32], date: u32 },
    Part { hash: [u8; 32], total: u32, offset: u32, data: Vec<u8> },
    Create { key: [u8; 32], date: u32 },
    Query([u8; 32], Vec<u8>),
    Nop,
    Reinit(u32),
}

impl Msg {
    pub fn of(m: &proto::adnl::Message<'_>) -> Self {
        use proto::adnl::Message as M;
        match *m {
            M::Answer { query_id, answer } => Msg::Answer(*query_id, answer.to_vec()),
            M::Custom { data } => Msg::Custom(data.to_vec()),
            M::ConfirmChannel { key, peer_key, date } => Msg::Confirm {
                key: *key,
                peer_key: *peer_key,
                date,
            },
            M::Part { hash, total_size, offset, data } => Msg::Part {
                hash: *hash,
                total: total_size,
                offset,
                data: data.to_vec(),
            },
            M::CreateChannel { key, date } => Msg::Create { key: *key, date },
            M::Query { query_id, query } => Msg::Query(*query_id, query.to_vec()),
            M::Nop => Msg::Nop,
            M::Reinit { date } => Msg::Reinit(date),
        }
    }

    pub fn to_bytes(&self) -> Vec<u8> {
        use proto::adnl::Message as M;
        let m = match self {
            Msg::Answer(query_id, answer) => M::Answer { query_id, answer },
            Msg::Custom(data) => M::Custom { data },
            Msg::Confirm { key, peer_key, date } => M::ConfirmChannel {
                key,
                peer_key,
                date: *date,
            },
            Msg::Part { hash, total, offset, data } => M::Part {
                hash,
                total_size: *total,
                offset: *offset,
                data,
            },
            Msg::Create { key, date } => M::CreateChannel { key, date: *date },
            Msg::Query(query_id, query) => M::Query { query_id, query },
            Msg::Nop => M::Nop,
            Msg::Reinit(date) => M::Reinit { date: *date },
        };
        tl_proto::serialize(m)
    }

    pub fn parse(data: &[u8]) -> Option<Self> {
        let m = tl_proto::deserialize::<proto::adnl::Message<'_>>(data).ok()?;
        Some(Self::of(&m))
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Msg::Answer(..) => "Answer",
            Msg::Custom(..) => "Custom",
            Msg::Confirm { .. } => "Confirm",
            Msg::Part { .. } => "Part",
            Msg::Create { .. } => "Create",
            Msg::Query(..) => "Query",
            Msg::Nop => "Nop",
            Msg::Reinit(..) => "Reinit",
        }
    }
}

/// Contents of a packet
#[derive(Clone, Debug, Default)]
pub struct Body {
    pub from: Option<[u8; 32]>,
    pub from_short: Option<[u8; 32]>,
    pub messages: Vec<Msg>,
    pub address: Option<proto::adnl::AddressList>,
    pub seqno: Option<u64>,
    pub confirm_seqno: Option<u64>,
    pub reinit: Option<(u32, u32)>,
    pub signature: Option<Vec<u8>>,
    /// forms which say nothing to a node. bits: 0 - priority address, 1, 2 - versions of the known
    /// lists, 3 - the first of several messages in the field for one
    pub extra: u8,
}

const PACKET_CONTENTS: u32 = 0xd142cd89;

impl Body {
    pub fn to_bytes(&self, rng: &mut Rand) -> Vec<u8> {
        let rand1: [u8; 3] = rng.gen();
        let rand2: [u8; 7] = rng.gen();
        self.to_bytes_with(&rand1, &rand2)
    }

    /// With some of the fields which mean nothing
    pub fn with_extra(mut self, rng: &mut Rand) -> Self {
        if rng.gen_range(0..4) == 0 {
            self.extra = rng.gen_range(0..16);
        }
        self
    }

    /// Serializes and signs
    pub fn signed(mut self, rng: &mut Rand, signer: &Ident) -> Vec<u8> {
        let rand1: [u8; 3] = rng.gen();
        let rand2: [u8; 7] = rng.gen();
        self.signature = None;
        let raw = self.to_bytes_with(&rand1, &rand2);
        self.signature = Some(signer.sign_raw(&raw).to_vec());
        self.to_bytes_with(&rand1, &rand2)
    }

    pub fn to_bytes_with(&self, rand1: &[u8], rand2: &[u8]) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend_from_slice(&PACKET_CONTENTS.to_le_bytes());
        rand1.write_to(&mut v);
        let mut flags = 0u32;
        flags |= self.from.is_some() as u32;
        flags |= (self.from_short.is_some() as u32) << 1;
        let split = self.extra & 8 != 0 && !self.messages.is_empty();
        flags |= match self.messages.len() {
            _ if split => 3 << 2,
            1 => 1 << 2,
            _ => 1 << 3,
        };
        flags |= (self.extra as u32 & 1) << 5;
        flags |= (self.extra as u32 >> 1 & 3) << 8;
        flags |= (self.address.is_some() as u32) << 4;
        flags |= (self.seqno.is_some() as u32) << 6;
        flags |= (self.confirm_seqno.is_some() as u32) << 7;
        flags |= (self.reinit.is_some() as u32) << 10;
        flags |= (self.signature.is_some() as u32) << 11;
        v.extend_from_slice(&flags.to_le_bytes());
        if let Some(key) = &self.from {
            tl::PublicKey::Ed25519 { key }.write_to(&mut v);
        }
        if let Some(id) = &self.from_short {
            v.extend_from_slice(id);
        }
        if !split && self.messages.len() != 1 {
            v.extend_from_slice(&(self.messages.len() as u32).to_le_bytes());
        }
        for (i, m) in self.messages.iter().enumerate() {
            v.extend_from_slice(&m.to_bytes());
            if split && i == 0 {
                v.extend_from_slice(&(self.messages.len() as u32 - 1).to_le_bytes());
            }
        }
        if let Some(a) = &self.address {
            a.write_to(&mut v);
        }
        if self.extra & 1 != 0 {
            let ip = Ipv4Addr::new(10, 7, 7, 7);
            address_list(SocketAddrV4::new(ip, 7777), 0, 0).write_to(&mut v);
        }
        if let Some(s) = self.seqno {
            v.extend_from_slice(&s.to_le_bytes());
        }
        if let Some(s) = self.confirm_seqno {
            v.extend_from_slice(&s.to_le_bytes());
        }
        for i in 1..3 {
            if self.extra & 1 << i != 0 {
                v.extend_from_slice(&(unix_now() + i).to_le_bytes());
            }
        }
        if let Some((a, b)) = self.reinit {
            v.extend_from_slice(&a.to_le_bytes());
            v.extend_from_slice(&b.to_le_bytes());
        }
        if let Some(s) = &self.signature {
            s.as_slice().write_to(&mut v);
        }
        rand2.write_to(&mut v);
        v
    }

    /// Own parser. The second value: bytes covered by the signature
    pub fn parse(d: &[u8]) -> Option<(Self, Vec<u8>)> {
        let o = &mut 0usize;
        let mut b = Body::default();
        if u32::read_from(d, o).ok()? != PACKET_CONTENTS {
            return None;
        }
        <&[u8]>::read_from(d, o).ok()?;
        let flags_at = *o;
        let flags = u32::read_from(d, o).ok()?;
        let has = |n: u32| flags & (1 << n) != 0;
        if has(0) {
            match tl::PublicKey::read_from(d, o).ok()? {
                tl::PublicKey::Ed25519 { key } => b.from = Some(*key),
                _ => return None,
            }
        }
        if has(1) {
            b.from_short = Some(<[u8; 32]>::read_from(d, o).ok()?);
        }
        if has(2) {
            b.messages.push(Msg::of(&proto::adnl::Message::read_from(d, o).ok()?));
        }
        if has(3) {
            let n = u32::read_from(d, o).ok()?;
            for _ in 0..n {
                b.messages.push(Msg::of(&proto::adnl::Message::read_from(d, o).ok()?));
            }
        }
        if has(4) {
            b.address = Some(proto::adnl::AddressList::read_from(d, o).ok()?);
        }
        if has(5) {
            proto::adnl::AddressList::read_from(d, o).ok()?;
        }
        if has(6) {
            b.seqno = Some(u64::read_from(d, o).ok()?);
        }
        if has(7) {
            b.confirm_seqno = Some(u64::read_from(d, o).ok()?);
        }
        if has(8) {
            u32::read_from(d, o).ok()?;
        }
        if has(9) {
            u32::read_from(d, o).ok()?;
        }
        if has(10) {
            b.reinit = Some((u32::read_from(d, o).ok()?, u32::read_from(d, o).ok()?));
        }
        let sig_start = *o;
        if has(11) {
            b.signature = Some(<&[u8]>::read_from(d, o).ok()?.to_vec());
        }
        let sig_end = *o;
        <&[u8]>::read_from(d, o).ok()?;
        let mut signed = d[..sig_start].to_vec();
        signed.extend_from_slice(&d[sig_end..]);
        signed[flags_at + 1] &= 0xf7;
        Some((b, signed))
    }
}

/// The protocol version of a packet: none, or the only one which nodes accept
pub fn any_version(rng: &mut Rand) -> Option<u16> {
    (rng.gen_range(0..4) == 0).then_some(0)
}

/// What a packet looked like to its addressee
#[derive(Clone, Debug)]
pub struct Opened {
    /// "handshake", "channel" or "priority"
    pub kind: &'static str,
    /// index of the channel the puppet used to open it
    pub chan: usize,
    pub version: Option<u16>,
    pub body: Body,
    pub from: NodeIdShort,
    /// signed by `from`
    pub signed: bool,
}

/// Opens a handshake packet addressed to `me`
pub fn read_handshake(me: &Ident, data: &[u8]) -> Option<Opened> {
    let (version, raw) = open_handshake(me, data)?;
    let (body, signed_bytes) = Body::parse(&raw)?;
    let full = NodeIdFull::new(ed25519::PublicKey::from_bytes(body.from?)?);
    let signed = match &body.signature {
        Some(s) => <[u8; 64]>::try_from(s.as_slice())
            .map(|s| full.public_key().verify_raw(&signed_bytes, &s))
            .unwrap_or(false),
        None => false,
    };
    Some(Opened {
        kind: "handshake",
        chan: 0,
        version,
        body,
        from: full.compute_short_id(),
        signed,
    })
}

pub fn addr(n: u8, port: u16) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, n), port)
}

pub fn address_list(addr: SocketAddrV4, reinit: u32, expire: u32) -> proto::adnl::AddressList {
    proto::adnl::AddressList {
        address: Some(proto::adnl::Address::from(&addr)),
        version: unix_now(),
        reinit_date: reinit,
        expire_at: expire,
    }
}

/// Everything a puppet knows about its link with one identity of a node
pub struct Link {
    pub remote: Ident,
    pub my_key: ed25519::KeyPair,
    pub chans: Vec<Chan>,
    pub seqno: [u64; 2],
    pub remote_reinit: u32,
}

/// A remote peer which is driven by the scenario
pub struct Puppet {
    pub me: Ident,
    pub addr: SocketAddrV4,
    pub reinit: u32,
    pub links: HashMap<NodeIdShort, Link>,
}

impl Puppet {
    pub fn new(rng: &mut Rand, addr: SocketAddrV4) -> Self {
        Self {
            me: Ident::gen(rng),
            addr,
            reinit: unix_now(),
            links: HashMap::new(),
        }
    }

    pub fn link(&mut self, rng: &mut Rand, remote: &Ident) -> &mut Link {
        self.links.entry(remote.id).or_insert_with(|| Link {
            remote: remote.clone(),
            my_key: ed25519::KeyPair::from(&ed25519::SecretKey::from_bytes(rng.gen())),
            chans: Vec::new(),
            seqno: [0, 0],
            remote_reinit: 0,
        })
    }

    /// A well-formed handshake body with the messages
    pub fn body(&mut self, rng: &mut Rand, remote: &Ident, messages: Vec<Msg>) -> Body {
        let (me, a, reinit) = (self.me.full, self.addr, self.reinit);
        let link = self.link(rng, remote);
        link.seqno[0] += 1;
        Body {
            from: Some(*me.public_key().as_bytes()),
            from_short: None,
            messages,
            address: Some(address_list(a, reinit, unix_now() + 1000)),
            seqno: Some(link.seqno[0]),
            confirm_seqno: Some(0),
            reinit: Some((reinit, link.remote_reinit)),
            ..Default::default()
        }
        .with_extra(rng)
    }

    pub fn handshake(&mut self, rng: &mut Rand, remote: &Ident, messages: Vec<Msg>) -> Vec<u8> {
        let b = self.body(rng, remote, messages);
        let raw = b.signed(rng, &self.me.clone());
        let version = any_version(rng);
        seal_handshake(rng, &remote.full, &raw, version)
    }

    pub fn channel_body(&mut self, rng: &mut Rand, remote: &Ident, messages: Vec<Msg>, priority: bool) -> Body {
        let (a, reinit) = (self.addr, self.reinit);
        let link = self.link(rng, remote);
        link.seqno[priority as usize] += 1;
        Body {
            messages,
            address: Some(address_list(a, reinit, unix_now() + 1000)),
            seqno: Some(link.seqno[priority as usize]),
            confirm_seqno: Some(0),
            ..Default::default()
        }
        .with_extra(rng)
    }

    /// Packet in the newest known channel
    pub fn channel(&mut self, rng: &mut Rand, remote: &Ident, messages: Vec<Msg>, priority: bool) -> Option<Vec<u8>> {
        let raw = self.channel_body(rng, remote, messages, priority).to_bytes(rng);
        let version = any_version(rng);
        let c = self.link(rng, remote).chans.last()?;
        Some(seal_channel(if priority { &c.out_pri } else { &c.out_ord }, &raw, version))
    }

    /// Registers the channel with the remote channel key
    pub fn add_chan(&mut self, rng: &mut Rand, remote: &Ident, their: [u8; 32]) -> bool {
        let me = self.me.id;
        let link = self.link(rng, remote);
        let Some(their) = ed25519::PublicKey::from_bytes(their) else { return false };
        let c = chan(&me, &remote.id, &link.my_key, &their);
        if link.chans.last().map(|l| l.in_ord == c.in_ord).unwrap_or(false) {
            return false;
        }
        link.chans.push(c);
        true
    }

    /// Opens any packet for this puppet
    pub fn open(&self, data: &[u8]) -> Option<Opened> {
        if let Some(o) = read_handshake(&self.me, data) {
            return Some(o);
        }
        for link in self.links.values() {
            for (i, c) in link.chans.iter().enumerate() {
                for (kind, s) in [("channel", &c.in_ord), ("priority", &c.in_pri)] {
                    if let Some((version, raw)) = open_channel(s, data) {
                        let (body, _) = Body::parse(&raw)?;
                        return Some(Opened {
                            kind,
                            chan: i,
                            version,
                            body,
                            from: link.remote.id,
                            signed: false,
                        });
                    }
                }
            }
        }
        None
    }
}

/// A running node of the code under test, on the in-memory network
pub struct TestNode {
    pub adnl: Arc<adnl::Node>,
    pub wire: Wire,
    pub idents: Vec<Ident>,
    pub addr: SocketAddrV4,
}

impl TestNode {
    pub fn create(
        addr: SocketAddrV4,
        idents: &[Ident],
        options: NodeOptions,
        filter: Option<Arc<dyn adnl::PeerFilter>>,
    ) -> Self {
        let keystore = Keystore::builder()
            .with_tagged_keys(idents.iter().enumerate().map(|(i, id)| (id.secret, i)))
            .expect("keystore")
            .build();
        let adnl = adnl::Node::new(addr, keystore, options, filter).expect("node");
        let wire = take_wire(addr.port()).expect("socket");
        Self {
            adnl,
            wire,
            idents: idents.to_vec(),
            addr,
        }
    }

    pub fn inject(&self, data: Vec<u8>, from: SocketAddrV4) {
        self.wire.to_node.send((data, from)).ok();
    }

    /// Takes everything the node has sent so far
    pub fn sent(&mut self) -> Vec<(Vec<u8>, SocketAddrV4)> {
        let mut res = Vec::new();
        while let Ok(p) = self.wire.from_node.try_recv() {
            res.push(p);
        }
        res
    }
}

/// Message subscriber that records everything
#[derive(Default)]
pub struct Recorder {
    pub got: std::sync::Mutex<Vec<(NodeIdShort, NodeIdShort, Vec<u8>)>>,
}

impl Recorder {
    pub fn take(&self) -> Vec<(NodeIdShort, NodeIdShort, Vec<u8>)> {
        std::mem::take(&mut self.got.lock().unwrap())
    }
}

#[async_trait::async_trait]
impl everscale_network::MessageSubscriber for Recorder {
    async fn try_consume_custom<'a>(
        &self,
        ctx: everscale_network::SubscriberContext<'a>,
        _constructor: u32,
        data: &'a [u8],
    ) -> anyhow::Result<bool> {
        self.got.lock().unwrap().push((*ctx.local_id, *ctx.peer_id, data.to_vec()));
        Ok(true)
    }
}

pub fn keypair(rng: &mut Rand) -> ed25519::KeyPair {
    ed25519::KeyPair::from(&ed25519::SecretKey::from_bytes(rng.gen()))
}

impl Puppet {
    /// Makes the puppet known to the node
    pub async fn hello(&mut self, rng: &mut Rand, node: &TestNode, local: &Ident) {
        let hello = self.handshake(rng, local, vec![Msg::Nop]);
        node.inject(hello, self.addr);
        settle().await;
    }

    /// Establishes a channel with the node (both sides are ready after it)
    pub async fn establish(&mut self, rng: &mut Rand, node: &mut TestNode, local: &Ident) -> bool {
        let my = self.link(rng, local).my_key.public_key;
        let create = Msg::Create { key: *my.as_bytes(), date: unix_now() };
        let packet = self.handshake(rng, local, vec![create]);
        node.inject(packet, self.addr);
        settle().await;
        node.sent();
        node.adnl.send_custom_message(&local.id, &self.me.id, b"establish").ok();
        settle().await;
        for (data, _) in node.sent() {
            if let Some(o) = self.open(&data) {
                for m in o.body.messages {
                    if let Msg::Confirm { key, .. } = m {
                        self.add_chan(rng, local, key);
                    }
                }
            }
        }
        match self.channel(rng, local, vec![Msg::Nop], false) {
            Some(packet) => {
                node.inject(packet, self.addr);
                settle().await;
                true
            }
            None => false,
        }
    }

    /// A packet of the given kind: 0 - handshake, 1 - channel, 2 - priority channel
    pub fn packet(&mut self, rng: &mut Rand, local: &Ident, messages: Vec<Msg>, kind: u8) -> Vec<u8> {
        let packet = match kind {
            0 => None,
            k => self.channel(rng, local, messages.clone(), k == 2),
        };
        packet.unwrap_or_else(|| self.handshake(rng, local, messages))
    }

    /// Splits a message into parts of at most `max` bytes
    pub fn parts(m: &Msg, max: usize) -> Vec<Msg> {
        let raw = m.to_bytes();
        let hash = sha(&raw);
        raw.chunks(max)
            .enumerate()
            .map(|(i, c)| Msg::Part { hash, total: raw.len() as u32, offset: (i * max) as u32, data: c.to_vec() })
            .collect()
    }
}
