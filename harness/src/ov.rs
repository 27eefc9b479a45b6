//! Overlay members, their neighbours and the packets of broadcasts

use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use everscale_crypto::tl::PublicKeyOwned;
use everscale_network::adnl::{NodeIdFull, NodeIdShort, NodeOptions, PeerFilter};
use everscale_network::overlay::{self, IdShort, OverlayOptions};
use everscale_network::proto;
use everscale_network::proto::rldp::RaptorQFecType;
use rand::Rng;
use sha2::Digest;

use crate::core::*;
use crate::dht::{ed_key, Overlay};
use crate::wire::*;

pub const ANY_SENDER: u32 = 1;

fn to_sign(hash: [u8; 32], date: u32) -> Vec<u8> {
    let mut v = 0xfa374e7cu32.to_le_bytes().to_vec();
    v.extend_from_slice(&hash);
    v.extend_from_slice(&date.to_le_bytes());
    v
}

fn hash_all(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = sha2::Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// A packet of a broadcast
#[derive(Clone)]
pub struct Bcast {
    pub src: PublicKeyOwned,
    pub certificate: bool,
    pub flags: u32,
    /// what it carries
    pub data: Vec<u8>,
    pub date: u32,
    pub signature: Vec<u8>,
    /// data hash, data size, symbol and parameters
    pub fec: Option<([u8; 32], u32, u32, [u32; 3])>,
    /// bytes that do not belong to it
    pub tail: Vec<u8>,
}

impl Bcast {
    pub fn src_full(&self) -> Option<NodeIdFull> {
        NodeIdFull::try_from(self.src.as_equivalent_ref()).ok()
    }
    pub fn src_id(&self) -> Option<NodeIdShort> {
        Some(self.src_full()?.compute_short_id())
    }

    /// what has to be signed. `data`: contents of an ordinary broadcast, or the symbol
    pub fn signed_bytes(&self, data: &[u8]) -> Vec<u8> {
        let src = match self.src_id() {
            Some(id) if self.flags & ANY_SENDER == 0 => *id.as_slice(),
            _ => [0; 32],
        };
        match &self.fec {
            None => to_sign(
                hash_all(&[&0x51fd789au32.to_le_bytes(), &src, &sha(data), &self.flags.to_le_bytes()]),
                self.date,
            ),
            Some((data_hash, size, esi, [total_len, packet_len, packet_count])) => {
                let params = RaptorQFecType { total_len: *total_len, packet_len: *packet_len, packet_count: *packet_count };
                let b = hash_all(&[
                    &0xfb3155a6u32.to_le_bytes(),
                    &src,
                    &sha(&tl_proto::serialize(params)),
                    data_hash,
                    &size.to_le_bytes(),
                    &self.flags.to_le_bytes(),
                ]);
                to_sign(hash_all(&[&0xa46962d0u32.to_le_bytes(), &b, &sha(data), &esi.to_le_bytes()]), self.date)
            }
        }
    }

    pub fn sign(&mut self, by: &Ident, data: &[u8]) {
        self.signature = by.sign_raw(&self.signed_bytes(data)).to_vec();
    }

    /// Whether the source has signed it as a packet with these data
    pub fn verify(&self, data: &[u8]) -> bool {
        let (Some(full), Ok(s)) = (self.src_full(), <[u8; 64]>::try_from(self.signature.as_slice())) else { return false };
        full.public_key().verify_raw(&self.signed_bytes(data), &s)
    }

    pub fn to_bytes(&self, overlay: &[u8; 32]) -> Vec<u8> {
        let by = Ident::new([7; 32]);
        let key = ed_key(&by);
        let certificate = if self.certificate {
            proto::overlay::Certificate::Certificate { issued_by: key.as_equivalent_ref(), expire_at: u32::MAX, max_size: 1 << 20, signature: &[1; 64] }
        } else {
            proto::overlay::Certificate::EmptyCertificate
        };
        let mut v = tl_proto::serialize(proto::overlay::Message { overlay });
        let b = match &self.fec {
            None => proto::overlay::Broadcast::Broadcast(proto::overlay::OverlayBroadcast {
                src: self.src.as_equivalent_ref(),
                certificate,
                flags: self.flags,
                data: &self.data,
                date: self.date,
                signature: &self.signature,
            }),
            Some((data_hash, size, esi, [total_len, packet_len, packet_count])) => {
                proto::overlay::Broadcast::BroadcastFec(proto::overlay::OverlayBroadcastFec {
                    src: self.src.as_equivalent_ref(),
                    certificate,
                    data_hash,
                    data_size: *size,
                    flags: self.flags,
                    data: &self.data,
                    seqno: *esi,
                    fec: RaptorQFecType { total_len: *total_len, packet_len: *packet_len, packet_count: *packet_count },
                    date: self.date,
                    signature: &self.signature,
                })
            }
        };
        v.extend_from_slice(&tl_proto::serialize(b));
        v.extend_from_slice(&self.tail);
        v
    }

    pub fn parse(overlay: &[u8; 32], data: &[u8]) -> Option<Self> {
        let prefix = tl_proto::serialize(proto::overlay::Message { overlay });
        let data = data.strip_prefix(prefix.as_slice())?;
        let (src, certificate, flags, payload, date, signature, fec) = match tl_proto::deserialize::<proto::overlay::Broadcast>(data).ok()? {
            proto::overlay::Broadcast::Broadcast(b) => (b.src, b.certificate, b.flags, b.data, b.date, b.signature, None),
            proto::overlay::Broadcast::BroadcastFec(b) => {
                let fec = (*b.data_hash, b.data_size, b.seqno, [b.fec.total_len, b.fec.packet_len, b.fec.packet_count]);
                (b.src, b.certificate, b.flags, b.data, b.date, b.signature, Some(fec))
            }
            _ => return None,
        };
        Some(Self {
            src: src.as_equivalent_owned(),
            certificate: !matches!(certificate, proto::overlay::Certificate::EmptyCertificate),
            flags,
            data: payload.to_vec(),
            date,
            signature: signature.to_vec(),
            fec,
            tail: Vec::new(),
        })
    }
}

/// The length of symbols and their number; there are no data with such parameters otherwise
pub fn symbols([total_len, packet_len, _]: [u32; 3]) -> Option<(u32, u32)> {
    let len = packet_len - packet_len % 8;
    if total_len == 0 || len < 64 || packet_len > 65535 {
        return None;
    }
    let k = (total_len - 1) / len + 1;
    (k <= 56403).then_some((len, k))
}

pub fn compressed(data: &[u8]) -> Vec<u8> {
    let mut v = zstd::encode_all(data, 3).unwrap();
    v.extend(zstd::encode_all((data.len() as u32).to_be_bytes().as_slice(), 3).unwrap());
    v.push(0x80);
    v
}

#[derive(Default)]
pub struct Seen {
    parts: HashMap<(usize, [u8; 32]), Vec<Option<u8>>>,
}

impl Seen {
    /// Messages which the node has sent to the peers (with a number of the peer from 1)
    pub fn messages(&mut self, ps: &[Puppet], node: &mut TestNode) -> Vec<(usize, Msg)> {
        let mut res = Vec::new();
        for (data, to) in node.sent() {
            let Some(i) = ps.iter().position(|p| p.addr == to) else { continue };
            let Some(o) = ps[i].open(&data) else { continue };
            for m in o.body.messages {
                let m = match m {
                    Msg::Part { hash, total, offset, data } => {
                        let buf = self.parts.entry((i, hash)).or_insert_with(|| vec![None; total as usize]);
                        for (j, b) in data.iter().enumerate() {
                            buf[offset as usize + j] = Some(*b);
                        }
                        match buf.iter().copied().collect::<Option<Vec<u8>>>() {
                            Some(d) => {
                                self.parts.remove(&(i, hash));
                                match Msg::parse(&d) {
                                    Some(m) => m,
                                    None => continue,
                                }
                            }
                            None => continue,
                        }
                    }
                    m => m,
                };
                res.push((i + 1, m));
            }
        }
        res
    }
}

type Got = Arc<Mutex<Vec<(Vec<u8>, NodeIdShort)>>>;

/// An overlay on a node, and puppets around it. The first `n` are its members
pub struct Member {
    pub node: TestNode,
    pub overlays: Arc<overlay::Node>,
    pub ov: Arc<overlay::Overlay>,
    pub id: Overlay,
    pub local: Ident,
    pub ps: Vec<Puppet>,
    pub n: usize,
    pub got: Got,
    pub seen: Seen,
}

impl Member {
    /// There is an application which takes everything
    pub async fn new(rng: &mut Rand, no: u8, id: Overlay, options: OverlayOptions, n: usize, others: usize, private: bool) -> Self {
        let m = Self::create(rng, no, id, options, n, others, private).await;
        let (queue, from) = (m.got.clone(), m.ov.clone());
        tokio::spawn(async move {
            loop {
                let b = from.wait_for_broadcast().await;
                queue.lock().unwrap().push((b.data, b.from));
            }
        });
        settle().await;
        m
    }

    /// Nobody waits for broadcasts
    pub async fn quiet(rng: &mut Rand, no: u8, id: Overlay, options: OverlayOptions, n: usize) -> Self {
        Self::create(rng, no, id, options, n, 0, false).await
    }

    async fn create(rng: &mut Rand, no: u8, id: Overlay, options: OverlayOptions, n: usize, others: usize, private: bool) -> Self {
        Self::create_with(rng, no, id, options, n, others, private, None).await
    }

    #[allow(clippy::too_many_arguments)]
    pub async fn create_with(
        rng: &mut Rand,
        no: u8,
        id: Overlay,
        options: OverlayOptions,
        n: usize,
        others: usize,
        private: bool,
        filter: Option<Arc<dyn PeerFilter>>,
    ) -> Self {
        let idents = [Ident::gen(rng), Ident::gen(rng)];
        let mut node = TestNode::create(addr(no, 100 + no as u16), &idents, NodeOptions::default(), filter);
        let overlays = overlay::Node::new(node.adnl.clone(), 0).unwrap();
        node.adnl.start().unwrap();
        let local = idents[private as usize].clone();
        let mut ps = Vec::new();
        for i in 0..n + others {
            let mut p = Puppet::new(rng, addr(no + 10 + i as u8, 1000));
            if rng.gen_range(0..3) > 0 {
                p.establish(rng, &mut node, &local).await;
            } else {
                p.hello(rng, &node, &local).await;
            }
            ps.push(p);
        }
        let short = IdShort::from(id.id);
        let ov = if private {
            let peers: Vec<_> = ps[..n].iter().map(|p| p.me.id).collect();
            let key = node.adnl.key_by_tag(1).unwrap().clone();
            overlays.add_private_overlay(&short, key, &peers, options).0
        } else {
            let ov = overlays.add_public_overlay(&short, options).0;
            for p in &ps[..n] {
                let entry = id.member(&p.me, unix_now());
                ov.add_public_peer(&node.adnl, p.addr, entry.as_equivalent_ref()).unwrap();
            }
            ov
        };
        let got = Got::default();
        settle().await;
        node.sent();
        Self { node, overlays, ov, id, local, ps, n, got, seen: Default::default() }
    }

    /// A message of the peer (numbers from 1)
    pub fn send(&mut self, rng: &mut Rand, peer: usize, data: Vec<u8>) {
        let m = Msg::Custom(data);
        let msgs = if m.to_bytes().len() > 1000 { Puppet::parts(&m, *pick(rng, &[512, 900])) } else { vec![m] };
        let kind = rng.gen_range(0..3);
        let p = &mut self.ps[peer - 1];
        for m in msgs {
            let packet = p.packet(rng, &self.local, vec![m], kind);
            self.node.inject(packet, p.addr);
        }
    }

    pub fn customs(&mut self) -> Vec<(usize, Vec<u8>)> {
        self.seen
            .messages(&self.ps, &mut self.node)
            .into_iter()
            .filter_map(|(i, m)| match m {
                Msg::Custom(d) => Some((i, d)),
                _ => None,
            })
            .collect()
    }

    pub fn delivered(&self) -> Vec<(Vec<u8>, NodeIdShort)> {
        std::mem::take(&mut *self.got.lock().unwrap())
    }
}

/// Numbers for things
#[derive(Default)]
pub struct Numbers<T>(pub Vec<T>);

impl<T: PartialEq> Numbers<T> {
    /// from 1
    pub fn of(&mut self, x: T) -> usize {
        match self.0.iter().position(|y| *y == x) {
            Some(i) => i + 1,
            None => {
                self.0.push(x);
                self.0.len()
            }
        }
    }
    pub fn find(&self, x: &T) -> usize {
        self.0.iter().position(|y| y == x).map(|i| i + 1).unwrap_or(0)
    }
}
