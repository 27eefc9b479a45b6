//! DHT nodes and values

use std::collections::HashMap;
use std::sync::Arc;

use bytes::Bytes;
use everscale_crypto::tl::{PublicKey, PublicKeyOwned};
use everscale_network::adnl::NodeOptions;
use everscale_network::dht;
use everscale_network::proto;
use everscale_network::proto::dht::{KeyDescriptionOwned, KeyOwned, UpdateRule, ValueOwned};
use rand::Rng;
use tl_proto::{BoxedConstructor, BoxedWrapper};

use crate::core::*;
use crate::wire::*;

pub struct DhtNode {
    pub node: TestNode,
    pub dht: Arc<dht::Node>,
    pub ident: Ident,
}

impl DhtNode {
    pub fn create(rng: &mut Rand, n: u8, options: dht::NodeOptions) -> Self {
        Self::create_with(rng, n, options, None)
    }

    pub fn create_with(
        rng: &mut Rand,
        n: u8,
        options: dht::NodeOptions,
        filter: Option<Arc<dyn everscale_network::adnl::PeerFilter>>,
    ) -> Self {
        let ident = Ident::gen(rng);
        let node = TestNode::create(addr(n, 100 + n as u16), &[ident.clone()], NodeOptions::default(), filter);
        let dht = dht::Node::new(node.adnl.clone(), 0, options).expect("dht");
        node.adnl.start().unwrap();
        Self { node, dht, ident }
    }

    /// The answer to a query of the puppet
    pub async fn ask(&mut self, rng: &mut Rand, p: &mut Puppet, data: Vec<u8>) -> Option<Vec<u8>> {
        let id: [u8; 32] = rng.gen();
        let ident = self.ident.clone();
        self.node.sent();
        let q = Msg::Query(id, data);
        let kind = rng.gen_range(1..=2);
        let msgs = if q.to_bytes().len() > 1000 { Puppet::parts(&q, 900) } else { vec![q] };
        for m in msgs {
            let packet = p.packet(rng, &ident, vec![m], kind);
            self.node.inject(packet, p.addr);
        }
        settle().await;
        answers(p, &mut self.node).into_iter().find(|(i, _)| *i == id).map(|(_, d)| d)
    }
}

/// Answers to queries of the puppet
pub fn answers(p: &Puppet, node: &mut TestNode) -> Vec<([u8; 32], Vec<u8>)> {
    let mut res = Vec::new();
    let mut parts: HashMap<[u8; 32], Vec<Option<u8>>> = HashMap::new();
    for (data, to) in node.sent() {
        if to != p.addr {
            continue;
        }
        let Some(o) = p.open(&data) else { continue };
        for m in o.body.messages {
            let m = match m {
                Msg::Part { hash, total, offset, data } => {
                    let buf = parts.entry(hash).or_insert_with(|| vec![None; total as usize]);
                    for (i, b) in data.iter().enumerate() {
                        buf[offset as usize + i] = Some(*b);
                    }
                    match buf.iter().copied().collect::<Option<Vec<u8>>>().and_then(|d| Msg::parse(&d)) {
                        Some(m) => m,
                        None => continue,
                    }
                }
                m => m,
            };
            if let Msg::Answer(id, data) = m {
                res.push((id, data));
            }
        }
    }
    res
}

pub fn boxed<T: BoxedConstructor + tl_proto::TlWrite<Repr = tl_proto::Bare>>(t: T) -> Vec<u8> {
    tl_proto::serialize(BoxedWrapper(t))
}

/// A key, the way it is hashed
pub fn key_id(key: &KeyOwned) -> [u8; 32] {
    sha(&boxed(key.as_equivalent_ref()))
}

pub fn pub_id(id: PublicKey<'_>) -> [u8; 32] {
    sha(&tl_proto::serialize(id))
}

pub fn ed_key(ident: &Ident) -> PublicKeyOwned {
    ident.full.as_tl().as_equivalent_owned()
}

/// Signs the description and the value
pub fn sign(v: &mut ValueOwned, key_by: &Ident, value_by: &Ident) {
    v.key.signature = Bytes::new();
    v.signature = Bytes::new();
    let k = key_by.sign_raw(&boxed(v.key.as_equivalent_ref()));
    v.key.signature = k.to_vec().into();
    let s = value_by.sign_raw(&boxed(v.as_equivalent_ref()));
    v.signature = s.to_vec().into();
}

pub fn value(id: [u8; 32], owner: PublicKeyOwned, name: &[u8], idx: u32, rule: UpdateRule, data: Vec<u8>, ttl: u32) -> ValueOwned {
    ValueOwned {
        key: KeyDescriptionOwned {
            key: KeyOwned { id, name: name.to_vec().into(), idx },
            id: owner,
            update_rule: rule,
            signature: Bytes::new(),
        },
        value: data.into(),
        ttl,
        signature: Bytes::new(),
    }
}

/// An overlay and the entries of its members
pub struct Overlay {
    pub name: Vec<u8>,
    pub id: [u8; 32],
}

impl Overlay {
    pub fn gen(rng: &mut Rand) -> Self {
        let name = bytes(rng, 32);
        let id = pub_id(PublicKey::Overlay { name: &name });
        Self { name, id }
    }
    pub fn key(&self) -> PublicKeyOwned {
        PublicKey::Overlay { name: &self.name }.as_equivalent_owned()
    }
    pub fn member(&self, m: &Ident, version: u32) -> proto::overlay::NodeOwned {
        overlay_node(m, self.id, version)
    }
}

pub fn overlay_node(m: &Ident, overlay: [u8; 32], version: u32) -> proto::overlay::NodeOwned {
    let id = *m.id.as_slice();
    let to_sign = tl_proto::serialize(proto::overlay::NodeToSign { id: &id, overlay: &overlay, version });
    proto::overlay::NodeOwned { id: ed_key(m), overlay, version, signature: m.sign_raw(&to_sign).to_vec().into() }
}

pub fn node_list(nodes: Vec<proto::overlay::NodeOwned>) -> Vec<u8> {
    boxed(proto::overlay::NodesOwned { nodes: nodes.into() })
}

/// A signed description of a DHT node
pub fn dht_node(m: &Ident, list: proto::adnl::AddressList, version: u32) -> proto::dht::NodeOwned {
    let mut n = proto::dht::NodeOwned { id: ed_key(m), addr_list: list, version, signature: Bytes::new() };
    n.signature = m.sign_raw(&boxed(n.as_equivalent_ref())).to_vec().into();
    n
}

/// Other DHT nodes, driven by the scenario
pub struct Others {
    pub peers: Vec<Puppet>,
    parts: HashMap<[u8; 32], Vec<Option<u8>>>,
}

impl Others {
    pub fn new(peers: Vec<Puppet>) -> Self {
        Self { peers, parts: HashMap::new() }
    }

    /// The queries the node has sent since the last call
    pub fn queries(&mut self, node: &mut TestNode) -> Vec<(usize, [u8; 32], Vec<u8>)> {
        let mut res = Vec::new();
        for (data, to) in node.sent() {
            let Some(i) = self.peers.iter().position(|p| p.addr == to) else { continue };
            let Some(o) = self.peers[i].open(&data) else { continue };
            for m in o.body.messages {
                let m = match m {
                    Msg::Part { hash, total, offset, data } => {
                        let buf = self.parts.entry(hash).or_insert_with(|| vec![None; total as usize]);
                        for (i, b) in data.iter().enumerate() {
                            buf[offset as usize + i] = Some(*b);
                        }
                        match buf.iter().copied().collect::<Option<Vec<u8>>>().and_then(|d| Msg::parse(&d)) {
                            Some(m) => m,
                            None => continue,
                        }
                    }
                    m => m,
                };
                if let Msg::Query(id, data) = m {
                    res.push((i, id, data));
                }
            }
        }
        res
    }

    pub fn answer(&mut self, rng: &mut Rand, node: &TestNode, local: &Ident, i: usize, id: [u8; 32], data: Vec<u8>) {
        let a = Msg::Answer(id, data);
        let msgs = if a.to_bytes().len() > 900 { Puppet::parts(&a, 800) } else { vec![a] };
        for m in msgs {
            let packet = self.peers[i].handshake(rng, local, vec![m]);
            node.inject(packet, self.peers[i].addr);
        }
    }
}

/// Number of leading bits two identities share
pub fn shared_bits(a: &[u8; 32], b: &[u8; 32]) -> usize {
    (0..256).find(|i| bit(a, *i) != bit(b, *i)).unwrap_or(255)
}

pub fn bit(a: &[u8; 32], i: usize) -> bool {
    a[i / 8] & (0x80 >> (i % 8)) != 0
}
