//! RLDP nodes and scripted RLDP peers

use std::borrow::Cow;
use std::sync::{Arc, Mutex};

use everscale_network::adnl::{NodeIdShort, NodeOptions};
use everscale_network::proto::rldp::{Message, MessagePart, RaptorQFecType};
use everscale_network::{rldp, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use everscale_raptorq::{Decoder, Encoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};

use crate::core::*;
use crate::wire::*;
use rand::Rng;

/// What the application does with a query
#[derive(Clone)]
pub enum Reply {
    Answer(Vec<u8>),
    Silent,
    Reject,
    Fail,
    Later(u64, Vec<u8>),
}

type Decide = Box<dyn Fn(&[u8]) -> Reply + Send + Sync>;

/// The application on top of RLDP
pub struct Handler {
    pub calls: Mutex<Vec<(NodeIdShort, NodeIdShort, Vec<u8>)>>,
    decide: Decide,
}

impl Handler {
    pub fn new(decide: impl Fn(&[u8]) -> Reply + Send + Sync + 'static) -> Arc<Self> {
        Arc::new(Self { calls: Default::default(), decide: Box::new(decide) })
    }
    pub fn take(&self) -> Vec<(NodeIdShort, NodeIdShort, Vec<u8>)> {
        std::mem::take(&mut self.calls.lock().unwrap())
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Handler {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        _constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        self.calls.lock().unwrap().push((*ctx.local_id, *ctx.peer_id, query.to_vec()));
        match (self.decide)(&query) {
            Reply::Answer(a) => Ok(QueryConsumingResult::Consumed(Some(a))),
            Reply::Silent => Ok(QueryConsumingResult::Consumed(None)),
            Reply::Reject => Ok(QueryConsumingResult::Rejected(query)),
            Reply::Fail => anyhow::bail!("failed"),
            Reply::Later(ms, a) => {
                tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
                Ok(QueryConsumingResult::Consumed(Some(a)))
            }
        }
    }
}

pub struct RldpNode {
    pub node: TestNode,
    pub rldp: Arc<rldp::Node>,
    pub handler: Arc<Handler>,
    pub ident: Ident,
}

impl RldpNode {
    pub fn create(rng: &mut Rand, n: u8, options: rldp::NodeOptions, handler: Arc<Handler>) -> Self {
        let ident = Ident::gen(rng);
        let node = TestNode::create(addr(n, 100 + n as u16), &[ident.clone()], NodeOptions::default(), None);
        let rldp = rldp::Node::new(node.adnl.clone(), vec![handler.clone()], options).expect("rldp");
        node.adnl.start().unwrap();
        Self { node, rldp, handler, ident }
    }

    /// Makes other known
    pub fn knows(&self, other: &RldpNode) {
        self.node
            .adnl
            .add_peer(everscale_network::adnl::NewPeerContext::Dht, &self.ident.id, &other.ident.id, other.node.addr, other.ident.full)
            .unwrap();
    }
}

/// Own view of an RLDP packet
#[derive(Clone, Debug)]
pub enum Part {
    Chunk { id: [u8; 32], fec: [u32; 3], part: u32, total: u64, seqno: u32, data: Vec<u8> },
    Confirm { id: [u8; 32], part: u32, seqno: u32 },
    Complete { id: [u8; 32], part: u32 },
}

impl Part {
    pub fn parse(data: &[u8]) -> Option<Self> {
        Some(match tl_proto::deserialize::<MessagePart>(data).ok()? {
            MessagePart::MessagePart { transfer_id, fec_type, part, total_size, seqno, data } => Part::Chunk {
                id: *transfer_id,
                fec: [fec_type.total_len, fec_type.packet_len, fec_type.packet_count],
                part,
                total: total_size,
                seqno,
                data: data.to_vec(),
            },
            MessagePart::Confirm { transfer_id, part, seqno } => Part::Confirm { id: *transfer_id, part, seqno },
            MessagePart::Complete { transfer_id, part } => Part::Complete { id: *transfer_id, part },
        })
    }
    pub fn id(&self) -> [u8; 32] {
        match self {
            Part::Chunk { id, .. } | Part::Confirm { id, .. } | Part::Complete { id, .. } => *id,
        }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        match self {
            Part::Chunk { id, fec, part, total, seqno, data } => tl_proto::serialize(MessagePart::MessagePart {
                transfer_id: id,
                fec_type: RaptorQFecType { total_len: fec[0], packet_len: fec[1], packet_count: fec[2] },
                part: *part,
                total_size: *total,
                seqno: *seqno,
                data,
            }),
            Part::Confirm { id, part, seqno } => {
                tl_proto::serialize(MessagePart::Confirm { transfer_id: id, part: *part, seqno: *seqno })
            }
            Part::Complete { id, part } => tl_proto::serialize(MessagePart::Complete { transfer_id: id, part: *part }),
        }
    }
    pub fn msg(&self) -> Msg {
        Msg::Custom(self.to_bytes())
    }
}

pub fn negate(id: [u8; 32]) -> [u8; 32] {
    id.map(|b| b ^ 0xff)
}

/// Encoder of one part of a message
pub struct Fec {
    pub params: [u32; 3],
    source: Vec<EncodingPacket>,
    engine: Encoder,
}

impl Fec {
    pub fn new(data: &[u8], packet_len: u16) -> Self {
        let engine = Encoder::with_defaults(data, packet_len);
        let source: Vec<_> = engine.get_block_encoders().iter().flat_map(|e| e.source_packets()).collect();
        Self { params: [data.len() as u32, packet_len as u32, source.len() as u32], source, engine }
    }

    pub fn count(&self) -> u32 {
        self.params[2]
    }

    pub fn symbol(&self, esi: u32) -> Vec<u8> {
        match self.source.get(esi as usize) {
            Some(p) => p.data().to_vec(),
            None => self.engine.get_block_encoders()[0].repair_packets(esi, 1).pop().unwrap().data().to_vec(),
        }
    }
}

/// Decoder of one part
pub fn fec_decoder(params: [u32; 3]) -> Decoder {
    Decoder::new(ObjectTransmissionInformation::with_defaults(params[0] as u64, params[1] as u16))
}

pub fn fec_packet(esi: u32, data: Vec<u8>) -> EncodingPacket {
    EncodingPacket::new(PayloadId::new(0, esi), data)
}

pub fn query_message(id: &[u8; 32], max: u64, timeout: u32, data: &[u8]) -> Vec<u8> {
    tl_proto::serialize(Message::Query { query_id: id, max_answer_size: max, timeout, data })
}

pub fn answer_message(id: &[u8; 32], data: &[u8]) -> Vec<u8> {
    tl_proto::serialize(Message::Answer { query_id: id, data })
}

/// query id, max answer size and data of a query message
pub fn read_query(data: &[u8]) -> Option<([u8; 32], u64, Vec<u8>)> {
    match tl_proto::deserialize::<Message>(data).ok()? {
        Message::Query { query_id, max_answer_size, data, .. } => Some((*query_id, max_answer_size, data.to_vec())),
        _ => None,
    }
}

pub fn read_answer(data: &[u8]) -> Option<([u8; 32], Vec<u8>)> {
    match tl_proto::deserialize::<Message>(data).ok()? {
        Message::Answer { query_id, data } => Some((*query_id, data.to_vec())),
        _ => None,
    }
}

/// RLDP packets for the puppet among everything the node has sent
pub fn collect(p: &Puppet, node: &mut TestNode) -> Vec<Part> {
    let mut res = Vec::new();
    for (data, _) in node.sent() {
        let Some(o) = p.open(&data) else { continue };
        for m in o.body.messages {
            if let Msg::Custom(d) = m {
                res.extend(Part::parse(&d));
            }
        }
    }
    res
}

pub fn payload(rng: &mut Rand, n: u32, len: usize) -> Vec<u8> {
    let mut d = bytes(rng, len);
    let tag = n.to_le_bytes();
    for (a, b) in d.iter_mut().skip(4).zip(tag) {
        *a = b;
    }
    // (0x80 would look like the tag of a compressed payload)
    if let Some(b) = d.last_mut() {
        *b &= 0x7f;
    }
    d
}

/// Faults of a network
#[derive(Clone, Copy, Debug)]
pub struct Faults {
    pub loss: f64,
    pub dup: f64,
    /// longest delay, ms
    pub delay: u64,
    /// altered packets
    pub noise: f64,
}

pub const CLEAN: Faults = Faults { loss: 0.0, dup: 0.0, delay: 0, noise: 0.0 };

pub struct Asked {
    pub q: u32,
    pub from: usize,
    pub to: usize,
    pub query: Vec<u8>,
    pub answer: Vec<u8>,
    pub task: tokio::task::JoinHandle<Option<Option<Vec<u8>>>>,
}

/// Some nodes on a network with faults
pub struct RldpNet {
    pub nodes: Vec<RldpNode>,
    pub faults: Faults,
    queue: std::collections::BTreeMap<(u64, u64), (usize, Vec<u8>, std::net::SocketAddrV4)>,
    n: u64,
    pub asked: Vec<Asked>,
    pub all: Vec<(u32, usize, usize, Vec<u8>, Vec<u8>)>,
    /// no events
    pub quiet: bool,
    /// sizes on the wire are part of the events
    pub wire: bool,
}

impl RldpNet {
    pub fn new(nodes: Vec<RldpNode>, faults: Faults) -> Self {
        for a in &nodes {
            for b in &nodes {
                if a.ident.id != b.ident.id {
                    a.knows(b);
                }
            }
        }
        Self { nodes, faults, queue: Default::default(), n: 0, asked: Vec::new(), all: Vec::new(), quiet: false, wire: false }
    }

    pub fn ask(&mut self, q: u32, from: usize, to: usize, query: Vec<u8>, answer: Vec<u8>, roundtrip: Option<u64>) {
        let (rldp, l, peer, data) = (self.nodes[from].rldp.clone(), self.nodes[from].ident.id, self.nodes[to].ident.id, query.clone());
        let task = tokio::spawn(async move { rldp.query(&l, &peer, data, roundtrip).await.ok().map(|r| r.0) });
        self.all.push((q, from, to, query.clone(), answer.clone()));
        self.asked.push(Asked { q, from, to, query, answer, task });
    }

    /// Moves packets, some time passes
    pub async fn step(&mut self, rng: &mut Rand, ms: u64) {
        for i in 0..self.nodes.len() {
            let from = self.nodes[i].node.addr;
            for (data, to) in self.nodes[i].node.sent() {
                let Some(to) = self.nodes.iter().position(|n| n.node.addr == to) else { continue };
                let f = self.faults;
                let copies = 1 + rng.gen_bool(f.dup) as u64;
                for _ in 0..copies {
                    if rng.gen_bool(f.loss) {
                        continue;
                    }
                    let mut data = data.clone();
                    if rng.gen_bool(f.noise) {
                        let i = rng.gen_range(0..data.len());
                        data[i] ^= 1 << rng.gen_range(0..8);
                    }
                    let due = elapsed_ms() + if f.delay > 0 { rng.gen_range(0..=f.delay) } else { 0 };
                    self.n += 1;
                    self.queue.insert((due, self.n), (to, data, from));
                }
            }
        }
        let now = elapsed_ms();
        while let Some(e) = self.queue.first_entry() {
            if e.key().0 > now {
                break;
            }
            let (to, data, from) = e.remove();
            self.nodes[to].node.inject(data, from);
        }
        sleep_ms(ms).await;
        // what the applications have seen
        for i in 0..self.nodes.len() {
            for (local, peer, data) in self.nodes[i].handler.take() {
                let q = self.all.iter().find(|(_, from, to, query, _)| *to == i && *query == data && self.nodes[*from].ident.id == peer);
                let known = q.is_some() && local == self.nodes[i].ident.id;
                if self.quiet {
                    continue;
                }
                emit(json!({"e": "Called", "q": q.map(|q| q.0).unwrap_or(0), "at": i, "known": known, "t": elapsed_ms()}));
            }
        }
        let mut i = 0;
        while i < self.asked.len() {
            if self.asked[i].task.is_finished() {
                let a = self.asked.swap_remove(i);
                let (res, whole) = match a.task.await {
                    Ok(Some(Some(d))) => ("answer", d == a.answer),
                    Ok(Some(None)) => ("none", true),
                    Ok(None) => ("error", true),
                    Err(_) => ("lost", true),
                };
                if self.quiet {
                    continue;
                }
                if self.wire {
                    emit(json!({"e": "Result", "q": a.q, "res": res, "whole": whole, "wire": 0}));
                } else {
                    emit(json!({"e": "Result", "q": a.q, "res": res, "whole": whole, "t": elapsed_ms()}));
                }
            } else {
                i += 1;
            }
        }
    }

    pub fn in_flight(&self) -> usize {
        self.queue.len()
    }
}
