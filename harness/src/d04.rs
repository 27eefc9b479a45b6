//! D04: which DHT nodes are known and told to others; D05: penalties of DHT nodes

use std::collections::HashMap;
use std::net::SocketAddrV4;
use std::sync::Arc;

use everscale_network::adnl::{NewPeerContext, NodeIdShort, PeerFilter};
use everscale_network::dht::NodeOptions;
use everscale_network::proto;
use everscale_network::proto::dht::{NodeOwned, NodesOwned, UpdateRule, ValueResultOwned};
use rand::seq::SliceRandom;
use rand::Rng;

use crate::core::*;
use crate::dht::*;
use crate::wire::*;
use crate::Ctx;

/// Refuses addresses of this network
const DENIED: u8 = 200;

struct Filter;

impl PeerFilter for Filter {
    fn check(&self, _: NewPeerContext, addr: SocketAddrV4, _: &NodeIdShort) -> bool {
        addr.ip().octets()[3] != DENIED
    }
}

struct Env {
    d: DhtNode,
    outsider: Puppet,
    others: Others,
    /// descriptions by their bytes
    descs: HashMap<Vec<u8>, (usize, u32)>,
    /// their last acceptable description
    last: HashMap<usize, (NodeOwned, Value)>,
}

/// A description and what it is said to be
type Described = (NodeOwned, Value);

impl Env {
    async fn new(rng: &mut Rand, n: usize, info: Value, kind: &str) -> Self {
        let threshold = info["threshold"].as_u64().unwrap() as usize;
        let options = NodeOptions {
            bad_peer_threshold: threshold,
            max_allowed_k: info["maxk"].as_u64().unwrap() as u32,
            ..Default::default()
        };
        let mut d = DhtNode::create_with(rng, 1, options, Some(Arc::new(Filter)));
        let ident = d.ident.clone();
        // some near ones and some others
        let mut pool: Vec<Ident> = (0..if n > 3 { 150 } else { n }).map(|_| Ident::gen(rng)).collect();
        pool.sort_by_key(|p| std::cmp::Reverse(shared_bits(p.id.as_slice(), ident.id.as_slice())));
        let near = n / 2;
        let mut chosen: Vec<_> = pool.drain(..near).collect();
        pool.shuffle(rng);
        chosen.extend(pool.drain(..n - near));
        chosen.shuffle(rng);
        let buckets: Vec<_> = chosen.iter().map(|p| shared_bits(p.id.as_slice(), ident.id.as_slice())).collect();
        reset_event(json!({"kind": kind, "bucket": buckets, "threshold": threshold, "maxk": info["maxk"]}));
        let peers = chosen
            .into_iter()
            .enumerate()
            .map(|(i, me)| {
                let mut p = Puppet::new(rng, addr(20 + i as u8, 2000 + i as u16));
                p.me = me;
                p
            })
            .collect();
        let mut outsider = Puppet::new(rng, addr(10, 1000));
        outsider.establish(rng, &mut d.node, &ident).await;
        Env { d, outsider, others: Others::new(peers), descs: HashMap::new(), last: HashMap::new() }
    }

    /// A description of the peer, with the given fault
    fn describe(&mut self, rng: &mut Rand, p: usize, ver: u32, bad: &str) -> Described {
        let peer = &self.others.peers[p - 1];
        let (mut me, mut a) = (peer.me.clone(), peer.addr);
        let mut list = |a| {
            let expire = *pick(rng, &[0, unix_now() + 1000]);
            address_list(a, unix_now() - 10, expire)
        };
        let mut l = match bad {
            "denied" => {
                a = addr(DENIED, 77);
                list(a)
            }
            _ => list(a),
        };
        let _ = a;
        match bad {
            "list" => match rng.gen_range(0..3) {
                0 => l.address = None,
                1 => l.expire_at = unix_now() - rng.gen_range(1..100),
                _ => l.reinit_date = unix_now() + 10_000,
            },
            "own" => {
                if rng.gen() {
                    me = self.d.ident.clone();
                } else {
                    l.address = Some(proto::adnl::Address::from(&self.d.node.addr));
                }
            }
            _ => {}
        }
        let mut n = dht_node(&me, l, ver);
        if bad == "sig" {
            match rng.gen_range(0..5) {
                0 => n.version = n.version.wrapping_add(1),
                1 => n.signature = Default::default(),
                2 => {
                    let mut s = n.signature.to_vec();
                    let i = rng.gen_range(0..s.len());
                    s[i] ^= 1 << rng.gen_range(0..8);
                    n.signature = s.into();
                }
                3 => n.addr_list.address = Some(proto::adnl::Address::from(&addr(99, 99))),
                _ => n.id = ed_key(&Ident::gen(rng)),
            }
        }
        let said = json!({"p": p, "ver": ver, "sig": bad != "sig", "list": bad != "list",
            "own": bad == "own", "denied": bad == "denied"});
        if bad == "no" {
            self.descs.insert(tl_proto::serialize(n.as_equivalent_ref()), (p, ver));
            self.last.insert(p, (n.clone(), said.clone()));
        }
        (n, said)
    }

    fn view(&self, mut ev: Value) {
        let m = self.d.dht.metrics();
        let bad: Vec<_> = (1..=self.others.peers.len())
            .filter(|p| self.d.dht.is_bad_peer(&self.others.peers[p - 1].me.id))
            .collect();
        ev["bad"] = json!(bad);
        ev["known"] = json!(m.known_peers_len);
        ev["buckets"] = json!(m.bucket_peer_count);
        emit(ev);
    }

    async fn ask(&mut self, rng: &mut Rand, data: Vec<u8>) -> Option<Vec<u8>> {
        self.d.ask(rng, &mut self.outsider, data).await
    }

    async fn announce(&mut self, rng: &mut Rand, (n, said): Described, how: &str) {
        let done = if how == "call" {
            match self.d.dht.add_dht_peer(n) {
                Ok(Some(id)) => {
                    let p = said["p"].as_u64().unwrap() as usize;
                    if id == self.others.peers[p - 1].me.id {
                        "added"
                    } else {
                        "other"
                    }
                }
                Ok(None) => "none",
                Err(_) => "error",
            }
        } else {
            let mut data = tl_proto::serialize(proto::rpc::DhtQuery { node: n.as_equivalent_ref() });
            if how == "nested" {
                let levels = *pick(rng, &[2, 3, 5, 8000]);
                data = data.repeat(levels);
            }
            data.extend(self.plain(rng));
            match self.ask(rng, data).await {
                Some(_) => "answered",
                None => "silent",
            }
        };
        settle().await;
        let mut ev = said;
        ev["e"] = json!("Announce");
        ev["how"] = json!(if how == "nested" { "query" } else { how });
        ev["done"] = json!(done);
        self.view(ev);
    }

    fn plain(&self, rng: &mut Rand) -> Vec<u8> {
        let key: [u8; 32] = rng.gen();
        match rng.gen_range(0..4) {
            0 => tl_proto::serialize(proto::rpc::DhtFindNode { key: &key, k: 2 }),
            1 => tl_proto::serialize(proto::rpc::DhtFindValue { key: &key, k: 1 }),
            2 => tl_proto::serialize(proto::rpc::DhtGetSignedAddressList),
            _ => tl_proto::serialize(proto::rpc::DhtPing { random_id: rng.gen() }),
        }
    }

    /// A call of the node; the peers which are not in `silent` answer
    async fn queries(&mut self, rng: &mut Rand, what: &str, p: usize, silent: &[usize], mut extra: Vec<Described>) {
        let dht = self.d.dht.clone();
        let id = self.others.peers[p - 1].me.id;
        let local = self.d.ident.clone();
        let key: [u8; 32] = rng.gen();
        let of = match what {
            "lookup" => "good",
            "more" | "store" => "all",
            _ => "one",
        };
        let call = {
            let what = what.to_string();
            let store = rng.gen();
            tokio::spawn(async move {
                type Found = proto::adnl::Pong;
                match what.as_str() {
                    "ping" => drop(dht.ping(&id).await),
                    "nodes" => drop(dht.query_dht_nodes(&id, 10, store).await),
                    "value" => drop(dht.entry(&key, "name").value_from::<Found>(&id).await),
                    "more" => drop(dht.find_more_dht_nodes().await),
                    "store" => {
                        let o = Ident::new(key);
                        let mut v = value(*o.id.as_slice(), ed_key(&o), b"x", 0, UpdateRule::Signature, vec![1], unix_now() + 100);
                        sign(&mut v, &o, &o);
                        dht.store_value(v.as_equivalent_ref()).unwrap().await
                    }
                    _ => {
                        use futures_util::StreamExt;
                        let s = dht.entry(&key, "name").values::<Found>().use_full_batch();
                        drop(s.collect::<Vec<_>>().await)
                    }
                }
            })
        };
        let mut asked: Vec<(usize, bool)> = Vec::new();
        let mut nodes: Vec<Value> = Vec::new();
        while !call.is_finished() {
            settle().await;
            for (i, qid, data) in self.others.queries(&mut self.d.node) {
                let ok = !silent.contains(&(i + 1));
                asked.push((i + 1, ok));
                if !ok {
                    continue;
                }
                let mut list = Vec::new();
                if what == "lookup" || what == "more" || what == "value" {
                    let n = rng.gen_range(0..=extra.len());
                    for (d, said) in extra.drain(..n) {
                        list.push(d);
                        nodes.push(said);
                    }
                }
                let data = self.reply(&data, list);
                self.others.answer(rng, &self.d.node, &local, i, qid, data);
                settle().await;
            }
            sleep_ms(20).await;
        }
        if of == "one" && asked.is_empty() {
            // there is no way to reach it
            asked.push((p, false));
        }
        self.view(json!({"e": "Queries", "of": of, "what": what, "asked": asked, "nodes": nodes}));
    }

    fn reply(&self, data: &[u8], list: Vec<NodeOwned>) -> Vec<u8> {
        use proto::rpc;
        use tl_proto::{BoxedConstructor, TlRead};
        let mut offset = 0;
        let data = match rpc::DhtQuery::read_from(data, &mut offset) {
            Ok(_) => &data[offset..],
            Err(_) => data,
        };
        let nodes = NodesOwned { nodes: list };
        match u32::from_le_bytes(data[..4].try_into().unwrap()) {
            rpc::DhtPing::TL_ID => {
                let q: rpc::DhtPing = tl_proto::deserialize(data).unwrap();
                tl_proto::serialize(proto::dht::Pong { random_id: q.random_id })
            }
            rpc::DhtFindNode::TL_ID => boxed(nodes),
            rpc::DhtStore::TL_ID => tl_proto::serialize(proto::dht::Stored),
            _ => tl_proto::serialize(ValueResultOwned::ValueNotFound(nodes)),
        }
    }

    fn read(&self, nodes: Vec<NodeOwned>) -> Vec<Value> {
        nodes
            .iter()
            .map(|n| match self.descs.get(&tl_proto::serialize(n.as_equivalent_ref())) {
                Some((p, ver)) => json!([p, ver]),
                None => json!([0, 0]),
            })
            .collect()
    }

    async fn find(&mut self, rng: &mut Rand) {
        let me = *self.d.ident.id.as_slice();
        let mut key: [u8; 32] = match rng.gen_range(0..5) {
            0 => me,
            1 => rng.gen(),
            _ => *pick(rng, &self.others.peers).me.id.as_slice(),
        };
        if rng.gen() {
            for _ in 0..rng.gen_range(1..4) {
                let i = rng.gen_range(0..16);
                key[i / 8] ^= 0x80 >> (i % 8);
            }
        }
        let k = *pick(rng, &[0, 1, 2, 3, 5, 10, 30, u32::MAX]);
        let bits: Vec<_> = (0..64).filter(|i| bit(&key, *i) != bit(&me, *i)).collect();
        let answer = self.ask(rng, tl_proto::serialize(proto::rpc::DhtFindNode { key: &key, k })).await;
        let nodes = answer.and_then(|d| tl_proto::deserialize_as_boxed::<NodesOwned>(&d).ok());
        emit(json!({"e": "Find", "answered": nodes.is_some(), "k": k.min(1000), "bits": bits,
            "nodes": self.read(nodes.map(|n| n.nodes).unwrap_or_default())}));
    }

    async fn miss(&mut self, rng: &mut Rand) {
        let key: [u8; 32] = rng.gen();
        let k = *pick(rng, &[0, 1, 2, 3, 5, 6, 7, 10, 20, 21, u32::MAX]);
        let answer = self.ask(rng, tl_proto::serialize(proto::rpc::DhtFindValue { key: &key, k })).await;
        let nodes = match answer.as_deref().map(tl_proto::deserialize::<proto::dht::ValueResult>) {
            Some(Ok(proto::dht::ValueResult::ValueNotFound(n))) => Some(n.nodes),
            _ => None,
        };
        emit(json!({"e": "Miss", "answered": nodes.is_some(), "k": k.min(1000),
            "nodes": self.read(nodes.unwrap_or_default())}));
    }
}

const BADS: &[&str] = &["sig", "list", "own", "denied"];

fn replay(rng: &mut Rand, script: &Value, n: usize) {
    run_env(|| async {
        let mut e = Env::new(rng, n, json!({"threshold": 5, "maxk": 20}), "script").await;
        let steps = script.as_array().unwrap();
        if steps[0][0] != "announce" {
            // the nodes of the queries are known
            for p in 1..=n {
                let d = e.describe(rng, p, 1, "no");
                e.announce(rng, d, "call").await;
            }
        }
        for step in steps {
            match step[0].as_str().unwrap() {
                "announce" => {
                    let (p, ver) = (step[1].as_u64().unwrap() as usize, step[2].as_u64().unwrap() as u32);
                    let d = e.describe(rng, p, ver, step[3].as_str().unwrap());
                    e.announce(rng, d, step[4].as_str().unwrap()).await;
                    e.find(rng).await;
                    e.miss(rng).await;
                }
                "query" => {
                    let p = step[1].as_u64().unwrap() as usize;
                    let what = *pick(rng, &["ping", "nodes", "value"]);
                    let silent = if step[2].as_bool().unwrap() { vec![] } else { vec![p] };
                    e.queries(rng, what, p, &silent, vec![]).await;
                }
                _ => {
                    let silent: Vec<_> = if step[1].as_bool().unwrap() { vec![] } else { (1..=n).collect() };
                    e.queries(rng, "lookup", 1, &silent, vec![]).await;
                }
            }
        }
    });
}

fn run_env<F: std::future::Future<Output = ()>>(f: impl FnOnce() -> F) {
    // (starts with what does not depend on the nodes)
    scenario(json!({"kind": "none", "bucket": [], "threshold": 0, "maxk": 0}), f);
}

fn random(rng: &mut Rand, penalties: bool) {
    run_env(|| async {
        let n = if rng.gen_range(0..4) == 0 { 40 } else { rng.gen_range(2..15) };
        let info = json!({"threshold": pick(rng, &[5, 5, 0, 1, 3, 10]), "maxk": pick(rng, &[20, 20, 5, 7])});
        let mut e = Env::new(rng, n, info, "random").await;
        if rng.gen() {
            for p in 1..=n {
                let d = e.describe(rng, p, 5, "no");
                e.announce(rng, d, "call").await;
            }
        }
        let mut down: Vec<usize> = Vec::new();
        for _ in 0..rng.gen_range(10..50) {
            if rng.gen_range(0..4) == 0 {
                down = (1..=n).filter(|_| rng.gen_range(0..3) == 0).collect();
            }
            let p = if rng.gen() { rng.gen_range(1..=n) } else { rng.gen_range(1..=n.min(3)) };
            let r = rng.gen_range(0..20);
            match r {
                0..=5 if !penalties || r < 2 => {
                    let ver = *pick(rng, &[0, 1, 4, 5, 6, 1000]);
                    let bad = if rng.gen_range(0..3) == 0 { *pick(rng, BADS) } else { "no" };
                    let d = match e.last.get(&p) {
                        Some(d) if rng.gen_range(0..4) == 0 => d.clone(),
                        _ => e.describe(rng, p, ver, bad),
                    };
                    let refused = d.1["sig"] == false;
                    let how = *pick(rng, &["call", "query", "nested"]);
                    e.announce(rng, d, if how == "nested" && !refused { "query" } else { how }).await;
                }
                6..=8 if !penalties => e.find(rng).await,
                9 => e.find(rng).await,
                10 => e.miss(rng).await,
                11 | 12 => {
                    let list = (0..rng.gen_range(1..4))
                        .map(|_| {
                            let bad = if rng.gen_range(0..3) == 0 { *pick(rng, BADS) } else { "no" };
                            let (p, ver) = (rng.gen_range(1..=n), rng.gen_range(1..8));
                            e.describe(rng, p, ver, bad)
                        })
                        .collect();
                    let what = *pick(rng, &["lookup", "more", "value"]);
                    e.queries(rng, what, p, &[], list).await;
                }
                _ => {
                    let what = *pick(rng, &["ping", "nodes", "value", "lookup", "lookup", "more", "store"]);
                    let silent = down.clone();
                    e.queries(rng, what, p, &silent, vec![]).await;
                }
            }
        }
    });
}

pub fn run(ctx: &Ctx, penalties: bool) {
    let mut rng = rng(ctx.seed, if penalties { "D05" } else { "D04" });
    let mut scripts: Vec<_> = ctx.scripts.iter().map(|s| s["script"].clone()).collect();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(700, 60_000));
    for s in &scripts {
        replay(&mut rng, s, 2);
    }
    for _ in 0..ctx.n(150, 6_000) {
        random(&mut rng, penalties);
    }
}
