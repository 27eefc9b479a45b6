//! D07: a network of DHT nodes: what is published at one is found by others

use std::net::SocketAddrV4;


use everscale_network::adnl::Key;
use everscale_network::dht::NodeOptions;
use everscale_network::overlay::IdFull;
use everscale_network::proto;
use everscale_network::proto::dht::{KeyOwned, NodeOwned, UpdateRule, ValueResult};
use futures_util::StreamExt;
use rand::seq::SliceRandom;
use rand::Rng;
use tl_proto::BoxedWrapper;

use crate::core::*;
use crate::dht::*;
use crate::wire::*;
use crate::Ctx;

const NO: usize = 3;
const OVERLAY: usize = 100;
type List = BoxedWrapper<proto::adnl::AddressList>;

struct Swarm {
    nodes: Vec<DhtNode>,
    up: Vec<bool>,
    owners: Vec<Ident>,
    overlay: Overlay,
    full: IdFull,
    puppet: Puppet,
    n: u32,
}

fn val_addr(n: u32) -> SocketAddrV4 {
    SocketAddrV4::new([10, 9, (n >> 8) as u8, n as u8].into(), 7)
}

fn addr_val(a: SocketAddrV4) -> u32 {
    let [_, _, x, y] = a.ip().octets();
    (x as u32) << 8 | y as u32
}

fn list_val(list: &proto::adnl::AddressList) -> u32 {
    match list.address {
        Some(proto::adnl::Address { ip, .. }) => ip & 0xffff,
        _ => 99_999,
    }
}

impl Swarm {
    async fn new(rng: &mut Rand, n: usize, ttl: u32) -> Self {
        let options = NodeOptions { value_ttl_sec: ttl, bad_peer_threshold: 1_000_000, ..Default::default() };
        let name: [u8; 32] = rng.gen();
        let full = IdFull::for_workchain_overlay(rng.gen_range(-1..2), &name);
        let name = full.as_slice().to_vec();
        let id = pub_id(everscale_crypto::tl::PublicKey::Overlay { name: &name });
        Swarm {
            nodes: (0..n).map(|i| DhtNode::create(rng, i as u8 + 1, options)).collect(),
            up: vec![true; n],
            owners: (0..NO).map(|_| Ident::gen(rng)).collect(),
            overlay: Overlay { name, id },
            full,
            puppet: Puppet::new(rng, addr(99, 999)),
            n: 0,
        }
    }

    fn knows(&self) -> Value {
        let all: Vec<Vec<usize>> = self
            .nodes
            .iter()
            .map(|x| {
                let mut k: Vec<_> = x
                    .dht
                    .iter_known_peers()
                    .map(|id| self.nodes.iter().position(|y| y.ident.id == *id).map(|i| i + 1).unwrap_or(0))
                    .collect();
                k.sort();
                k
            })
            .collect();
        json!(all)
    }

    fn forward(&mut self) {
        for i in 0..self.nodes.len() {
            let from = self.nodes[i].node.addr;
            for (data, to) in self.nodes[i].node.sent() {
                if let Some(j) = self.nodes.iter().position(|x| x.node.addr == to) {
                    if self.up[i] && self.up[j] {
                        self.nodes[j].node.inject(data, from);
                    }
                }
            }
        }
    }

    /// Packets are carried while the call runs
    async fn carry<T: Send + 'static>(&mut self, call: impl std::future::Future<Output = T> + Send + 'static) -> Option<T> {
        let call = tokio::spawn(call);
        let deadline = elapsed_ms() + 120_000;
        while !call.is_finished() && elapsed_ms() < deadline {
            self.forward();
            sleep_ms(1).await;
        }
        if !call.is_finished() {
            emit(json!({"e": "Hangs"}));
            call.abort();
            return None;
        }
        for _ in 0..4 {
            self.forward();
            settle().await;
        }
        call.await.ok()
    }

    fn describe(&self, j: usize) -> NodeOwned {
        dht_node(&self.nodes[j - 1].ident, address_list(self.nodes[j - 1].node.addr, unix_now(), 0), unix_now())
    }

    fn meet(&mut self, i: usize, j: usize) {
        let n = self.describe(j);
        let ok = matches!(self.nodes[i - 1].dht.add_dht_peer(n), Ok(Some(_)));
        emit(json!({"e": "Meet", "i": i, "j": j, "ok": ok, "knows": self.knows()}));
    }

    async fn toggle(&mut self, rng: &mut Rand, j: usize) {
        let up = !self.up[j - 1];
        self.up[j - 1] = up;
        emit(json!({"e": "Toggle", "j": j, "up": up}));
        if up {
            self.warm_up(rng).await;
        }
    }

    /// Pairs which have lost each other agree on their incarnations again
    async fn warm_up(&mut self, _rng: &mut Rand) {
        for _ in 0..2 {
            for i in 0..self.nodes.len() {
                for j in 0..self.nodes.len() {
                    if i != j && self.up[i] && self.up[j] {
                        let (dht, id) = (self.nodes[i].dht.clone(), self.nodes[j].ident.id);
                        self.carry(async move { dht.ping(&id).await.is_ok() }).await;
                    }
                }
            }
        }
    }

    fn key(&self, k: usize) -> KeyOwned {
        if k == OVERLAY {
            return KeyOwned { id: self.overlay.id, name: b"nodes".to_vec().into(), idx: 0 };
        }
        KeyOwned { id: *self.owners[k % 10 - 1].id.as_slice(), name: b"address".to_vec().into(), idx: (k / 10) as u32 }
    }

    async fn publish(&mut self, rng: &mut Rand, i: usize, k: usize, ttl: Option<i64>, own: bool, local: bool) {
        self.n += 1;
        let n = self.n;
        let a = val_addr(n);
        let owner = self.owners[k % 10 - 1].clone();
        let signer = if own { owner.clone() } else { self.owners[k % 10 % NO].clone() };
        let key = Key::from_bytes(signer.secret);
        let (idx, now) = ((k / 10) as u32, unix_now());
        let till = match ttl {
            Some(t) => (now as i64 + t) as u32,
            None => now + self.nodes[i - 1].dht.options().value_ttl_sec,
        };
        let dht = self.nodes[i - 1].dht.clone();
        let other = self.nodes.choose(rng).unwrap().dht.clone();
        let way = *pick(rng, &["address", "entry", "sign", "raw"]);
        let (data_first, check) = (rng.gen::<bool>(), rng.gen::<bool>());
        let at = rel_now();
        let whole = idx == 0 && own && !local && ttl.is_none() && way == "address";
        let call = async move {
            if whole {
                return match dht.store_address(&key, a).await {
                    Ok(r) => (true, Some(r)),
                    Err(_) => (false, None),
                };
            }
            let list = address_list(a, unix_now() - 1, 0);
            let id = *owner.id.as_slice();
            let raw = boxed(list);
            let at = if way == "sign" { &other } else { &dht };
            let e = at.entry(&id, "address").with_key_index(idx);
            let e = if way == "raw" { e.with_data_raw(&raw) } else { e.with_data(BoxedWrapper(list)) };
            let e = match ttl {
                None => e,
                Some(t) if t >= 0 && data_first => e.with_ttl(t as u32),
                Some(_) => e.expire_at(till),
            };
            let store = if way == "sign" {
                let v = e.sign(&key);
                dht.store_value(v.as_equivalent_ref())
            } else {
                e.sign_and_store(&key)
            };
            match store {
                Err(_) => (false, None),
                Ok(s) if local => {
                    s.only_locally();
                    (true, None)
                }
                Ok(s) if check => {
                    let r = s
                        .then_check(move |k: proto::dht::KeyDescriptionOwned, BoxedWrapper(l): List| {
                            Ok(k.key.id == id && k.key.idx == idx && list_val(&l) == n)
                        })
                        .await;
                    (true, Some(matches!(r, Ok(true))))
                }
                Ok(s) => {
                    s.await;
                    (true, None)
                }
            }
        };
        let Some((ok, res)) = self.carry(call).await else { return };
        let res = res.map(|r| r.to_string()).unwrap_or("none".into());
        emit(json!({"e": "Publish", "i": i, "k": k, "rule": "signed", "val": n, "ttl": rel(till), "own": own, "local": local,
            "ok": ok, "res": res, "now": at, "after": rel_now(), "way": way, "knows": self.knows()}));
    }

    async fn join(&mut self, rng: &mut Rand, i: usize, m: usize, ver: u32, good: bool) {
        let mut node = self.overlay.member(&self.owners[m - 1], ver);
        if !good {
            match rng.gen_range(0..4) {
                0 => node.version += 1,
                1 => node = overlay_node(&self.owners[m - 1], rng.gen(), ver),
                2 => node.signature = bytes::Bytes::new(),
                _ => node.id = ed_key(&self.owners[m % NO]),
            }
        }
        let at = rel_now();
        let dht = self.nodes[i - 1].dht.clone();
        let ttl = rel(unix_now()) + dht.options().value_ttl_sec as i64;
        let full = self.full;
        let call = async move { dht.store_overlay_node(&full, node.as_equivalent_ref()).await };
        let Some(res) = self.carry(call).await else { return };
        let ok = res.is_ok();
        let res = res.map(|r| r.to_string()).unwrap_or("none".into());
        emit(json!({"e": "Publish", "i": i, "k": OVERLAY, "rule": "members", "m": m, "ver": ver, "ttl": ttl, "own": good,
            "local": false, "ok": ok, "res": res, "now": at, "after": rel_now(), "knows": self.knows()}));
    }

    async fn find(&mut self, rng: &mut Rand, i: usize, k: usize) {
        let dht = self.nodes[i - 1].dht.clone();
        let owner = self.owners[k % 10 - 1].clone();
        let idx = (k / 10) as u32;
        let (full, new) = (rng.gen::<bool>(), rng.gen::<bool>());
        let easy = idx == 0 && rng.gen();
        let at = rel_now();
        let call = async move {
            if easy {
                return match dht.find_address(&owner.id).await {
                    Ok((a, f)) if f == owner.full => addr_val(a),
                    Ok(_) => 99_998,
                    Err(_) => 0,
                };
            }
            let id = *owner.id.as_slice();
            let mut s = dht.entry(&id, "address").with_key_index(idx).values::<List>().use_new_peers(new);
            if full {
                s = s.use_full_batch();
            }
            match s.next().await {
                Some((k, BoxedWrapper(l))) if k.key.id == id && k.key.idx == idx => list_val(&l),
                Some(_) => 99_998,
                None => 0,
            }
        };
        let Some(val) = self.carry(call).await else { return };
        emit(json!({"e": "Find", "i": i, "k": k, "val": val, "now": at, "after": rel_now(), "knows": self.knows()}));
    }

    async fn from(&mut self, i: usize, j: usize, k: usize) {
        let (dht, peer) = (self.nodes[i - 1].dht.clone(), self.nodes[j - 1].ident.id);
        let owner = self.owners[k % 10 - 1].clone();
        let idx = (k / 10) as u32;
        let at = rel_now();
        let call = async move {
            let id = *owner.id.as_slice();
            match dht.entry(&id, "address").with_key_index(idx).value_from::<List>(&peer).await {
                Ok(Some((k, BoxedWrapper(l)))) if k.key.id == id && k.key.idx == idx => list_val(&l),
                Ok(Some(_)) => 99_998,
                _ => 0,
            }
        };
        let Some(val) = self.carry(call).await else { return };
        emit(json!({"e": "From", "i": i, "j": j, "k": k, "val": val, "now": at, "after": rel_now(), "knows": self.knows()}));
    }

    async fn members(&mut self, i: usize) {
        let dht = self.nodes[i - 1].dht.clone();
        let id = self.full.compute_short_id();
        let at = rel_now();
        let Some(res) = self.carry(async move { dht.find_overlay_nodes(&id).await.unwrap_or_default() }).await else { return };
        let found: Vec<_> = res
            .iter()
            .map(|(a, n)| {
                let m = self.owners.iter().position(|x| n.id == ed_key(x)).map(|m| m + 1).unwrap_or(0);
                json!([m, n.version, addr_val(*a)])
            })
            .collect();
        emit(json!({"e": "Members", "i": i, "k": OVERLAY, "found": found, "now": at, "after": rel_now(), "knows": self.knows()}));
    }

    async fn look(&mut self, rng: &mut Rand, j: usize, k: usize) {
        let key = self.key(k);
        let id = key_id(&key);
        let q = tl_proto::serialize(proto::rpc::DhtFindValue { key: &id, k: 6 });
        let at = rel_now();
        let mut p = std::mem::replace(&mut self.puppet, Puppet::new(rng, addr(98, 998)));
        let answer = self.nodes[j - 1].ask(rng, &mut p, q).await;
        self.puppet = p;
        let (mut val, mut nodes, mut ttl, mut sound) = (0, vec![], 0, false);
        match answer.as_deref().map(tl_proto::deserialize::<ValueResult>) {
            Some(Ok(ValueResult::ValueFound(BoxedWrapper(v)))) => {
                let v = v.as_equivalent_owned();
                ttl = rel(v.ttl);
                sound = key_id(&v.key.key) == id;
                if k == OVERLAY {
                    let list = tl_proto::deserialize::<BoxedWrapper<proto::overlay::NodesOwned>>(&v.value);
                    sound &= list.is_ok() && v.key.update_rule == UpdateRule::OverlayNodes && v.key.id == self.overlay.key();
                    for n in list.map(|l| l.0.nodes).unwrap_or_default() {
                        let m = self.owners.iter().position(|x| n.id == ed_key(x)).map(|m| m + 1).unwrap_or(0);
                        sound &= m > 0 && n.as_equivalent_ref() == self.overlay.member(&self.owners[m - 1], n.version).as_equivalent_ref();
                        nodes.push(json!([m, n.version]));
                    }
                } else {
                    let owner = &self.owners[k % 10 - 1];
                    let list = tl_proto::deserialize::<List>(&v.value);
                    val = list.as_ref().map(|l| list_val(&l.0)).unwrap_or(99_999);
                    let mut again = v.clone();
                    sign(&mut again, owner, owner);
                    sound &= list.is_ok() && v.key.update_rule == UpdateRule::Signature && boxed(v.as_equivalent_ref()) == boxed(again.as_equivalent_ref());
                }
            }
            Some(Ok(ValueResult::ValueNotFound(_))) => sound = true,
            _ => {}
        }
        emit(json!({"e": "Look", "j": j, "k": k, "val": val, "nodes": nodes, "ttl": ttl, "sound": sound, "now": at}));
    }

    async fn announce(&mut self, i: usize, j: usize) {
        let (dht, peer) = (self.nodes[i - 1].dht.clone(), self.nodes[j - 1].ident.id);
        let Some(res) = self.carry(async move { dht.query_dht_nodes(&peer, 10, true).await }).await else { return };
        // (no answer means no nodes)
        let heard = self.up[i - 1] && self.up[j - 1];
        let ok = res.is_ok() && (heard || res.as_ref().map(|r| r.is_empty()).unwrap_or(true)) && heard;
        let named: Vec<_> = res
            .unwrap_or_default()
            .iter()
            .map(|n| self.nodes.iter().position(|x| n.id == ed_key(&x.ident)).map(|m| m + 1).unwrap_or(0))
            .collect();
        emit(json!({"e": "Announce", "i": i, "j": j, "ok": ok, "named": named, "knows": self.knows()}));
    }

    async fn more(&mut self, i: usize) {
        let dht = self.nodes[i - 1].dht.clone();
        let Some(res) = self.carry(async move { dht.find_more_dht_nodes().await }).await else { return };
        emit(json!({"e": "More", "i": i, "ok": res.is_ok(), "n": res.unwrap_or(0), "knows": self.knows()}));
    }

    async fn ping(&mut self, i: usize, j: usize) {
        let (dht, peer) = (self.nodes[i - 1].dht.clone(), self.nodes[j - 1].ident.id);
        let Some(res) = self.carry(async move { dht.ping(&peer).await }).await else { return };
        emit(json!({"e": "Ping", "i": i, "j": j, "ok": matches!(res, Ok(true))}));
    }

    async fn description(&mut self, rng: &mut Rand, j: usize) {
        let mut p = std::mem::replace(&mut self.puppet, Puppet::new(rng, addr(98, 998)));
        let q = tl_proto::serialize(proto::rpc::DhtGetSignedAddressList);
        let answer = self.nodes[j - 1].ask(rng, &mut p, q).await;
        self.puppet = p;
        let (mut sound, mut ver) = (false, 0);
        if let Some(Ok(BoxedWrapper(n))) = answer.as_deref().map(tl_proto::deserialize::<BoxedWrapper<NodeOwned>>) {
            let d = &self.nodes[j - 1];
            ver = rel(n.version);
            let again = dht_node(&d.ident, n.addr_list, n.version);
            let to = n.addr_list.address.map(|a| SocketAddrV4::new(a.ip.into(), a.port as u16));
            let now = unix_now();
            sound = boxed(n.as_equivalent_ref()) == boxed(again.as_equivalent_ref())
                && to == Some(d.node.addr)
                && (n.addr_list.expire_at == 0 || n.addr_list.expire_at > now)
                && n.addr_list.version <= now
                && n.addr_list.reinit_date <= now
                && n.version <= now;
        }
        emit(json!({"e": "Describe", "j": j, "sound": sound, "ver": ver}));
    }

    fn pass(&mut self, sec: i64) {
        skew_clock(sec);
    }

    async fn look_all(&mut self, rng: &mut Rand, keys: &[usize]) {
        for j in 1..=self.nodes.len() {
            for k in keys {
                self.look(rng, j, *k).await;
            }
        }
    }
}

fn replay(rng: &mut Rand, script: &[Value]) {
    // one unit of the model's time
    let unit = 20;
    let n = 3;
    scenario(json!({"nodes": n, "knows": vec![Vec::<usize>::new(); n]}), || async {
        let mut w = Swarm::new(rng, n, 2 * unit as u32).await;
        for i in 1..n {
            w.meet(i, i + 1);
        }
        for s in script {
            let u = |i: usize| s[i].as_u64().unwrap_or(0) as usize;
            match s[0].as_str().unwrap() {
                "publish" => w.publish(rng, u(1), u(2), Some(u(3) as i64 * unit), s[4] == true, s[5] == true).await,
                "join" => w.join(rng, u(1), u(2), u(3) as u32, s[4] == true).await,
                "announce" => w.announce(u(1), u(2)).await,
                "meet" => w.meet(u(1), u(2)),
                "toggle" => w.toggle(rng, u(1)).await,
                "tick" => w.pass(unit),
                "find" => w.find(rng, u(1), u(2)).await,
                op => panic!("unknown operation {op}"),
            }
        }
        w.look_all(rng, &[1, OVERLAY]).await;
        for i in 1..=n {
            if w.up[i - 1] {
                w.find(rng, i, 1).await;
            }
        }
    });
}

fn random(rng: &mut Rand) {
    let n = rng.gen_range(2..6);
    scenario(json!({"nodes": n, "knows": vec![Vec::<usize>::new(); n]}), || async {
        let ttl = *pick(rng, &[3600, 300, 30]);
        let mut w = Swarm::new(rng, n, ttl).await;
        let dense = *pick(rng, &[1.0, 0.6, 0.3]);
        for i in 1..=n {
            for j in 1..=n {
                if i != j && rng.gen_bool(dense) {
                    w.meet(i, j);
                }
            }
        }
        let moving = rng.gen_range(0..2) * 3;
        for _ in 0..rng.gen_range(5..25) {
            let i = rng.gen_range(1..=n);
            let j = loop {
                let j = rng.gen_range(1..=n);
                if j != i {
                    break j;
                }
            };
            let k = *pick(rng, &[1, 2, 3, 1, 2, 3, 11, 12]);
            let known = w.nodes[i - 1].dht.iter_known_peers().any(|x| *x == w.nodes[j - 1].ident.id);
            match rng.gen_range(0..20) {
                0..=4 if w.up[i - 1] => {
                    let ttl = *pick(rng, &[None, None, Some(0), Some(-5), Some(60), Some(600), Some(6000)]);
                    let (own, local) = (rng.gen_range(0..8) > 0, rng.gen_range(0..6) == 0);
                    w.publish(rng, i, k, ttl, own, local).await;
                }
                5..=7 if w.up[i - 1] => {
                    let (m, ver, good) = (rng.gen_range(1..=NO), rng.gen_range(1..4), rng.gen_range(0..5) > 0);
                    w.join(rng, i, m, ver, good).await;
                }
                8..=10 if w.up[i - 1] => w.find(rng, i, k).await,
                11 if w.up[i - 1] => w.members(i).await,
                12 if w.up[i - 1] && known => w.from(i, j, k).await,
                13 if w.up[i - 1] && known => w.announce(i, j).await,
                14 if w.up[i - 1] => w.more(i).await,
                15 if w.up[i - 1] && known => w.ping(i, j).await,
                16 => w.description(rng, i).await,
                17 => w.pass(*pick(rng, &[1, 20, 70, 1000])),
                18 if moving > 0 => w.toggle(rng, i).await,
                19 => w.meet(i, if rng.gen_range(0..4) == 0 { i } else { j }),
                _ => {
                    let k = if rng.gen() { k } else { OVERLAY };
                    w.look(rng, i, k).await;
                }
            }
        }
        w.look_all(rng, &[1, 2, 3, OVERLAY]).await;
    });
}

pub fn run(ctx: &Ctx) {
    let mut rng = rng(ctx.seed, "D07");
    let mut scripts: Vec<_> = ctx.scripts.iter().map(|s| s["script"].clone()).collect();
    scripts.shuffle(&mut rng);
    scripts.truncate(ctx.n(400, 31_131));
    for s in &scripts {
        replay(&mut rng, s.as_array().unwrap());
    }
    for _ in 0..ctx.n(300, 6_000) {
        random(&mut rng);
    }
}
