//! Three nodes: joining, finding actors, creating actors elsewhere, publishing.
use super::cluster::*;
use super::common::*;
use crate::actor::context::ActorContext;
use crate::actor::message::{Handler, Message};
use crate::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, ActorRef, IntoActorId, LocalActorRef};
use crate::remote::cluster::node::NodeStatus;
use crate::remote::stream::pubsub::{PubSub, Receive, Subscription, Topic};
use crate::remote::net::StreamData;
use crate::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use crate::remote::system::builder::RemoteSystemConfigBuilder;
use crate::remote::system::{NodeId, RemoteActorErr, RemoteActorSystem};
use async_trait::async_trait;
use std::time::Duration;
use tokio::net;
use tokio::rt;

struct Seen { sub: Option<Subscription>, added: Vec<NodeId> }
#[async_trait]
impl Actor for Seen { async fn started(&mut self, ctx: &mut ActorContext) { self.sub = Some(PubSub::subscribe::<Self, SystemTopic>(SystemTopic, ctx).await.unwrap()); } }
#[async_trait]
impl Handler<Receive<SystemTopic>> for Seen {
    async fn handle(&mut self, m: Receive<SystemTopic>, _: &mut ActorContext) { if let SystemEvent::Cluster(ClusterEvent::NodeAdded(n)) = m.0.as_ref() { self.added.push(n.id) } }
}
struct Added;
impl Message for Added { type Result = Vec<NodeId>; }
#[async_trait]
impl Handler<Added> for Seen { async fn handle(&mut self, _: Added, _: &mut ActorContext) -> Vec<NodeId> { self.added.clone() } }

#[derive(Clone)]
pub struct Maker;
pub struct Recipe(pub u8);
impl ActorRecipe for Recipe {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Recipe> { if b.len() == 1 && b[0] != 250 { Some(Recipe(b[0])) } else { None } }
    fn write_to_bytes(&self) -> Option<Vec<u8>> { if self.0 == 251 { None } else { Some(vec![self.0]) } }
}
#[async_trait]
impl ActorFactory for Maker {
    type Actor = Cell;
    type Recipe = Recipe;
    async fn create(&self, r: Recipe) -> Result<Cell, ActorCreationErr> { if r.0 == 252 { Err(ActorCreationErr::InvalidRecipe("no".into())) } else { Ok(cell(r.0 as u64)) } }
}
pub fn maker(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder { conf(c).with_actor(Maker) }
pub fn bare(id: NodeId, c: fn(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder) -> RemoteActorSystem {
    let inner = crate::actor::system::ActorSystem::builder().system_name(addr(id)).build();
    tokio::time::advance(Duration::from_nanos(1_000_001));
    drive(async move { RemoteActorSystem::builder().with_id(id).with_tag(addr(id)).attribute("zone", addr(id)).attribute("all", "same").with_actor_system(inner).configure(c).build().await }).expect("building a node never finished")
}
pub fn joining(sys: &RemoteActorSystem, seed: Option<&'static str>) -> tokio::sync::oneshot::Receiver<()> {
    let s = sys.clone();
    rt::go(async move {
        let mut b = s.clone().cluster_worker().listen_addr(addr(s.node_id()));
        if let Some(seed) = seed { b = b.with_seed_addr(seed); }
        std::mem::forget(b.start().await);
    })
}
fn nodes(s: &RemoteActorSystem) -> Vec<(NodeId, String, String, Option<chrono::DateTime<chrono::Utc>>, Option<String>, usize)> {
    let s = s.clone();
    let mut v: Vec<_> = drive(async move { s.get_nodes().await }).expect("hangs").into_iter().map(|n| (n.id, n.addr, n.tag, n.node_started_at, n.attributes.get("zone").map(|v| v.to_string()), n.attributes.len())).collect();
    v.sort_by_key(|n| n.0);
    v
}
pub fn locate(s: &RemoteActorSystem, id: &str) -> Option<NodeId> { let s = s.clone(); let id = id.into_actor_id(); drive_timed(async move { s.locate_actor_node(id).await }, 30).expect("looking up an actor never finishes") }

/// Whatever the order in which nodes join through one another, all end up knowing exactly the same nodes, each announced once.
fn join_all(windows: u8, stride: usize, choices: usize) {
    symstd::collections::set_order(nd::flip());
    let (a, b, c) = (bare(1, maker), bare(2, maker), bare(3, maker));
    let all = [&a, &b, &c];
    let mut ears: Vec<LocalActorRef<Seen>> = Vec::new();
    for s in all { ears.push(spawn_tracked(s.actor_system(), "seen", Seen { sub: None, added: Vec::new() }).unwrap()); }
    let mut ja = joining(&a, None);
    rt::run(300);
    assert!(ja.try_recv().is_ok(), "starting the first node hangs");
    let chain = nd::flip();
    let mut jb = joining(&b, Some("n1"));
    if chain { rt::run(400); assert!(jb.try_recv().is_ok(), "joining hangs"); }
    let mut jc = joining(&c, Some(if chain { "n2" } else { "n1" }));
    rt::explore_window(windows, stride, choices);
    let (mut db, mut dc) = (chain, false);
    let mut i = 0;
    while i < 8 && !(db && dc) {
        if !db { db = jb.try_recv().is_ok(); }
        if !dc { dc = jc.try_recv().is_ok(); }
        if !(db && dc) { tokio::time::advance_next(); rt::run(400); }
        i += 1;
    }
    assert!(db && dc, "joining hangs");
    tokio::time::advance(Duration::from_secs(1));
    rt::run(600);
    let want = nodes(&a);
    assert!(want.len() == 3 && want[0].0 == 1 && want[1].0 == 2 && want[2].0 == 3, "a node does not know all nodes");
    let mut i = 0;
    while i < 3 {
        let w = &want[i];
        assert!(w.1 == addr(w.0) && w.2 == addr(w.0) && w.3 == Some(*all[i].started_at()) && w.4 == Some(addr(w.0)) && w.5 == 2, "a node is known with wrong details");
        assert!(nodes(all[i]) == want, "two nodes know different nodes");
        let e = ears[i].clone();
        let mut added = drive(async move { e.send(Added).await }).unwrap().unwrap();
        added.retain(|n| *n != all[i].node_id());
        added.sort();
        nd::reach!(added.len() == 2, "announced");
        assert!(added.len() == 2 && added[0] != added[1], "a joining node not announced once");
        i += 1;
    }
    // everyone agrees on where an actor is looked up
    let k = nd::choose(3) as usize;
    let r = spawn_tracked(all[k].actor_system(), "thing", cell(4)).unwrap();
    rt::run(200);
    for s in all {
        assert!(locate(s, "thing") == Some(all[k].node_id()), "an actor is not found from every node");
        assert!(locate(s, "nothing").is_none());
    }
    nd::reach!(chain, "one after the other");
    nd::reach!(!chain, "at the same time");
}
/// Nodes that listen on one address and are reached by another, seeded with their own address or with
/// another name for a node, whose names resolve only after a while: all know all, and each hears of each
/// other once, and of its loss once.
#[no_mangle]
pub extern "C" fn h_join_seed() {
    symstd::collections::set_order(nd::flip());
    let all = [bare(1, maker), bare(2, maker), bare(3, maker)];
    let mut ears: Vec<LocalActorRef<Seen>> = Vec::new();
    for s in &all { ears.push(spawn_tracked(s.actor_system(), "seen", Seen { sub: None, added: Vec::new() }).unwrap()); }
    let (own, outside) = (nd::flip(), nd::flip());
    let named = nd::choose(3);
    let late = [0usize, 1, 10][nd::choose(3) as usize];
    net::alias("svc", if outside { "in1" } else { "n1" });
    if outside { net::alias("n1", "in1"); net::alias("n2", "in2"); net::alias("n3", "in3"); }
    let mut i = 0;
    while i < 3 {
        let s = all[i].clone();
        let seed: Option<&'static str> = match i { 0 => if own { Some("n1") } else { None }, 1 => Some(if named & 1 == 1 { "svc" } else { "n1" }), _ => Some(if named & 2 == 2 { "n2" } else { "svc" }) };
        if i == 1 { net::unresolved(late); }
        let before = symstd::time::now();
        drive_timed(async move {
            let mut b = s.clone().cluster_worker();
            b = if outside { b.external_addr(addr(s.node_id())).listen_addr(match s.node_id() { 1 => "in1", 2 => "in2", _ => "in3" }) } else { b.listen_addr(addr(s.node_id())) };
            if let Some(seed) = seed { b = b.with_seed_addr(seed); }
            std::mem::forget(b.start().await);
        }, 400).expect("joining never finished");
        assert!(i != 1 || symstd::time::now() - before <= 5_500_000_000 * late as u64 + 1_000_000_000, "joining took too long");
        rt::run(600);
        i += 1;
    }
    tokio::time::advance(Duration::from_secs(1));
    rt::run(600);
    let want = nodes(&all[0]);
    assert!(want.len() == 3 && want[0].0 == 1 && want[1].0 == 2 && want[2].0 == 3, "a node does not know all nodes");
    let mut i = 0;
    while i < 3 {
        let w = &want[i];
        assert!(w.1 == addr(w.0) && w.2 == addr(w.0) && w.3 == Some(*all[i].started_at()), "a node is known with wrong details");
        assert!(nodes(&all[i]) == want, "two nodes know different nodes");
        let e = ears[i].clone();
        let mut added = drive(async move { e.send(Added).await }).unwrap().unwrap();
        added.retain(|n| *n != all[i].node_id());
        added.sort();
        assert!(added.len() == 2 && added[0] != added[1], "a joining node not announced once");
        i += 1;
    }
    let k = nd::choose(3) as usize;
    let _r = spawn_tracked(all[k].actor_system(), "thing", cell(4)).unwrap();
    rt::run(200);
    for s in &all { assert!(locate(s, "thing") == Some(all[k].node_id()), "an actor is not found from every node"); }
    nd::reach!(own && !outside, "own address");
    nd::reach!(outside && named == 1, "another name");
    nd::reach!(late == 10, "resolves late");
}
/// Four nodes, each joining through any of those before it: all know all, and each hears of each other once.
#[no_mangle]
pub extern "C" fn h_join_four() {
    symstd::collections::set_order(nd::flip());
    let all = [bare(1, maker), bare(2, maker), bare(3, maker), bare(4, maker)];
    let mut ears: Vec<LocalActorRef<Seen>> = Vec::new();
    for s in all.iter() { ears.push(spawn_tracked(s.actor_system(), "seen", Seen { sub: None, added: Vec::new() }).unwrap()); }
    let order = if nd::flip() { [0, 1, 2, 3] } else { [2, 3, 0, 1] };
    let mut i = 0;
    while i < 4 {
        let through = if i == 0 { None } else { Some(["n1", "n2", "n3", "n4"][order[nd::choose(i as u8) as usize]]) };
        nd::reach!(i == 3 && through != Some(["n1", "n2", "n3", "n4"][order[0]]), "not through the first");
        let mut j = joining(&all[order[i]], through);
        rt::run(700);
        assert!(j.try_recv().is_ok(), "joining hangs");
        i += 1;
    }
    tokio::time::advance(Duration::from_secs(1));
    rt::run(600);
    let mut i = 0;
    while i < 4 {
        let have = nodes(&all[i]);
        assert!(have.len() == 4, "a node does not know all nodes");
        let mut k = 0;
        while k < 4 {
            let w = &have[k];
            assert!(w.0 == k as u64 + 1 && w.1 == addr(w.0) && w.2 == addr(w.0) && w.3 == Some(*all[k].started_at()) && w.4 == Some(addr(w.0)) && w.5 == 2, "a node is known with wrong details");
            k += 1;
        }
        let e = ears[i].clone();
        let mut added = drive(async move { e.send(Added).await }).unwrap().unwrap();
        added.retain(|n| *n != all[i].node_id());
        added.sort();
        assert!(added.len() == 3 && added[0] != added[1] && added[1] != added[2], "a joining node not announced once");
        i += 1;
    }
    let k = nd::choose(4) as usize;
    let _r = spawn_tracked(all[k].actor_system(), "thing", cell(4)).unwrap();
    rt::run(200);
    for s in all.iter() { assert!(locate(s, "thing") == Some(all[k].node_id()), "an actor is not found from every node"); }
}
#[no_mangle] pub extern "C" fn h_join() { join_all(10, 11, 1) }
#[no_mangle] pub extern "C" fn h_join_deep() { join_all(20, 6, 2) }

/// Creating an actor on any node: it runs there, once, can be called from and found from everywhere; what cannot be created is refused.
#[no_mangle]
pub extern "C" fn h_deploy() {
    let plain = nd::flip(); // the third node does not know how to make it
    let (a, b, c) = (node(1, None, maker), node(2, Some("n1"), maker), node(3, Some("n1"), if plain { conf } else { maker }));
    rt::run(400);
    let all = [&a, &b, &c];
    let from = nd::choose(3) as usize;
    let to = nd::choose(4) as usize;
    let dest = if to == 3 { from } else { to };
    let kind = [7u8, 250, 251, 252][nd::choose(4) as usize];
    let s = all[from].clone();
    let t = if to == 3 { None } else { Some(all[to].node_id()) };
    let r: Result<ActorRef<Cell>, RemoteActorErr> = drive_timed(async move { s.deploy_actor::<Maker>(Some("thing".into_actor_id()), Recipe(kind), t).await }, 30).expect("creating an actor never finishes");
    rt::run(200);
    let fails = kind != 7 || (plain && dest == 2);
    nd::reach!(plain && dest == 2 && from == 2, "not supported here");
    nd::reach!(plain && dest == 2 && from != 2, "not supported there");
    match r {
        Ok(r) => {
            assert!(!fails, "created what cannot be created");
            assert!(drive(async move { r.send(Ask(5)).await }).expect("never answered") == Ok(5 ^ 7), "the created actor does not answer");
            for s in all { assert!(locate(s, "thing") == Some(all[dest].node_id()), "a created actor is not found from every node"); }
            let k = nd::choose(3) as usize;
            let s = all[k].clone();
            let r = drive(async move { s.actor_ref::<Cell>("thing".into_actor_id()).await }).expect("hangs").expect("not found");
            assert!(drive(async move { r.send(Ask(9)).await }).expect("never answered") == Ok(9 ^ 7));
            let (x, y) = (nd::choose(3) as usize, nd::choose(3) as usize);
            nd::assume(!(plain && y == 2));
            let (s, t) = (all[x].clone(), Some(all[y].node_id()));
            let r: Result<ActorRef<Cell>, RemoteActorErr> = drive_timed(async move { s.deploy_actor::<Maker>(Some("thing".into_actor_id()), Recipe(7), t).await }, 30).expect("creating an actor never finishes");
            assert!(r.is_err(), "an actor with this id already exists");
            let l: LocalActorRef<Cell> = { let s = all[dest].clone(); drive(async move { s.actor_system().get_tracked_actor::<Cell>("thing".into_actor_id()).await }).flatten() }.expect("not running where it should");
            assert!(log_of(&l) == [5, 9], "not the same actor");
            nd::reach!("created");
        }
        Err(_) => {
            assert!(fails, "cannot create an actor");
            for s in all { assert!(locate(s, "thing").is_none(), "an actor that was not created is found"); }
            nd::reach!("refused");
        }
    }
    for s in all { assert!(s.inflight_remote_request_count() == 0, "a finished request stays registered"); }
}

/// An actor that stopped and runs again, on any node, under the same id, is found where it runs now.
#[no_mangle]
pub extern "C" fn h_relocate() {
    let (a, b, c) = (node(1, None, maker), node(2, Some("n1"), maker), node(3, Some("n1"), maker));
    rt::run(400);
    let all = [&a, &b, &c];
    let id = if nd::flip() { "thing" } else { "other" };
    let mut was = usize::MAX;
    let mut i = 0;
    while i < 2 {
        let k = nd::choose(3) as usize;
        nd::reach!(i == 1 && k != was, "elsewhere");
        let r = spawn_tracked(all[k].actor_system(), id, cell(k as u64 + 10)).unwrap();
        rt::run(300);
        for s in all {
            assert!(locate(s, id) == Some(all[k].node_id()), "not found where it runs");
            let s = s.clone();
            let r = drive(async move { s.actor_ref::<Cell>(id.into_actor_id()).await }).expect("hangs").expect("not found");
            assert!(drive(async move { r.send(Ask(1)).await }).expect("never answered") == Ok(1 ^ (k as u64 + 10)), "not answered by the one that runs");
        }
        assert!(drive(async move { r.stop().await }).expect("hangs").is_ok());
        rt::run(100);
        was = k;
        i += 1;
    }
}

// ---------------------------------------------------------------- publish and subscribe
pub struct Num(pub u64);
impl StreamData for Num {
    fn read_from_bytes(b: Vec<u8>) -> Option<Num> { num(&b).map(Num) }
    fn write_to_bytes(&self) -> Option<Vec<u8>> { Some(self.0.to_le_bytes().to_vec()) }
}
pub struct News(pub &'static str);
impl Topic for News { type Message = Num; fn topic_name() -> &'static str { "news" } fn key(&self) -> String { self.0.into() } }
pub struct Olds(pub &'static str);
impl Topic for Olds { type Message = Num; fn topic_name() -> &'static str { "olds" } fn key(&self) -> String { self.0.into() } }
pub struct Reader { key: &'static str, sub: Option<Subscription>, got: Vec<u64> }
#[async_trait]
impl Actor for Reader { async fn started(&mut self, ctx: &mut ActorContext) { self.sub = PubSub::subscribe::<Self, News>(News(self.key), ctx).await.ok(); } }
#[async_trait]
impl Handler<Receive<News>> for Reader { async fn handle(&mut self, m: Receive<News>, _: &mut ActorContext) { self.got.push(m.0.as_ref().0) } }
pub enum Do { Get, Off, On }
impl Message for Do { type Result = Vec<u64>; }
#[async_trait]
impl Handler<Do> for Reader {
    async fn handle(&mut self, m: Do, ctx: &mut ActorContext) -> Vec<u64> {
        match m {
            Do::Get => {}
            Do::Off => self.sub = None,
            Do::On => self.sub = PubSub::subscribe::<Self, News>(News(self.key), ctx).await.ok(),
        }
        self.got.clone()
    }
}
fn reader(s: &RemoteActorSystem, id: &str, key: &'static str) -> LocalActorRef<Reader> { spawn_tracked(s.actor_system(), id, Reader { key, sub: None, got: Vec::new() }).unwrap() }
fn tell(r: &LocalActorRef<Reader>, m: Do) -> Vec<u64> { let r = r.clone(); drive(async move { r.send(m).await }).expect("hangs").expect("gone") }
fn publish(s: &RemoteActorSystem, key: &'static str, n: u64, local: bool, other: bool) {
    let s = s.clone();
    drive(async move {
        match (local, other) { (true, false) => PubSub::publish_locally(News(key), Num(n), &s).await, (false, false) => PubSub::publish(News(key), Num(n), &s).await, (true, true) => PubSub::publish_locally(Olds(key), Num(n), &s).await, (false, true) => PubSub::publish(Olds(key), Num(n), &s).await }
    }).expect("publishing hangs");
}
/// Every subscriber to a topic and key, on every node, gets each message published to it while subscribed once; nobody else does.
fn pubsub(ops: usize) {
    let (a, b, c) = (node(1, None, maker), node(2, Some("n1"), maker), node(3, Some("n1"), maker));
    rt::run(400);
    let all = [&a, &b, &c];
    let readers = [(0usize, "x", reader(&a, "r1", "x")), (1, "x", reader(&b, "r2", "x")), (1, "y", reader(&b, "r3", "y")), (2, "x", reader(&c, "r4", "x"))];
    let mut want: [Vec<u64>; 4] = [Vec::new(), Vec::new(), Vec::new(), Vec::new()];
    let mut on = [true; 4];
    let mut i = 0;
    while i < ops {
        match nd::choose(4) {
            0 => {
                let (from, key, n) = (nd::choose(2) as usize, if nd::flip() { "x" } else { "y" }, nd::u64());
                publish(all[from], key, n, false, false);
                let mut k = 0;
                while k < 4 { if on[k] && readers[k].1 == key { want[k].push(n); } k += 1; }
            }
            1 => {
                let (from, n, m) = (nd::choose(2) as usize, nd::u64(), nd::u64());
                publish(all[from], "x", n, true, false);
                publish(all[from], "x", m, true, false); // in this order for everyone on the node
                let mut k = 0;
                while k < 4 { if on[k] && readers[k].1 == "x" && readers[k].0 == from { want[k].push(n); want[k].push(m); } k += 1; }
            }
            2 => publish(&a, "x", 3, nd::flip(), true),
            _ => { let k = nd::choose(2) as usize + 1; tell(&readers[k].2, if on[k] { Do::Off } else { Do::On }); on[k] = !on[k]; nd::reach!(i > 0 && on[k], "back"); }
        }
        rt::run(300);
        i += 1;
    }
    let mut k = 0;
    while k < 4 {
        let got = tell(&readers[k].2, Do::Get);
        assert!(got.len() <= want[k].len(), "a subscriber got something it should not, or twice");
        assert!(got == want[k], "a subscriber missed something, or got something else");
        nd::reach!(!on[k] && got.len() == 1, "unsubscribed after one");
        nd::reach!(k == 3 && got.len() == 2, "two from elsewhere");
        k += 1;
    }
}
#[no_mangle] pub extern "C" fn h_pubsub() { pubsub(3) }
#[no_mangle] pub extern "C" fn h_pubsub_deep() { pubsub(4) }

/// Wherever the subscribers are, and wherever it is published, with any key, the empty one included: also from nodes where nobody subscribed.
fn spread(readers: usize) {
    let n = 2 + nd::choose(2) as usize;
    let (a, b) = (node(1, None, maker), node(2, Some("n1"), maker));
    let c = if n == 3 { Some(node(3, Some("n2"), maker)) } else { None };
    rt::run(400);
    let mut all = vec![a, b];
    if let Some(c) = c { all.push(c) }
    let keys = ["", "x", "y"];
    let mut rs = Vec::new();
    let mut r = 0;
    while r < readers {
        let (w, k) = (nd::choose(n as u8) as usize, nd::choose(3) as usize);
        rs.push((w, k, reader(&all[w], ["r0", "r1", "r2"][r], keys[k]), Vec::<u64>::new()));
        r += 1;
    }
    rt::run(200);
    let mut m = 0u64;
    while m < 2 {
        let (w, k) = (nd::choose(n as u8) as usize, nd::choose(3) as usize);
        publish(&all[w], keys[k], m, false, false);
        let mut hit = 0;
        for r in rs.iter_mut() { if r.1 == k { r.3.push(m); if r.0 == w { hit += 1 } } }
        nd::reach!(hit == 0 && rs.iter().any(|r| r.1 == k), "no subscriber where it is published");
        rt::run(300);
        m += 1;
    }
    let late = reader(&all[n - 1], "late", "x"); // hears only of what comes now
    rt::run(100);
    publish(&all[0], "x", 9, false, false);
    rt::run(300);
    assert!(tell(&late, Do::Get) == [9], "a late subscriber gets other than what was published since");
    for r in rs.iter_mut() {
        if r.1 == 1 { r.3.push(9) }
        let got = tell(&r.2, Do::Get);
        assert!(got.len() <= r.3.len(), "a subscriber got something it should not, or twice");
        assert!(got == r.3, "a subscriber missed something, or got something else");
        nd::reach!(r.1 == 0 && got.len() == 2, "empty key");
    }
    nd::reach!(n == 2, "two nodes");
}
#[no_mangle] pub extern "C" fn h_pubsub_where() { spread(1) }
#[no_mangle] pub extern "C" fn h_pubsub_where_deep() { spread(2) }

/// A subscriber that stops, or falls behind, disturbs nobody, and one that fell behind keeps receiving.
#[no_mangle]
pub extern "C" fn h_pubsub_slow() {
    let a = node(1, None, maker);
    let r1 = reader(&a, "r1", "x");
    let first = rt::spawned() - 1; // its subscription
    let r2 = reader(&a, "r2", "x");
    publish(&a, "x", 1, true, false);
    rt::run(200);
    if nd::flip() {
        // stops while a message is on its way
        let s = a.clone();
        let mut p = rt::go(async move { PubSub::publish_locally(News("x"), Num(2), &s).await });
        let r = r1.clone();
        let mut st = rt::go(async move { r.stop().await });
        rt::explore(5);
        assert!(p.try_recv().is_ok() && st.try_recv().is_ok(), "hangs");
        publish(&a, "x", 3, true, false);
        rt::run(200);
        assert!(tell(&r2, Do::Get) == [1, 2, 3], "a subscriber is disturbed by another");
        nd::reach!("stopped");
    } else {
        // 1100 messages before its subscription gets to run
        let s = a.clone();
        let mut p = rt::go(async move { let mut i = 0; while i < 1100 { PubSub::publish_locally(News("x"), Num(2), &s).await; i += 1; } });
        let mut any = true;
        while any {
            any = false;
            let mut i = 0;
            while i < rt::spawned() { if i != first && rt::step(i) { any = true; } i += 1; }
        }
        assert!(p.try_recv().is_ok());
        rt::run(2000);
        publish(&a, "x", 3, true, false);
        rt::run(200);
        assert!(tell(&r2, Do::Get).len() == 1102);
        assert!(tell(&r1, Do::Get).last() == Some(&3), "a subscriber that fell behind gets nothing any more");
        nd::reach!(tell(&r1, Do::Get).len() < 1102, "fell behind");
    }
}

// ---------------------------------------------------------------- a node that is cut off and comes back
struct Watch { sub: Option<Subscription>, seen: Vec<(bool, NodeId)> }
#[async_trait]
impl Actor for Watch { async fn started(&mut self, ctx: &mut ActorContext) { self.sub = Some(PubSub::subscribe::<Self, SystemTopic>(SystemTopic, ctx).await.unwrap()); } }
#[async_trait]
impl Handler<Receive<SystemTopic>> for Watch {
    async fn handle(&mut self, m: Receive<SystemTopic>, _: &mut ActorContext) {
        match m.0.as_ref() { SystemEvent::Cluster(ClusterEvent::NodeAdded(n)) => self.seen.push((true, n.id)), SystemEvent::Cluster(ClusterEvent::NodeRemoved(n)) => self.seen.push((false, n.id)), _ => {} }
    }
}
struct Changes;
impl Message for Changes { type Result = Vec<(bool, NodeId)>; }
#[async_trait]
impl Handler<Changes> for Watch { async fn handle(&mut self, _: Changes, _: &mut ActorContext) -> Vec<(bool, NodeId)> { std::mem::take(&mut self.seen) } }
fn changes(w: &LocalActorRef<Watch>) -> Vec<(bool, NodeId)> { let w = w.clone(); drive(async move { w.send(Changes).await }).expect("hangs").expect("gone") }
fn slow(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder {
    maker(c).heartbeat(crate::remote::heartbeat::HeartbeatConfig { interval: Duration::from_secs(2), ping_timeout: Duration::from_secs(60), unhealthy_node_heartbeat_timeout: Duration::from_secs(20), terminated_node_heartbeat_timeout: Duration::from_secs(40), minimum_cluster_size: None })
}
fn status(s: &RemoteActorSystem, id: NodeId) -> NodeStatus { let s = s.clone(); drive(async move { s.get_nodes().await }).expect("hangs").into_iter().find(|n| n.id == id).expect("a node is forgotten").status }
/// Two of three nodes lose each other and find each other again: both hear of the loss and of the return, and afterwards everything works as before.
fn rejoin(three: bool, named: bool) {
    net::alias("svc", "n1");
    let a = node(1, None, slow);
    let b = node(2, Some(if named { "svc" } else { "n1" }), slow);
    rt::run(400);
    let links = tokio::net::connections().len();
    let c = if three { Some(node(3, Some("n1"), slow)) } else { None };
    rt::run(400);
    let (x, y) = (spawn_tracked(a.actor_system(), "x", cell(1)).unwrap(), spawn_tracked(b.actor_system(), "y", cell(2)).unwrap());
    let (ra, rb) = (reader(&a, "ra", "k"), reader(&b, "rb", "k"));
    let (wa, wb) = (spawn_tracked(a.actor_system(), "wa", Watch { sub: None, seen: Vec::new() }).unwrap(), spawn_tracked(b.actor_system(), "wb", Watch { sub: None, seen: Vec::new() }).unwrap());
    let mut k = 0;
    while k < 3 { tokio::time::advance(Duration::from_secs(2)); rt::run(500); k += 1; }
    assert!(status(&a, 2) == NodeStatus::Healthy && status(&b, 1) == NodeStatus::Healthy, "nodes that are there are not held for healthy");
    assert!(a.current_leader() == Some(1) && b.current_leader() == Some(1));
    changes(&wa); changes(&wb);
    let lose = nd::flip();
    let mask = nd::choose(3) + 1; // which of the two connections is lost: the one a made, the one b made, both
    let extra = named && mask == 2 && nd::flip(); // only the one made to the other name is lost
    let (la, lb) = (mask & 1 != 0, mask & 2 != 0 && !extra);
    let (mut ga, mut gb) = (0, 0);
    let mut i = 0;
    while i < links {
        let made_by_a = tokio::net::connections()[i].addr == "n2";
        if made_by_a { ga += 1 } else { gb += 1 }
        if if made_by_a { la } else { lb || extra && gb == 1 } { tokio::net::cut(i, lose); }
        i += 1;
    }
    assert!(ga == 1 && gb == if named { 2 } else { 1 }, "not one connection each way");
    let down = nd::choose(3) as usize; // failed attempts to reconnect
    tokio::net::refuse(if down == 0 { 0 } else { 1000 });
    rt::run(500);
    tokio::time::advance(Duration::from_secs(2));
    rt::run(500);
    tokio::time::advance(Duration::from_secs(2));
    rt::run(500);
    let seen = |lost: bool| if lost { NodeStatus::Terminated } else { NodeStatus::Healthy };
    assert!(status(&a, 2) == seen(la) && status(&b, 1) == seen(lb), "a lost node is not noticed, or one that is there is held for lost");
    assert!(b.current_leader() == Some(if lb { 2 } else { 1 }) && a.current_leader() == Some(1), "the leader is lost, and kept");
    let once = |lost: bool, up: bool, n: NodeId| if lost { vec![(up, n)] } else { Vec::new() };
    let (ca, cb) = (changes(&wa), changes(&wb));
    assert!(ca == once(la, false, 2) && cb == once(lb, false, 1), "the loss of a node not announced once");
    let mut k = 0;
    while k < down { tokio::time::advance(Duration::from_secs(5)); rt::run(500); k += 1; }
    tokio::net::refuse(0);
    let mut k = 0;
    while k < 4 { tokio::time::advance(Duration::from_secs(2)); rt::run(500); k += 1; }
    assert!(status(&a, 2) == NodeStatus::Healthy && status(&b, 1) == NodeStatus::Healthy, "the return of a node is not noticed");
    assert!(a.current_leader() == Some(1) && b.current_leader() == Some(1), "no agreement on the leader");
    let (ca, cb) = (changes(&wa), changes(&wb));
    assert!(ca == once(la, true, 2) && cb == once(lb, true, 1), "the return of a node not announced once");
    // everything works as before
    let v = nd::u64();
    let (r, s) = (far(&a, "y", 2), far(&b, "x", 1));
    assert!(drive(async move { r.send(Ask(v)).await }).expect("never answered") == Ok(v ^ 2));
    assert!(drive(async move { s.send(Ask(v)).await }).expect("never answered") == Ok(v ^ 1));
    assert!(log_of(&x) == [v] && log_of(&y) == [v]);
    publish(&a, "k", 5, false, false);
    rt::run(300);
    publish(&b, "k", 6, false, false);
    rt::run(300);
    assert!(tell(&ra, Do::Get) == [5, 6] && tell(&rb, Do::Get) == [5, 6], "what is published does not reach a node that came back");
    assert!(locate(&a, "y") == Some(2) && locate(&b, "x") == Some(1), "an actor is not found any more");
    let mut want = nodes(&a); want.retain(|n| n.0 != 0);
    assert!(nodes(&b) == want && want.len() == if three { 3 } else { 2 }, "two nodes know different nodes");
    if let Some(c) = &c { assert!(nodes(c) == want && status(c, 1) == NodeStatus::Healthy && status(c, 2) == NodeStatus::Healthy && status(&a, 3) == NodeStatus::Healthy, "a node that was not cut off is affected"); }
    nd::reach!(down == 2, "after two failed attempts");
    nd::reach!(down == 0, "at once");
    nd::reach!(la != lb, "one way only");
}
#[no_mangle] pub extern "C" fn h_rejoin() { rejoin(false, false) }
#[no_mangle] pub extern "C" fn h_rejoin_three() { rejoin(true, false) }
#[no_mangle] pub extern "C" fn h_rejoin_named() { rejoin(false, true) }
/// A node reached by two names stays reachable when the connection made to one of them is lost for good.
#[no_mangle]
pub extern "C" fn h_name_lost() {
    net::alias("svc", "n1");
    let a = node(1, None, slow);
    let b = node(2, Some("svc"), slow);
    rt::run(400);
    let wb = spawn_tracked(b.actor_system(), "wb", Watch { sub: None, seen: Vec::new() }).unwrap();
    let _x = spawn_tracked(a.actor_system(), "x", cell(1)).unwrap();
    tokio::time::advance(Duration::from_secs(2));
    rt::run(500);
    changes(&wb);
    let (tries, back) = (nd::choose(3) as usize * 6, nd::flip());
    let mut i = 0;
    while net::connections()[i].addr != "n1" { i += 1; }
    net::cut(i, nd::flip());
    net::refuse(if tries == 0 { 0 } else { 1000 });
    let mut k = 0;
    while k < tries { tokio::time::advance(Duration::from_secs(5)); rt::run(500); k += 1; }
    if back { net::refuse(0); tokio::time::advance(Duration::from_secs(6)); rt::run(500); }
    assert!(status(&b, 1) == NodeStatus::Healthy && status(&a, 2) == NodeStatus::Healthy, "a node that is there is held for lost");
    assert!(changes(&wb).is_empty(), "a node that is there is announced as lost");
    let v = nd::u64();
    let r = far(&b, "x", 1);
    assert!(drive(async move { r.send(Ask(v)).await }).expect("never answered") == Ok(v ^ 1));
    assert!(b.current_leader() == Some(1));
    nd::reach!(tries == 12, "for good");
    nd::reach!(tries == 6 && back, "and back");
}
/// The node others joined through is lost and another takes its name over: they find it by that name.
#[no_mangle]
pub extern "C" fn h_name_moves() {
    symstd::collections::set_order(nd::flip());
    net::alias("svc", "n1");
    let a = node(1, None, slow);
    let b = node(2, Some("svc"), slow);
    rt::run(400);
    let wb = spawn_tracked(b.actor_system(), "wb", Watch { sub: None, seen: Vec::new() }).unwrap();
    tokio::time::advance(Duration::from_secs(2));
    rt::run(500);
    changes(&wb);
    let c = node(3, None, slow);
    net::alias("svc", "n3");
    net::alias("n1", "nowhere");
    let lose = nd::flip();
    let mut i = 0;
    while i < net::connections().len() { net::cut(i, lose); i += 1; }
    std::mem::forget(a);
    net::refuse(nd::choose(3) as usize);
    let mut k = 0;
    while k < 10 { tokio::time::advance(Duration::from_secs(2)); rt::run(700); k += 1; }
    let mut l = changes(&wb);
    l.sort();
    assert!(l == [(false, 1), (true, 3)], "a node that took over the name of a lost one is not found");
    assert!(status(&b, 1) == NodeStatus::Terminated && status(&b, 3) == NodeStatus::Healthy && status(&c, 2) == NodeStatus::Healthy);
    let _x = spawn_tracked(c.actor_system(), "x", cell(1)).unwrap();
    let v = nd::u64();
    let r = far(&b, "x", 3);
    assert!(drive(async move { r.send(Ask(v)).await }).expect("never answered") == Ok(v ^ 1));
    nd::reach!("done");
}
/// A node that shuts down says so: the others know at once, and go on without it.
#[no_mangle]
pub extern "C" fn h_leave() {
    let (a, b, c) = (node(1, None, slow), node(2, Some("n1"), slow), node(3, Some("n1"), slow));
    let all = [&a, &b, &c];
    let mut ws = Vec::new();
    for s in all { ws.push(spawn_tracked(s.actor_system(), "w", Watch { sub: None, seen: Vec::new() }).unwrap()); }
    let mut i = 0;
    while i < 3 { tokio::time::advance(Duration::from_secs(2)); rt::run(700); i += 1; }
    for w in ws.iter() { changes(w); }
    let k = nd::choose(3) as usize;
    let gone = all[k].node_id();
    let s = all[k].clone();
    let mut done = rt::go(async move { s.actor_system().shutdown().await });
    rt::explore(2);
    rt::run(900);
    assert!(done.try_recv().is_ok(), "shutting a node down never finishes");
    let lead = if k == 0 { 2 } else { 1 };
    let mut i = 0;
    while i < 3 {
        if i != k {
            assert!(status(all[i], gone) == NodeStatus::Terminated, "a node that says it stops is not held for terminated");
            assert!(status(all[i], all[3 - i - k].node_id()) == NodeStatus::Healthy && status(all[i], all[i].node_id()) == NodeStatus::Healthy, "the wrong node is held for terminated");
            assert!(all[i].current_leader() == Some(lead), "the leader is gone, and kept");
        }
        i += 1;
    }
    nd::reach!(k == 0, "the leader leaves");
    nd::reach!(k == 2, "another one leaves");
    tokio::net::refuse(1000);
    let mut i = 0;
    while i < 3 { tokio::time::advance(Duration::from_secs(2)); rt::run(700); i += 1; }
    let mut i = 0;
    while i < 3 {
        if i != k {
            assert!(changes(&ws[i]) == [(false, gone)], "the loss of a node not announced once");
            assert!(status(all[i], gone) == NodeStatus::Terminated && all[i].current_leader() == Some(lead));
        }
        i += 1;
    }
    let (x, y) = if k == 0 { (1, 2) } else { (0, 3 - k) };
    let _t = spawn_tracked(all[x].actor_system(), "thing", cell(4)).unwrap();
    let r = far(all[y], "thing", all[x].node_id());
    assert!(drive(async move { r.send(Ask(1)).await }).expect("never answered") == Ok(5), "those that stay do not reach each other");
}
