//! Sharded entities on one node and on two.
use super::cluster::*;
use super::common::*;
use super::member::bare;
use crate::actor::context::ActorContext;
use crate::actor::message::{Handler, Message};
use crate::actor::system::ActorSystem;
use crate::actor::{Actor, ActorCreationErr, ActorFactory, ActorId, ActorRecipe, ActorRefErr, IntoActorId, LocalActorRef};
use crate::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use crate::persistent::journal::provider::StorageProvider;
use crate::persistent::journal::storage::{JournalEntry, JournalStorage, JournalStorageRef};
use crate::persistent::Persistence;
use crate::remote::heartbeat::HeartbeatConfig;
use crate::remote::stream::pubsub::PubSub;
use crate::remote::system::builder::RemoteSystemConfigBuilder;
use crate::remote::system::{NodeId, RemoteActorSystem};
use crate::sharding::coordinator::ShardId;
use crate::sharding::host::{ShardAllocator, ShardHost, StopShard};
use crate::sharding::{sharding, Sharding};
use async_trait::async_trait;
use std::time::Duration;
use tokio::rt;
use tokio::sync::oneshot;

/// how many instances of each entity exist (per digit of its name), and how often it was started
pub static mut LIVE: [i32; 10] = [0; 10];
pub static mut STARTS: [u32; 10] = [0; 10];
static mut SLOW: bool = false;
static mut STOP_GATE: Option<oneshot::Receiver<()>> = None;
static mut GATE: Option<oneshot::Receiver<()>> = None;
pub fn digit(id: &ActorId) -> usize { (id.as_bytes()[id.len() - 1] - b'0') as usize }

pub struct Ent { v: u64, me: usize, n: u64 }
#[async_trait]
impl Actor for Ent {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.me = digit(ctx.id());
        unsafe {
            LIVE[self.me] += 1;
            STARTS[self.me] += 1;
            assert!(LIVE[self.me] == 1, "two instances of one entity");
            if SLOW { rt::yield_now().await; }
            if let Some(g) = GATE.take() { let _ = g.await; }
        }
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        unsafe { if SLOW { rt::yield_now().await; } if let Some(g) = STOP_GATE.take() { let _ = g.await; } LIVE[self.me] -= 1; }
    }
}
#[async_trait]
impl Handler<Ask> for Ent { async fn handle(&mut self, m: Ask, _: &mut ActorContext) -> u64 { self.n += 1; m.0 ^ self.v } }
#[async_trait]
impl Handler<Unknown> for Ent { async fn handle(&mut self, _: Unknown, _: &mut ActorContext) { panic!("handled what nobody registered") } }
pub struct EntRecipe(pub u8);
impl ActorRecipe for EntRecipe {
    fn read_from_bytes(b: &Vec<u8>) -> Option<EntRecipe> { if b.is_empty() { Some(EntRecipe(9)) } else if b.len() == 1 && b[0] != 250 { Some(EntRecipe(b[0])) } else { None } }
    fn write_to_bytes(&self) -> Option<Vec<u8>> { Some(if self.0 == 9 { vec![] } else { vec![self.0] }) } // there are recipes that need no bytes
}
#[derive(Clone)]
pub struct EntMaker;
#[async_trait]
impl ActorFactory for EntMaker {
    type Actor = Ent;
    type Recipe = EntRecipe;
    async fn create(&self, r: EntRecipe) -> Result<Ent, ActorCreationErr> { if r.0 == 252 { Err(ActorCreationErr::InvalidRecipe("no".into())) } else { Ok(Ent { v: r.0 as u64, me: 0, n: 0 }) } }
}
pub fn sconf(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder {
    sharding(c).heartbeat(HeartbeatConfig { interval: Duration::from_secs(1), ping_timeout: Duration::from_secs(60), unhealthy_node_heartbeat_timeout: Duration::from_secs(3), terminated_node_heartbeat_timeout: Duration::from_secs(10), minimum_cluster_size: None })
        .with_actor(EntMaker).with_handler::<Ent, Ask>("Ent.Ask")
}
/// entity eK belongs to shard K % n
pub struct Mod(pub u32);
impl ShardAllocator for Mod { fn allocate(&mut self, id: &ActorId) -> ShardId { digit(id) as u32 % self.0 } }

fn one(shards: u32) -> (RemoteActorSystem, Sharding<EntMaker>) {
    let inner = ActorSystem::builder().system_name("n1").build().to_persistent(Persistence::from(InMemoryStorageProvider::new()));
    let s = drive(async move { RemoteActorSystem::builder().with_id(1).with_tag("n1").with_actor_system(inner).configure(sconf).build().await }).expect("building a node never finished");
    let t = s.clone();
    drive(async move { t.register_node(crate::remote::cluster::node::RemoteNode::new(1, addr(1), "n1".into(), Some(chrono::Utc::now()), std::sync::Arc::new(Default::default()))).await }).expect("hangs");
    let t = s.clone();
    let sh = drive(async move { Sharding::<EntMaker>::start("ent".to_string(), t, Some(Box::new(Mod(shards)))).await }).expect("starting sharding hangs");
    tokio::time::advance(Duration::from_secs(1));
    rt::run(300);
    (s, sh)
}
pub fn name(k: u8) -> String { let mut s = String::from("e"); s.push((b'0' + k) as char); s }
pub fn ask(sh: &Sharding<EntMaker>, k: u8, r: Option<u8>, q: u64) -> oneshot::Receiver<Result<u64, ActorRefErr>> {
    let e = sh.get(name(k), r.map(EntRecipe));
    rt::go(async move { e.send(Ask(q)).await })
}


/// Requests to entities while their shard and they themselves start: each is answered once, by that entity, made
/// from the recipe of the request that created it; what cannot be created or understood is refused.
fn requests(n: usize, explored: usize) {
    symstd::collections::set_order(nd::flip());
    let (s, sh) = one(2);
    unsafe { SLOW = true; }
    let mut waiting: Vec<(u8, Option<u8>, u64, oneshot::Receiver<Result<u64, ActorRefErr>>, usize)> = Vec::new();
    let mut batch = 0;
    let mut i = 0;
    while i < n {
        let k = 1 + nd::choose(2) * if nd::flip() { 1 } else { 2 }; // e1, e2 (other shard), e3 (the shard of e1)
        let r = [Some(7u8), Some(9), None, Some(250), Some(252)][nd::choose(5) as usize];
        let q = nd::u64();
        waiting.push((k, r, q, ask(&sh, k, r, q), batch));
        if nd::flip() { rt::run(300); batch += 1; }
        i += 1;
    }
    rt::explore(explored);
    rt::run(400);
    let mut possible: [Vec<u64>; 10] = Default::default();
    let mut bad: Vec<(u8, usize)> = Vec::new(); // entities some request tried to make of a bad recipe
    for (k, r, _, _, b) in waiting.iter() { if let Some(7 | 9) = r { possible[*k as usize].push(r.unwrap() as u64); } else if r.is_some() { bad.push((*k, *b)); } }
    let mut who: [Option<u64>; 10] = [None; 10];
    for (k, r, q, rx, b) in waiting.iter_mut() {
        match rx.try_recv().expect("a request is never answered") {
            Ok(v) => {
                let e = v ^ *q;
                assert!(possible[*k as usize].contains(&e), "answered by something else than the entity");
                if let Some(w) = who[*k as usize] { assert!(w == e, "one entity made twice"); }
                who[*k as usize] = Some(e);
                nd::reach!(r.is_none(), "a request without a recipe reaches the running entity");
            }
            Err(e) => {
                nd::reach!(*r == Some(252), "cannot be made");
                nd::reach!(*r == Some(250), "bad recipe");
                nd::reach!(r.is_none(), "not found");
                assert!(*r != Some(7) && *r != Some(9) || bad.contains(&(*k, *b)), "refused though it could be served");
            }
        }
    }
    let mut k = 0;
    while k < 10 { unsafe { assert!(STARTS[k] as usize == if who[k].is_some() { 1 } else { 0 }, "an entity is started for nothing or not started"); } k += 1; }
}
#[no_mangle] pub extern "C" fn h_shard_requests() { requests(2, 2) }
#[no_mangle] pub extern "C" fn h_shard_requests_deep() { requests(2, 4) }

fn stop(s: &RemoteActorSystem, sh: &Sharding<EntMaker>, shard: u32) -> oneshot::Receiver<Result<Vec<u8>, ActorRefErr>> {
    let request_id = uuid::Uuid::new_v4();
    let (tx, rx) = oneshot::channel();
    s.push_request(request_id, tx);
    assert!(sh.shard_host().notify(StopShard { shard_id: shard, origin_node_id: s.node_id(), request_id }).is_ok());
    rt::go(async move { match rx.await { Ok(r) => r.into_result(), Err(_) => Err(ActorRefErr::ResultChannelClosed) } })
}
fn restart(windows: u8, stride: usize, choices: usize) {
    let (s, sh) = one(2);
    unsafe { SLOW = true; }
    let first = nd::flip();
    if first {
        let (mut r, mut t) = (ask(&sh, 1, Some(7), 1), ask(&sh, 3, Some(9), 1));
        rt::run(300);
        assert!(r.try_recv() == Ok(Ok(1 ^ 7)) && t.try_recv() == Ok(Ok(1 ^ 9)));
    }
    let mut rest: Vec<(u64, oneshot::Receiver<Result<u64, ActorRefErr>>)> = Vec::new();
    rest.push((2, ask(&sh, 1, Some(7), 2)));
    if nd::flip() { rt::explore_window(windows, stride, choices); } else if nd::flip() { rt::run(300); }
    let before = nd::flip();
    if before { rest.push((3, ask(&sh, 1, Some(if first { 9 } else { 7 }), 3))); }
    let mut st = stop(&s, &sh, 1);
    rest.push((4, ask(&sh, 1, Some(7), 4)));
    rt::explore_window(windows, stride, choices);
    rest.push((5, ask(&sh, 1, Some(7), 5)));
    rt::run(400);
    assert!(st.try_recv().expect("a request to stop a shard is never answered").is_ok());
    let mut ok = 0;
    for (q, r) in rest.iter_mut() { match r.try_recv().expect("a request is never answered") { Ok(v) => { assert!(v == *q ^ 7); ok += 1; } Err(_) => {} } }
    nd::reach!(ok >= 3, "most served");
    // afterwards it is served again, and what the shard held is back, made of the same
    let mut r = ask(&sh, 1, None, 6);
    rt::run(400);
    assert!(r.try_recv().expect("a request after the shard stopped is never answered") == Ok(6 ^ 7));
    unsafe { assert!(LIVE[3] == first as i32, "an entity of the shard is not restarted with it"); }
    let (mut r, mut t) = (ask(&sh, 3, None, 7), ask(&sh, 5, None, 8));
    rt::run(400);
    let r = r.try_recv().expect("a request after the shard stopped is never answered");
    assert!(if first { r == Ok(7 ^ 9) } else { r.is_err() }, "an entity is lost with its shard");
    assert!(t.try_recv().expect("unanswered").is_err());
    nd::reach!(first, "recovered");
}
#[no_mangle] pub extern "C" fn h_shard_restart_deep() { restart(12, 3, 2) }
#[no_mangle] pub extern "C" fn h_shard_restart() { restart(6, 4, 2) }

/// The shard is stopped while an entity of it takes long to start.
#[no_mangle]
pub extern "C" fn h_shard_stall() {
    let (s, sh) = one(2);
    let (tx, rx) = oneshot::channel::<()>();
    unsafe { GATE = Some(rx); }
    let mut rest = vec![(1, ask(&sh, 1, Some(7), 1))];
    if nd::flip() { rt::run(400); } else { rt::explore(2); }
    if nd::flip() { rest.push((2, ask(&sh, 1, None, 2))); }
    let mut st = stop(&s, &sh, 1);
    if nd::flip() { rt::run(400); }
    rest.push((3, ask(&sh, 1, Some(7), 3)));
    if nd::flip() { rt::run(400); }
    let early = st.try_recv().is_ok();
    if early { unsafe { assert!(LIVE[1] == 0, "a shard has stopped while an entity of it lives"); } }
    let _ = tx.send(());
    rt::run(600);
    assert!(early || st.try_recv().expect("a request to stop a shard is never answered").is_ok());
    let mut served = 0;
    for (q, r) in rest.iter_mut() { match r.try_recv().expect("a request is never answered") { Ok(v) => { assert!(v == *q ^ 7); served += 1 } Err(_) => {} } }
    nd::reach!(served < rest.len(), "some refused");
    let mut r = ask(&sh, 1, Some(7), 4);
    rt::run(600);
    assert!(r.try_recv().expect("a request is never answered") == Ok(4 ^ 7));
    unsafe { assert!(LIVE[1] == 1, "not one instance"); }
}
// ---------------------------------------------------------------- two nodes
fn snode(i: NodeId, p: &Persistence) -> RemoteActorSystem {
    let inner = ActorSystem::builder().system_name(addr(i)).build().to_persistent(p.clone());
    tokio::time::advance(Duration::from_nanos(1_000_001));
    let s = drive(async move { RemoteActorSystem::builder().with_id(i).with_tag(addr(i)).with_actor_system(inner).configure(sconf).build().await }).expect("building a node never finished");
    join(&s, if i == 1 { None } else { Some("n1") });
    s
}
fn shstart(s: &RemoteActorSystem, shards: u32) -> Sharding<EntMaker> {
    let t = s.clone();
    drive(async move { Sharding::<EntMaker>::start("ent".to_string(), t, Some(Box::new(Mod(shards)))).await }).expect("starting sharding hangs")
}
fn beats(n: usize) { let mut i = 0; while i < n { tokio::time::advance(Duration::from_millis(1000)); rt::run(900); i += 1; } }
pub fn cluster(n: usize, shards: u32) -> Vec<(RemoteActorSystem, Sharding<EntMaker>)> {
    cluster_on(n, shards, Persistence::from(InMemoryStorageProvider::new()))
}
fn cluster_on(n: usize, shards: u32, p: Persistence) -> Vec<(RemoteActorSystem, Sharding<EntMaker>)> {
    let mut v: Vec<RemoteActorSystem> = Vec::new();
    let mut i = 1;
    while i <= n as u64 { v.push(snode(i, &p)); i += 1; }
    rt::run(600);
    let mut out = Vec::new();
    for s in v { let sh = shstart(&s, shards); out.push((s, sh)); }
    beats(3);
    out
}
use crate::sharding::coordinator::balancing::Rebalance;
use crate::sharding::host::GetCoordinator;
fn rebalance(sh: &Sharding<EntMaker>, r: Rebalance) -> oneshot::Receiver<bool> {
    let h = sh.shard_host().clone();
    rt::go(async move { let c = h.send(GetCoordinator).await.unwrap(); c.send(r).await.is_ok() })
}
/// A shard moves while an entity of it takes long to start.
#[no_mangle]
pub extern "C" fn h_move_stall() {
    symstd::collections::set_order(nd::flip());
    let c = cluster(2, 2);
    let mut w = ask(&c[0].1, 3, Some(9), 1);
    rt::run(900);
    assert!(w.try_recv() == Ok(Ok(1 ^ 9)), "not served");
    let (tx, rx) = oneshot::channel::<()>();
    unsafe { GATE = Some(rx); }
    let (from, then) = (nd::choose(2) as usize, nd::choose(2) as usize);
    let mut rest = vec![(1, ask(&c[from].1, 1, Some(7), 1))];
    if nd::flip() { rt::run(900); } else { rt::explore_window(4, 3, 1); }
    let mut done = rebalance(&c[0].1, Rebalance::Shards(vec![1]));
    rt::run(900);
    rest.push((2, ask(&c[then].1, 1, Some(7), 2)));
    if nd::flip() { rt::run(900); settle(); }
    let _ = tx.send(());
    rt::run(900);
    settle();
    assert!(done.try_recv() == Ok(true), "moving a shard never finishes");
    for (q, r) in rest.iter_mut() { match r.try_recv().expect("a request is never answered") { Ok(v) => assert!(v == *q ^ 7), Err(_) => nd::reach!("refused") } }
    let (mut r, mut t) = (ask(&c[1 - then].1, 1, Some(7), 4), ask(&c[then].1, 3, None, 5));
    rt::run(900);
    settle();
    assert!(r.try_recv().expect("a request is never answered") == Ok(4 ^ 7), "not served after the move");
    assert!(t.try_recv().expect("a request is never answered") == Ok(5 ^ 9), "an entity is lost in the move");
    unsafe { assert!(LIVE[1] == 1 && LIVE[3] == 1, "not one instance"); }
}
/// a store in which the next recovery of a shard can be made to take long
struct Slow(JournalStorageRef);
static mut READ_GATE: Option<oneshot::Receiver<()>> = None;
impl StorageProvider for Slow { fn journal_storage(&self) -> Option<JournalStorageRef> { Some(Arc::new(Slow(self.0.clone()))) } }
#[async_trait]
impl JournalStorage for Slow {
    async fn write_snapshot(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> { self.0.write_snapshot(p, e).await }
    async fn write_message(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> { self.0.write_message(p, e).await }
    async fn write_message_batch(&self, p: &str, e: Vec<JournalEntry>) -> anyhow::Result<()> { self.0.write_message_batch(p, e).await }
    async fn read_latest_snapshot(&self, p: &str) -> anyhow::Result<Option<JournalEntry>> { unsafe { if let Some(g) = READ_GATE.take() { let _ = g.await; } } self.0.read_latest_snapshot(p).await }
    async fn read_latest_messages(&self, p: &str, from: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> { self.0.read_latest_messages(p, from).await }
    async fn read_message(&self, p: &str, s: i64) -> anyhow::Result<Option<JournalEntry>> { self.0.read_message(p, s).await }
    async fn read_messages(&self, p: &str, from: i64, to: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> { self.0.read_messages(p, from, to).await }
    async fn delete_messages_to(&self, p: &str, to: i64) -> anyhow::Result<()> { self.0.delete_messages_to(p, to).await }
    async fn delete_all(&self, p: &str) -> anyhow::Result<()> { self.0.delete_all(p).await }
}
/// A shard is to move while it is still being recovered on the node it was placed on.
#[no_mangle]
pub extern "C" fn h_move_start() {
    symstd::collections::set_order(nd::flip());
    let c = cluster_on(2, 2, Persistence::from(Slow(InMemoryStorageProvider::new().journal_storage().unwrap())));
    let (from, then) = (nd::choose(2) as usize, nd::choose(2) as usize);
    let first = nd::flip();
    if first { // then the shard is recovered with an entity in it, after it moved
        let mut w = ask(&c[from].1, 3, Some(9), 1);
        rt::run(900);
        assert!(w.try_recv() == Ok(Ok(1 ^ 9)), "not served");
    }
    let (tx, rx) = oneshot::channel::<()>();
    unsafe { READ_GATE = Some(rx); }
    let mut rest = vec![];
    if first { assert!({ let mut d = rebalance(&c[0].1, Rebalance::Shards(vec![1])); rt::run(900); settle(); d.try_recv() == Ok(true) }); }
    rest.push((1, ask(&c[from].1, 1, Some(7), 1)));
    rt::run(900);
    assert!(unsafe { READ_GATE.is_none() }, "no shard is being recovered");
    assert!(rest[0].1.try_recv().is_err(), "answered before the shard is there");
    let mut done = rebalance(&c[0].1, Rebalance::Shards(vec![1]));
    if nd::flip() { rt::run(900); settle(); } else { rt::explore_window(4, 3, 1); }
    rest.push((2, ask(&c[then].1, 1, Some(7), 2)));
    rt::run(900);
    let _ = tx.send(());
    rt::run(900);
    settle();
    assert!(done.try_recv() == Ok(true), "moving a shard never finishes");
    for (q, r) in rest.iter_mut() { match r.try_recv().expect("a request is never answered") { Ok(v) => assert!(v == *q ^ 7), Err(_) => nd::reach!("refused") } }
    let (mut r, mut t) = (ask(&c[1 - then].1, 1, Some(7), 4), ask(&c[then].1, 3, if first { None } else { Some(9) }, 5));
    rt::run(900);
    settle();
    assert!(r.try_recv().expect("a request is never answered") == Ok(4 ^ 7), "not served after the move");
    assert!(t.try_recv().expect("a request is never answered") == Ok(5 ^ 9), "an entity is lost in the move");
    unsafe { assert!(LIVE[1] == 1 && LIVE[3] == 1, "not one instance"); }
    nd::reach!(first, "with an entity");
    nd::reach!(!first, "empty");
}
/// The node that a shard is about to leave is lost before it has stopped it.
#[no_mangle]
pub extern "C" fn h_move_lost() {
    symstd::collections::set_order(nd::flip());
    let c = cluster(2, 2);
    let (mut r, mut t) = (ask(&c[0].1, 1, Some(7), 1), ask(&c[1].1, 2, Some(9), 1));
    rt::run(900);
    assert!(r.try_recv() == Ok(Ok(1 ^ 7)) && t.try_recv() == Ok(Ok(1 ^ 9)), "not served");
    let (x, y) = (counts(&c[0].1).1, counts(&c[0].1).2);
    assert!(x == 1 && y == 1);
    let which = if on_two(&c[0].1, 0) { 0 } else { 1 }; // the shard that is at the second node
    let (tx, rx) = oneshot::channel::<()>();
    let stuck = nd::flip();
    if stuck { unsafe { STOP_GATE = Some(rx); } }
    let _moved = rebalance(&c[0].1, Rebalance::Shards(vec![which]));
    let e = if which == 0 { (2, 9) } else { (1, 7) };
    if stuck { rt::run(900); settle(); } else { rt::explore_window(6, 6, 1); }
    let mut q = ask(&c[0].1, e.0, None, 2);
    if nd::flip() { rt::run(900); }
    unsafe { LIVE = [0; 10]; }
    tokio::net::refuse(1_000_000);
    let mut i = 0;
    while i < tokio::net::connections().len() { tokio::net::cut(i, true); i += 1; }
    rt::run(900);
    beats(2);
    settle();
    let _ = q.try_recv().map(|r| if let Ok(v) = r { assert!(v == 2 ^ e.1) });
    assert!(counts(&c[0].1) == (2, 2, 0), "the shards of a node that was lost are not taken over");
    let (mut r, mut t) = (ask(&c[0].1, 1, None, 4), ask(&c[0].1, 2, None, 5));
    rt::run(900);
    settle();
    assert!(r.try_recv().expect("a request is never answered") == Ok(4 ^ 7), "not served after its node was lost");
    assert!(t.try_recv().expect("a request is never answered") == Ok(5 ^ 9), "not served after its node was lost");
    nd::reach!(stuck, "before it stopped");
    nd::reach!(!stuck, "any time");
    drop(tx);
}
fn on_two(sh: &Sharding<EntMaker>, shard: ShardId) -> bool {
    let co = coordinator(sh);
    drive(async move { co.send(GetShardingStats).await }).expect("never answered").expect("no coordinator").shards.iter().any(|s| s.shard_id == shard && s.node_id == 2)
}
/// A shard moves to another node while requests for its entities come from everywhere.
fn settle() { let mut i = 0; while i < 12 { tokio::time::advance(Duration::from_millis(11)); rt::run(900); i += 1; } }
fn moving(windows: u8, stride: usize, choices: usize) {
    symstd::collections::set_order(nd::flip());
    let c = cluster(2, 2);
    unsafe { SLOW = true; }
    let (mut r, mut t) = (ask(&c[0].1, 1, Some(7), 1), ask(&c[1].1, 3, Some(9), 1));
    rt::run(900);
    assert!(r.try_recv() == Ok(Ok(1 ^ 7)) && t.try_recv() == Ok(Ok(1 ^ 9)), "not served");
    let mut rest: Vec<(u64, oneshot::Receiver<Result<u64, ActorRefErr>>)> = Vec::new();
    let from = nd::choose(2) as usize;
    let mut done = rebalance(&c[0].1, Rebalance::Shards(vec![1]));
    let mut open = None;
    if nd::flip() { // stopping an entity takes long
        let (tx, rx) = oneshot::channel::<()>();
        unsafe { STOP_GATE = Some(rx); }
        open = Some(tx);
    }
    if nd::flip() { rt::explore_window(windows, stride, choices); } else if open.is_some() { rt::run(900); }
    rest.push((2 ^ 7, ask(&c[from].1, 1, None, 2)));
    rt::explore_window(windows, stride, choices);
    rest.push((3 ^ 7, ask(&c[1 - from].1, 1, Some(7), 3)));
    rest.push((4 ^ 9, ask(&c[from].1, 3, None, 4)));
    rt::run(900);
    let held = open.is_some();
    if let Some(tx) = open { let _ = tx.send(()); rt::run(900); }
    settle();
    assert!(done.try_recv() == Ok(true));
    let mut ok = 0;
    for (q, r) in rest.iter_mut() { match r.try_recv().expect("a request is never answered") { Ok(v) => { assert!(v == *q); ok += 1; } Err(_) => {} } }
    nd::reach!(ok == 3, "all served");
    nd::reach!(ok < 3, "some refused");
    nd::reach!(held, "stopping took long");
    let mut i = 0;
    while i < 2 {
        let (mut r, mut t) = (ask(&c[i].1, 1, None, 6), ask(&c[i].1, 3, None, 6));
        rt::run(900);
        assert!(r.try_recv().expect("a request after the move is never answered") == Ok(6 ^ 7));
        assert!(t.try_recv().expect("a request after the move is never answered") == Ok(6 ^ 9));
        i += 1;
    }
    unsafe { assert!(LIVE[1] == 1 && LIVE[3] == 1); }
}
#[no_mangle] pub extern "C" fn h_shard_move() { moving(8, 10, 1) }
#[no_mangle] pub extern "C" fn h_shard_move_deep() { moving(20, 5, 1) }

// ---------------------------------------------------------------- the coordinator's decisions
use crate::remote::cluster::node::RemoteNode;
use crate::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use crate::sharding::coordinator::allocation::{AllocateShard, AllocateShardResult};
use crate::sharding::coordinator::stats::GetShardingStats;
use crate::sharding::coordinator::ShardHostStatus;
use std::sync::Arc;
fn coordinator(sh: &Sharding<EntMaker>) -> crate::singleton::Singleton<crate::sharding::coordinator::ShardCoordinator, crate::sharding::coordinator::factory::CoordinatorFactory> {
    let h = sh.shard_host().clone();
    drive(async move { h.send(GetCoordinator).await.unwrap() }).expect("hangs")
}
fn event(s: &RemoteActorSystem, add: bool, id: NodeId) {
    let n = Arc::new(RemoteNode::new(id, addr(id), "t".into(), None, Arc::new(Default::default())));
    let s = s.clone();
    drive(async move { PubSub::publish_locally(SystemTopic, SystemEvent::Cluster(if add { ClusterEvent::NodeAdded(n) } else { ClusterEvent::NodeRemoved(n) }), &s).await }).expect("hangs");
}
/// Whatever the order in which shards are asked for and nodes come and go: every shard asked for is at exactly one
/// node that is there, at the least loaded one when it was placed, and stays there as long as that node does.
fn allocation(n: usize) {
    symstd::collections::set_order(nd::flip());
    let (s, sh) = one(2);
    let co = coordinator(&sh);
    let ids = [0u32, 1, 2, u32::MAX];
    let mut at: [Option<NodeId>; 4] = [None; 4];
    let mut there = [true, false, false];
    let mut i = 0;
    while i < n {
        if nd::flip() {
            let k = nd::choose(4) as usize;
            let co = co.clone();
            let id = ids[k];
            let count = |m: NodeId| at.iter().filter(|a| **a == Some(m)).count();
            let least = (1..4u64).filter(|m| there[*m as usize - 1]).map(|m| count(m)).min().unwrap();
            let r = drive(async move { co.send(AllocateShard { shard_id: id, rebalancing: false }).await }).expect("never answered").expect("no coordinator");
            match r {
                AllocateShardResult::Allocated(sid, node) => {
                    assert!(sid == id && at[k].is_none(), "a shard is placed twice");
                    assert!(node >= 1 && node <= 3 && there[node as usize - 1], "a shard is placed on a node that is not there");
                    assert!(count(node) == least, "a shard is placed on a node that has more than others");
                    at[k] = Some(node);
                    nd::reach!(node != 1, "placed elsewhere");
                }
                AllocateShardResult::AlreadyAllocated(sid, node) => assert!(sid == id && at[k] == Some(node), "a shard is not where it was placed"),
                _ => panic!("a shard cannot be placed"),
            }
        } else {
            let m = nd::choose(2) as usize + 1;
            event(&s, !there[m], m as u64 + 1);
            rt::run(200);
            if there[m] { let mut j = 0; while j < 4 { if at[j] == Some(m as u64 + 1) { at[j] = Some(99); nd::reach!("its node left"); } j += 1; } }
            there[m] = !there[m];
        }
        // what the coordinator says about itself
        let co = co.clone();
        let st = drive(async move { co.send(GetShardingStats).await }).expect("never answered").expect("no coordinator");
        assert!(st.total_shards as usize == at.iter().filter(|a| a.is_some()).count() && st.shards.len() == st.total_shards as usize, "a shard is lost or made up");
        for x in st.shards.iter() {
            let k = ids.iter().position(|i| *i == x.shard_id).expect("a shard nobody asked for");
            assert!(there[x.node_id as usize - 1], "a shard is left on a node that is gone");
            assert!(at[k] == Some(x.node_id) || at[k] == Some(99), "a shard moved without reason");
            at[k] = Some(x.node_id);
        }
        for x in st.nodes.iter() {
            assert!((x.status == ShardHostStatus::Ready) == there[x.node_id as usize - 1], "a node's state is wrong");
            assert!(x.shard_count as usize == at.iter().filter(|a| **a == Some(x.node_id)).count(), "a node's shards are miscounted");
        }
        i += 1;
    }
}
#[no_mangle] pub extern "C" fn h_shard_alloc() { allocation(4) }
#[no_mangle] pub extern "C" fn h_shard_alloc_deep() { allocation(6) }

fn counts(sh: &Sharding<EntMaker>) -> (u64, u64, u64) {
    let co = coordinator(sh);
    let st = drive(async move { co.send(GetShardingStats).await }).expect("never answered").expect("no coordinator");
    let n = |i: u64| st.shards.iter().filter(|x| x.node_id == i).count() as u64;
    (st.total_shards, n(1), n(2))
}
/// A node joins: the shards are spread over both; it leaves: they come back. Every entity is served all along.
fn grow(k: u8, windows: u8, stride: usize) {
    let k = k - nd::choose(2);
    symstd::collections::set_order(nd::flip());
    let p = Persistence::from(InMemoryStorageProvider::new());
    let a = snode(1, &p);
    rt::run(600);
    let sa = shstart(&a, 4);
    beats(2);
    let mut i = 0;
    while i < k { let mut r = ask(&sa, i, Some(i + 1), 64); rt::run(300); assert!(r.try_recv() == Ok(Ok(64 ^ (i as u64 + 1))), "not served"); i += 1; }
    assert!(counts(&sa) == (k as u64, k as u64, 0));
    unsafe { SLOW = true; }
    let b = snode(2, &p);
    let sb = shstart(&b, 4);
    rt::run(900);
    settle();
    assert!(counts(&sa) == (k as u64, k as u64, 0));
    let mut open = None;
    if nd::flip() { // stopping an entity takes long
        let (tx, rx) = oneshot::channel::<()>();
        unsafe { STOP_GATE = Some(rx); }
        open = Some(tx);
    }
    tokio::time::advance(Duration::from_millis(501));
    let from = nd::flip();
    let e = nd::choose(k);
    if open.is_some() { rt::run(900); } else { rt::explore_window(windows, stride, 1); }
    let mut r = ask(if from { &sa } else { &sb }, e, Some(e + 1), 65);
    rt::run(900);
    if let Some(tx) = open { let _ = tx.send(()); rt::run(900); }
    settle();
    match r.try_recv().expect("a request during rebalancing is never answered") { Ok(v) => assert!(v == 65 ^ (e as u64 + 1)), Err(_) => nd::reach!("refused while moving") }
    let (t, x, y) = counts(&sa);
    assert!(t == k as u64 && x + y == t && x <= y + 1 && y <= x + 1, "the shards are not spread over the nodes");
    nd::reach!(y > 0, "spread");
    nd::reach!(k % 2 == 0, "as many on each");
    let mut i = 0;
    while i < k {
        let (mut r, mut q) = (ask(&sa, i, None, 66), ask(&sb, i, None, 67));
        rt::run(900);
        settle();
        assert!(r.try_recv() == Ok(Ok(66 ^ (i as u64 + 1))) && q.try_recv() == Ok(Ok(67 ^ (i as u64 + 1))), "an entity is not served after rebalancing");
        i += 1;
    }
    beats(2);
    // the node leaves
    unsafe { LIVE = [0; 10]; }
    tokio::net::refuse(1_000_000);
    let mut i = 0;
    while i < tokio::net::connections().len() { tokio::net::cut(i, true); i += 1; }
    rt::run(900);
    beats(2);
    settle();
    assert!(counts(&sa) == (k as u64, k as u64, 0), "the shards of a node that left are not taken over");
    let mut i = 0;
    while i < k {
        let mut r = ask(&sa, i, None, 68);
        rt::run(900);
        assert!(r.try_recv() == Ok(Ok(68 ^ (i as u64 + 1))), "an entity is not served after its node left");
        i += 1;
    }
}
#[no_mangle] pub extern "C" fn h_shard_grow() { grow(3, 8, 12) }
#[no_mangle] pub extern "C" fn h_shard_grow_deep() { grow(4, 20, 6) }

// ---------------------------------------------------------------- which shard an entity belongs to
use crate::sharding::coordinator::allocation::DefaultAllocator;
/// every node computes the same shard for an entity, among those there are
fn ids(len: usize) {
    let max = [1u32, 2, 7, 100, u32::MAX][nd::choose(5) as usize];
    let n = nd::choose(len as u8 + 1) as usize;
    let mut s = String::new();
    let mut i = 0;
    while i < n { let b = nd::u8(); nd::assume(b < 128); s.push(b as char); i += 1; }
    let id: ActorId = s.clone().into_actor_id();
    let (mut a, mut b) = (DefaultAllocator { max_shards: max }, DefaultAllocator { max_shards: max });
    let x = a.allocate(&id);
    assert!(x < max, "a shard that does not exist");
    let other: ActorId = String::from("another").into_actor_id();
    let _ = b.allocate(&other);
    let t: ActorId = s.into_actor_id();
    assert!(b.allocate(&t) == x && a.allocate(&id) == x, "an entity belongs to different shards");
    nd::reach!(max == 100 && x > 50, "upper half");
    nd::reach!(max == 100 && x < 50, "lower half");
}
#[no_mangle] pub extern "C" fn h_shard_ids() { ids(3) }
#[no_mangle] pub extern "C" fn h_shard_ids_deep() { ids(9) }
