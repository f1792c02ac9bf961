//! Watching and supervision.
use super::common::*;
use crate::actor::context::ActorContext;
use crate::actor::message::{Handler, Message};
use crate::actor::scheduler::ActorType;
use crate::actor::system::ActorSystem;
use crate::actor::watch::{ActorTerminated, ActorWatch};
use crate::actor::{Actor, ActorId, ActorRefErr, CoreActorRef, IntoActorId, LocalActorRef};
use async_trait::async_trait;
use std::sync::Arc;
use tokio::rt;
use tokio::sync::oneshot;

fn system() -> ActorSystem { ActorSystem::builder().system_name("s").build() }
// (what, who)
const STARTED: u8 = 0; const STOPPED: u8 = 1; const CHILD_GONE: u8 = 2; const TERMINATED: u8 = 3;
static mut LOG: Vec<(u8, String)> = Vec::new();
fn log(k: u8, s: &str) { unsafe { LOG.push((k, s.to_string())) } }
fn count(k: u8, s: &str) -> usize { unsafe { LOG.iter().filter(|e| e.0 == k && e.1 == s).count() } }
fn at(k: u8, s: &str) -> usize { unsafe { LOG.iter().position(|e| e.0 == k && e.1 == s).expect("event missing") } }

// ---------------------------------------------------------------- watching
pub struct Subject;
#[async_trait]
impl Actor for Subject { async fn stopped(&mut self, _: &mut ActorContext) { rt::yield_now().await; log(STOPPED, "s") } }
pub struct Watcher { me: &'static str, yields: bool }
impl Actor for Watcher {}
pub struct DoWatch(LocalActorRef<Subject>);
pub struct DoUnwatch(LocalActorRef<Subject>);
impl Message for DoWatch { type Result = (); }
impl Message for DoUnwatch { type Result = (); }
#[async_trait]
impl Handler<DoWatch> for Watcher { async fn handle(&mut self, m: DoWatch, ctx: &mut ActorContext) { self.watch(&m.0, ctx) } }
#[async_trait]
impl Handler<DoUnwatch> for Watcher { async fn handle(&mut self, m: DoUnwatch, ctx: &mut ActorContext) { self.unwatch(&m.0, ctx) } }
#[async_trait]
impl Handler<ActorTerminated> for Watcher {
    async fn handle(&mut self, m: ActorTerminated, _: &mut ActorContext) {
        assert!(&**m.actor_ref().actor_id() == "s", "notified about some other actor");
        log(TERMINATED, self.me)
    }
}
/// Three watchers, each watching (and perhaps again, or no longer) in a symbolic order, then the subject stops
/// in one of several ways; a watcher hears of it exactly once if it was watching, never otherwise.
fn watching(choices: usize) {
    let sys = system();
    let s = spawn(&sys, "s", Subject).unwrap();
    let names = ["w1", "w2"];
    let mut w = vec![];
    for n in names { w.push(spawn(&sys, n, Watcher { me: n, yields: false }).unwrap()); }
    let mut watching = [false, false];
    let mut i = 0;
    while i < 3 {
        let k = nd::choose(2) as usize;
        let on = nd::flip();
        let (wr, sr) = (w[k].clone(), s.clone());
        drive(async move { if on { wr.send(DoWatch(sr)).await } else { wr.send(DoUnwatch(sr)).await } }).unwrap().unwrap();
        watching[k] = on;
        i += 1;
    }
    assert!(unsafe { LOG.len() } == 0, "notified while the subject was running");
    let how = nd::choose(3);
    let s2 = s.clone();
    // a third watcher races with the stop: it must hear at most once, and the others must not be disturbed
    let w3 = spawn(&sys, "w3", Watcher { me: "w3", yields: false }).unwrap();
    let s3 = s.clone();
    let mut late = rt::go(async move { w3.send(DoWatch(s3)).await });
    let mut f = rt::go(async move { match how { 0 => s2.stop().await, 1 => s2.notify_stop(), _ => { let _ = s2.notify_stop(); s2.notify_stop() } } });
    rt::explore(choices);
    assert!(f.try_recv().expect("stop hangs").is_ok() || how == 2);
    assert!(count(STOPPED, "s") == 1);
    for k in 0..2 {
        let c = count(TERMINATED, names[k]);
        assert!(c == if watching[k] { 1 } else { 0 }, "a watcher must be notified exactly once, a non-watcher never");
        if c == 1 { assert!(at(TERMINATED, names[k]) > at(STOPPED, "s"), "notified before the subject had stopped"); }
    }
    assert!(count(TERMINATED, "w3") <= 1);
    nd::reach!(watching[0] && watching[1], "both");
    nd::reach!(!watching[0] && watching[1], "unwatched");
    nd::reach!(count(TERMINATED, "w3") == 1, "late watcher in time");
    nd::reach!(count(TERMINATED, "w3") == 0, "late watcher too late");
}
#[no_mangle]
pub extern "C" fn h_watch() { watching(4) }
#[no_mangle]
pub extern "C" fn h_watch_deep() { watching(7) }

/// A watcher that stops itself does not disturb the others.
#[no_mangle]
pub extern "C" fn h_watch_dead_watcher() {
    let sys = system();
    let s = spawn(&sys, "s", Subject).unwrap();
    let dead = nd::choose(3);
    let order = nd::flip();
    symstd::collections::set_order(order);
    let names = ["w1", "w2", "w3"];
    let mut w = vec![];
    for n in names { w.push(spawn(&sys, n, Watcher { me: n, yields: false }).unwrap()); }
    for k in 0..3 { let (wr, sr) = (w[k].clone(), s.clone()); drive(async move { wr.send(DoWatch(sr)).await }).unwrap().unwrap(); }
    rt::run(50);
    let d = w[dead as usize].clone();
    let mut f1 = rt::go(async move { d.stop().await });
    let mut f2 = rt::go(async move { s.stop().await });
    rt::explore(5);
    assert!(f1.try_recv().is_ok() && f2.try_recv().is_ok());
    for k in 0..3 { let c = count(TERMINATED, names[k]); if k != dead as usize { assert!(c == 1, "a live watcher must be notified exactly once") } else { assert!(c <= 1) } }
    nd::reach!("done");
}

// ---------------------------------------------------------------- supervision
pub struct Node { me: String, stop_on_start: bool }
#[async_trait]
impl Actor for Node {
    async fn started(&mut self, ctx: &mut ActorContext) { rt::yield_now().await; log(STARTED, &self.me); if self.stop_on_start { ctx.stop(None); } }
    async fn stopped(&mut self, _: &mut ActorContext) { rt::yield_now().await; log(STOPPED, &self.me) }
    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) { log(CHILD_GONE, &id); assert!(ctx.boxed_child_ref(id).is_none(), "a stopped child is still listed"); }
}
pub struct SpawnChild { id: &'static str, deferred: bool, fail: bool }
impl Message for SpawnChild { type Result = Result<LocalActorRef<Node>, ActorRefErr>; }
#[async_trait]
impl Handler<SpawnChild> for Node {
    async fn handle(&mut self, m: SpawnChild, ctx: &mut ActorContext) -> Result<LocalActorRef<Node>, ActorRefErr> {
        let n = Node { me: m.id.to_string(), stop_on_start: m.fail };
        if m.deferred { ctx.spawn_deferred(m.id.into_actor_id(), n) } else { ctx.spawn(m.id.into_actor_id(), n).await }
    }
}
pub struct Children;
impl Message for Children { type Result = usize; }
#[async_trait]
impl Handler<Children> for Node { async fn handle(&mut self, _: Children, ctx: &mut ActorContext) -> usize { ctx.supervised_count() } }
pub struct Parent;
impl Message for Parent { type Result = Option<String>; }
#[async_trait]
impl Handler<Parent> for Node { async fn handle(&mut self, _: Parent, ctx: &mut ActorContext) -> Option<String> { ctx.boxed_parent().map(|p| p.actor_id().to_string()) } }
pub struct GetChild(&'static str);
impl Message for GetChild { type Result = Option<LocalActorRef<Node>>; }
#[async_trait]
impl Handler<GetChild> for Node { async fn handle(&mut self, m: GetChild, ctx: &mut ActorContext) -> Option<LocalActorRef<Node>> { ctx.child_ref::<Node>(&m.0.into_actor_id()) } }

fn node(s: &str) -> Node { Node { me: s.to_string(), stop_on_start: false } }
fn child(p: &LocalActorRef<Node>, id: &'static str, deferred: bool, fail: bool) -> Result<LocalActorRef<Node>, ActorRefErr> { let p = p.clone(); drive(async move { p.send(SpawnChild { id, deferred, fail }).await }).expect("spawn hangs").expect("parent gone") }
fn children(p: &LocalActorRef<Node>) -> usize { let p = p.clone(); drive(async move { p.send(Children).await }).expect("hangs").expect("gone") }
fn get(p: &LocalActorRef<Node>, id: &'static str) -> Option<LocalActorRef<Node>> { let p = p.clone(); drive(async move { p.send(GetChild(id)).await }).expect("hangs").expect("gone") }

/// A tree root -> (a -> (b), c): stop one of them under every interleaving with an independent stop of another.
fn tree(choices: usize) {
    let sys = system();
    symstd::collections::set_order(nd::flip());
    let root = spawn(&sys, "root", node("root")).unwrap();
    let d = nd::flip();
    let a = child(&root, "a", d, false).expect("spawn");
    let c = child(&root, "c", false, false).expect("spawn");
    let b = child(&a, "b", d, false).expect("spawn");
    assert!(children(&root) == 2 && children(&a) == 1 && children(&c) == 0);
    assert!({ let b = b.clone(); drive(async move { b.send(Parent).await }) } == Some(Ok(Some("a".to_string()))));
    assert!(get(&root, "a") == Some(a.clone()) && get(&a, "b") == Some(b.clone()) && get(&root, "b").is_none());
    assert!(child(&root, "a", d, false) == Err(ActorRefErr::AlreadyExists("a".into_actor_id())), "a second child under the same id");
    assert!(count(STARTED, "a") == 1);
    let refs = [root.clone(), a.clone(), b.clone(), c.clone()];
    let names = ["root", "a", "b", "c"];
    let i = nd::choose(4) as usize;
    let j = nd::choose(4) as usize;
    let (x, y) = (refs[i].clone(), refs[j].clone());
    let mut f = rt::go(async move { x.stop().await });
    let mut g = rt::go(async move { y.notify_stop() });
    rt::explore(choices);
    assert!(f.try_recv().is_ok(), "stop() hangs");
    let mut dead = [false; 4];
    for k in [i, j] { dead[k] = true; if k == 0 { dead = [true; 4]; } if k == 1 { dead[2] = true; } }
    for k in 0..4 {
        assert!(count(STOPPED, names[k]) == dead[k] as usize, "exactly the stopped actors and everything below them must stop, once");
        assert!(refs[k].is_valid() == !dead[k]);
    }
    // a running parent hears of each stopped child once and forgets it
    if !dead[0] {
        assert!(count(CHILD_GONE, "a") == dead[1] as usize && count(CHILD_GONE, "c") == dead[3] as usize);
        assert!(children(&root) == 2 - dead[1] as usize - dead[3] as usize);
        assert!(get(&root, "a").is_some() == !dead[1] && get(&root, "c").is_some() == !dead[3]);
        if dead[1] { assert!(at(CHILD_GONE, "a") > at(STOPPED, "b"), "a child is reported gone while something below it still runs"); let a2 = child(&root, "a", false, false).expect("the id of a stopped child is free again"); assert!(get(&root, "a") == Some(a2)); }
    }
    if !dead[1] { assert!(count(CHILD_GONE, "b") == dead[2] as usize && children(&a) == 1 - dead[2] as usize); }
    if dead[1] && i == 1 && j != 2 { assert!(at(STOPPED, "a") < at(STOPPED, "b"), "a parent's stop is what stops its children"); }
    nd::reach!(i == 0 && j == 2, "root and grandchild");
    nd::reach!(i == 1 && j == 3, "both children");
    nd::reach!(i == 3 && j == 3, "same twice");
}
#[no_mangle]
pub extern "C" fn h_tree() { tree(4) }
#[no_mangle]
pub extern "C" fn h_tree_deep() { tree(7) }

/// Replacing a child by a new one under the same id, in one go or as soon as it is gone.
pub struct Replace;
impl Message for Replace { type Result = Result<LocalActorRef<Node>, ActorRefErr>; }
#[async_trait]
impl Handler<Replace> for Node {
    async fn handle(&mut self, _: Replace, ctx: &mut ActorContext) -> Result<LocalActorRef<Node>, ActorRefErr> {
        if let Some(c) = ctx.child_ref::<Node>(&"a".into_actor_id()) { let _ = c.stop().await; }
        if nd::flip() { rt::yield_now().await; }
        ctx.spawn("a".into_actor_id(), node("a2")).await
    }
}
fn replacing(choices: usize) {
    let sys = system();
    let root = spawn(&sys, "root", node("root")).unwrap();
    let d = nd::flip();
    let _a = child(&root, "a", d, false).expect("spawn");
    let p = root.clone();
    let mut f = rt::go(async move { p.send(Replace).await });
    let p = root.clone();
    let mut g = rt::go(async move { p.send(SpawnChild { id: "a", deferred: d, fail: false }).await });
    rt::explore(choices);
    let (x, y) = (f.try_recv().expect("hangs").unwrap(), g.try_recv().expect("hangs").unwrap());
    let one = match (x, y) { (Ok(_), Ok(_)) => panic!("two live children under one id"), (Ok(r), _) | (_, Ok(r)) => Some(r), _ => None };
    rt::run(100);
    assert!(children(&root) == one.is_some() as usize && get(&root, "a") == one, "a live child is not listed");
    nd::reach!(one.is_some(), "replaced");
    nd::reach!(one.is_none(), "not yet free");
    drive(async move { root.stop().await }).expect("hangs").unwrap();
    rt::run(100);
    if let Some(r) = one { assert!(!r.is_valid(), "a child outlives its parent"); }
}
#[no_mangle] pub extern "C" fn h_child_replace() { replacing(5) }
#[no_mangle] pub extern "C" fn h_child_replace_deep() { replacing(8) }

/// A child that fails to start: the spawn reports it, and the parent is left without it.
#[no_mangle]
pub extern "C" fn h_child_start_fails() {
    let sys = system();
    let root = spawn(&sys, "root", node("root")).unwrap();
    let d = nd::flip();
    let p = root.clone();
    let mut f = rt::go(async move { p.send(SpawnChild { id: "a", deferred: d, fail: true }).await });
    let p = root.clone();
    let mut g = rt::go(async move { p.send(Children).await });
    rt::explore(6);
    let r = f.try_recv().expect("spawn hangs").unwrap();
    if !d { assert!(r == Err(ActorRefErr::ActorStartFailed), "a child that did not start must not be handed out"); }
    assert!(g.try_recv().is_ok());
    assert!(count(CHILD_GONE, "a") == 1 && children(&root) == 0 && get(&root, "a").is_none());
    let a = child(&root, "a", d, false).expect("id free again");
    assert!(children(&root) == 1);
    nd::reach!(d, "deferred");
    nd::reach!(!d, "awaited");
}
