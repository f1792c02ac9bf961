//! A cluster singleton: started where the leader is, handed over when that changes, reached from everywhere.
use super::cluster::*;
use super::common::*;
use super::member::bare;
use crate::actor::context::ActorContext;
use crate::actor::message::Handler;
use crate::actor::{Actor, ActorRefErr};
use crate::remote::heartbeat::HeartbeatConfig;
use crate::remote::stream::pubsub::PubSub;
use crate::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use crate::remote::system::builder::RemoteSystemConfigBuilder;
use crate::remote::system::{NodeId, RemoteActorSystem};
use crate::singleton::factory::SingletonFactory;
use crate::singleton::{singleton, Singleton, SingletonBuilder};
use async_trait::async_trait;
use std::time::Duration;
use tokio::rt;
use tokio::sync::oneshot;

static mut LIVE: i32 = 0;
static mut AT: u64 = 0;
static mut GONE: u64 = 0;
static mut SLOW: bool = false;
static mut HANDLED: [u64; 4] = [0; 4];
static mut START_GATE: Option<oneshot::Receiver<()>> = None;
static mut STOP_GATE: Option<oneshot::Receiver<()>> = None;
pub struct Solo { at: u64 }
#[async_trait]
impl Actor for Solo {
    async fn started(&mut self, _: &mut ActorContext) {
        unsafe {
            if self.at == GONE { return; } // (what a node that is lost to the others still does, reaches nobody)
            LIVE += 1;
            assert!(LIVE == 1, "two singletons");
            AT = self.at;
            if SLOW { rt::yield_now().await; }
            if let Some(g) = START_GATE.take() { let _ = g.await; }
        }
    }
    async fn stopped(&mut self, _: &mut ActorContext) { unsafe { if SLOW { rt::yield_now().await; } if let Some(g) = STOP_GATE.take() { let _ = g.await; } LIVE -= 1; } }
}
#[async_trait]
impl Handler<Ask> for Solo {
    async fn handle(&mut self, m: Ask, _: &mut ActorContext) -> u64 {
        unsafe { assert!(LIVE == 1 && AT == self.at); if m.0 < 4 { HANDLED[m.0 as usize] += 1; } }
        m.0 ^ (self.at << 32)
    }
}
pub struct Fac(u64);
impl SingletonFactory for Fac { type Actor = Solo; fn create(&self) -> Solo { Solo { at: self.0 } } }
fn sc(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder {
    singleton::<Fac>(c).with_handler::<Solo, Ask>("Solo.Ask")
        .heartbeat(HeartbeatConfig { interval: Duration::from_secs(1), ping_timeout: Duration::from_secs(60), unhealthy_node_heartbeat_timeout: Duration::from_secs(3), terminated_node_heartbeat_timeout: Duration::from_secs(10), minimum_cluster_size: None })
}
type S = Singleton<Solo, Fac>;
fn nodes(n: u64) -> Vec<(RemoteActorSystem, S)> {
    let mut v: Vec<RemoteActorSystem> = Vec::new();
    let mut i = 1;
    while i <= n { let s = bare(i, sc); join(&s, if i == 1 { None } else { Some("n1") }); v.push(s); i += 1; }
    rt::run(600);
    v.into_iter().map(|s| { let t = s.clone(); let x = drive(async move { SingletonBuilder::<Fac>::new(t.clone()).factory(Fac(t.node_id())).build().await }).expect("hangs"); (s, x) }).collect()
}
fn beats(n: usize) { let mut i = 0; while i < n { tokio::time::advance(Duration::from_millis(1000)); rt::run(900); i += 1; } }
fn settle() { let mut i = 0; while i < 12 { tokio::time::advance(Duration::from_millis(11)); rt::run(900); i += 1; } }
fn ask(s: &S, q: u64) -> oneshot::Receiver<Result<u64, ActorRefErr>> { let s = s.clone(); rt::go(async move { s.send(Ask(q)).await }) }
fn leader(s: &RemoteActorSystem, l: NodeId) { let s = s.clone(); drive(async move { PubSub::publish_locally(SystemTopic, SystemEvent::Cluster(ClusterEvent::LeaderChanged(l)), &s).await }).expect("hangs"); }
fn served(c: &Vec<(RemoteActorSystem, S)>, at: u64) {
    for (_, s) in c.iter() {
        let mut r = ask(s, 9);
        rt::run(900);
        settle();
        assert!(r.try_recv().expect("a request to the singleton is never answered") == Ok(9 ^ (at << 32)), "a request to the singleton is refused");
    }
    unsafe { assert!(LIVE == 1 && AT == at, "the singleton is not where the leader is"); }
}
fn gate(start: bool) -> oneshot::Sender<()> {
    let (tx, rx) = oneshot::channel::<()>();
    unsafe { if start { START_GATE = Some(rx) } else { STOP_GATE = Some(rx) } }
    tx
}
/// The leadership moves, the nodes learn about it one by one in any order.
fn hand_over(n: u64, changes: usize, windows: u8, stride: usize, choices: usize) {
    symstd::collections::set_order(nd::flip());
    unsafe { LIVE = 0; }
    let c = nodes(n);
    let mut early = ask(&c[nd::choose(n as u8) as usize].1, 8);
    beats(3);
    assert!(early.try_recv() == Ok(Ok(8 ^ (1 << 32))), "a request made before the singleton runs is not kept for it");
    served(&c, 1);
    unsafe { SLOW = true; }
    let mut at = 1;
    let mut rest = Vec::new();
    let mut open = Vec::new();
    let mut k = 0;
    while k < changes {
        at = 1 + (at + nd::choose(n as u8 - 1) as u64) % n;
        if nd::flip() { open.push(gate(nd::flip())); nd::reach!("starting or stopping takes long"); }
        let first = nd::choose(n as u8) as u64;
        let mut i = 0;
        while i < n {
            leader(&c[((first + i) % n) as usize].0, at);
            if i + 1 < n { if nd::flip() { rt::explore_window(windows, stride, choices); } }
            i += 1;
        }
        rest.push((8, ask(&c[nd::choose(n as u8) as usize].1, 8)));
        rt::explore_window(windows, stride, choices);
        k += 1;
    }
    rt::run(900);
    for g in open { let _ = g.send(()); rt::run(900); }
    unsafe { START_GATE = None; STOP_GATE = None; }
    settle();
    unsafe { nd::note("live", LIVE as u64); nd::note("at", AT); nd::note("want", at); }
    for (q, r) in rest.iter_mut() {
        match r.try_recv().expect("a request to the singleton is never answered") {
            Ok(v) => { nd::reach!(v >> 32 == at, "answered by the new one"); assert!(v as u32 as u64 == *q) }
            Err(_) => nd::reach!("refused while it moves"),
        }
    }
    served(&c, at);
}
/// One connection is slow while the singleton moves.
fn slow_link(n: u64, windows: u8, stride: usize) {
    symstd::collections::set_order(nd::flip());
    let c = nodes(n);
    beats(3);
    served(&c, 1);
    let k = nd::choose(tokio::net::connections().len() as u8) as usize;
    tokio::net::hold(k, true);
    let mut i = 0;
    while i < n as usize { leader(&c[i].0, 2); i += 1; }
    rt::explore_window(windows, stride, 1);
    let from = nd::choose(n as u8) as usize;
    let mut r = ask(&c[from].1, 8);
    rt::run(900);
    tokio::net::hold(k, false);
    rt::run(900);
    settle();
    match r.try_recv().expect("a request to the singleton is never answered") {
        Ok(v) => { nd::reach!(v >> 32 == 2, "answered by the new one"); assert!(v as u32 == 8) }
        Err(_) => nd::reach!("refused while it moves"),
    }
    served(&c, 2);
}
#[no_mangle] pub extern "C" fn h_singleton_link() { slow_link(3, 4, 20) }
#[no_mangle] pub extern "C" fn h_singleton_link_deep() { slow_link(3, 20, 6) }
/// A message without an answer reaches the singleton once, wherever it is sent from and whether or not it runs yet.
fn notified(n: u64) {
    let c = nodes(n);
    let mut k = 0;
    while k < 3 {
        let s = c[nd::choose(n as u8) as usize].1.clone();
        let q = k as u64;
        assert!(drive(async move { s.notify(Ask(q)).await }).expect("hangs").is_ok());
        if nd::flip() { nd::reach!(k == 0, "before it is started"); beats(1); nd::reach!(k == 2, "while it runs"); }
        k += 1;
    }
    beats(3);
    unsafe { assert!(HANDLED[0] == 1 && HANDLED[1] == 1 && HANDLED[2] == 1, "a message to the singleton is lost or handled twice"); }
    served(&c, 1);
}
#[no_mangle] pub extern "C" fn h_singleton_notify() { notified(2) }
#[no_mangle] pub extern "C" fn h_singleton_notify_deep() { notified(3) }
/// The node it runs on is lost.
fn lost(n: u64) {
    symstd::collections::set_order(nd::flip());
    let c = nodes(n);
    beats(3);
    served(&c, 1);
    // node 1 is gone: whatever it does from here on reaches nobody
    tokio::net::refuse(1_000_000);
    let mut i = 0;
    while i < tokio::net::connections().len() { if n == 2 || tokio::net::connections()[i].addr == "n1" { tokio::net::cut(i, true); } i += 1; }
    unsafe { LIVE = 0; }
    let mut rest = Vec::new();
    let when = nd::choose(5) as usize;
    let mut k = 0;
    while k < 14 {
        if k == 1 + when * 3 { rest.push(ask(&c[1].1, 8)); }
        beats(1);
        k += 1;
    }
    settle();
    // (a request that was already on its way to the lost node may remain without an answer)
    for r in rest.iter_mut() { if let Ok(Ok(v)) = r.try_recv() { nd::reach!("answered by the new one"); assert!(v == 8 ^ (2 << 32)); } }
    let mut r = ask(&c[1].1, 9);
    rt::run(900);
    assert!(r.try_recv() == Ok(Ok(9 ^ (2 << 32))), "the singleton of a lost node is not taken over");
}
#[no_mangle] pub extern "C" fn h_singleton_lost() { lost(2) }
#[no_mangle] pub extern "C" fn h_singleton() { hand_over(2, 1, 6, 6, 1) }
#[no_mangle] pub extern "C" fn h_singleton_back() { hand_over(2, 2, 1, 14, 1) }
#[no_mangle] pub extern "C" fn h_singleton_three() { hand_over(3, 1, 2, 14, 1) }
#[no_mangle] pub extern "C" fn h_singleton_deep() { hand_over(2, 2, 2, 8, 1) }
/// Leadership moves twice while starting or stopping takes long; every node learns both in its own order.
fn chain(n: u64, deep: bool) {
    symstd::collections::set_order(nd::flip());
    let c = nodes(n);
    beats(3);
    served(&c, 1);
    let mut at = 1;
    let mut open = Vec::new();
    let mut k = 0;
    while k < 2 {
        at = 1 + (at + nd::choose(n as u8 - 1) as u64) % n;
        if k == 0 { open.push(gate(false)); } else if nd::flip() { open.push(gate(true)); }
        let first = if deep || k == 1 { nd::choose(n as u8) as u64 } else { 0 };
        let pause = if deep { nd::choose(n as u8) as u64 } else { 0 };
        let mut i = 0;
        while i < n { leader(&c[((first + i) % n) as usize].0, at); if i == pause { rt::run(900); } i += 1; }
        if k == 1 || nd::flip() { rt::run(900); settle(); }
        k += 1;
    }
    nd::reach!(at == 1, "and back");
    nd::reach!(at == 3, "to a third node");
    let mut r = ask(&c[nd::choose(n as u8) as usize].1, 8);
    rt::run(900);
    for g in open { let _ = g.send(()); rt::run(900); }
    unsafe { START_GATE = None; STOP_GATE = None; }
    settle();
    match r.try_recv().expect("a request to the singleton is never answered") {
        Ok(v) => { nd::reach!(v >> 32 == at, "answered by the new one"); assert!(v as u32 == 8) }
        Err(_) => nd::reach!("refused while it moves"),
    }
    served(&c, at);
}
#[no_mangle] pub extern "C" fn h_singleton_chain() { chain(3, false) }
#[no_mangle] pub extern "C" fn h_singleton_chain_deep() { chain(3, true) }
/// A node joins at any point of the singleton's life.
#[no_mangle] pub extern "C" fn h_singleton_join() {
    let n = 2;
    symstd::collections::set_order(nd::flip());
    let mut c = nodes(n);
    let phase = nd::choose(4);
    let mut at = 1;
    let mut open = Vec::new();
    if phase == 1 { open.push(gate(true)); }
    if phase > 0 { beats(3); }
    if phase >= 2 { served(&c, 1); }
    if phase == 3 { at = 2; open.push(gate(false)); leader(&c[0].0, 2); leader(&c[1].0, 2); rt::run(900); }
    let s = bare(3, sc);
    let t = s.clone();
    let x = drive(async move { SingletonBuilder::<Fac>::new(t.clone()).factory(Fac(t.node_id())).build().await }).expect("hangs");
    let mut early = ask(&x, 8);
    rt::run(100);
    join(&s, Some("n1"));
    rt::run(900);
    c.push((s, x));
    let wait = nd::choose(3) as usize;
    beats(wait);
    for g in open { let _ = g.send(()); rt::run(900); }
    beats(4);
    settle();
    nd::reach!(phase == 0, "before it runs");
    nd::reach!(phase == 1, "while it starts");
    nd::reach!(phase == 2, "while it runs");
    nd::reach!(phase == 3, "while it moves");
    assert!(early.try_recv().expect("a request of a joining node is never answered") == Ok(8 ^ (at << 32)), "a request of a joining node is refused");
    served(&c, at);
}
/// A node that the starting singleton waits for is lost.
#[no_mangle] pub extern "C" fn h_singleton_lost_other() {
    symstd::collections::set_order(nd::flip());
    let c = nodes(2);
    let mut r = ask(&c[0].1, 8);
    rt::run(100);
    let held = nd::flip();
    if held { let mut i = 0; while i < tokio::net::connections().len() { tokio::net::hold(i, true); i += 1; } }
    beats(nd::choose(3) as usize);
    tokio::net::refuse(1_000_000);
    let mut i = 0;
    while i < tokio::net::connections().len() { tokio::net::cut(i, true); i += 1; }
    unsafe { GONE = 2; }
    beats(40);
    settle();
    nd::reach!(held, "its consent never arrived");
    assert!(r.try_recv() == Ok(Ok(8 ^ (1 << 32))), "the singleton is not started after a node it waited for is lost");
}
