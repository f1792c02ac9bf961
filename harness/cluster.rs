//! Two and three nodes talking over an in-memory network.
use super::common::*;
use crate::actor::context::ActorContext;
use crate::actor::message::{Envelope, Handler, Message, MessageUnwrapErr, MessageWrapErr};
use crate::actor::scheduler::ActorType;
use crate::actor::system::ActorSystem;
use crate::actor::{Actor, ActorCreationErr, ActorFactory, ActorId, ActorRecipe, ActorRef, ActorRefErr, IntoActorId, LocalActorRef};
use crate::remote::actor_ref::RemoteActorRef;
use crate::remote::cluster::node::{NodeStatus, RemoteNode};
use crate::remote::heartbeat::HeartbeatConfig;
use crate::remote::net::server::RemoteServer;
use crate::remote::system::builder::RemoteSystemConfigBuilder;
use crate::remote::system::{NodeId, NodeRpcErr, RemoteActorErr, RemoteActorSystem};
use async_trait::async_trait;
use std::time::Duration;
use tokio::net;
use tokio::rt;

// ---------------------------------------------------------------- an actor that can be called from elsewhere
pub struct Cell { pub v: u64, pub log: Vec<u64> }
#[async_trait]
impl Actor for Cell {}
/// answers with its own number combined with the actor's
pub struct Ask(pub u64);
impl Message for Ask {
    type Result = u64;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(self.0.to_le_bytes().to_vec()) }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { num(&b).map(Ask).ok_or(MessageUnwrapErr::DeserializationErr) }
    /// (nothing at all decodes, like a default value does in protobuf)
    fn read_remote_result(b: Vec<u8>) -> Result<u64, MessageUnwrapErr> { if b.is_empty() { return Ok(0); } num(&b).ok_or(MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: u64) -> Result<Vec<u8>, MessageWrapErr> { Ok(r.to_le_bytes().to_vec()) }
}
pub fn num(b: &[u8]) -> Option<u64> { if b.len() == 8 { let mut a = [0u8; 8]; a.copy_from_slice(b); Some(u64::from_le_bytes(a)) } else { None } }
#[async_trait]
impl Handler<Ask> for Cell { async fn handle(&mut self, m: Ask, _: &mut ActorContext) -> u64 { self.log.push(m.0); rt::yield_now().await; m.0 ^ self.v } }

pub fn node(id: NodeId, seed: Option<&str>, conf: fn(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder) -> RemoteActorSystem {
    let addr = addr(id);
    let inner = ActorSystem::builder().system_name(addr.clone()).build();
    let sys = drive(async move { RemoteActorSystem::builder().with_id(id).with_tag(addr).with_actor_system(inner).configure(conf).build().await }).expect("building a node never finished");
    join(&sys, seed);
    sys
}
pub fn addr(id: NodeId) -> String { let mut s = String::from("n"); s.push((b'0' + (id % 10) as u8) as char); s }
pub fn join(sys: &RemoteActorSystem, seed: Option<&str>) {
    let s = sys.clone();
    let seed = seed.map(|s| s.to_string());
    drive_timed(async move {
        let mut b = s.clone().cluster_worker().listen_addr(addr(s.node_id()));
        if let Some(seed) = seed { b = b.with_seed_addr(seed); }
        let srv = b.start().await;
        std::mem::forget(srv);
    }, 20).expect("joining never finished");
}

/// never decodes on the other side
pub struct Garbled;
impl Message for Garbled {
    type Result = ();
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(vec![1]) }
    fn from_bytes(_: Vec<u8>) -> Result<Self, MessageUnwrapErr> { Err(MessageUnwrapErr::DeserializationErr) }
    fn read_remote_result(_: Vec<u8>) -> Result<(), MessageUnwrapErr> { Ok(()) }
    fn write_remote_result(_: ()) -> Result<Vec<u8>, MessageWrapErr> { Ok(Vec::new()) }
}
#[async_trait]
impl Handler<Garbled> for Cell { async fn handle(&mut self, _: Garbled, _: &mut ActorContext) { panic!("handled a message that does not decode") } }
/// its answer cannot be encoded (0), cannot be decoded (1), or there is no handler for it at the other side (2), or it cannot be encoded itself (3)
pub struct Odd(u8);
impl Message for Odd {
    type Result = u8;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { if self.0 == 3 { Err(MessageWrapErr::SerializationErr) } else { Ok(vec![self.0]) } }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { Ok(Odd(b[0])) }
    fn read_remote_result(_: Vec<u8>) -> Result<u8, MessageUnwrapErr> { Err(MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: u8) -> Result<Vec<u8>, MessageWrapErr> { if r == 0 { Err(MessageWrapErr::SerializationErr) } else { Ok(vec![r]) } }
}
#[async_trait]
impl Handler<Odd> for Cell { async fn handle(&mut self, m: Odd, _: &mut ActorContext) -> u8 { m.0 } }
/// nobody registers a handler for it
pub struct Unknown;
impl Message for Unknown {
    type Result = ();
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(Vec::new()) }
    fn from_bytes(_: Vec<u8>) -> Result<Self, MessageUnwrapErr> { Ok(Unknown) }
    fn read_remote_result(_: Vec<u8>) -> Result<(), MessageUnwrapErr> { Ok(()) }
    fn write_remote_result(_: ()) -> Result<Vec<u8>, MessageWrapErr> { Ok(Vec::new()) }
}
#[async_trait]
impl Handler<Unknown> for Cell { async fn handle(&mut self, _: Unknown, _: &mut ActorContext) {} }
pub struct Log;
impl Message for Log { type Result = Vec<u64>; }
#[async_trait]
impl Handler<Log> for Cell { async fn handle(&mut self, _: Log, _: &mut ActorContext) -> Vec<u64> { self.log.clone() } }

pub fn conf(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder { c.with_handler::<Cell, Ask>("cell.ask").with_handler::<Cell, Garbled>("cell.garbled").with_handler::<Cell, Odd>("cell.odd") }
/// knows one handler more
pub fn conf_more(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder { conf(c).with_handler::<Cell, Unknown>("cell.unknown") }
pub fn cell(v: u64) -> Cell { Cell { v, log: Vec::new() } }
pub fn far(s: &RemoteActorSystem, id: &str, node: NodeId) -> ActorRef<Cell> { ActorRef::from(RemoteActorRef::<Cell>::new(id.into_actor_id(), node, s.clone())) }
pub fn log_of(r: &LocalActorRef<Cell>) -> Vec<u64> { let r = r.clone(); drive(async move { r.send(Log).await }).expect("hangs").expect("gone") }

/// Concurrent requests between two nodes, in both directions and to the same or different actors: each
/// gets the answer to its own message, is handled exactly once, and nothing stays behind.
fn requests(choices: usize) {
    let a = node(1, None, conf);
    let b = node(2, Some("n1"), conf);
    let (kx, ky) = (nd::u64(), nd::u64());
    let x = spawn_tracked(b.actor_system(), "x", cell(kx)).unwrap();
    let y = spawn_tracked(b.actor_system(), "y", cell(ky)).unwrap();
    let z = spawn_tracked(a.actor_system(), "z", cell(7)).unwrap();
    let (m1, m2, m3) = (nd::u64(), nd::u64(), nd::u64());
    let same = nd::flip();
    let (r1, r2, r3) = (far(&a, "x", 2), far(&a, if same { "x" } else { "y" }, 2), far(&b, "z", 1));
    let mut q1 = rt::go(async move { r1.send(Ask(m1)).await });
    let mut q2 = rt::go(async move { r2.send(Ask(m2)).await });
    let mut q3 = rt::go(async move { r3.send(Ask(m3)).await });
    rt::explore(choices);
    let (v1, v2, v3) = (q1.try_recv().expect("no answer"), q2.try_recv().expect("no answer"), q3.try_recv().expect("no answer"));
    assert!(v1 == Ok(m1 ^ kx) && v2 == Ok(m2 ^ if same { kx } else { ky }) && v3 == Ok(m3 ^ 7), "a request got another answer than its own");
    let l = log_of(&x);
    assert!(if same { l == [m1, m2] || l == [m2, m1] } else { l == [m1] && log_of(&y) == [m2] }, "not handled exactly once");
    assert!(log_of(&z) == [m3]);
    assert!(a.inflight_remote_request_count() == 0 && b.inflight_remote_request_count() == 0, "a finished request stays registered");
    nd::reach!(same && l == [m2, m1], "second request first");
    nd::reach!(!same, "different actors");
}
#[no_mangle] pub extern "C" fn h_remote_requests() { requests(5) }
#[no_mangle] pub extern "C" fn h_remote_requests_deep() { requests(8) }

/// A request that cannot be served is refused with the reason, and nothing stays behind.
#[no_mangle]
pub extern "C" fn h_remote_errors() {
    let a = node(1, None, conf_more);
    let b = node(2, Some("n1"), conf);
    let x = spawn_tracked(b.actor_system(), "x", cell(1)).unwrap();
    let k = nd::choose(7);
    let r = far(&a, if k == 0 { "nobody" } else { "x" }, 2);
    let before = symstd::time::now();
    match k {
        0 => { let e = drive_timed(async move { r.send(Ask(1)).await }, 60).expect("never answered"); assert!(e == Err(ActorRefErr::NotFound("nobody".into_actor_id())), "wrong refusal"); nd::reach!("not found"); assert!(symstd::time::now() - before <= 1_000_000_000, "took too long to give up"); }
        1 => assert!(drive(async move { r.send(Garbled).await }).expect("never answered") == Err(ActorRefErr::Deserialisation(MessageUnwrapErr::DeserializationErr)), "wrong refusal"),
        2 => assert!(drive(async move { r.send(Odd(0)).await }).expect("never answered") == Err(ActorRefErr::Serialisation(MessageWrapErr::SerializationErr)), "wrong refusal"),
        3 => assert!(drive(async move { r.send(Odd(1)).await }).expect("never answered") == Err(ActorRefErr::Deserialisation(MessageUnwrapErr::DeserializationErr)), "wrong refusal"),
        4 => { let e = drive(async move { r.send(Unknown).await }).expect("never answered"); assert!(matches!(e, Err(ActorRefErr::NotSupported { .. })), "wrong refusal"); nd::reach!("not supported there"); }
        5 => assert!(drive(async move { r.send(Odd(3)).await }).expect("never answered") == Err(ActorRefErr::Serialisation(MessageWrapErr::SerializationErr)), "wrong refusal"),
        _ => { // no handler known here
            let r = far(&b, "x", 1);
            let e = drive(async move { r.send(Unknown).await }).expect("never answered");
            assert!(matches!(e, Err(ActorRefErr::NotSupported { .. })), "wrong refusal");
            nd::reach!("not supported here");
        }
    }
    assert!(a.inflight_remote_request_count() == 0 && b.inflight_remote_request_count() == 0, "a refused request stays registered");
    // the node still serves requests
    let r = far(&a, "x", 2);
    assert!(drive(async move { r.send(Ask(6)).await }).expect("never answered") == Ok(7));
    nd::reach!("done");
}
/// The target stops while requests are on their way: each is either handled and answered or refused.
#[no_mangle]
pub extern "C" fn h_remote_stop() {
    let a = node(1, None, conf);
    let b = node(2, Some("n1"), conf);
    let x = spawn_tracked(b.actor_system(), "x", cell(1)).unwrap();
    let (r1, r2) = (far(&a, "x", 2), far(&a, "x", 2));
    let mut q1 = rt::go(async move { r1.send(Ask(2)).await });
    let mut q2 = rt::go(async move { r2.send(Ask(4)).await });
    let mut k = 2 * nd::choose(16); // the stop comes after this many steps
    rt::explore_until(0, move || { let e = k == 0; k = k.saturating_sub(1); e });
    let mut st = rt::go(async move { x.stop().await });
    rt::explore(4);
    let (mut v1, mut v2) = (None, None);
    let mut i = 0;
    loop {
        if v1.is_none() { v1 = q1.try_recv().ok(); }
        if v2.is_none() { v2 = q2.try_recv().ok(); }
        if i == 40 || (v1.is_some() && v2.is_some()) || !tokio::time::advance_next() { break; }
        rt::run(200);
        i += 1;
    }
    let (v1, v2) = (v1.expect("request never answered"), v2.expect("request never answered"));
    assert!(v1 == Ok(3) || v1.is_err());
    assert!(v2 == Ok(5) || v2.is_err());
    assert!(a.inflight_remote_request_count() == 0 && b.inflight_remote_request_count() == 0, "a finished request stays registered");
    nd::reach!(v1.is_ok() && v2.is_err(), "one handled");
    nd::reach!(v1.is_err() && v2.is_err(), "none handled");
    nd::reach!(v1.is_ok() && v2.is_ok(), "both handled");
}
