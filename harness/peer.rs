//! A node against a peer played by the harness: responses, authentication, buffered writes.
use super::cluster::*;
use super::common::*;
use crate::actor::message::{Message, MessageUnwrapErr};
use crate::actor::{ActorRefErr, IntoActorId};
use crate::remote::cluster::node::NodeStatus;
use crate::remote::heartbeat::HeartbeatConfig;
use crate::remote::net::message::{ClientEvent, SessionEvent};
use crate::remote::net::proto::network as proto;
use crate::remote::net::StreamData;
use crate::remote::system::builder::RemoteSystemConfigBuilder;
use crate::remote::system::{NodeId, RemoteActorSystem};
use std::task::Poll;
use std::time::Duration;
use tokio::io::AsShared;
use tokio::net;
use tokio::net::{TcpListener, TcpStream};
use tokio::rt;
use uuid::Uuid;
use crate::actor::context::ActorContext;
use crate::actor::message::Handler;
use crate::actor::{Actor, LocalActorRef};
use crate::remote::stream::pubsub::{PubSub, Receive, Subscription, Topic};
use crate::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use async_trait::async_trait;

fn slow(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder {
    conf(c).heartbeat(HeartbeatConfig { interval: Duration::from_secs(60), ping_timeout: Duration::from_secs(60), unhealthy_node_heartbeat_timeout: Duration::from_secs(600), terminated_node_heartbeat_timeout: Duration::from_secs(6000), minimum_cluster_size: None })
}
/// the frames that have arrived at this end
fn frames(s: &TcpStream) -> Vec<SessionEvent> {
    let mut v = Vec::new();
    while let Poll::Ready(Some(Ok(b))) = s.0.read() { v.push(SessionEvent::read_from_bytes(b).expect("the node sent something undecodable")); }
    v
}
fn say(s: &TcpStream, e: ClientEvent) { let _ = s.0.write(e.write_to_bytes().unwrap()); }
fn tell(s: &TcpStream, e: SessionEvent) { let _ = s.0.write(e.write_to_bytes().unwrap()); }
fn identity(id: NodeId, at: &str) -> ClientEvent { ClientEvent::Identity(proto::NodeIdentity { node_id: id, node_tag: "p".into(), addr: at.into(), ..Default::default() }) }
fn accept(l: &TcpListener) -> Option<TcpStream> { rt::block_on_once(l.accept()).map(|r| r.unwrap().0) }
/// a node connected to a peer (number 9, at "p9") played by the harness
fn with_peer() -> (RemoteActorSystem, TcpListener, TcpStream) {
    let a = node(1, None, slow);
    let l = rt::now(TcpListener::bind("p9")).unwrap();
    let s = a.clone();
    let _c = drive(async move { s.get_remote_client("p9".to_string()).await }).expect("hangs").expect("no client");
    let p = accept(&l).expect("nobody connected");
    assert!(matches!(frames(&p).first(), Some(SessionEvent::Identify(_))), "does not identify itself first");
    say(&p, identity(9, "p9"));
    rt::run(200);
    (a, l, p)
}
fn asked(v: Vec<SessionEvent>) -> Vec<(String, u64)> { v.into_iter().filter_map(|e| match e { SessionEvent::NotifyActor(m) => Some((m.message_id, num(&m.message).unwrap())), _ => None }).collect() }

/// Whatever responses a peer sends, over whichever connection, each request gets the first one that names it, and only that.
fn table(n: usize) {
    let (a, _l, p) = with_peer();
    let c = drive(TcpStream::connect("n1")).unwrap().unwrap();
    tell(&c, SessionEvent::Identify(Default::default()));
    rt::run(200);
    let (r1, r2) = (far(&a, "x", 9), far(&a, "x", 9));
    let mut q1 = rt::go(async move { r1.send(Ask(1)).await });
    let mut q2 = rt::go(async move { r2.send(Ask(2)).await });
    rt::run(200);
    let base = 0;
    let q = asked(frames(&p));
    assert!(q.len() == 2 && q[0].1 == 1 && q[1].1 == 2, "requests not sent once each, in order");
    assert!(q[0].0 != q[1].0, "two requests share an id");
    let in_flight = a.inflight_remote_request_count();
    let (mut w1, mut w2): (Option<Result<u64, ActorRefErr>>, Option<Result<u64, ActorRefErr>>) = (None, None);
    let mut i = 0;
    while i < n {
        let who = nd::choose(4);
        let id = match who { 0 => q[0].0.clone(), 1 => q[1].0.clone(), 2 => Uuid::from_u128(77).to_string(), _ => "zz".to_string() };
        let x = nd::u64();
        let (ok, session) = (nd::flip(), nd::flip());
        let res = proto::ClientResult { message_id: id.clone(), result: x.to_le_bytes().to_vec(), ..Default::default() };
        let err = proto::ClientErr { message_id: id, error: Some(ActorRefErr::ActorUnavailable.into()).into(), ..Default::default() };
        match (ok, session) { (true, false) => say(&p, ClientEvent::Result(res)), (false, false) => say(&p, ClientEvent::Err(err)), (true, true) => tell(&c, SessionEvent::Result(res)), (false, true) => tell(&c, SessionEvent::Err(err)) }
        let w = if ok { Ok(x) } else { Err(ActorRefErr::ActorUnavailable) };
        if who == 0 && w1.is_none() { w1 = Some(w) } else if who == 1 && w2.is_none() { w2 = Some(w) }
        rt::run(200);
        i += 1;
    }
    assert!(a.inflight_remote_request_count() + (w1.is_some() as usize) + (w2.is_some() as usize) == in_flight, "wrong number of requests in flight");
    nd::reach!(w1.is_some() && w2.is_some(), "both answered");
    nd::reach!(w1.is_none() && w2.is_some(), "one answered");
    nd::reach!(matches!(w1, Some(Err(_))), "refused");
    assert!(q1.try_recv().ok() == w1 && q2.try_recv().ok() == w2, "a request got another answer than its own");
}
#[no_mangle] pub extern "C" fn h_remote_table() { table(2) }
#[no_mangle] pub extern "C" fn h_remote_table3() { table(3) }

// ---------------------------------------------------------------- authentication
fn node_auth(secret: &'static str) -> RemoteActorSystem {
    let inner = crate::actor::system::ActorSystem::builder().system_name("n1").build();
    let sys = drive(async move { RemoteActorSystem::builder().with_id(1).with_tag("n1").with_actor_system(inner).client_auth_jwt(secret, Some(Duration::from_secs(10))).configure(slow).build().await }).expect("building a node never finished");
    join(&sys, None);
    sys
}
fn token(secret: &str) -> String { crate::remote::net::security::ClientAuth::Jwt(crate::remote::net::security::jwt::Jwt::from_secret(secret, None)).generate_token() }
fn identify(t: String) -> SessionEvent { SessionEvent::Identify(proto::IdentifyEvent { source_node_id: 5, source_node_tag: "c".into(), token: t, ..Default::default() }) }
fn call(n: u64) -> SessionEvent { SessionEvent::NotifyActor(proto::MessageRequest { message_id: Uuid::from_u128(0x99).to_string(), handler_type: "cell.ask".into(), actor_id: "x".into(), message: n.to_le_bytes().to_vec(), requires_response: true, origin_node_id: 5, ..Default::default() }) }
fn answers(s: &TcpStream) -> (Vec<ClientEvent>, bool) {
    let mut v = Vec::new();
    loop {
        match s.0.read() {
            Poll::Ready(Some(Ok(b))) => v.push(ClientEvent::read_from_bytes(b).expect("the node sent something undecodable")),
            Poll::Ready(_) => return (v, true),
            Poll::Pending => return (v, false),
        }
    }
}
/// Nothing a connection says is acted on unless its first frame carries a valid token; other connections are not affected.
#[no_mangle]
pub extern "C" fn h_session_auth() {
    let a = node_auth("s");
    let x = spawn_tracked(a.actor_system(), "x", cell(1)).unwrap();
    let c = drive(TcpStream::connect("n1")).unwrap().unwrap();
    if nd::flip() { rt::run(200); }
    let first = nd::choose(8);
    match first {
        0 => tell(&c, identify(token("s"))),
        1 => tell(&c, identify(token("t"))),
        2 => { let t = token("s"); let d = [9_999_999_999u64, 10_000_000_000, 10_000_000_001, 3_600_000_000_000][nd::choose(4) as usize]; tokio::time::advance(Duration::from_nanos(d)); tell(&c, identify(t)); rt::run(200); return expired(a, x, c, d > 10_000_000_000); }
        3 => tell(&c, identify(String::new())),
        4 => tell(&c, identify("TZ".into())),
        5 => {}
        6 => { let _ = c.0.write(vec![200, 1, 2]); }
        _ => { tell(&c, call(4)); tell(&c, identify(token("s"))); }
    }
    outcome(a, x, c, first == 0);
}
fn expired(a: RemoteActorSystem, x: crate::actor::LocalActorRef<Cell>, c: TcpStream, exp: bool) { nd::reach!(exp, "expired"); outcome(a, x, c, !exp) }
fn outcome(a: RemoteActorSystem, x: crate::actor::LocalActorRef<Cell>, c: TcpStream, valid: bool) {
    tell(&c, call(6));
    tell(&c, SessionEvent::RegisterActor(proto::ActorAddress { actor_id: "far".into(), node_id: Some(protobuf::well_known_types::wrappers::UInt64Value { value: 44, ..Default::default() }).into(), ..Default::default() }));
    rt::run(200);
    let (v, closed) = answers(&c);
    let s = a.clone();
    let far = drive(async move { s.locate_actor_node("far".into_actor_id()).await }).expect("hangs");
    if valid {
        assert!(!closed && matches!(v.get(0), Some(ClientEvent::Identity(i)) if i.node_id == 1), "a valid token is refused");
        assert!(matches!(v.get(1), Some(ClientEvent::Result(r)) if num(&r.result) == Some(7)) && log_of(&x) == [6] && far == Some(44), "an authenticated connection is not served");
        nd::reach!("served");
    } else {
        assert!(v.is_empty(), "something was told to a connection that did not authenticate");
        assert!(log_of(&x).is_empty() && far.is_none(), "acted on a frame of a connection that did not authenticate");
        assert!(closed, "a connection that did not authenticate is kept open");
        nd::reach!("refused");
    }
    // another connection
    let d = drive(TcpStream::connect("n1")).unwrap().unwrap();
    tell(&d, identify(token("s")));
    tell(&d, call(8));
    rt::run(200);
    let (v, _) = answers(&d);
    assert!(matches!(v.get(1), Some(ClientEvent::Result(r)) if num(&r.result) == Some(9)), "a later connection is not served");
}
/// Connections that stay silent, or race with each other, do not hold up or mix with an authenticated one.
#[no_mangle]
pub extern "C" fn h_session_many() {
    let a = node_auth("s");
    let x = spawn_tracked(a.actor_system(), "x", cell(1)).unwrap();
    let c = drive(TcpStream::connect("n1")).unwrap().unwrap();
    let d = drive(TcpStream::connect("n1")).unwrap().unwrap();
    let e = drive(TcpStream::connect("n1")).unwrap().unwrap();
    let kind = nd::choose(3);
    if kind == 1 { tell(&c, identify(token("t"))); tell(&c, call(2)); }
    tell(&d, identify(token("s")));
    tell(&d, call(8));
    if kind == 2 { tell(&e, call(4)); }
    rt::explore(4);
    let (v, _) = answers(&d);
    assert!(v.len() == 2 && matches!(v.get(1), Some(ClientEvent::Result(r)) if num(&r.result) == Some(9)), "held up by another connection");
    assert!(answers(&c).0.is_empty() && answers(&e).0.is_empty(), "something was told to a connection that did not authenticate");
    assert!(log_of(&x) == [8], "acted on a frame of a connection that did not authenticate");
    nd::reach!(kind == 0, "silent");
    nd::reach!(kind == 1, "refused");
    // the node shuts down with sessions open
    drop(c);
    let s = a.clone();
    assert!(drive_timed(async move { s.actor_system().shutdown().await }, 3).is_some(), "shutdown hangs");
    nd::reach!("shut down");
}

// ---------------------------------------------------------------- lost connections
/// the peer takes the new connection, if there is one
fn welcome(l: &TcpListener) -> Option<TcpStream> { welcome_for(l, usize::MAX) }
/// the same; the connection breaks after `n` more frames
fn welcome_for(l: &TcpListener, n: usize) -> Option<TcpStream> {
    let p = accept(l)?;
    assert!(matches!(frames(&p).first(), Some(SessionEvent::Identify(_))), "does not identify itself first");
    p.break_after(n);
    say(&p, identity(9, "p9"));
    rt::run(200);
    Some(p)
}
fn sent(v: &mut Vec<u64>, p: &TcpStream) { for (_, n) in asked(frames(p)) { v.push(n) } }
/// Whatever is sent to a node while its connection breaks and comes back arrives once, in the order it was sent.
fn buffered(n: usize) {
    let (a, l, p) = with_peer();
    let r = far(&a, "x", 9);
    let mut up = Some(p);
    let mut got = Vec::new();
    let (mut next, mut outage) = (0, 0);
    let mut limit = usize::MAX;
    let mut broke = false;
    let mut i = 0;
    while i < n {
        match nd::choose(5) {
            0 => { let r = r.clone(); let k = next; next += 1; assert!(drive(async move { r.notify(Ask(k)).await }).expect("hangs").is_ok(), "refused to send"); }
            1 => match up.take() { // the connection breaks, noticed at once or by the next write
                Some(p) => { sent(&mut got, &p); p.cut(nd::flip()); drop(p); if nd::flip() { rt::run(200); } outage += 1 }
                None => nd::assume(false),
            },
            4 => { nd::assume(up.is_some() && limit > 2); limit = nd::choose(2) as usize; up.as_ref().unwrap().break_after(limit); }
            2 => { nd::assume(up.is_none()); net::refuse(1); tokio::time::advance(Duration::from_secs(5)); rt::run(200); net::refuse(0); }
            _ => { nd::assume(up.is_none()); rt::run(200); tokio::time::advance(Duration::from_secs(5)); rt::run(200); limit = [usize::MAX, 0, 1, 2][nd::choose(4) as usize]; nd::assume(limit > 2 || next > 0); up = welcome_for(&l, limit); assert!(up.is_some(), "does not reconnect"); }
        }
        if let Some(p) = &up { sent(&mut got, p); }
        if up.as_ref().is_some_and(|p| p.broken()) { up = None; outage += 1; broke = true; nd::reach!("broke while writing"); }
        i += 1;
    }
    rt::run(200);
    let mut j = 0;
    while j < 4 && (up.is_none() || (broke && (got.len() as u64) < next)) { // (a loss noticed both by a write and by the reader is followed by two attempts to reconnect; the later notice may end the first one's connection)
        tokio::time::advance(Duration::from_secs(5));
        rt::run(200);
        if let Some(p) = welcome(&l) { rt::run(200); sent(&mut got, &p); up = Some(p) }
        j += 1;
    }
    let p = up.expect("does not reconnect");
    sent(&mut got, &p);
    let mut k = 0;
    while k < got.len() { assert!(got[k] == k as u64, "out of order, lost or repeated"); k += 1; }
    assert!(got.len() as u64 == next, "something sent during the outage was lost");
    assert!(broke || welcome(&l).is_none(), "connected twice");
    nd::reach!(outage == 1 && next >= 2, "writes around an outage");
    nd::reach!(outage == 2, "two outages");
}
#[no_mangle] pub extern "C" fn h_client_buffer() { buffered(6) }
#[no_mangle] pub extern "C" fn h_client_buffer_deep() { buffered(7) }
/// A node that stays away: the client gives up after its last attempt, other nodes are not affected, and it can be reached again when it is back.
#[no_mangle]
pub extern "C" fn h_client_gives_up() {
    let (a, l, p) = with_peer();
    let l8 = rt::now(TcpListener::bind("p8")).unwrap();
    let s = a.clone();
    let _c = drive(async move { s.get_remote_client("p8".to_string()).await }).expect("hangs").expect("no client");
    let p8 = accept(&l8).expect("nobody connected");
    say(&p8, identity(8, "p8"));
    rt::run(200);
    let _ = frames(&p8);
    let r = far(&a, "x", 9);
    let back = nd::choose(13); // the peer is back after this many attempts
    net::cut(0, false);
    drop(p);
    rt::run(200);
    let r1 = r.clone();
    assert!(drive(async move { r1.notify(Ask(0)).await }).expect("hangs").is_ok());
    net::refuse(1000);
    let mut i = 0;
    while i < back { tokio::time::advance(Duration::from_secs(5)); rt::run(300); i += 1; }
    net::refuse(0);
    tokio::time::advance(Duration::from_secs(5));
    rt::run(300);
    let up = welcome(&l);
    if back < 9 {
        let p = up.expect("gave up too early");
        let q = asked(frames(&p));
        assert!(q.len() == 1 && q[0].1 == 0, "what was sent during the outage is lost");
        nd::reach!("came back");
    }
    // the other node is reachable all the while
    let s = far(&a, "x", 8);
    assert!(drive(async move { s.notify(Ask(6)).await }).expect("hangs").is_ok());
    rt::run(200);
    let r1 = r.clone();
    drive(async move { let _ = r1.notify(Ask(1)).await; }).expect("hangs");
    let s = far(&a, "x", 8);
    assert!(drive(async move { s.notify(Ask(4)).await }).expect("hangs").is_ok());
    rt::run(200);
    let q = asked(frames(&p8));
    assert!(q.len() == 2 && q[0].1 == 6 && q[1].1 == 4, "another node is affected");
    if back > 11 {
        nd::reach!("gave up");
        let s = a.clone();
        let c = drive(async move { s.get_remote_client("p9".to_string()).await }).expect("hangs").expect("no client");
        let p = welcome(&l).expect("the node cannot be reached again");
        let r1 = r.clone();
        assert!(drive(async move { r1.notify(Ask(3)).await }).expect("hangs").is_ok());
        rt::run(200);
        let q = asked(frames(&p));
        assert!(q.len() == 1 && q[0].1 == 3, "the node cannot be reached again");
    }
}

// ---------------------------------------------------------------- a node that joins with difficulty
struct Joined { sub: Option<Subscription>, seen: Vec<(bool, NodeId)> }
#[async_trait]
impl Actor for Joined { async fn started(&mut self, ctx: &mut ActorContext) { self.sub = Some(PubSub::subscribe::<Self, SystemTopic>(SystemTopic, ctx).await.unwrap()); } }
#[async_trait]
impl Handler<Receive<SystemTopic>> for Joined {
    async fn handle(&mut self, m: Receive<SystemTopic>, _: &mut ActorContext) {
        match m.0.as_ref() { SystemEvent::Cluster(ClusterEvent::NodeAdded(n)) => self.seen.push((true, n.id)), SystemEvent::Cluster(ClusterEvent::NodeRemoved(n)) => self.seen.push((false, n.id)), _ => {} }
    }
}
struct Seen;
impl Message for Seen { type Result = Vec<(bool, NodeId)>; }
#[async_trait]
impl Handler<Seen> for Joined { async fn handle(&mut self, _: Seen, _: &mut ActorContext) -> Vec<(bool, NodeId)> { std::mem::take(&mut self.seen) } }
fn seen(w: &LocalActorRef<Joined>) -> Vec<(bool, NodeId)> { let w = w.clone(); drive(async move { w.send(Seen).await }).expect("hangs").expect("gone") }
struct Bulletin;
impl Topic for Bulletin { type Message = Item; fn topic_name() -> &'static str { "bulletin" } fn key(&self) -> String { "".into() } }
struct Item(u64);
impl StreamData for Item { fn read_from_bytes(b: Vec<u8>) -> Option<Item> { num(&b).map(Item) } fn write_to_bytes(&self) -> Option<Vec<u8>> { Some(self.0.to_le_bytes().to_vec()) } }
fn ack() -> ClientEvent { ClientEvent::Handshake(proto::ClientHandshake { node_id: 9, node_tag: "p".into(), ..Default::default() }) }
fn beating(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder {
    conf(c).heartbeat(HeartbeatConfig { interval: Duration::from_secs(1), ping_timeout: Duration::from_secs(60), unhealthy_node_heartbeat_timeout: Duration::from_secs(600), terminated_node_heartbeat_timeout: Duration::from_secs(6000), minimum_cluster_size: None })
}
/// A peer whose handshakes fail (no answer, or the connection breaks) is announced when one succeeds, once, and from then on receives what is published.
#[no_mangle]
pub extern "C" fn h_join_hard() {
    let a = node(1, None, beating);
    let w = spawn_tracked(a.actor_system(), "w", Joined { sub: None, seen: Vec::new() }).unwrap();
    seen(&w);
    let l = rt::now(TcpListener::bind("p9")).unwrap();
    let s = a.clone();
    let _c = drive(async move { s.get_remote_client("p9".to_string()).await }).expect("hangs").expect("no client");
    let mut p = welcome(&l).expect("nobody connected");
    let fails = nd::choose(3); // 0: the first handshake succeeds, 1: the connection breaks before it is answered, 2: it is not answered for long, then the connection breaks
    let mut shakes = 0;
    let mut i = 0;
    while i < 2 {
        rt::run(200);
        let n = frames(&p).iter().filter(|e| matches!(e, SessionEvent::Handshake(_))).count();
        shakes += n;
        if i == 0 { assert!(n == 1, "no handshake"); }
        if fails == 0 || i == 1 { if n == 1 { say(&p, ack()); } rt::run(200); }
        if fails == 0 { break; }
        if i == 0 {
            if fails == 2 { let mut k = 0; while k < 17 { tokio::time::advance(Duration::from_secs(1)); rt::run(200); k += 1; } }
            assert!(seen(&w).iter().all(|s| !s.0), "announced though no handshake succeeded");
            p.cut(nd::flip());
            rt::run(200);
            let mut k = 0;
            let mut next = None;
            while k < 12 && next.is_none() { tokio::time::advance(Duration::from_secs(1)); rt::run(200); next = welcome(&l); k += 1; }
            p = next.expect("does not reconnect");
        }
        i += 1;
    }
    nd::reach!(fails == 1, "broken");
    nd::reach!(fails == 2, "not answered");
    let v: Vec<_> = seen(&w).into_iter().filter(|s| s.0).collect();
    assert!(v == [(true, 9)], "a node that joined with difficulty is not announced once");
    let _ = frames(&p);
    let s = a.clone();
    drive(async move { PubSub::publish(Bulletin, Item(4), &s).await }).expect("hangs");
    rt::run(200);
    assert!(frames(&p).iter().filter(|e| matches!(e, SessionEvent::StreamPublish(m) if num(&m.message) == Some(4) && m.topic == "bulletin")).count() == 1, "what is published does not reach a node that joined with difficulty");
}

// ---------------------------------------------------------------- requests to a node itself
/// Whatever a peer answers to a request made to it as a node, the request is settled with that answer, or fails.
#[no_mangle]
pub extern "C" fn h_rpc_answers() {
    let (a, _l, p) = with_peer();
    let id = Uuid::new_v4();
    let (find, num_id) = (nd::flip(), nd::u64());
    let ev = SessionEvent::FindActor(proto::FindActorEvent { message_id: id.to_string(), actor_id: "x".into(), ..Default::default() });
    let s = a.clone();
    let mut q = rt::go(async move { s.node_rpc_proto::<proto::ActorAddress>(id, ev, 9).await });
    rt::run(200);
    assert!(frames(&p).iter().filter(|e| matches!(e, SessionEvent::FindActor(_))).count() == 1, "the request was not sent once");
    assert!(q.try_recv().is_err() && a.inflight_remote_request_count() >= 1);
    let before = a.inflight_remote_request_count();
    let mut good = proto::ActorAddress { actor_id: "x".into(), ..Default::default() };
    if find { good.node_id = Some(protobuf::well_known_types::wrappers::UInt64Value { value: num_id, ..Default::default() }).into(); }
    let kind = nd::choose(5);
    let result = |b: Vec<u8>| proto::ClientResult { message_id: id.to_string(), result: b, ..Default::default() };
    match kind {
        0 => say(&p, ClientEvent::Result(result(protobuf::Message::write_to_bytes(&good).unwrap()))),
        1 => say(&p, ClientEvent::Result(result(vec![255, 255, 255]))),
        2 => say(&p, ClientEvent::Err(proto::ClientErr { message_id: id.to_string(), error: Some(ActorRefErr::ActorUnavailable.into()).into(), ..Default::default() })),
        3 => say(&p, ClientEvent::Err(proto::ClientErr { message_id: id.to_string(), ..Default::default() })),
        _ => say(&p, ClientEvent::Result(proto::ClientResult { message_id: "zz".into(), ..Default::default() })),
    }
    rt::run(200);
    if kind == 4 { assert!(q.try_recv().is_err() && a.inflight_remote_request_count() == before, "settled by an answer that does not name it"); nd::reach!("not settled"); return; }
    let r = q.try_recv().expect("never settled");
    assert!(a.inflight_remote_request_count() == before - 1, "a finished request stays registered");
    match r {
        Ok(v) => { assert!(kind == 0 && v.actor_id == "x" && v.node_id.is_some() == find && (!find || v.node_id.value == num_id), "not what was answered"); nd::reach!("answered"); }
        Err(e) => { assert!(kind != 0, "failed though answered"); if kind == 1 { assert!(e == crate::remote::system::rpc::NodeRpcErr::Serialisation); nd::reach!("cannot be decoded"); } nd::reach!("failed"); }
    }
}
// ---------------------------------------------------------------- pings
fn pinging(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder {
    conf(c).heartbeat(HeartbeatConfig { interval: Duration::from_secs(1), ping_timeout: Duration::from_millis(500), unhealthy_node_heartbeat_timeout: Duration::from_secs(3), terminated_node_heartbeat_timeout: Duration::from_secs(6), minimum_cluster_size: None })
}
/// A peer is held for what its answers to pings say, however they come: promptly, not at all, as errors; and when its connection is gone for good, so is it, until it is back.
fn pings(rounds: usize) {
    let a = node(1, None, pinging);
    let l = rt::now(TcpListener::bind("p9")).unwrap();
    let s = a.clone();
    let _c = drive(async move { s.get_remote_client("p9".to_string()).await }).expect("hangs").expect("no client");
    let mut p = welcome(&l);
    assert!(p.is_some(), "nobody connected");
    let mut shaken = false;
    let mut last: Option<u64> = None;
    let mut r = 0;
    while r < rounds {
        let kind = nd::choose(4); // 0 answers, 1 silent, 2 refuses, 3 the connection breaks
        if kind == 3 { match p.take() { Some(x) => { x.cut(false); drop(x); net::refuse(1000); } None => nd::assume(false) } }
        else if p.is_none() { // back again
            net::refuse(0);
            let mut k = 0;
            while k < 12 && p.is_none() { tokio::time::advance(Duration::from_millis(500)); rt::run(300); p = welcome(&l); k += 1; }
            assert!(p.is_some(), "does not reconnect");
            nd::reach!("back again");
        }
        let mut asked = 0;
        let mut k = 0;
        while k < 11 {
            rt::run(300);
            if let Some(p) = &p {
                for e in frames(p) {
                    match e {
                        SessionEvent::Handshake(_) => { shaken = true; say(p, ack()) }
                        SessionEvent::Ping(g) => { asked += 1; match kind {
                            0 => { last = Some(symstd::time::now()); say(p, ClientEvent::Pong(proto::PongEvent { message_id: g.message_id, ..Default::default() })) }
                            2 => say(p, ClientEvent::Err(proto::ClientErr { message_id: g.message_id, error: Some(ActorRefErr::ActorUnavailable.into()).into(), ..Default::default() })),
                            _ => {}
                        } }
                        _ => {}
                    }
                }
                rt::run(300);
            }
            if k < 10 { tokio::time::advance(Duration::from_millis(250)); }
            k += 1;
        }
        assert!(kind == 3 || asked >= 2, "a node is not pinged at its interval");
        assert!(asked <= 4, "a node is pinged more often than its interval");
        let s = a.clone();
        let n = drive(async move { s.get_nodes().await }).expect("hangs").into_iter().find(|n| n.id == 9).expect("a node is forgotten").status;
        let age = last.map(|t| symstd::time::now() - t);
        match kind {
            0 => { assert!(n == NodeStatus::Healthy, "answers but is not held for healthy"); nd::reach!("healthy"); }
            1 => match age {
                Some(t) if t < 5_000_000_000 => { assert!(n == NodeStatus::Unhealthy, "silent only for a short while"); nd::reach!("unhealthy"); }
                Some(t) if t < 7_000_000_000 => assert!(n != NodeStatus::Healthy, "silent but held for healthy"),
                _ => { assert!(n == NodeStatus::Terminated, "silent for long but not held for terminated"); nd::reach!("terminated"); }
            },
            2 => assert!(n == NodeStatus::Unhealthy || n == NodeStatus::Terminated, "refuses pings but is held for healthy"),
            _ => { assert!(n == NodeStatus::Terminated, "its connection is gone but not held for terminated"); nd::reach!("gone"); }
        }
        r += 1;
    }
    assert!(shaken);
}
#[no_mangle] pub extern "C" fn h_ping() { pings(4) }
#[no_mangle] pub extern "C" fn h_ping_deep() { pings(6) }
