//! The heartbeat: health of other nodes, the leader, and what is announced about them.
use super::cluster::*;
use super::common::*;
use crate::actor::context::ActorContext;
use crate::actor::message::{Handler, Message};
use crate::actor::{Actor, LocalActorRef};
use crate::remote::actor::message::NodeTerminated;
use crate::remote::cluster::node::{NodeStatus, RemoteNode};
use crate::remote::heartbeat::{Heartbeat, HeartbeatConfig, NodePing, OnLeaderChanged, PingResult};
use crate::remote::net::proto::network::PongEvent;
use crate::remote::stream::pubsub::{PubSub, Receive, Subscription};
use crate::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use crate::remote::system::builder::RemoteSystemConfigBuilder;
use crate::remote::system::{NodeId, RemoteActorSystem};
use async_trait::async_trait;
use chrono::{DateTime, Utc};
use std::time::Duration;
use tokio::rt;
use tokio::sync::oneshot;

const UNHEALTHY: u64 = 3;
const TERMINATED: u64 = 10;
fn beat(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder { conf(c).heartbeat(beats(None)) }
fn beat3(c: &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder { conf(c).heartbeat(beats(Some(3))) }
fn beats(n: Option<usize>) -> HeartbeatConfig { HeartbeatConfig { interval: Duration::from_secs(1), ping_timeout: Duration::from_secs(60), unhealthy_node_heartbeat_timeout: Duration::from_secs(UNHEALTHY), terminated_node_heartbeat_timeout: Duration::from_secs(TERMINATED), minimum_cluster_size: n } }
fn alone(id: NodeId, c: fn(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder) -> RemoteActorSystem {
    let inner = crate::actor::system::ActorSystem::builder().system_name("h").build();
    let s = drive(async move { RemoteActorSystem::builder().with_id(id).with_tag("h").with_actor_system(inner).configure(c).build().await }).expect("building a node never finished");
    rt::run(200);
    s
}
fn register(s: &RemoteActorSystem, id: NodeId, at: Option<DateTime<Utc>>) {
    let s = s.clone();
    drive(async move { s.register_node(RemoteNode::new(id, addr(id), "t".into(), at, std::sync::Arc::new(Default::default()))).await }).expect("hangs");
}
fn ping(s: &RemoteActorSystem, id: NodeId, r: PingResult) { let h = s.heartbeat().clone(); drive(async move { h.send(NodePing(id, r)).await }).expect("hangs").expect("the heartbeat is gone"); }
fn tick() { tokio::time::advance(Duration::from_secs(1)); rt::run(300); }
fn status(s: &RemoteActorSystem, id: NodeId) -> NodeStatus { let s = s.clone(); drive(async move { s.get_nodes().await }).expect("hangs").into_iter().find(|n| n.id == id).expect("a node is forgotten").status }
fn ok_now() -> PingResult { PingResult::Ok(PongEvent::default(), Duration::from_millis(1), Utc::now()) }

/// every moment up to 16 s before the next tick, or up to 2 s after it
fn moment() -> (DateTime<Utc>, i64) {
    let s = nd::u8() as i64;
    let n = nd::u32();
    nd::assume(s <= 18 && n < 1_000_000_000);
    let now = Utc::now();
    let base = now.timestamp() + 1 + 2 - s;
    let age = (now.timestamp() + 1 - base) * 1_000_000_000 + now.timestamp_subsec_nanos() as i64 - n as i64;
    (DateTime::<Utc>::from_timestamp(base, n).unwrap(), age)
}
/// After every tick, a node is reported as what its pings say it is.
fn health(rounds: usize) {
    let a = alone(1, beat);
    register(&a, 1, Some(Utc::now()));
    register(&a, 2, None);
    tick();
    assert!(status(&a, 2) == NodeStatus::Joining && status(&a, 1) == NodeStatus::Healthy);
    if nd::flip() { // someone says that this very node is gone
        let h = a.heartbeat().clone();
        drive(async move { h.send(NodeTerminated(1)).await }).expect("hangs").expect("gone");
        assert!(status(&a, 1) == NodeStatus::Healthy, "a node holds itself for terminated");
        nd::reach!("told that it is gone itself");
    }
    let mut was = NodeStatus::Joining;
    let mut pinged = false;
    let mut last: Option<i64> = None; // age of the last answer at the next tick, in ns
    let mut i = 0;
    while i < rounds {
        let kind = nd::choose(5);
        let want;
        match kind {
            0 => {
                let (at, age) = moment();
                let latency = nd::u64();
                nd::assume(latency <= 20_000_000_000);
                ping(&a, 2, PingResult::Ok(PongEvent::default(), Duration::from_nanos(latency), at));
                last = Some(age);
                want = if age >= TERMINATED as i64 * 1_000_000_000 { NodeStatus::Terminated } else if age >= UNHEALTHY as i64 * 1_000_000_000 || latency > UNHEALTHY * 1_000_000_000 { NodeStatus::Unhealthy } else { NodeStatus::Healthy };
            }
            1 => { ping(&a, 2, PingResult::Timeout); want = match last { Some(age) if age < TERMINATED as i64 * 1_000_000_000 => NodeStatus::Unhealthy, _ => NodeStatus::Terminated }; }
            2 => { ping(&a, 2, PingResult::Disconnected); want = NodeStatus::Terminated; }
            3 => { ping(&a, 2, PingResult::Err); want = if was == NodeStatus::Unhealthy { NodeStatus::Terminated } else { NodeStatus::Unhealthy }; }
            _ => { // the node says it is terminating
                let h = a.heartbeat().clone();
                drive(async move { h.send(NodeTerminated(2)).await }).expect("hangs").expect("gone");
                want = NodeStatus::Terminated;
            }
        }
        tick();
        let got = status(&a, 2);
        nd::reach!(kind == 0 && got == NodeStatus::Healthy, "healthy");
        nd::reach!(kind == 0 && got == NodeStatus::Unhealthy, "unhealthy");
        nd::reach!(kind == 0 && got == NodeStatus::Terminated, "terminated");
        nd::reach!(kind == 1 && got == NodeStatus::Unhealthy, "timeout, heard of recently");
        assert!(got == want, "wrong health");
        assert!(status(&a, 1) == NodeStatus::Healthy, "a node holds itself for unhealthy");
        was = got;
        last = last.map(|l| l + 1_000_000_000);
        i += 1;
    }
}
#[no_mangle] pub extern "C" fn h_heart_health() { health(2) }
#[no_mangle] pub extern "C" fn h_heart_health_deep() { health(3) }

struct Ear { sub: Option<Subscription>, leaders: Vec<NodeId>, up: Vec<(NodeId, usize)> }
#[async_trait]
impl Actor for Ear { async fn started(&mut self, ctx: &mut ActorContext) { self.sub = Some(PubSub::subscribe::<Self, SystemTopic>(SystemTopic, ctx).await.unwrap()); } }
#[async_trait]
impl Handler<Receive<SystemTopic>> for Ear {
    async fn handle(&mut self, m: Receive<SystemTopic>, _: &mut ActorContext) {
        match m.0.as_ref() {
            SystemEvent::Cluster(ClusterEvent::LeaderChanged(n)) => self.leaders.push(*n),
            SystemEvent::Cluster(ClusterEvent::MemberUp(m)) => self.up.push((m.leader_id, m.nodes.len())),
            _ => {}
        }
    }
}
struct Heard;
impl Message for Heard { type Result = (Vec<NodeId>, Vec<(NodeId, usize)>); }
#[async_trait]
impl Handler<Heard> for Ear { async fn handle(&mut self, _: Heard, _: &mut ActorContext) -> (Vec<NodeId>, Vec<(NodeId, usize)>) { (self.leaders.clone(), self.up.clone()) } }
fn heard(e: &LocalActorRef<Ear>) -> (Vec<NodeId>, Vec<(NodeId, usize)>) { let e = e.clone(); drive(async move { e.send(Heard).await }).expect("hangs").expect("gone") }

/// The leader is the oldest healthy node, whatever the nodes' numbers and start times; every change of it is announced once.
fn leader(rounds: usize) {
    let ids: [NodeId; 3] = match nd::choose(3) { 0 => [1, 2, 3], 1 => [u64::MAX, 2, 0], _ => [5, 1 << 63, (1 << 63) - 1] };
    let a = alone(ids[0], beat);
    let t0 = Utc::now().timestamp();
    let mut started: [Option<(i64, u32)>; 3] = [Some((t0, 0)), None, None];
    let mut i = 1;
    while i < 3 {
        if nd::flip() { let (s, n) = (nd::u8() as i64, nd::u32()); nd::assume(s < 3 && n < 1_000_000_000); started[i] = Some((t0 - 1 + s, n)); }
        i += 1;
    }
    let mut i = 0;
    while i < 3 { register(&a, ids[i], started[i].map(|(s, n)| DateTime::<Utc>::from_timestamp(s, n).unwrap())); i += 1; }
    let ear = spawn_tracked(a.actor_system(), "ear", Ear { sub: None, leaders: Vec::new(), up: Vec::new() }).unwrap();
    let older = |x: usize, y: usize| { let k = |i: usize| match started[i] { None => (0u8, 0, 0), Some((s, n)) => (1, s, n) }; (k(x), ids[x]) < (k(y), ids[y]) };
    let mut announced: Vec<NodeId> = Vec::new();
    let mut prev = [true, false, false];
    let mut r = 0;
    while r < rounds {
        let mut ok = [true, false, false];
        let mut i = 1;
        while i < 3 {
            let k = if r == 1 { nd::choose(4) } else { nd::choose(3) };
            ok[i] = k == 0;
            if k < 3 { ping(&a, ids[i], match k { 0 => ok_now(), 1 => PingResult::Disconnected, _ => PingResult::Ok(PongEvent::default(), Duration::from_secs(UNHEALTHY + 1), Utc::now()) }); } // else: no further news of it
            if k == 3 { ok[i] = prev[i]; }
            prev[i] = ok[i];
            i += 1;
        }
        let (tx, mut rx) = oneshot::channel();
        let (tx2, mut rx2) = oneshot::channel();
        let h = a.heartbeat().clone();
        drive(async move { h.send(OnLeaderChanged(tx)).await?; h.send(OnLeaderChanged(tx2)).await }).expect("hangs").expect("gone");
        let before = a.current_leader();
        tick();
        let mut best = 0;
        if ok[1] && older(1, best) { best = 1 }
        if ok[2] && older(2, best) { best = 2 }
        assert!(a.current_leader() == Some(ids[best]), "the leader is not the oldest healthy node");
        let changed = before != Some(ids[best]);
        if changed { announced.push(ids[best]); }
        assert!(rx.try_recv().ok() == if changed { Some(ids[best]) } else { None }, "wrong callback on a change of leader");
        assert!(rx2.try_recv().ok() == if changed { Some(ids[best]) } else { None }, "only the first of two that wait hears of the new leader");
        assert!(heard(&ear).0 == announced, "changes of leader not announced once each");
        nd::reach!(!changed && r > 0, "kept");
        nd::reach!(changed && r > 0, "changed");
        nd::reach!(best == 2, "another node leads");
        r += 1;
    }
    assert!(heard(&ear).1.len() == 1, "membership not announced exactly once");
}
#[no_mangle] pub extern "C" fn h_heart_leader() { leader(2) }
#[no_mangle] pub extern "C" fn h_heart_leader_deep() { leader(3) }

/// With a minimum cluster size, membership is announced once, when that many nodes are there.
#[no_mangle]
pub extern "C" fn h_heart_min() {
    let a = alone(1, beat3);
    register(&a, 1, Some(Utc::now()));
    let ear = spawn_tracked(a.actor_system(), "ear", Ear { sub: None, leaders: Vec::new(), up: Vec::new() }).unwrap();
    let mut known = 1;
    let mut registered = 1;
    let mut r = 0;
    while r < 4 {
        // a node that is registered counts once it has been pinged
        if registered < 4 && nd::flip() { registered += 1; register(&a, registered, Some(Utc::now())); }
        if known < registered && nd::flip() { known = registered; }
        let mut i = 2;
        while i <= known { ping(&a, i, ok_now()); i += 1; }
        tick();
        let up = heard(&ear).1;
        if known < 3 { assert!(up.is_empty(), "membership announced before the cluster has its minimum size"); } else { assert!(up.len() == 1 && up[0].0 == 1 && up[0].1 >= 3, "membership not announced once when the cluster has its minimum size"); nd::reach!("up"); }
        r += 1;
    }
    nd::reach!(known < 3, "never");
    nd::reach!(known < 3 && registered == 4, "registered, never pinged");
}

// ---------------------------------------------------------------- this node's own health
pub struct Patient;
#[async_trait]
impl Actor for Patient { async fn stopped(&mut self, _: &mut ActorContext) { rt::yield_now().await } }
pub struct Work(u64);
impl Message for Work { type Result = (); }
#[async_trait]
impl Handler<Work> for Patient { async fn handle(&mut self, m: Work, _: &mut ActorContext) { tokio::time::sleep(Duration::from_millis(m.0)).await } }
/// Three actors, each registered or not (or no longer), each idle, busy for a while or stopped: what the node says about itself.
#[no_mangle]
pub extern "C" fn h_health() {
    use crate::remote::heartbeat::health::HealthStatus;
    let s = alone(1, beat);
    if nd::flip() { register(&s, 2, Some(Utc::now())); }
    symstd::collections::set_order(nd::flip());
    const N: usize = 2;
    let names = ["p0", "p1"];
    let mut on = [false; N];
    let mut ms = [0u64; N];
    let mut dead = [false; N];
    let mut refs = vec![];
    for i in 0..N { refs.push(spawn_tracked(s.actor_system(), names[i], Patient).unwrap()); }
    for i in 0..N {
        let k = nd::choose(3);
        if k > 0 { Heartbeat::register(refs[i].clone(), &s); rt::run(50); }
        if k > 1 { Heartbeat::remove(refs[i].actor_id(), &s); rt::run(50); }
        on[i] = k == 1;
        match nd::choose(4) {
            0 => {}
            1 => { let r = refs[i].clone(); drive(async move { r.stop().await }).unwrap().unwrap(); dead[i] = true; }
            c => { ms[i] = if c == 2 { 900 } else { 1100 }; refs[i].notify(Work(ms[i])).unwrap(); }
        }
    }
    rt::run(100);
    let sys = s.clone();
    let mut f = rt::go(async move { Heartbeat::get_system_health(&sys).await });
    rt::run(300);
    let mut n = 0;
    let h = loop { if let Ok(h) = f.try_recv() { break h; } assert!(n < 12 && tokio::time::advance_next(), "the health report never comes"); rt::run(300); n += 1; };
    assert!(h.node_id == 1 && h.node_tag == "h" && h.current_leader == s.current_leader());
    let known = { let s = s.clone(); drive(async move { s.get_nodes().await }).expect("hangs") };
    assert!(h.nodes.len() == known.len() && known.iter().all(|k| h.nodes.iter().any(|n| n.id == k.id)), "the nodes in the report are not those known");
    let mut worst = HealthStatus::Healthy;
    for i in 0..N {
        let path = crate::actor::IntoActorPath::into_actor_path(format!("h/{}", names[i]));
        let said = h.actor_response_times.get(&path);
        if !on[i] { assert!(said.is_none(), "an actor that is not registered is in the report"); continue; }
        let said = said.expect("a registered actor is missing from the report");
        if dead[i] { assert!(said.is_none(), "a stopped actor is reported as answering"); worst = HealthStatus::Unhealthy; }
        else {
            let t = said.expect("a running actor is reported as gone");
            assert!(t >= Duration::from_millis(ms[i]) && t < Duration::from_millis(ms[i] + 200), "a wrong response time");
            if ms[i] > 1000 && worst != HealthStatus::Unhealthy { worst = HealthStatus::Degraded; }
        }
    }
    assert!(h.status == worst, "the status does not follow from the actors' answers");
    assert!(h.actor_response_times.iter().filter(|e| e.1.is_none()).count() == (0..N).filter(|i| on[*i] && dead[*i]).count(), "an actor of the system itself is reported as gone");
    // and when asked again, nothing is slow any more
    let sys = s.clone();
    if on[0] && on[1] {
        tokio::time::advance(Duration::from_secs(2)); rt::run(300);
        let h = drive(async move { Heartbeat::get_system_health(&sys).await }).expect("the health report never comes");
        assert!(h.status == if dead[0] || dead[1] { HealthStatus::Unhealthy } else { HealthStatus::Healthy });
    }
    nd::reach!(worst == HealthStatus::Healthy && on[0] && on[1], "healthy");
    nd::reach!(worst == HealthStatus::Degraded, "degraded");
    nd::reach!(worst == HealthStatus::Unhealthy && ms[0] > 1000 && on[0] && dead[1], "unhealthy and slow");
    nd::reach!(!on[0] && dead[0], "not asked about");
    nd::reach!(!known.is_empty(), "another node");
}
