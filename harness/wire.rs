//! Frames on the wire: round trips and arbitrary bytes (real protobuf runtime and generated code).
use super::common::bytes as raw_bytes;
use crate::actor::message::{Envelope, Message, MessageUnwrapErr, MessageWrapErr};
use crate::actor::{ActorRefErr, IntoActorId};
use crate::persistent::journal::snapshot::Snapshot;
use crate::persistent::journal::storage::JournalEntry;
use crate::remote::cluster::node::{RemoteNode, RemoteNodeState};
use crate::remote::net::message::{datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent};
use crate::remote::net::proto::network as net;
use crate::remote::net::StreamData;
use crate::remote::stream::system::{ClusterEvent, ClusterMemberUp, SystemEvent};
use crate::sharding::coordinator::allocation::{AllocateShard, AllocateShardErr, AllocateShardResult};
use crate::sharding::coordinator::stats::{GetShardingStats, NodeStats, ShardingStats};
use crate::sharding::coordinator::ShardHostStatus;
use crate::sharding::host::request::RemoteEntityRequest;
use crate::sharding::host::stats::RemoteShard;
use crate::sharding::host::{ShardAllocated, ShardReallocating, ShardStopped, StopShard};
use crate::sharding::proto::sharding as sp;
use crate::sharding::shard::message::{PassivateEntity, RemoveEntity, StartEntity};
use crate::sharding::shard::recovery::ShardStateSnapshot;
use crate::sharding::shard::stats::{GetShardStats, ShardStats};
use crate::singleton::manager::lease::{LeaseAck, RequestLease};
use crate::singleton::manager::vh_wire::GetStatus;
use crate::singleton::manager::{SingletonStarted, SingletonStopped};
use crate::singleton::proto::singleton as gp;
use protobuf::well_known_types::timestamp::Timestamp;
use protobuf::well_known_types::wrappers::UInt64Value;
use protobuf::{EnumOrUnknown, Message as ProtoMessage};
use std::sync::Arc;
use uuid::Uuid;

//@attach singleton/manager/mod.rs vh_wire
pub use super::status::GetStatus;
//@end
/// how long texts and payloads are: 0 as asked for, 1 empty, 2 longer than a one-byte length can say
static mut SIZE: u8 = 0;
fn bytes(n: usize) -> Vec<u8> {
    match unsafe { SIZE } { 0 => raw_bytes(n), 1 => vec![], _ => { let mut b = vec![b'x'; 200]; b[150] = nd::u8(); b } }
}
/// an ASCII string of n arbitrary characters
fn s(n: usize) -> String {
    let b = match unsafe { SIZE } { 0 => raw_bytes(n), 1 => vec![], _ => { let mut b = vec![b'x'; 200]; b[7] = nd::u8(); nd::assume(b[7] < 0x80); b } };
    let mut i = 0;
    if unsafe { SIZE } == 0 { while i < n { nd::assume(b[i] < 0x80); i += 1; } }
    unsafe { String::from_utf8_unchecked(b) }
}
#[no_mangle]
pub extern "C" fn h_wire_session_sizes() { unsafe { SIZE = 1 + nd::choose(2); } h_wire_session() }
#[no_mangle]
pub extern "C" fn h_wire_client_sizes() { unsafe { SIZE = 1 + nd::choose(2); } h_wire_client() }
#[no_mangle]
pub extern "C" fn h_wire_system_sizes() { unsafe { SIZE = 1 + nd::choose(2); } h_wire_system() }
#[no_mangle]
pub extern "C" fn h_wire_sharding_sizes() { unsafe { SIZE = 1 + nd::choose(2); } h_wire_sharding() }
#[no_mangle]
pub extern "C" fn h_wire_shard_state_sizes() { unsafe { SIZE = 1 + nd::choose(2); } h_wire_shard_state() }
fn ts() -> Timestamp { Timestamp { seconds: nd::u32() as i64 * 4, nanos: { let n = nd::u32(); nd::assume(n < 1_000_000_000); n as i32 }, ..Default::default() } }

// ---------------------------------------------------------------- frames
fn pnode(full: bool) -> net::RemoteNode {
    let mut n = net::RemoteNode { node_id: nd::u64(), addr: s(1), tag: s(1), ..Default::default() };
    if full { n.node_started_at = Some(ts()).into(); n.attributes.insert("k".to_string(), s(1)); }
    n
}
fn err() -> ActorRefErr {
    match nd::choose(12) {
        0 => ActorRefErr::ActorUnavailable,
        1 => ActorRefErr::NotFound(s(1).into_actor_id()),
        2 => ActorRefErr::AlreadyExists(s(1).into_actor_id()),
        3 => ActorRefErr::Serialisation(match nd::choose(3) { 0 => MessageWrapErr::NotTransmittable, 1 => MessageWrapErr::SerializationErr, _ => MessageWrapErr::Unknown }),
        4 => ActorRefErr::Deserialisation(match nd::choose(3) { 0 => MessageUnwrapErr::NotTransmittable, 1 => MessageUnwrapErr::DeserializationErr, _ => MessageUnwrapErr::Unknown }),
        5 => ActorRefErr::Timeout { time_taken_millis: nd::u64() },
        6 => ActorRefErr::ActorStartFailed,
        7 => ActorRefErr::InvalidRef,
        8 => ActorRefErr::ResultChannelClosed,
        9 => ActorRefErr::ResultSendFailed,
        10 => ActorRefErr::NotSupported { actor_id: s(1).into_actor_id(), message_type: s(1), actor_type: s(1) },
        _ => ActorRefErr::NotImplemented,
    }
}
fn res() -> net::ClientResult { net::ClientResult { message_id: s(1), result: bytes(2), trace_id: s(1), ..Default::default() } }
fn cerr() -> (net::ClientErr, ActorRefErr) {
    let e = err();
    (net::ClientErr { message_id: s(1), error: Some(e.clone().into()).into(), trace_id: s(1), ..Default::default() }, e)
}
fn ping() -> net::PingEvent { net::PingEvent { message_id: s(1), trace_id: s(1), node_id: nd::u64(), system_terminated: nd::bool(), ..Default::default() } }
fn pong() -> net::PongEvent { net::PongEvent { message_id: s(1), trace_id: s(1), ..Default::default() } }
/// Every session event comes out of its frame as it went in, as the same kind of event.
#[no_mangle]
pub extern "C" fn h_wire_session() {
    let mut want_err = None;
    let e = match nd::choose(11) {
        0 => SessionEvent::Identify(net::IdentifyEvent { source_node_id: nd::u64(), source_node_tag: s(1), token: s(2), ..Default::default() }),
        1 => SessionEvent::Ping(ping()),
        2 => SessionEvent::Pong(pong()),
        3 => SessionEvent::Handshake(net::SessionHandshake { node_id: nd::u64(), nodes: vec![pnode(false), pnode(false)], token: bytes(1), node_tag: s(1), client_type: EnumOrUnknown::from_i32(nd::choose(3) as i32), trace_id: s(1), ..Default::default() }),
        4 => SessionEvent::NotifyActor(net::MessageRequest { message_id: s(1), handler_type: s(1), actor_id: s(1), message: bytes(2), trace_id: s(1), requires_response: nd::bool(), origin_node_id: nd::u64(), ..Default::default() }),
        5 => SessionEvent::CreateActor(net::CreateActorEvent { message_id: s(1), actor_id: s(1), actor_type: s(1), recipe: bytes(2), trace_id: s(1), ..Default::default() }),
        6 => SessionEvent::RegisterActor(net::ActorAddress { actor_id: s(2), node_id: if nd::flip() { Some(UInt64Value { value: nd::u64(), ..Default::default() }).into() } else { None.into() }, trace_id: s(1), ..Default::default() }),
        7 => SessionEvent::FindActor(net::FindActorEvent { message_id: s(1), actor_id: s(2), trace_id: s(1), ..Default::default() }),
        8 => SessionEvent::StreamPublish(Arc::new(net::StreamPublishEvent { topic: s(1), key: s(1), message: bytes(2), trace_id: s(1), ..Default::default() })),
        9 => SessionEvent::Result(res()),
        _ => { let (c, e) = cerr(); want_err = Some(e); SessionEvent::Err(c) }
    };
    let d = SessionEvent::read_from_bytes(e.write_to_bytes().expect("not encodable")).expect("own frame refused");
    match (e, d) {
        (SessionEvent::Identify(a), SessionEvent::Identify(b)) => assert!(a == b),
        (SessionEvent::Ping(a), SessionEvent::Ping(b)) => assert!(a == b),
        (SessionEvent::Pong(a), SessionEvent::Pong(b)) => assert!(a == b),
        (SessionEvent::Handshake(a), SessionEvent::Handshake(b)) => assert!(a == b),
        (SessionEvent::NotifyActor(a), SessionEvent::NotifyActor(b)) => assert!(a == b),
        (SessionEvent::CreateActor(a), SessionEvent::CreateActor(b)) => assert!(a == b),
        (SessionEvent::RegisterActor(a), SessionEvent::RegisterActor(b)) => assert!(a == b),
        (SessionEvent::FindActor(a), SessionEvent::FindActor(b)) => assert!(a == b),
        (SessionEvent::StreamPublish(a), SessionEvent::StreamPublish(b)) => assert!(a == b),
        (SessionEvent::Result(a), SessionEvent::Result(b)) => assert!(a == b),
        (SessionEvent::Err(a), SessionEvent::Err(b)) => {
            assert!(a == b);
            let back: ActorRefErr = b.error.unwrap().into();
            assert!(Some(back) == want_err, "another error came out");
            nd::reach!("error");
        }
        _ => panic!("another kind of event came out"),
    }
    nd::reach!("done");
}
/// The same for the events a client receives.
#[no_mangle]
pub extern "C" fn h_wire_client() {
    let mut want_err = None;
    let e = match nd::choose(6) {
        0 => ClientEvent::Identity(net::NodeIdentity { node_id: nd::u64(), node_tag: s(1), addr: s(1), application_version: s(1), protocol_version: s(1), node_started_at: Some(ts()).into(), peers: vec![net::RemoteNode { node_id: 7, addr: s(1), ..Default::default() }], capabilities: Some(net::SystemCapabilities { actors: vec![s(1)], messages: vec![s(1), s(1)], ..Default::default() }).into(), ..Default::default() }),
        1 => ClientEvent::Handshake(net::ClientHandshake { node_id: nd::u64(), nodes: vec![pnode(false)], node_tag: s(1), trace_id: s(1), node_started_at: Some(ts()).into(), ..Default::default() }),
        2 => ClientEvent::Result(res()),
        3 => { let (c, e) = cerr(); want_err = Some(e); ClientEvent::Err(c) }
        4 => ClientEvent::Ping(ping()),
        _ => ClientEvent::Pong(pong()),
    };
    let d = ClientEvent::read_from_bytes(e.write_to_bytes().expect("not encodable")).expect("own frame refused");
    match (e, d) {
        (ClientEvent::Identity(a), ClientEvent::Identity(b)) => assert!(a == b),
        (ClientEvent::Handshake(a), ClientEvent::Handshake(b)) => assert!(a == b),
        (ClientEvent::Result(a), ClientEvent::Result(b)) => assert!(a == b),
        (ClientEvent::Err(a), ClientEvent::Err(b)) => {
            assert!(a == b);
            let back: ActorRefErr = b.error.unwrap().into();
            assert!(Some(back) == want_err, "another error came out");
            nd::reach!("error");
        }
        (ClientEvent::Ping(a), ClientEvent::Ping(b)) => assert!(a == b),
        (ClientEvent::Pong(a), ClientEvent::Pong(b)) => assert!(a == b),
        _ => panic!("another kind of event came out"),
    }
    nd::reach!("done");
}
fn same_node(a: &RemoteNode, b: &RemoteNode) -> bool { a.id == b.id && a.addr == b.addr && a.tag == b.tag && a.node_started_at == b.node_started_at && a.attributes == b.attributes }
fn node() -> RemoteNode { RemoteNode::from(pnode(nd::flip())) }
/// Cluster events published to other nodes: every description of a node survives, through all its representations.
#[no_mangle]
pub extern "C" fn h_wire_system() {
    let e = match nd::choose(4) {
        0 => ClusterEvent::NodeAdded(Arc::new(node())),
        1 => ClusterEvent::NodeRemoved(Arc::new(node())),
        2 => ClusterEvent::LeaderChanged(nd::u64()),
        _ => {
            // one of the three parts is arbitrary
            let w = nd::choose(3);
            let few = |id| RemoteNode { id, addr: "x".into(), tag: "y".into(), node_started_at: None, attributes: Default::default() };
            ClusterEvent::MemberUp(ClusterMemberUp { leader_id: if w == 0 { nd::u64() } else { 9 }, nodes: vec![Arc::new(if w == 1 { node() } else { few(9) }), Arc::new(if w == 2 { node() } else { few(300) })] })
        }
    };
    let e = SystemEvent::Cluster(e);
    let d = SystemEvent::read_from_bytes(e.write_to_bytes().expect("not encodable")).expect("own frame refused");
    let (SystemEvent::Cluster(e), SystemEvent::Cluster(d)) = (e, d);
    match (e, d) {
        (ClusterEvent::NodeAdded(a), ClusterEvent::NodeAdded(b)) => assert!(same_node(&a, &b)),
        (ClusterEvent::NodeRemoved(a), ClusterEvent::NodeRemoved(b)) => assert!(same_node(&a, &b)),
        (ClusterEvent::LeaderChanged(a), ClusterEvent::LeaderChanged(b)) => assert!(a == b),
        (ClusterEvent::MemberUp(a), ClusterEvent::MemberUp(b)) => { assert!(a.leader_id == b.leader_id && a.nodes.len() == 2 && b.nodes.len() == 2 && same_node(&a.nodes[0], &b.nodes[0]) && same_node(&a.nodes[1], &b.nodes[1])); nd::reach!("member up"); }
        _ => panic!("another kind of event came out"),
    }
    nd::reach!("done");
}
/// Timestamps survive the conversion in both directions.
#[no_mangle]
pub extern "C" fn h_wire_time() {
    let mut t = ts();
    t.seconds = nd::i64();
    nd::assume(t.seconds >= chrono::MIN_SECS && t.seconds <= chrono::MAX_SECS);
    let d = timestamp_to_datetime(t.clone()).expect("valid timestamp refused");
    assert!(datetime_to_timestamp(&d) == t);
    let a = RemoteNode { id: 1, addr: "a".into(), tag: "t".into(), node_started_at: Some(d), attributes: Default::default() };
    let b = RemoteNode::from(net::RemoteNode::from(&a));
    assert!(same_node(&a, &b));
    nd::reach!("done");
}
/// A node's description is the same in each of its representations and after each conversion between them.
#[no_mangle]
pub extern "C" fn h_wire_node() {
    let mut attributes = crate::remote::cluster::node::NodeAttributes::new();
    let n = nd::choose(3);
    if n > 0 { attributes.insert(s(1).into(), if nd::flip() { "".into() } else { s(1).into() }); }
    if n > 1 { attributes.insert("kk".into(), s(1).into()); }
    let t = if nd::flip() { Some(timestamp_to_datetime(Timestamp { seconds: nd::u32() as i64, nanos: if nd::flip() { 0 } else { let n = nd::u32(); nd::assume(n < 1_000_000_000); n as i32 }, ..Default::default() }).unwrap()) } else { None };
    let a = RemoteNode { id: nd::u64(), addr: s(2), tag: s(1), node_started_at: t, attributes: Arc::new(attributes) };
    let b: RemoteNode = match nd::choose(4) {
        0 => RemoteNode::from(net::RemoteNode::from(a.clone())),
        1 => RemoteNode::from(net::RemoteNode::from(&a)),
        2 => RemoteNode::from(net::RemoteNode::from(RemoteNodeState::new(a.clone()))),
        _ => RemoteNode::from(&net::NodeIdentity {
            node_id: a.id, node_tag: a.tag.clone(), addr: a.addr.clone(), node_started_at: a.node_started_at.as_ref().map(datetime_to_timestamp).into(),
            attributes: a.attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), ..Default::default()
        }),
    };
    assert!(same_node(&a, &b), "the description of a node changed");
    let c: RemoteNode = RemoteNodeState::new(b.clone()).into();
    assert!(same_node(&a, &c), "the description of a node changed");
    nd::reach!(n == 2 && t.is_some(), "attributes and time");
}
/// Journal entries as stored by the external providers.
#[no_mangle]
pub extern "C" fn h_wire_journal() {
    let e = JournalEntry { sequence: nd::i64(), payload_type: s(2).into(), bytes: Arc::new(bytes(2)) };
    let b = e.write_to_bytes().unwrap();
    let d = JournalEntry::read_from_bytes(b).unwrap();
    assert!(d.sequence == e.sequence && d.payload_type == e.payload_type && d.bytes == e.bytes);
    nd::reach!("done");
}

// ---------------------------------------------------------------- control messages
fn uuid() -> Uuid { Uuid::from_u128(0x0123_4567_89ab_cdef_0123_4567_89ab_cd00 | nd::u8() as u128) }
/// bytes -> message -> bytes gives the same message (for types whose fields are private)
fn again<M: Message, P: ProtoMessage + PartialEq>(p: P) {
    let m = M::from_bytes(p.write_to_bytes().unwrap()).ok().expect("own message refused");
    assert!(P::parse_from_bytes(&m.as_bytes().ok().expect("not encodable")).unwrap() == p, "another message came out");
}
/// The messages shards, shard hosts and the coordinator exchange.
#[no_mangle]
pub extern "C" fn h_wire_sharding() {
    match nd::choose(10) {
        0 => {
            let m = AllocateShard { shard_id: nd::u32(), rebalancing: nd::bool() };
            let d = AllocateShard::from_bytes(m.as_bytes().unwrap()).ok().unwrap();
            assert!(d.shard_id == m.shard_id && d.rebalancing == m.rebalancing);
        }
        1 => {
            let mk = |k: u8, a: u32, b: u64| match k { 0 => AllocateShardResult::Allocated(a, b), 1 => AllocateShardResult::AlreadyAllocated(a, b), 2 => AllocateShardResult::NotAllocated, 3 => AllocateShardResult::Err(AllocateShardErr::Unknown), _ => AllocateShardResult::Err(AllocateShardErr::Persistence) };
            let (k, a, b) = (nd::choose(5), nd::u32(), nd::u64());
            let d = AllocateShard::read_remote_result(AllocateShard::write_remote_result(mk(k, a, b)).unwrap()).ok().unwrap();
            assert!(d == mk(k, a, b), "another allocation result came out");
            nd::reach!("allocation result");
        }
        2 => {
            let m = ShardAllocated(nd::u32(), nd::u64());
            let d = ShardAllocated::from_bytes(m.as_bytes().unwrap()).ok().unwrap();
            assert!(d.0 == m.0 && d.1 == m.1);
        }
        3 => {
            let m = ShardReallocating(nd::u32());
            assert!(ShardReallocating::from_bytes(m.as_bytes().unwrap()).ok().unwrap().0 == m.0);
        }
        4 => {
            let m = StopShard { shard_id: nd::u32(), origin_node_id: nd::u64(), request_id: uuid() };
            let d = StopShard::from_bytes(m.as_bytes().unwrap()).ok().unwrap();
            assert!(d.shard_id == m.shard_id && d.origin_node_id == m.origin_node_id && d.request_id == m.request_id);
            nd::reach!("stop");
        }
        5 => again::<ShardStopped, _>(sp::ShardStopped { shard_id: nd::u32(), is_successful: nd::bool(), ..Default::default() }),
        6 => {
            let m = RemoteEntityRequest { request_id: uuid(), actor_id: s(2).into_actor_id(), message_type: s(2), message: bytes(2), recipe: if nd::flip() { Some(bytes(nd::choose(2) as usize)) } else { None }, origin_node: nd::u64() };
            let d = RemoteEntityRequest::from_bytes(m.as_bytes().unwrap()).ok().unwrap();
            assert!(d.request_id == m.request_id && d.actor_id == m.actor_id && d.message_type == m.message_type && d.message == m.message && d.recipe == m.recipe && d.origin_node == m.origin_node);
            nd::reach!("entity request");
        }
        7 => {
            let m = StartEntity { actor_id: s(2).into_actor_id(), recipe: Arc::new(bytes(2)) };
            let d = StartEntity::from_bytes(m.as_bytes().unwrap()).ok().unwrap();
            assert!(d.actor_id == m.actor_id && d.recipe == m.recipe);
        }
        8 => {
            let m = RemoveEntity { actor_id: s(2).into_actor_id() };
            assert!(RemoveEntity::from_bytes(m.as_bytes().unwrap()).ok().unwrap().actor_id == m.actor_id);
        }
        _ => {
            let m = PassivateEntity { actor_id: s(2).into_actor_id() };
            assert!(PassivateEntity::from_bytes(m.as_bytes().unwrap()).ok().unwrap().actor_id == m.actor_id);
        }
    }
    nd::reach!("done");
}
/// Statistics and the snapshot a shard stores of its entities.
#[no_mangle]
pub extern "C" fn h_wire_shard_state() {
    match nd::choose(3) {
        0 => {
            let st = |k: u8| match k { 0 => ShardHostStatus::Unknown, 1 => ShardHostStatus::Starting, 2 => ShardHostStatus::Ready, _ => ShardHostStatus::Unavailable };
            let (a, b, n, k, e, c) = (nd::u32(), nd::u64(), nd::u64(), nd::choose(4), s(1), nd::u64());
            let d = GetShardingStats::read_remote_result(GetShardingStats::write_remote_result(ShardingStats { entity_type: e.clone(), total_shards: 2, shards: vec![RemoteShard { shard_id: a, node_id: b }, RemoteShard { shard_id: 1, node_id: 2 }], nodes: vec![NodeStats { node_id: n, shard_count: c, status: st(k) }] }).unwrap()).ok().unwrap();
            assert!(d.entity_type == e && d.total_shards == 2 && d.shards.len() == 2 && d.shards[0].shard_id == a && d.shards[0].node_id == b && d.shards[1].shard_id == 1 && d.shards[1].node_id == 2);
            assert!(d.nodes.len() == 1 && d.nodes[0].node_id == n && d.nodes[0].shard_count == c && d.nodes[0].status == st(k));
        }
        1 => {
            let (a, b) = (nd::u32(), nd::u64());
            let e = s(1);
            let mut set = symstd::collections::HashSet::new();
            set.insert(e.clone());
            let d = GetShardStats::read_remote_result(GetShardStats::write_remote_result(ShardStats { shard_id: a, node_id: b, entities: set }).unwrap()).ok().unwrap();
            assert!(d.shard_id == a && d.node_id == b && d.entities.len() == 1 && d.entities.contains(&e));
        }
        _ => {
            let state = |k: u8| match k { 0 => sp::EntityState::IDLE, 1 => sp::EntityState::ACTIVE, _ => sp::EntityState::PASSIVATED };
            let (k, j) = (nd::choose(3), nd::choose(3));
            let mk = |k: u8, id: &String, r: &Vec<u8>| sp::shard_state_snapshot::Entity { actor_id: id.clone(), recipe: r.clone(), state: state(k).into(), ..Default::default() };
            let (id, id2, r) = (s(1), s(1), bytes(2));
            let p = sp::ShardStateSnapshot { shard_id: nd::u32(), node_id: nd::u64(), entities: vec![mk(k, &id, &r), mk(j, &id2, &r)], ..Default::default() };
            let snap = ShardStateSnapshot::from_remote_envelope(p.write_to_bytes().unwrap()).ok().unwrap();
            let q = match snap.into_remote_envelope() { Ok(Envelope::Remote(b)) => sp::ShardStateSnapshot::parse_from_bytes(&b).unwrap(), _ => panic!("not encodable") };
            // an active entity is recovered as an idle one
            let f = |k: u8| if k == 1 { 0 } else { k };
            assert!(q.shard_id == p.shard_id && q.node_id == p.node_id && q.entities.len() == 2 && q.entities[0] == mk(f(k), &id, &r) && q.entities[1] == mk(f(j), &id2, &r), "another snapshot came out");
            nd::reach!("snapshot");
        }
    }
    nd::reach!("done");
}
/// The messages singleton managers exchange.
#[no_mangle]
pub extern "C" fn h_wire_singleton() {
    match nd::choose(5) {
        0 => { let m = RequestLease { source_node_id: nd::u64() }; assert!(RequestLease::from_bytes(m.as_bytes().unwrap()).ok().unwrap().source_node_id == m.source_node_id); }
        1 => { let m = LeaseAck { source_node_id: nd::u64() }; assert!(LeaseAck::from_bytes(m.as_bytes().unwrap()).ok().unwrap().source_node_id == m.source_node_id); }
        2 => again::<SingletonStarted, _>(gp::SingletonStarted { source_node_id: nd::u64(), ..Default::default() }),
        3 => again::<SingletonStopped, _>(gp::SingletonStopped { source_node_id: nd::u64(), ..Default::default() }),
        _ => {
            let k = nd::choose(5) as i32;
            let p = gp::ManagerStatus { singleton_state: EnumOrUnknown::from_i32(k), ..Default::default() };
            let m = GetStatus::read_remote_result(p.write_to_bytes().unwrap()).ok().unwrap();
            assert!(gp::ManagerStatus::parse_from_bytes(&GetStatus::write_remote_result(m).unwrap()).unwrap() == p);
        }
    }
    nd::reach!("done");
}

// ---------------------------------------------------------------- arbitrary bytes
fn any_session(n: usize) { let e = SessionEvent::read_from_bytes(bytes(n)); nd::reach!(e.is_some(), "decoded"); nd::reach!(e.is_none(), "rejected"); }
fn any_client(n: usize) { let e = ClientEvent::read_from_bytes(bytes(n)); nd::reach!(e.is_some(), "decoded"); nd::reach!(e.is_none(), "rejected"); }
fn any_system(n: usize) { let e = SystemEvent::read_from_bytes(bytes(n)); nd::reach!(e.is_some(), "decoded"); nd::reach!(e.is_none(), "rejected"); }
fn any_msg<M: Message>(n: usize) { let m = M::from_bytes(bytes(n)); nd::reach!(m.is_ok(), "decoded"); nd::reach!(m.is_err(), "rejected"); }
fn any_result<M: Message>(n: usize) { let m = M::read_remote_result(bytes(n)); nd::reach!(m.is_ok(), "decoded"); nd::reach!(m.is_err(), "rejected"); }
fn any_control(n: usize) {
    match nd::choose(17) {
        0 => any_msg::<AllocateShard>(n),
        1 => any_result::<AllocateShard>(n),
        2 => any_msg::<ShardAllocated>(n),
        3 => any_msg::<ShardReallocating>(n),
        4 => any_msg::<StopShard>(n),
        5 => any_msg::<ShardStopped>(n),
        6 => any_msg::<RemoteEntityRequest>(n),
        7 => any_msg::<StartEntity>(n),
        8 => any_msg::<RemoveEntity>(n),
        9 => any_msg::<PassivateEntity>(n),
        10 => any_result::<GetShardingStats>(n),
        11 => any_result::<GetShardStats>(n),
        12 => { let m = ShardStateSnapshot::from_remote_envelope(bytes(n)); nd::reach!(m.is_ok(), "snapshot decoded"); }
        13 => any_msg::<RequestLease>(n),
        14 => any_msg::<SingletonStarted>(n),
        15 => any_result::<GetStatus>(n),
        _ => { let m = JournalEntry::read_from_bytes(bytes(n)); nd::reach!(m.is_some(), "entry decoded"); }
    }
}
#[no_mangle] pub extern "C" fn h_wire_any_session5() { any_session(5) }
#[no_mangle] pub extern "C" fn h_wire_any_session6() { any_session(6) }
#[no_mangle] pub extern "C" fn h_wire_any_session7() { any_session(7) }
#[no_mangle] pub extern "C" fn h_wire_any_session8() { any_session(8) }
#[no_mangle] pub extern "C" fn h_wire_any_client5() { any_client(5) }
#[no_mangle] pub extern "C" fn h_wire_any_client6() { any_client(6) }
#[no_mangle] pub extern "C" fn h_wire_any_client7() { any_client(7) }
#[no_mangle] pub extern "C" fn h_wire_any_client8() { any_client(8) }
#[no_mangle] pub extern "C" fn h_wire_any_system7() { any_system(7) }
#[no_mangle] pub extern "C" fn h_wire_any_system8() { any_system(8) }
#[no_mangle] pub extern "C" fn h_wire_any_control4() { any_control(4) }
#[no_mangle] pub extern "C" fn h_wire_any_control5() { any_control(5) }
#[no_mangle] pub extern "C" fn h_wire_any_control6() { any_control(6) }
/// The shortest inputs, which the longer ones do not include.
#[no_mangle]
pub extern "C" fn h_wire_any_short() {
    let n = nd::choose(5) as usize;
    match nd::choose(4) { 0 => any_session(n), 1 => any_client(n), 2 => any_system(n), _ => { if n < 4 { any_control(n) } } }
}
/// Converting whatever a frame can contain into the types the system works with never fails hard.
#[no_mangle]
pub extern "C" fn h_wire_any_fields() {
    match nd::choose(3) {
        0 => { let e = net::ActorRefErr { type_: EnumOrUnknown::from_i32(nd::u32() as i32), serialization_error: EnumOrUnknown::from_i32(nd::u32() as i32), deserialization_error: EnumOrUnknown::from_i32(nd::u32() as i32), ..Default::default() }; let _ = ActorRefErr::from(e); nd::reach!("error"); }
        1 => { let d = timestamp_to_datetime(Timestamp { seconds: nd::i64(), nanos: nd::u32() as i32, ..Default::default() }); nd::reach!(d.is_some(), "valid time"); nd::reach!(d.is_none(), "invalid time"); }
        _ => { let n = RemoteNode::from(net::RemoteNode { node_id: nd::u64(), node_started_at: Some(Timestamp { seconds: nd::i64(), nanos: nd::u32() as i32, ..Default::default() }).into(), ..Default::default() }); nd::reach!(n.node_started_at.is_some(), "node with start time"); nd::reach!(n.node_started_at.is_none(), "node without"); }
    }
}
