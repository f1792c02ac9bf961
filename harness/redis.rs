//! The Redis journal storage against a reference model, and actors that recover from it.
use super::common::*;
use crate::actor::context::ActorContext;
use crate::actor::message::{Envelope, Handler, Message, MessageUnwrapErr, MessageWrapErr};
use crate::actor::system::ActorSystem;
use crate::actor::LocalActorRef;
use crate::coerce_redis::journal::{RedisStorageConfig, RedisStorageProvider};
use crate::persistent::journal::provider::StorageProvider;
use crate::persistent::journal::snapshot::Snapshot;
use crate::persistent::journal::storage::{JournalEntry, JournalStorageRef};
use crate::persistent::journal::types::JournalTypes;
use crate::persistent::journal::PersistErr;
use crate::persistent::failure::PersistFailurePolicy;
use crate::persistent::{Persistence, PersistentActor, Recover, RecoverSnapshot};
use async_trait::async_trait;
use std::sync::Arc;
use tokio::rt;

fn provider(prefix: &str, tags: bool) -> RedisStorageProvider {
    let sys = ActorSystem::builder().system_name("r").build();
    let c = RedisStorageConfig { nodes: vec!["redis://r".to_string()], key_prefix: prefix.to_string(), cluster: false, use_key_hashtags: tags };
    drive(async move { let p = RedisStorageProvider::connect(c, &sys).await; std::mem::forget(sys); p }).expect("connecting hangs")
}
#[derive(Default)]
struct Model { msgs: Vec<(i64, u8)>, snaps: Vec<(i64, u8)>, last: i64 }
fn entry(seq: i64, v: u8) -> JournalEntry { JournalEntry { sequence: seq, payload_type: "t".into(), bytes: Arc::new(vec![v]) } }
fn same(e: &JournalEntry, m: &(i64, u8)) -> bool { e.sequence == m.0 && &*e.payload_type == "t" && e.bytes.len() == 1 && e.bytes[0] == m.1 }
fn same_all(e: Option<Vec<JournalEntry>>, m: Vec<(i64, u8)>) -> bool {
    let e = e.unwrap_or_default();
    if e.len() != m.len() { return false; }
    let mut i = 0;
    while i < e.len() { if !same(&e[i], &m[i]) { return false; } i += 1; }
    true
}
/// sequences 2, 4, ...: there are some in between and before that are not taken
impl Model { fn next(&mut self) -> i64 { self.last += 2; self.last } }
// two journals, one of which is named like a part of the other's keys
static mut SWAP: bool = false;
fn key(k: usize) -> &'static str { if unsafe { SWAP } == (k == 0) { "a" } else { "a:journal" } }
macro_rules! on { ($st:expr, $s:ident, $e:expr) => {{ let $s = $st.clone(); drive(async move { $e.await }).expect("never answered") }} }
fn write(st: &JournalStorageRef, m: &mut [Model; 2], faults: bool) -> u8 {
    let k = nd::choose(2) as usize;
    let c = nd::choose(5);
    // 1: the server cannot be reached; 2: the answer is lost
    let fault = if faults { 1 + nd::choose(2) } else { 0 };
    if fault == 1 { redis::fail(1) } else if fault == 2 { redis::lose_answers(1) }
    let before = (m[k].msgs.clone(), m[k].snaps.clone());
    let r = match c {
        0 => { let (s, v) = (m[k].next(), nd::u8()); m[k].msgs.push((s, v)); on!(st, x, x.write_message(key(k), entry(s, v))) }
        1 => {
            let (s, v) = (m[k].next(), nd::u8());
            let (s2, v2) = (m[k].next(), nd::u8());
            m[k].msgs.push((s, v));
            m[k].msgs.push((s2, v2));
            on!(st, x, x.write_message_batch(key(k), vec![entry(s, v), entry(s2, v2)]))
        }
        2 => { let (s, v) = (m[k].next(), nd::u8()); m[k].snaps.push((s, v)); on!(st, x, x.write_snapshot(key(k), entry(s, v))) }
        3 => { let to = 1 + nd::choose(4) as i64; m[k].msgs.retain(|x| x.0 > to); on!(st, x, x.delete_messages_to(key(k), to)) }
        _ => { m[k].msgs.clear(); m[k].snaps.clear(); on!(st, x, x.delete_all(key(k))) }
    };
    assert!(r.is_ok() == (fault == 0), "what failed is reported as done, or what was done as failed");
    if fault == 1 { m[k].msgs = before.0; m[k].snaps = before.1; }
    if fault == 2 && c < 3 && nd::flip() { // tried again: it is there once
        let (s, v) = if c == 2 { *m[k].snaps.last().unwrap() } else { *m[k].msgs.last().unwrap() };
        if c == 2 { on!(st, x, x.write_snapshot(key(k), entry(s, v))).unwrap(); } else { on!(st, x, x.write_message(key(k), entry(s, v))).unwrap(); }
    }
    c
}
fn check(st: &JournalStorageRef, m: &[Model; 2], all_reads: bool) {
    let k = 0; // (which of the names this is has been chosen)
    let all = m[k].msgs.clone();
    match if all_reads { nd::choose(6) } else { nd::choose(2) } {
        0 => match (on!(st, x, x.read_latest_snapshot(key(k))).unwrap(), m[k].snaps.last()) { (None, None) => {} (Some(e), Some(x)) => assert!(same(&e, x), "wrong latest snapshot"), _ => panic!("latest snapshot missing or invented") },
        1 => assert!(same_all(on!(st, x, x.read_latest_messages(key(k), 0)).unwrap(), all), "messages differ from those written and not deleted"),
        2 => {
            let from = nd::choose(6) as i64;
            let boundary = all.iter().any(|x| x.0 == from);
            let got = on!(st, x, x.read_latest_messages(key(k), from)).unwrap();
            assert!(same_all(got.clone(), all.iter().filter(|x| x.0 >= from).cloned().collect()) || (boundary && same_all(got, all.iter().filter(|x| x.0 > from).cloned().collect())), "messages from a sequence on")
        }
        3 => {
            let (lo, hi) = ([0, 2, 3][nd::choose(3) as usize], [2, 3, 5][nd::choose(3) as usize]);
            assert!(same_all(on!(st, x, x.read_messages(key(k), lo, hi)).unwrap(), all.iter().filter(|x| x.0 >= lo && x.0 <= hi).cloned().collect()), "messages of a range")
        }
        4 => {
            let q = nd::choose(6) as i64;
            match (on!(st, x, x.read_message(key(k), q)).unwrap(), all.iter().find(|x| x.0 == q)) { (None, None) => {} (Some(e), Some(x)) => assert!(same(&e, x), "wrong message"), _ => panic!("message missing or invented") }
        }
        _ => {
            redis::fail(1);
            let failed = match nd::choose(4) { 0 => on!(st, x, x.read_latest_snapshot(key(k))).is_err(), 1 => on!(st, x, x.read_latest_messages(key(k), 0)).is_err(), 2 => on!(st, x, x.read_message(key(k), 1)).is_err(), _ => on!(st, x, x.read_messages(key(k), 0, 9)).is_err() };
            assert!(failed, "a read that failed looks like an empty journal");
        }
    }
}
fn run(n: usize, faults: bool) {
    let st = provider("p", nd::flip()).journal_storage().unwrap();
    let mut m: [Model; 2] = Default::default();
    unsafe { SWAP = nd::flip(); }
    let mut i = 0;
    let mut dels = 0;
    let at = if faults { nd::choose(n as u8) as usize } else { n };
    while i < n { if write(&st, &mut m, i == at) == 3 { dels += 1; } i += 1; }
    check(&st, &m, !faults);
    nd::reach!(m[0].msgs.len() > 0 && dels > 0, "messages left after a delete");
    nd::reach!(m[0].msgs.len() > 0 && m[1].snaps.len() > 0, "two journals");
    nd::reach!(m[0].snaps.len() > 1, "two snapshots");
}
#[no_mangle]
pub extern "C" fn h_redis() { run(2, false) }
#[no_mangle]
pub extern "C" fn h_redis_faults() { run(2, true) }
#[no_mangle]
pub extern "C" fn h_redis_deep() { run(3, false) }

// ---------------------------------------------------------------- actors that recover from it
pub struct P { st: Vec<u8> }
#[derive(Clone)]
pub struct Evt(u8);
impl Message for Evt {
    type Result = ();
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(vec![self.0]) }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { if b.len() == 1 { Ok(Evt(b[0])) } else { Err(MessageUnwrapErr::DeserializationErr) } }
}
pub struct Snap(Vec<u8>);
impl Snapshot for Snap {
    fn into_remote_envelope(self) -> Result<Envelope<Self>, MessageWrapErr> { let mut b = vec![0x5a]; b.extend_from_slice(&self.0); Ok(Envelope::Remote(b)) }
    fn from_remote_envelope(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { if b.len() == 0 || b[0] != 0x5a { Err(MessageUnwrapErr::DeserializationErr) } else { Ok(Snap(b[1..].to_vec())) } }
}
#[async_trait]
impl PersistentActor for P {
    fn configure(t: &mut JournalTypes<Self>) { t.message::<Evt>("e").snapshot::<Snap>("s"); }
    fn persist_failure_policy(&self) -> PersistFailurePolicy { PersistFailurePolicy::ReturnErr }
}
#[async_trait]
impl Recover<Evt> for P { async fn recover(&mut self, m: Evt, _: &mut ActorContext) { self.st.push(m.0) } }
#[async_trait]
impl RecoverSnapshot<Snap> for P { async fn recover(&mut self, s: Snap, _: &mut ActorContext) { self.st = s.0 } }
pub struct Op(u8, u8);
impl Message for Op { type Result = Result<(), PersistErr>; }
#[async_trait]
impl Handler<Op> for P {
    async fn handle(&mut self, op: Op, ctx: &mut ActorContext) -> Result<(), PersistErr> {
        match op.0 {
            0 => { self.persist(&Evt(op.1), ctx).await?; self.st.push(op.1); }
            1 => { let mut e = self.event_batch(ctx); e.message(Evt(op.1)).message(Evt(!op.1)); self.persist_batch(e, ctx).await?; self.st.push(op.1); self.st.push(!op.1); }
            2 => { self.snapshot(Snap(self.st.clone()), ctx).await?; }
            _ => { self.clear_old_messages(ctx).await; }
        }
        Ok(())
    }
}
struct Get;
impl Message for Get { type Result = Vec<u8>; }
#[async_trait]
impl Handler<Get> for P { async fn handle(&mut self, _: Get, _: &mut ActorContext) -> Vec<u8> { self.st.clone() } }
fn start(p: &RedisStorageProvider, k: usize) -> LocalActorRef<P> {
    let sys = ActorSystem::builder().system_name("s").build().to_persistent(Persistence::from(p.clone()));
    let a = spawn(&sys, key(k), P { st: vec![] }).expect("start");
    std::mem::forget(sys);
    a
}
fn state(a: &LocalActorRef<P>) -> Vec<u8> { let a = a.clone(); drive(async move { a.send(Get).await }).expect("no answer").expect("actor gone") }
/// Two actors, any history of events, batches, snapshots and cleanups, a write that fails, restarts: each recovers what it had.
fn recovery(n: usize) {
    let p = provider("", nd::flip());
    let mut a = [start(&p, 0), start(&p, 1)];
    let mut want: [Vec<u8>; 2] = Default::default();
    let at = nd::choose(n as u8 + 1) as usize;
    let (mut snaps, mut after) = (0, false);
    let mut i = 0;
    while i < n {
        let k = nd::choose(2) as usize;
        let (o, v) = (nd::choose(4), nd::u8());
        if i == at { redis::fail(1); }
        let r = { let a = a[k].clone(); drive(async move { a.send(Op(o, v)).await }).expect("never answered").expect("gone") };
        if o < 3 { assert!(r.is_ok() == (i != at), "a failed write is taken for done"); }
        redis::fail(0);
        if i != at { match o { 0 => { want[k].push(v); after |= snaps > 0; } 1 => { want[k].push(v); want[k].push(!v); } 2 => snaps += 1, _ => {} } }
        i += 1;
    }
    let mut k = 0;
    while k < 2 { a[k] = start(&p, k); assert!(state(&a[k]) == want[k], "the recovered state differs from the acknowledged one"); k += 1; }
    nd::reach!(after, "events after a snapshot");
    nd::reach!(at < n && want[0].len() > 1, "a write failed");
}
#[no_mangle]
pub extern "C" fn h_redis_recover() { recovery(3) }
#[no_mangle]
pub extern "C" fn h_redis_recover_deep() { recovery(4) }
