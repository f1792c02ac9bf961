//! Event-sourced actors: journal sequences, recovery, failure policies.
use super::common::*;
use crate::actor::context::ActorContext;
use crate::actor::message::{Envelope, Handler, Message, MessageUnwrapErr, MessageWrapErr};
use crate::actor::system::ActorSystem;
use crate::actor::{Actor, ActorRefErr, LocalActorRef};
use crate::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use crate::persistent::journal::provider::StorageProvider;
use crate::persistent::journal::snapshot::Snapshot;
use crate::persistent::journal::storage::{JournalEntry, JournalStorage, JournalStorageRef};
use crate::persistent::journal::types::JournalTypes;
use crate::persistent::journal::{PersistErr, ReadMessages, RecoveryErr};
use crate::persistent::{Persistence, PersistFailurePolicy, PersistentActor, Recover, RecoverSnapshot, RecoveryFailurePolicy, Retry};
use async_trait::async_trait;
use std::sync::Arc;
use std::time::Duration;
use tokio::rt;

// ---- a storage that can fail or stall on demand, on top of the real in-memory one
#[derive(Clone, Copy, Default)]
struct Faults { writes: u32, snap_reads: u32, msg_reads: u32 }
static mut FAULTS: Faults = Faults { writes: 0, snap_reads: 0, msg_reads: 0 };
static mut WRITES: u32 = 0;
static mut READS: u32 = 0;
static mut STALL: bool = false;
fn faults() -> &'static mut Faults { unsafe { &mut FAULTS } }
struct Store(JournalStorageRef);
/// sequences of accepted writes, per key: they must strictly increase
static mut SEQS: Vec<(String, i64)> = Vec::new();
fn accepted(p: &str, e: &[i64]) {
    unsafe {
        let mut i = 0;
        while i < e.len() {
            match SEQS.iter_mut().find(|x| x.0 == p) {
                Some(x) => { assert!(e[i] > x.1, "sequence numbers of journal entries must strictly increase"); x.1 = e[i]; }
                None => SEQS.push((p.to_string(), e[i])),
            }
            i += 1;
        }
    }
}
struct Provider(JournalStorageRef);
impl StorageProvider for Provider { fn journal_storage(&self) -> Option<JournalStorageRef> { Some(Arc::new(Store(self.0.clone()))) } }
fn stall() -> bool { unsafe { STALL } }
fn write_fails() -> bool { unsafe { WRITES += 1; } let f = faults(); if f.writes > 0 { f.writes -= 1; true } else { false } }
#[async_trait]
impl JournalStorage for Store {
    async fn write_snapshot(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> { if stall() { rt::yield_now().await; } if write_fails() { return Err(anyhow::Error::msg("write")); } accepted(p, &[e.sequence]); let r = self.0.write_snapshot(p, e).await; if stall() { rt::yield_now().await; } r }
    async fn write_message(&self, p: &str, e: JournalEntry) -> anyhow::Result<()> { if stall() { rt::yield_now().await; } if write_fails() { return Err(anyhow::Error::msg("write")); } accepted(p, &[e.sequence]); let r = self.0.write_message(p, e).await; if stall() { rt::yield_now().await; } r }
    async fn write_message_batch(&self, p: &str, e: Vec<JournalEntry>) -> anyhow::Result<()> { if stall() { rt::yield_now().await; } if write_fails() { return Err(anyhow::Error::msg("write")); } accepted(p, &e.iter().map(|x| x.sequence).collect::<Vec<_>>()); let r = self.0.write_message_batch(p, e).await; if stall() { rt::yield_now().await; } r }
    async fn read_latest_snapshot(&self, p: &str) -> anyhow::Result<Option<JournalEntry>> { unsafe { READS += 1; } if stall() { rt::yield_now().await; } if faults().snap_reads > 0 { faults().snap_reads -= 1; return Err(anyhow::Error::msg("read")); } self.0.read_latest_snapshot(p).await }
    async fn read_latest_messages(&self, p: &str, from: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> { if stall() { rt::yield_now().await; } if faults().msg_reads > 0 { faults().msg_reads -= 1; return Err(anyhow::Error::msg("read")); } self.0.read_latest_messages(p, from).await }
    async fn read_message(&self, p: &str, s: i64) -> anyhow::Result<Option<JournalEntry>> { self.0.read_message(p, s).await }
    async fn read_messages(&self, p: &str, from: i64, to: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> { self.0.read_messages(p, from, to).await }
    async fn delete_messages_to(&self, p: &str, to: i64) -> anyhow::Result<()> { self.0.delete_messages_to(p, to).await }
    async fn delete_all(&self, p: &str) -> anyhow::Result<()> { self.0.delete_all(p).await }
}

// ---- the actor under test
static mut PERSIST_POLICY: Option<PersistFailurePolicy> = None;
static mut RECOVERY_POLICY: Option<RecoveryFailurePolicy> = None;
static mut HOOKS: Vec<u8> = Vec::new();
fn hook(h: u8) { unsafe { HOOKS.push(h) } }
fn hooks(h: u8) -> usize { unsafe { HOOKS.iter().filter(|x| **x == h).count() } }
const PRE: u8 = 0; const POST: u8 = 1; const ERR: u8 = 2; const FAILED: u8 = 3; const STOPPED: u8 = 4; const EVT: u8 = 5; const SNAP: u8 = 6;

pub struct P { st: Vec<u8> }
#[derive(Clone)]
pub struct Evt(u8);
#[derive(Clone)]
pub struct Evt2(u8);
impl Message for Evt {
    type Result = ();
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(vec![self.0]) }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { if b.len() == 1 { Ok(Evt(b[0])) } else { Err(MessageUnwrapErr::DeserializationErr) } }
}
impl Message for Evt2 {
    type Result = ();
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(vec![self.0, self.0]) }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { if b.len() == 2 { Ok(Evt2(b[0])) } else { Err(MessageUnwrapErr::DeserializationErr) } }
}
pub struct Snap(Vec<u8>);
impl Snapshot for Snap {
    fn into_remote_envelope(self) -> Result<Envelope<Self>, MessageWrapErr> { let mut b = vec![0x5a]; b.extend_from_slice(&self.0); Ok(Envelope::Remote(b)) }
    fn from_remote_envelope(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { if b.len() == 0 || b[0] != 0x5a { Err(MessageUnwrapErr::DeserializationErr) } else { Ok(Snap(b[1..].to_vec())) } }
}
#[async_trait]
impl PersistentActor for P {
    fn persistence_key(&self, _: &ActorContext) -> String { "k".to_string() }
    fn configure(t: &mut JournalTypes<Self>) { t.message::<Evt>("e").message::<Evt2>("e2").snapshot::<Snap>("s"); }
    async fn pre_recovery(&mut self, _: &mut ActorContext) { hook(PRE) }
    async fn post_recovery(&mut self, _: &mut ActorContext) { hook(POST) }
    async fn stopped(&mut self, _: &mut ActorContext) { hook(STOPPED) }
    fn recovery_failure_policy(&self) -> RecoveryFailurePolicy { unsafe { RECOVERY_POLICY.unwrap_or(RecoveryFailurePolicy::StopActor) } }
    fn persist_failure_policy(&self) -> PersistFailurePolicy { unsafe { PERSIST_POLICY.unwrap_or(PersistFailurePolicy::ReturnErr) } }
    async fn on_recovery_err(&mut self, _: RecoveryErr, _: &mut ActorContext) { hook(ERR) }
    async fn on_recovery_failed(&mut self, _: &mut ActorContext) { hook(FAILED) }
}
#[async_trait]
impl Recover<Evt> for P { async fn recover(&mut self, m: Evt, _: &mut ActorContext) { hook(EVT); self.st.push(m.0) } }
#[async_trait]
impl Recover<Evt2> for P { async fn recover(&mut self, m: Evt2, _: &mut ActorContext) { hook(EVT); self.st.push(m.0) } }
#[async_trait]
impl RecoverSnapshot<Snap> for P { async fn recover(&mut self, s: Snap, _: &mut ActorContext) { hook(SNAP); self.st = s.0 } }

#[derive(Clone, Copy)]
pub enum Op { Persist(u8), Persist2(u8), Batch(u8, u8), Snapshot, Clear, Read }
impl Message for Op { type Result = Result<(), PersistErr>; }
#[async_trait]
impl Handler<Op> for P {
    async fn handle(&mut self, op: Op, ctx: &mut ActorContext) -> Result<(), PersistErr> {
        match op {
            Op::Persist(v) => { self.persist(&Evt(v), ctx).await?; self.st.push(v); }
            Op::Persist2(v) => { self.persist(&Evt2(v), ctx).await?; self.st.push(v); }
            Op::Batch(a, b) => { let mut e = self.event_batch(ctx); e.message(Evt(a)).message(Evt2(b)); self.persist_batch(e, ctx).await?; self.st.push(a); self.st.push(b); }
            Op::Snapshot => { self.snapshot(Snap(self.st.clone()), ctx).await?; }
            Op::Clear => { self.clear_old_messages(ctx).await; }
            Op::Read => {
                // everything the journal holds is readable by sequence, under distinct increasing sequences
                let last = self.last_sequence_id(ctx);
                let all = self.read_messages(ReadMessages::range(None, 0..last + 1), ctx).await.unwrap().unwrap_or_default();
                let mut i = 0;
                while i < all.len() {
                    assert!(i == 0 || all[i - 1].sequence < all[i].sequence, "journal sequences must strictly increase");
                    assert!(all[i].sequence <= last, "an entry lies beyond the journal's last sequence");
                    let one = self.read_messages(ReadMessages::message(None, all[i].sequence), ctx).await.unwrap().expect("entry readable by its sequence");
                    assert!(one.len() == 1 && one[0].bytes == all[i].bytes, "the entry read by sequence is not the one written under it");
                    i += 1;
                }
            }
        }
        Ok(())
    }
}
struct Get;
impl Message for Get { type Result = Vec<u8>; }
#[async_trait]
impl Handler<Get> for P { async fn handle(&mut self, _: Get, _: &mut ActorContext) -> Vec<u8> { self.st.clone() } }

fn system(st: &JournalStorageRef) -> ActorSystem { ActorSystem::builder().system_name("s").build().to_persistent(Persistence::from(Provider(st.clone()))) }
fn storage() -> JournalStorageRef { InMemoryStorageProvider::new().journal_storage().unwrap() }
fn start(sys: &ActorSystem) -> LocalActorRef<P> { spawn(sys, "p", P { st: vec![] }).expect("start") }
fn send(a: &LocalActorRef<P>, op: Op) -> Result<(), PersistErr> { let a = a.clone(); drive(async move { a.send(op).await }).expect("no answer").expect("actor gone") }
fn state(a: &LocalActorRef<P>) -> Vec<u8> { let a = a.clone(); drive(async move { a.send(Get).await }).expect("no answer").expect("actor gone") }
fn stop(a: LocalActorRef<P>) { drive(async move { a.stop().await }).expect("stop never finished").expect("stop failed"); }

fn op(choice: u8) -> Op {
    match choice { 0 => Op::Persist(nd::u8()), 1 => Op::Persist2(nd::u8()), 2 => Op::Batch(nd::u8(), nd::u8()), 3 => Op::Snapshot, _ => Op::Clear }
}

fn history(n: usize, fault: bool) {
    let st = storage();
    let mut sys = system(&st);
    let mut a = start(&sys);
    let mut want: Vec<u8> = vec![];
    let mut i = 0;
    let (mut snaps, mut restarts, mut after) = (0, 0, false);
    while i < n {
        let c = nd::choose(6);
        if c == 5 {
            if nd::flip() { stop(a); } // otherwise the process dies: the old system is simply abandoned
            sys = system(&st);
            a = start(&sys);
            restarts += 1;
            assert!(state(&a) == want, "recovered state differs from the state before the restart");
        } else {
            let o = op(c);
            if fault && c != 4 { faults().writes = nd::choose(2) as u32; }
            let failing = faults().writes > 0;
            let r = send(&a, o);
            if failing { assert!(matches!(r, Err(PersistErr::Storage(_))), "a failed write must be reported"); faults().writes = 0; }
            else {
                assert!(r.is_ok());
                match o { Op::Persist(v) | Op::Persist2(v) => { want.push(v); after |= snaps > 0; } Op::Batch(x, y) => { want.push(x); want.push(y); } Op::Snapshot => snaps += 1, _ => {} }
            }
        }
        i += 1;
    }
    send(&a, Op::Read);
    let s2 = system(&st);
    let b = start(&s2);
    assert!(state(&b) == want, "recovered state differs from the state before the restart");
    send(&b, Op::Read);
    nd::reach!(snaps > 0 && want.len() > 1, "snapshot and events");
    nd::reach!(after, "event after snapshot");
    nd::reach!(restarts > 0, "restart");
}
#[no_mangle]
pub extern "C" fn h_journal_history3() { history(3, false) }
#[no_mangle]
pub extern "C" fn h_journal_history4() { history(4, false) }
#[no_mangle]
pub extern "C" fn h_journal_history5() { history(5, false) }
#[no_mangle]
pub extern "C" fn h_journal_faults3() { history(3, true) }
#[no_mangle]
pub extern "C" fn h_journal_faults4() { history(4, true) }

/// The process dies at an arbitrary point while events are being persisted: everything that was
/// acknowledged is recovered, nothing that was never submitted appears, order is kept, no event is
/// half applied (a batch is recovered whole or not at all).
fn crash(n: usize) {
    let st = storage();
    let sys = system(&st);
    let a = start(&sys);
    unsafe { STALL = true; }
    let mut subs: Vec<Vec<u8>> = vec![];
    let mut acks = vec![];
    let mut i = 0;
    while i < n {
        let o = op(nd::choose(4));
        subs.push(match o { Op::Persist(v) | Op::Persist2(v) => vec![v], Op::Batch(x, y) => vec![x, y], _ => vec![] });
        let a2 = a.clone();
        acks.push(rt::go(async move { a2.send(o).await }));
        i += 1;
    }
    // the crash point: some number of task polls from now
    let steps = nd::choose(16);
    let mut k = 0;
    let mut id = 0;
    while k < steps && rt::any_ready() {
        if rt::step(id % rt::spawned()) { k += 1; }
        id += 1;
    }
    let mut acked = 0;
    while acked < n { match acks[acked].try_recv() { Ok(r) => { assert!(r.expect("actor gone").is_ok()); acked += 1 } Err(_) => break } }
    unsafe { STALL = false; }
    let s2 = system(&st);
    let b = start_new(&s2);
    let got = b;
    // some prefix of the submitted operations, at least the acknowledged ones
    let mut ok = false;
    let mut p = acked;
    while p <= n {
        let mut w = vec![];
        let mut j = 0;
        while j < p { w.extend_from_slice(&subs[j]); j += 1; }
        if w == got { ok = true; }
        p += 1;
    }
    assert!(ok, "recovered state is not the acknowledged events (plus at most later submitted ones, whole and in order)");
    nd::reach!(acked > 0 && acked < n, "crash between acknowledgements");
    nd::reach!(acked == n, "crash after all");
    nd::reach!(acked == 0 && got.len() > 0, "stored but not acknowledged");
}
fn start_new(sys: &ActorSystem) -> Vec<u8> {
    // the old system's tasks are never polled again: only the new ones run
    let first = rt::spawned();
    let s = sys.clone();
    let mut r = rt::go(async move { let a = s.new_actor("p2".to_string(), P { st: vec![] }, crate::actor::scheduler::ActorType::Anonymous).await.expect("start"); a.send(Get).await.expect("gone") });
    let mut n = 0;
    while n < 40 { let mut id = first; while id < rt::spawned() { rt::step(id); id += 1; } n += 1; }
    r.try_recv().expect("recovery never finished")
}
#[no_mangle]
pub extern "C" fn h_journal_crash2() { crash(2) }
#[no_mangle]
pub extern "C" fn h_journal_crash3() { crash(3) }

/// Storage failures while persisting: attempts, result, actor fate and stored events per policy.
#[no_mangle]
pub extern "C" fn h_persist_policy() {
    let st = storage();
    let sys = system(&st);
    let pol = nd::choose(6);
    let max = nd::choose(4) as usize;
    let delay = match nd::choose(2) { 0 => None, _ => Some(Duration::from_millis(250)) };
    let policy = match pol {
        0 => PersistFailurePolicy::Retry(Retry::UntilSuccess { delay }),
        1 | 2 => PersistFailurePolicy::Retry(Retry::MaxAttempts { max_attempts: max, delay }),
        3 => PersistFailurePolicy::ReturnErr,
        4 => PersistFailurePolicy::StopActor,
        _ => PersistFailurePolicy::Panic,
    };
    unsafe { PERSIST_POLICY = Some(policy); }
    let a = start(&sys);
    let fails = nd::choose(5) as u32;
    faults().writes = fails;
    unsafe { WRITES = 0; }
    let o = op(nd::choose(4));
    let w = match o { Op::Persist(v) | Op::Persist2(v) => vec![v], Op::Batch(x, y) => vec![x, y], _ => vec![] };
    let a2 = a.clone();
    let t0 = symstd::time::now();
    if pol == 5 && fails > 0 { nd::panic_ok(true); }
    let r = drive_timed(async move { a2.send(o).await }, 10).expect("persist never finished").expect("no reply");
    if pol == 5 { assert!(fails == 0, "the Panic policy must panic"); }
    rt::run(200);
    let tries = unsafe { WRITES };
    let took = symstd::time::now() - t0;
    let d = delay.map_or(0, |d| d.as_nanos() as u64);
    let stopped = hooks(STOPPED) == 1;
    let mut stored = w.clone();
    match pol {
        0 => { assert!(r.is_ok() && tries == fails + 1 && !stopped); assert!(took == d * fails as u64); }
        1 | 2 => {
            let allowed = if max == 0 { 1 } else { max as u32 };
            if fails < allowed { assert!(r.is_ok() && tries == fails + 1 && !stopped); assert!(took == d * fails as u64); }
            else { assert!(matches!(r, Err(PersistErr::Storage(_)))); assert!(tries == allowed, "attempts exceed max_attempts"); assert!(stopped, "the actor must stop once attempts are exhausted"); assert!(took == d * (allowed as u64 - 1)); stored = vec![]; }
        }
        3 => if fails == 0 { assert!(r.is_ok() && !stopped) } else { assert!(matches!(r, Err(PersistErr::Storage(_))) && tries == 1 && !stopped); stored = vec![]; },
        4 => if fails == 0 { assert!(r.is_ok() && !stopped) } else { assert!(matches!(r, Err(PersistErr::ActorStopping(_))) && tries == 1); assert!(stopped); stored = vec![]; },
        _ => assert!(r.is_ok() && !stopped),
    }
    faults().writes = 0;
    if !stopped { stop(a); }
    let b = spawn(&sys, "p3", P { st: vec![] }).expect("start");
    assert!(state(&b) == stored, "the journal must hold the event exactly once if and only if persisting succeeded");
    nd::reach!(pol == 0 && fails == 4, "retried until success");
    nd::reach!(pol == 1 && r.is_err() && max == 3, "attempts exhausted");
    nd::reach!(pol == 3 && fails > 0, "error returned");
    nd::reach!(pol == 4 && fails > 0, "actor stopped");
}

/// Storage failures and undecodable entries while recovering.
#[no_mangle]
pub extern "C" fn h_recovery_policy() {
    let st = storage();
    let pol = nd::choose(4);
    let max = nd::choose(4) as usize;
    let delay = match nd::choose(2) { 0 => None, _ => Some(Duration::from_millis(250)) };
    let policy = match pol {
        0 => RecoveryFailurePolicy::Retry(Retry::UntilSuccess { delay }),
        1 => RecoveryFailurePolicy::Retry(Retry::MaxAttempts { max_attempts: max, delay }),
        2 => RecoveryFailurePolicy::StopActor,
        _ => RecoveryFailurePolicy::Panic,
    };
    unsafe { RECOVERY_POLICY = Some(policy); }
    let s1 = system(&st);
    let a = start(&s1);
    let (x, y) = (nd::u8(), nd::u8());
    send(&a, Op::Persist(x)).unwrap();
    send(&a, Op::Snapshot).unwrap();
    send(&a, Op::Persist(y)).unwrap();
    stop(a);
    unsafe { HOOKS.clear(); READS = 0; }
    let (f1, f2) = (nd::choose(3) as u32, nd::choose(3) as u32);
    faults().snap_reads = f1;
    faults().msg_reads = f2;
    let fails = f1 + f2;
    let t0 = symstd::time::now();
    if pol == 3 && fails > 0 { nd::panic_ok(true); }
    let s2 = system(&st);
    let s3 = s2.clone();
    let r = drive_timed(async move { s3.new_actor("p".to_string(), P { st: vec![] }, crate::actor::scheduler::ActorType::Anonymous).await }, 10).expect("start never finished");
    if pol == 3 { assert!(fails == 0, "the Panic policy must panic"); }
    rt::run(200);
    let took = symstd::time::now() - t0;
    let d = delay.map_or(0, |d| d.as_nanos() as u64);
    let allowed = match pol { 0 => u32::MAX, 1 => if max == 0 { 1 } else { max as u32 }, _ => 1 };
    assert!(hooks(PRE) == 1);
    if fails < allowed {
        let b = r.expect("recovery should have succeeded");
        assert!(state(&b) == vec![x, y], "state recovered after retries differs");
        assert!(hooks(SNAP) == 1 && hooks(EVT) == 1 && hooks(POST) == 1 && hooks(FAILED) == 0 && hooks(ERR) == fails as usize && hooks(STOPPED) == 0);
        assert!(took == d * fails as u64);
        // the recovered journal continues where the old one ended
        send(&b, Op::Persist(7)).unwrap();
        send(&b, Op::Read).unwrap();
        stop(b);
        let c = spawn(&s2, "q", P { st: vec![] }).expect("start");
        assert!(state(&c) == vec![x, y, 7]);
    } else {
        assert!(r.is_err(), "an actor whose recovery failed must not be handed out");
        assert!(hooks(POST) == 0 && hooks(EVT) == 0 && hooks(SNAP) == 0, "nothing may be applied when recovery failed");
        assert!(hooks(FAILED) == 1 && hooks(ERR) == allowed as usize);
        assert!(took == d * (allowed as u64 - 1));
    }
    nd::reach!(pol == 0 && fails == 4, "retried until success");
    nd::reach!(pol == 1 && fails >= allowed && max == 3, "attempts exhausted");
    nd::reach!(pol == 2 && fails > 0, "stopped");
}

/// A stored snapshot or event that cannot be decoded: the error is reported, the actor does not start.
#[no_mangle]
pub extern "C" fn h_recovery_corrupt() {
    let st = storage();
    let n = 3;
    let bad = nd::choose(5) as usize; // 0: snapshot, 1..3: event, 4: none
    let (a, b, c) = (nd::u8(), nd::u8(), nd::u8());
    let vals = [a, b, c];
    let w = st.clone();
    drive(async move {
        w.write_snapshot("k", JournalEntry { sequence: 1, payload_type: "s".into(), bytes: Arc::new(if bad == 0 { vec![0xff] } else { vec![0x5a, 9] }) }).await.unwrap();
        let mut i = 0;
        while i < n {
            w.write_message("k", JournalEntry { sequence: 2 + i as i64, payload_type: "e".into(), bytes: Arc::new(if bad == i + 1 { vec![1, 2, 3] } else { vec![vals[i]] }) }).await.unwrap();
            i += 1;
        }
    }).unwrap();
    let sys = system(&st);
    let r = spawn(&sys, "p", P { st: vec![] });
    rt::run(100);
    if bad == 4 { assert!(state(&r.unwrap()) == vec![9, a, b, c]); assert!(hooks(ERR) == 0 && hooks(POST) == 1); }
    else {
        assert!(r.is_err(), "an actor whose recovery failed must not be handed out");
        assert!(hooks(ERR) == 1 && hooks(POST) == 0);
        assert!(hooks(EVT) == if bad == 0 { 0 } else { bad - 1 }, "events after the undecodable one must not be applied");
    }
    nd::reach!(bad == 2, "corrupt event");
}

// ---- a second actor type with a storage provider of its own
pub struct Q { st: Vec<u8>, key: String }
#[async_trait]
impl PersistentActor for Q {
    fn persistence_key(&self, _: &ActorContext) -> String { self.key.clone() }
    fn configure(t: &mut JournalTypes<Self>) { t.message::<Evt>("e"); }
    fn persist_failure_policy(&self) -> PersistFailurePolicy { PersistFailurePolicy::ReturnErr }
}
#[async_trait]
impl Recover<Evt> for Q { async fn recover(&mut self, m: Evt, _: &mut ActorContext) { self.st.push(m.0) } }
#[async_trait]
impl Handler<Evt> for Q { async fn handle(&mut self, m: Evt, ctx: &mut ActorContext) { self.persist(&m, ctx).await.unwrap(); self.st.push(m.0); } }
#[async_trait]
impl Handler<Get> for Q { async fn handle(&mut self, _: Get, _: &mut ActorContext) -> Vec<u8> { self.st.clone() } }
fn qsend(a: &LocalActorRef<Q>, v: u8) { let a = a.clone(); drive(async move { a.send(Evt(v)).await }).expect("no answer").expect("gone") }
fn qstate(a: &LocalActorRef<Q>) -> Vec<u8> { let a = a.clone(); drive(async move { a.send(Get).await }).expect("no answer").expect("gone") }

/// Journals are isolated by persistence key and by the provider configured for the actor type.
#[no_mangle]
pub extern "C" fn h_journal_isolation() {
    let (d, q) = (storage(), storage());
    let own = nd::flip();
    let same_key = nd::flip();
    let mk = |d: &JournalStorageRef, q: &JournalStorageRef| { let p = Persistence::from(Provider(d.clone())); ActorSystem::builder().system_name("s").build().to_persistent(if own { p.actor_provider::<Q, _>(Provider(q.clone())) } else { p }) };
    let sys = mk(&d, &q);
    let p = start(&sys);
    let (k1, k2) = if same_key { ("a", "a") } else { ("a", "ab") };
    let (v1, v2, v3) = (nd::u8(), nd::u8(), nd::u8());
    let q1 = spawn(&sys, "q1", Q { st: vec![], key: k1.into() }).unwrap();
    send(&p, Op::Persist(v1)).unwrap();
    qsend(&q1, v2);
    let mut want1 = vec![v2];
    let q2 = spawn(&sys, "q2", Q { st: vec![], key: k2.into() }).unwrap();
    let mut want2 = if same_key { vec![v2] } else { vec![] };
    qsend(&q2, v3);
    want2.push(v3);
    if same_key { want1.push(v3); }
    let s2 = mk(&d, &q);
    let q1 = spawn(&s2, "q1", Q { st: vec![], key: k1.into() }).unwrap();
    let q2 = spawn(&s2, "q2", Q { st: vec![], key: k2.into() }).unwrap();
    let p = start(&s2);
    assert!(state(&p) == vec![v1]);
    assert!(qstate(&q1) == want1);
    assert!(qstate(&q2) == want2);
    // where the events lie
    let st = if own { q } else { d.clone() };
    let n = drive(async move { st.read_latest_messages("a", 0).await.unwrap().map_or(0, |m| m.len()) }).unwrap();
    assert!(n == want1.len(), "the events are not in the provider configured for the actor type");
    nd::reach!(own, "own provider");
    nd::reach!(same_key, "same key");
}

/// A journal that is already long: whatever its last sequences, what is written next continues it and is recovered.
#[no_mangle]
pub extern "C" fn h_journal_seq() {
    let st = storage();
    let (s0, s1) = (nd::i64(), nd::i64());
    nd::assume(s0 > 0 && s1 > s0 && s1 < i64::MAX - 16);
    let (x, y) = (nd::u8(), nd::u8());
    let snap = nd::choose(3);
    let e = |s: i64, t: &str, b: Vec<u8>| JournalEntry { sequence: s, payload_type: t.into(), bytes: Arc::new(b) };
    let mut want = vec![];
    match snap {
        0 => { rt::now(st.write_message("k", e(s0, "e", vec![x]))).unwrap(); rt::now(st.write_message("k", e(s1, "e2", vec![y, y]))).unwrap(); want.push(x); want.push(y); }
        1 => { rt::now(st.write_snapshot("k", e(s0, "s", vec![0x5a, x]))).unwrap(); rt::now(st.write_message("k", e(s1, "e", vec![y]))).unwrap(); want.push(x); want.push(y); }
        _ => { rt::now(st.write_message("k", e(s0, "e", vec![y]))).unwrap(); rt::now(st.write_snapshot("k", e(s1, "s", vec![0x5a, x]))).unwrap(); want.push(x); }
    }
    unsafe { SEQS.push(("k".to_string(), s1)); }
    let sys = system(&st);
    let a = start(&sys);
    assert!(state(&a) == want, "recovered state differs from what is stored");
    let o = op(nd::choose(5));
    assert!(send(&a, o).is_ok());
    match o { Op::Persist(v) | Op::Persist2(v) => want.push(v), Op::Batch(v, w) => { want.push(v); want.push(w); } _ => {} }
    send(&a, Op::Read);
    let s2 = system(&st);
    let b = start(&s2);
    assert!(state(&b) == want, "recovered state differs from the state before the restart");
    send(&b, Op::Read);
    nd::reach!(snap == 1 && want.len() == 4, "batch after snapshot and message");
    nd::reach!(s1 > 1 << 40, "long journal");
}
struct Many(Vec<u8>);
impl Message for Many { type Result = Result<(), PersistErr>; }
#[async_trait]
impl Handler<Many> for P {
    async fn handle(&mut self, m: Many, ctx: &mut ActorContext) -> Result<(), PersistErr> {
        let mut e = self.event_batch(ctx);
        let mut i = 0;
        while i < m.0.len() { if i % 2 == 0 { e.message(Evt(m.0[i])); } else { e.message(Evt2(m.0[i])); } i += 1; }
        self.persist_batch(e, ctx).await?;
        self.st.extend_from_slice(&m.0);
        Ok(())
    }
}
/// Batches of any small size between single events.
#[no_mangle]
pub extern "C" fn h_journal_batch() {
    let st = storage();
    let sys = system(&st);
    let a = start(&sys);
    let mut want = vec![];
    let first = nd::choose(3);
    if first == 1 { let v = nd::u8(); want.push(v); assert!(send(&a, Op::Persist(v)).is_ok()); } else if first == 2 { assert!(send(&a, Op::Snapshot).is_ok()); }
    let n = nd::choose(5) as usize;
    let m = bytes(n);
    want.extend_from_slice(&m);
    let fail = nd::flip();
    faults().writes = fail as u32;
    let a2 = a.clone();
    let m2 = m.clone();
    let r = drive(async move { a2.send(Many(m2)).await }).expect("no answer").expect("actor gone");
    faults().writes = 0;
    if fail { assert!(r.is_err() || n == 0, "a failed write must be reported"); want.truncate(want.len() - n); } else { assert!(r.is_ok()); }
    let v = nd::u8();
    want.push(v);
    assert!(send(&a, Op::Persist(v)).is_ok());
    send(&a, Op::Read);
    let s2 = system(&st);
    let b = start(&s2);
    assert!(state(&b) == want, "recovered state differs from the state before the restart");
    send(&b, Op::Read);
    nd::reach!(first == 1 && n == 4 && !fail, "long batch");
    nd::reach!(fail && n > 2, "long batch refused");
}
