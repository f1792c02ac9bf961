//! Mailboxes and lifecycle.
use super::common::*;
use crate::actor::context::{ActorContext, ActorStatus};
use crate::actor::lifecycle::{Status, Stop};
use crate::actor::message::{Handler, Message};
use crate::actor::scheduler::ActorType;
use crate::actor::system::ActorSystem;
use crate::actor::{Actor, ActorRef, ActorRefErr, LocalActorRef, PipeTo, Receiver};
use async_trait::async_trait;
use std::sync::Arc;
use tokio::rt;
use tokio::sync::oneshot;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev { Started, Begin(u8, u64), End(u8, u64), Stopping, Stopped }
static mut LOG: Vec<Ev> = Vec::new();
fn log(e: Ev) { unsafe { LOG.push(e) } }
fn evs() -> &'static Vec<Ev> { unsafe { &LOG } }

/// records everything it does; yields in the middle of every hook and handler
pub struct Rec { start: u8 }
#[async_trait]
impl Actor for Rec {
    async fn started(&mut self, ctx: &mut ActorContext) {
        rt::yield_now().await;
        log(Ev::Started);
        if self.start == 1 { ctx.stop(None); }
    }
    async fn stopped(&mut self, _: &mut ActorContext) { log(Ev::Stopping); rt::yield_now().await; log(Ev::Stopped); }
}
/// u8: who sent it, u64: payload
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Num(pub u8, pub u64);
impl Message for Num { type Result = (u8, u64); }
#[async_trait]
impl Handler<Num> for Rec {
    async fn handle(&mut self, m: Num, _: &mut ActorContext) -> (u8, u64) {
        log(Ev::Begin(m.0, m.1));
        rt::yield_now().await;
        log(Ev::End(m.0, m.1));
        (m.0, m.1 ^ 0x5555)
    }
}
/// stops itself while handling
pub struct StopSelf(Option<oneshot::Sender<()>>, Option<oneshot::Sender<()>>);
impl Message for StopSelf { type Result = u64; }
#[async_trait]
impl Handler<StopSelf> for Rec {
    async fn handle(&mut self, m: StopSelf, ctx: &mut ActorContext) -> u64 { log(Ev::Begin(9, 9)); if let Some(o) = m.1 { ctx.add_on_stopped_handler(o); } ctx.stop(m.0); rt::yield_now().await; log(Ev::End(9, 9)); 99 }
}
fn system() -> ActorSystem { ActorSystem::builder().system_name("s").build() }

/// Started first, handlers never overlap or interleave with hooks, nothing after stopped; returns the handled messages in order.
fn wellformed(l: &[Ev]) -> Vec<(u8, u64)> {
    let mut out = vec![];
    let mut i = 0;
    let mut stopped = false;
    while i < l.len() {
        assert!(!stopped, "something ran after stopped()");
        match l[i] {
            Ev::Started => { assert!(i == 0, "started() must run first and once"); i += 1; }
            Ev::Begin(w, x) => {
                assert!(i > 0, "a message was handled before started()");
                assert!(i + 1 < l.len() && l[i + 1] == Ev::End(w, x), "handlers overlap, or a handler was cut off");
                out.push((w, x));
                i += 2;
            }
            Ev::Stopping => { assert!(i + 1 < l.len() && l[i + 1] == Ev::Stopped, "stopped() was cut off"); stopped = true; i += 2; }
            _ => panic!("stray event"),
        }
    }
    out
}

/// Two senders and the actor under every interleaving: messages of one sender are handled in the order it sent
/// them, every accepted message exactly once, one at a time, each reply reaching the call it answers.
fn fifo(choices: usize, n: u64, api: u8) {
    let sys = system();
    let (a, b) = (nd::u64(), nd::u64());
    nd::assume(a < u64::MAX - 8 && b < u64::MAX - 8);
    let s2 = sys.clone();
    // sending may start before the actor has
    let r = if nd::flip() { rt::now(sys.new_actor_deferred("a", Rec { start: 0 }, ActorType::Anonymous)) } else { spawn(&sys, "a", Rec { start: 0 }).unwrap() };
    let send = move |who: u8, base: u64, r: LocalActorRef<Rec>| async move {
        let mut i = 0;
        while i < n {
            let m = Num(who, base + i);
            if i + 1 < n {
                match api {
                    0 => r.notify(m).expect("notify"),
                    1 => ActorRef::from(r.clone()).notify(m).await.expect("notify"),
                    _ => Receiver::<Num>::from(r.clone()).notify(m).expect("notify"),
                }
                rt::yield_now().await;
            } else {
                let v = match api { 0 => r.send(m).await, 1 => ActorRef::from(r.clone()).send(m).await, _ => Receiver::<Num>::from(r.clone()).send(m).await };
                assert!(v == Ok((who, (base + i) ^ 0x5555)), "a call got something else than the reply to its own message");
            }
            i += 1;
        }
        true
    };
    let mut f1 = rt::go(send(1, a, r.clone()));
    let mut f2 = rt::go(send(2, b, r.clone()));
    rt::explore(choices);
    assert!(f1.try_recv() == Ok(true) && f2.try_recv() == Ok(true), "a send was never answered");
    let h = wellformed(evs());
    assert!(h.len() == 2 * n as usize, "a message was lost or duplicated");
    let (mut p, mut q) = (0, 0);
    for (w, x) in h.iter() {
        if *w == 1 { assert!(*x == a + p, "messages of one sender reordered"); p += 1; } else { assert!(*x == b + q, "messages of one sender reordered"); q += 1; }
    }
    nd::reach!(h[0].0 == 2, "second sender first");
    nd::reach!(h[0].0 == 1 && h[1].0 == 2 && h[2].0 == 1, "alternating");
}
#[no_mangle]
pub extern "C" fn h_actor_fifo() { fifo(6, 3, nd::choose(3)) }
#[no_mangle]
pub extern "C" fn h_actor_fifo_deep() { fifo(11, 3, 0) }

/// deliver(), exec(), pipe_to and blocking-free replies all go through the same mailbox order.
#[no_mangle]
pub extern "C" fn h_actor_apis() {
    let sys = system();
    let r = spawn(&sys, "a", Rec { start: 0 }).unwrap();
    let (x, y) = (nd::u64(), nd::u64());
    let (tx, mut rx) = oneshot::channel();
    r.notify(Num(1, x)).unwrap();
    r.deliver(Num(1, y), tx).unwrap();
    let r2 = r.clone();
    let mut e = rt::go(async move { r2.exec(|a: &mut Rec| { log(Ev::Begin(3, 3)); log(Ev::End(3, 3)); a.start }).await });
    let r3: ActorRef<Rec> = r.clone().into();
    (async move { rt::yield_now().await; Num(4, x) }).pipe_to(r3);
    r.notify_exec(|_: &mut Rec| { log(Ev::Begin(5, 5)); log(Ev::End(5, 5)); }).unwrap();
    let mut st = { let r = r.clone(); rt::go(async move { r.status().await }) };
    rt::explore(6);
    assert!(rx.try_recv() == Ok((1, y ^ 0x5555)), "deliver() must answer on the channel it was given");
    assert!(e.try_recv() == Ok(Ok(0)));
    assert!(st.try_recv() == Ok(Ok(ActorStatus::Started)));
    let h = wellformed(evs());
    assert!(h.len() == 5);
    let pos = |w: u8, v: u64| h.iter().position(|e| *e == (w, v)).expect("lost");
    assert!(h[0] == (1, x) && h[1] == (1, y) && pos(5, 5) > 1 && pos(4, x) > 1 && pos(3, 3) > 1);
    nd::reach!("done");
}

/// Stop in every position relative to other messages, from every source, under every interleaving.
fn stopping(choices: usize) {
    let sys = system();
    let kind = nd::choose(4);
    let tracked = nd::flip();
    let s2 = sys.clone();
    let r = if tracked { spawn_tracked(&sys, "a", Rec { start: 0 }) } else { spawn(&sys, "a", Rec { start: 0 }) }.unwrap();
    let (x, y) = (nd::u64(), nd::u64());
    let mk = |m: Num, r: LocalActorRef<Rec>| async move { r.send(m).await };
    let mut f1 = rt::go(mk(Num(1, x), r.clone()));
    let r2 = r.clone();
    let mut stop_evs = rt::go(async move {
        let res = match kind {
            0 => r2.stop().await,
            1 => r2.notify_stop(),
            2 => {
                let ((tx, rx), (ty, ry)) = (oneshot::channel(), oneshot::channel());
                let v = r2.send(StopSelf(Some(tx), Some(ty))).await;
                assert!(v == Ok(99), "the message that stops the actor is still answered");
                let a = ry.await;
                assert!(a.is_ok() && evs()[evs().len() - 1] == Ev::Stopped, "everyone who asked to be told when it has stopped is told then");
                rx.await.map_err(|_| ActorRefErr::InvalidRef)
            }
            _ => { r2.notify(StopSelf(None, None)).unwrap(); r2.stop().await }
        };
        (res, evs().len())
    });
    let mut f2 = rt::go(mk(Num(2, y), r.clone()));
    rt::explore(choices);
    let l = evs();
    let h = wellformed(l);
    assert!(l[l.len() - 1] == Ev::Stopped, "the actor must stop");
    let (res, seen) = stop_evs.try_recv().expect("stop() never returned");
    match kind {
        0 | 2 => { assert!(res.is_ok()); assert!(seen == l.len(), "stop() returned before stopped() had run"); }
        3 => { if res.is_ok() { assert!(seen == l.len()); } }
        _ => assert!(res.is_ok()),
    }
    // a message is either handled and answered, or fails with an error: never both, never left hanging
    let mut got = 0;
    let mut check = |f: &mut oneshot::Receiver<Result<(u8, u64), ActorRefErr>>, w: u8, v: u64| {
        let handled = h.iter().any(|e| *e == (w, v));
        match f.try_recv().expect("a send to a stopping actor was left hanging") {
            Ok(r) => { assert!(handled && r == (w, v ^ 0x5555)); got += 1; }
            Err(e) => { assert!(!handled, "handled, but the caller got an error"); assert!(e == ActorRefErr::InvalidRef || e == ActorRefErr::ResultChannelClosed); }
        }
    };
    check(&mut f1, 1, x);
    check(&mut f2, 2, y);
    // afterwards the reference is dead
    assert!(!r.is_valid());
    assert!(r.notify(Num(1, 1)) == Err(ActorRefErr::InvalidRef));
    let r3 = r.clone();
    assert!(drive(async move { r3.send(Num(1, 1)).await }) == Some(Err(ActorRefErr::InvalidRef)));
    assert!(drive(async move { r.stop().await }) == Some(Err(ActorRefErr::InvalidRef)));
    assert!(evs().len() == l.len());
    nd::reach!(got == 0, "both refused");
    nd::reach!(got == 1, "one handled");
    nd::reach!(got == 2, "both handled");
}
#[no_mangle]
pub extern "C" fn h_actor_stop() { stopping(6) }
#[no_mangle]
pub extern "C" fn h_actor_stop_deep() { stopping(9) }

/// An actor that stops itself while starting never handles a message, and its creation fails.
#[no_mangle]
pub extern "C" fn h_actor_start() {
    let sys = system();
    let start = nd::choose(2);
    let early = nd::flip();
    let (x, s2) = (nd::u64(), sys.clone());
    if early {
        let r = rt::now(sys.new_actor_deferred("a", Rec { start }, ActorType::Anonymous));
        let mut f = { let r = r.clone(); rt::go(async move { r.send(Num(1, x)).await }) };
        rt::explore(4);
        let h = wellformed(evs());
        match f.try_recv().expect("left hanging") { Ok(v) => assert!(start == 0 && h.len() == 1 && v == (1, x ^ 0x5555)), Err(_) => assert!(start == 1 && h.len() == 0) }
    } else {
        let mut f = rt::go(async move { s2.new_actor("a".to_string(), Rec { start }, ActorType::Anonymous).await.map(|r| { assert!(evs().len() > 0 && evs()[0] == Ev::Started, "handed out before started() had run"); r }) });
        rt::explore(4);
        let r = f.try_recv().expect("new_actor never returned");
        match r {
            Ok(r) => { assert!(start == 0 && evs().len() == 1); assert!(drive(async move { r.send(Status).await }) == Some(Ok(ActorStatus::Started))); }
            Err(e) => { assert!(start == 1 && e == ActorRefErr::ActorStartFailed); }
        }
    }
    wellformed(evs());
    if start == 1 { assert!(evs()[evs().len() - 1] == Ev::Stopped); }
    nd::reach!(start == 1 && early, "failed start with queued message");
    nd::reach!(start == 0, "started");
}
/// When the last reference goes away the actor stops (and only then).
#[no_mangle]
pub extern "C" fn h_actor_status() {
    let sys = system();
    let r = rt::now(sys.new_actor_deferred("a", Rec { start: 0 }, ActorType::Anonymous));
    let (x, r2) = (nd::u64(), r.clone());
    let mut st = rt::go(async move { r2.status().await });
    let mut f = { let r = r.clone(); rt::go(async move { r.send(Num(1, x)).await }) };
    drop(r);
    rt::explore(5);
    assert!(st.try_recv() == Ok(Ok(ActorStatus::Started)), "status() of a running actor");
    assert!(f.try_recv() == Ok(Ok((1, x ^ 0x5555))), "accepted messages are handled even if the caller's reference is gone");
    wellformed(evs());
    nd::reach!("done");
}
/// The blocking calls give the same guarantees as their asynchronous twins.
fn blocking(choices: usize) {
    let sys = system();
    let tracked = nd::flip();
    let fails = nd::flip();
    let r = sys.new_actor_blocking("a", Rec { start: fails as u8 }, if tracked { ActorType::Tracked } else { ActorType::Anonymous });
    if fails {
        assert!(matches!(r, Err(ActorRefErr::ActorStartFailed)), "an actor that stopped while starting is reported as started");
        rt::run(100);
        assert!(evs()[..] == [Ev::Started, Ev::Stopping, Ev::Stopped] || evs()[..] == [Ev::Started], "hooks of an actor that fails to start");
        let s = sys.clone();
        assert!(drive(async move { s.get_tracked_actor::<Rec>("a".into()).await }).expect("hangs").is_none(), "an actor that failed to start is listed");
        nd::reach!("fails to start");
        return;
    }
    let r = r.expect("not started");
    assert!(evs()[..] == [Ev::Started], "the call returned before the actor had started");
    if tracked { let s = sys.clone(); assert!(drive(async move { s.get_tracked_actor::<Rec>("a".into()).await }).expect("hangs").is_some(), "a tracked actor cannot be found"); }
    let (a, b) = (nd::u64(), nd::u64());
    let r2 = r.clone();
    let mut f = rt::go(async move { let _ = r2.notify(Num(2, b)); rt::yield_now().await; r2.send(Num(2, b ^ 1)).await });
    rt::explore(choices);
    let x = r.send_blocking(Num(1, a));
    assert!(x == Ok((1, a ^ 0x5555)), "a blocking call got something else than the reply to its own message");
    let k = nd::u64();
    assert!(r.exec_blocking(move |s: &mut Rec| { s.start = 7; k }) == Ok(k), "what was executed gave another result");
    assert!(r.exec_blocking(|s: &mut Rec| s.start) == Ok(7), "what was executed did not change the actor");
    // somebody else may stop it first
    let raced = nd::flip();
    let r3 = r.clone();
    let mut g = if raced { nd::reach!("stopped by another as well"); Some(rt::go(async move { r3.stop().await })) } else { None };
    if raced { rt::explore(choices); }
    let late = if nd::flip() { Some(r.send_blocking(Num(1, a ^ 2))) } else { None };
    let s = r.stop_blocking();
    if !raced {
        assert!(s == Ok(()), "stopping a running actor failed");
        if let Some(l) = late { assert!(l == Ok((1, a ^ 2 ^ 0x5555))); }
    }
    if s == Ok(()) { assert!(evs().last() == Some(&Ev::Stopped), "stop returned before stopped() had run"); }
    rt::run(100);
    if let Some(g) = &mut g { let v = g.try_recv().expect("stop is never answered"); assert!(v == Ok(()) || s == Ok(())); }
    assert!(f.try_recv().is_ok(), "a send was never answered");
    let h = wellformed(evs());
    let mine: Vec<u64> = h.iter().filter(|e| e.0 == 2).map(|e| e.1).collect();
    assert!(mine[..] == [b, b ^ 1] || mine[..] == [b] || mine.is_empty(), "messages of one sender out of order or twice");
    if !raced { assert!(mine.len() >= 1); }
    assert!(r.send_blocking(Num(1, a)).is_err(), "a stopped actor answered");
    assert!(r.stop_blocking().is_err(), "a stopped actor was stopped again");
    if tracked { let s = sys.clone(); assert!(drive(async move { s.get_tracked_actor::<Rec>("a".into()).await }).expect("hangs").is_none(), "a stopped actor is still listed"); }
    nd::reach!("stopped");
}
#[no_mangle] pub extern "C" fn h_blocking() { blocking(2) }
