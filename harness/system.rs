//! Actor registry, shutdown, timers, scheduled messages, workers, streams, describe.
use super::common::*;
use crate::actor::context::{attach_stream, ActorContext, StreamAttachmentOptions};
use crate::actor::describe::{Describe, DescribeAll, DescribeOptions, DescribeResult, ActorDescription};
use crate::actor::message::{Handler, Message};
use crate::actor::scheduler::timer::{Timer, TimerTick};
use crate::actor::scheduler::{ActorCount, ActorType};
use crate::actor::system::ActorSystem;
use crate::actor::worker::{IntoWorker, WorkerRefExt};
use crate::actor::{Actor, ActorId, ActorRefErr, CoreActorRef, IntoActor, IntoActorId, LocalActorRef};
use async_trait::async_trait;
use std::sync::Arc;
use std::time::Duration;
use tokio::rt;
use tokio::sync::oneshot;

fn system() -> ActorSystem { ActorSystem::builder().system_name("s").build() }
static mut STOPS: [u8; 4] = [0; 4];
pub struct T { n: usize }
#[async_trait]
impl Actor for T { async fn stopped(&mut self, _: &mut ActorContext) { rt::yield_now().await; unsafe { STOPS[self.n] += 1 } } }
pub struct U;
impl Actor for U {}
pub struct Who;
impl Message for Who { type Result = usize; }
#[async_trait]
impl Handler<Who> for T { async fn handle(&mut self, _: Who, _: &mut ActorContext) -> usize { self.n } }
const IDS: [&str; 3] = ["x", "y", "z"];
fn lookup(sys: &ActorSystem, id: &str) -> Option<LocalActorRef<T>> { let (s, id) = (sys.clone(), id.to_string()); drive(async move { s.get_tracked_actor::<T>(id.into_actor_id()).await }).expect("lookup hangs") }
fn counted(sys: &ActorSystem) -> usize { let s = sys.clone(); drive(async move { s.scheduler().send(ActorCount).await }).expect("hangs").expect("scheduler gone") }
fn who(r: &LocalActorRef<T>) -> usize { let r = r.clone(); drive(async move { r.send(Who).await }).expect("hangs").expect("gone") }

/// Any history of starts and stops of tracked actors: lookup by id finds exactly the running one.
fn registry(n: usize) {
    let sys = system();
    let mut live: [Option<LocalActorRef<T>>; 3] = [None, None, None];
    let mut anon = spawn(&sys, "z", T { n: 3 }).unwrap();
    let mut i = 0;
    while i < n {
        let k = nd::choose(3) as usize;
        match live[k].take() {
            None => live[k] = Some(spawn_tracked(&sys, IDS[k], T { n: k }).unwrap()),
            Some(r) => {
                if nd::flip() { drive(async move { r.stop().await }).expect("stop hangs").unwrap(); } else { r.notify_stop().unwrap(); rt::run(100); }
            }
        }
        i += 1;
    }
    let mut c = 0;
    for k in 0..3 {
        match (lookup(&sys, IDS[k]), &live[k]) {
            (Some(r), Some(l)) => { assert!(r == *l && r.is_valid() && who(&r) == k, "lookup found the wrong actor"); c += 1; }
            (None, None) => {}
            (Some(_), None) => panic!("lookup found a stopped or anonymous actor"),
            (None, Some(_)) => panic!("lookup did not find a running tracked actor"),
        }
        // asking for it under another type is not a match
        let (s, id) = (sys.clone(), IDS[k].into_actor_id());
        assert!(drive(async move { s.get_tracked_actor::<U>(id).await.is_none() }) == Some(true), "lookup returned a reference of the wrong type");
    }
    assert!(counted(&sys) == c);
    // shutdown stops every tracked actor, once
    let before = unsafe { STOPS };
    let s2 = sys.clone();
    let mut f = rt::go(async move { s2.shutdown().await; unsafe { STOPS } });
    rt::explore(3);
    let at_end = f.try_recv().expect("shutdown hangs");
    assert!(sys.is_terminated());
    for k in 0..3 {
        let want = before[k] + live[k].is_some() as u8;
        assert!(unsafe { STOPS[k] } == want, "shutdown must stop every tracked actor exactly once");
        assert!(at_end[k] == want, "shutdown returned before every tracked actor had stopped");
        if let Some(l) = &live[k] { assert!(!l.is_valid()); }
    }
    assert!(anon.is_valid(), "anonymous actors are not the registry's");
    nd::reach!(c == 2, "two live");
    nd::reach!(before[0] == 1 && live[0].is_some(), "id used again");
}
#[no_mangle]
pub extern "C" fn h_registry() { registry(4) }
#[no_mangle]
pub extern "C" fn h_registry_deep() { registry(6) }

/// Shutdown racing with an actor stopping on its own and one being created.
fn shutdown_race(choices: usize) {
    let sys = system();
    let x = spawn_tracked(&sys, "x", T { n: 0 }).unwrap();
    let y = spawn_tracked(&sys, "y", T { n: 1 }).unwrap();
    let (s1, s2, x2) = (sys.clone(), sys.clone(), x.clone());
    let mut f = rt::go(async move { s1.shutdown().await });
    let mut g = rt::go(async move { x2.notify_stop() });
    let mut h = rt::go(async move { s2.new_actor("z".to_string(), T { n: 2 }, ActorType::Tracked).await });
    rt::explore(choices);
    assert!(f.try_recv().is_ok(), "shutdown hangs");
    assert!(g.try_recv().is_ok());
    assert!(h.try_recv().is_ok(), "new_actor hangs");
    assert!(unsafe { STOPS[0] == 1 && STOPS[1] == 1 && STOPS[2] <= 1 }, "every tracked actor stops exactly once");
    nd::reach!(unsafe { STOPS[2] == 1 }, "late actor stopped too");
    nd::reach!(unsafe { STOPS[2] == 0 }, "late actor missed");
}
#[no_mangle]
pub extern "C" fn h_shutdown_race() { shutdown_race(6) }
#[no_mangle]
pub extern "C" fn h_shutdown_race_deep() { shutdown_race(9) }

/// A tracked actor that stops while starting, or right after, leaves no entry behind.
pub struct Short { in_start: bool }
#[async_trait]
impl Actor for Short { async fn started(&mut self, ctx: &mut ActorContext) { if self.in_start { ctx.stop(None); } else { let _ = self.actor_ref(ctx).notify_stop(); } } }
#[no_mangle]
pub extern "C" fn h_registry_shortlived() {
    let sys = system();
    let (in_start, deferred) = (nd::flip(), nd::flip());
    let s2 = sys.clone();
    let mut f = rt::go(async move { if deferred { s2.new_actor_deferred("x".to_string(), Short { in_start }, ActorType::Tracked).await; true } else { s2.new_actor("x".to_string(), Short { in_start }, ActorType::Tracked).await.is_ok() } });
    rt::explore(6);
    let r = f.try_recv().expect("new_actor hangs");
    if !deferred { assert!(r == !in_start); }
    let s = sys.clone();
    assert!(drive(async move { s.get_tracked_actor::<Short>("x".into_actor_id()).await.is_none() }) == Some(true), "a stopped actor is still registered");
    assert!(counted(&sys) == 0);
    nd::reach!("done");
}

// ---------------------------------------------------------------- timers
static mut TICKS: Vec<u64> = Vec::new();
static mut SLOW: [u64; 4] = [0; 4]; // how long the handler takes: the first ticks one by one, then the last value
fn ticks() -> &'static Vec<u64> { unsafe { &TICKS } }
fn slow_of(i: usize) -> u64 { unsafe { SLOW[if i < 3 { i } else { 3 }] } }
#[derive(Clone)]
pub struct Tick;
impl Message for Tick { type Result = (); }
impl TimerTick for Tick {}
#[async_trait]
impl Handler<Tick> for U { async fn handle(&mut self, _: Tick, _: &mut ActorContext) { unsafe { TICKS.push(symstd::time::now()); } let d = slow_of(unsafe { TICKS.len() } - 1); if d > 0 { tokio::time::sleep(Duration::from_nanos(d)).await; } } }
const MS: u64 = 1_000_000;
/// Let virtual time run to `until`, timer by timer.
fn run_to(until: u64) {
    rt::run(200);
    while let Some(d) = tokio::time::next_deadline() { if d > until { break; } tokio::time::advance_to(d); rt::run(200); }
    tokio::time::advance_to(until);
    rt::run(200);
}
/// Ticks arrive at the period asked for, one at a time, none after stop() or after the actor is gone.
#[no_mangle]
pub extern "C" fn h_timer() {
    let sys = system();
    let u = spawn(&sys, "u", U).unwrap();
    let now_ = nd::flip();
    let unit = if nd::flip() { MS } else { 1_000_000 * MS }; // milliseconds, or thousands of seconds
    let period = (nd::choose(3) as u64 + 1) * 10 * unit;
    let mut slow = 0;
    let mut i = 0;
    while i < 4 { let d = nd::choose(if i < 2 { 3 } else { 2 }) as u64 * 8 * unit; if d > slow { slow = d; } unsafe { SLOW[i] = d; } i += 1; }
    let t0 = symstd::time::now();
    let timer = if now_ { Timer::start_immediately(u.clone(), Duration::from_nanos(period), Tick) } else { Timer::start(u.clone(), Duration::from_nanos(period), Tick) };
    let cut = t0 + nd::choose(7) as u64 * 9 * unit;
    run_to(cut);
    let how = nd::choose(2);
    let seen = ticks().len();
    if how == 0 { timer.stop(); } else { u.notify_stop().unwrap(); }
    run_to(cut + 200 * unit);
    let t = ticks();
    if how == 0 { assert!(t.len() == seen, "a tick after the timer was stopped"); } else { assert!(t.len() <= seen + 0, "a tick after the actor was stopped"); }
    let first = if now_ { t0 } else { t0 + period };
    let mut i = 0;
    while i < t.len() {
        if i == 0 { assert!(t[0] == first, "first tick at the wrong time"); } else { assert!(t[i] >= t[i - 1] + period && t[i] <= t[i - 1] + slow_of(i - 1) + period, "ticks at the wrong distance"); }
        i += 1;
    }
    if first <= cut { assert!(seen >= 1, "the first tick is missing"); }
    assert!(seen as u64 >= if cut < first { 0 } else { 1 + (cut - first) / (period + slow) }, "ticks are missing");
    nd::reach!(seen > 2, "several ticks");
    nd::reach!(seen == 0, "stopped before the first");
}
/// scheduled_notify: exactly once, at the time asked for, unless cancelled before.
#[no_mangle]
pub extern "C" fn h_scheduled_notify() {
    tokio::select_any(true);
    let sys = system();
    let u = spawn(&sys, "u", U).unwrap();
    let d = nd::choose(3) as u64 * 10 * MS;
    let t0 = symstd::time::now();
    let h = u.scheduled_notify(Tick, Duration::from_nanos(d));
    let when = nd::choose(7) as u64 * 5 * MS;
    run_to(t0 + when);
    let cancel = nd::choose(3);
    if cancel == 1 { h.cancel(); } else if cancel == 2 { drop(h); }
    // the executor may be too busy to look at the timer before its time has passed
    let busy = nd::flip();
    if busy { tokio::time::advance_to(t0 + 70 * MS); }
    run_to(t0 + 100 * MS);
    let t = ticks();
    if cancel == 1 && when < d { assert!(t.len() == 0, "cancelled, but delivered"); }
    else { assert!(t.len() == 1 && (t[0] == t0 + d || (busy && when < d && t[0] == t0 + 70 * MS)), "delivered exactly once at the time asked for"); }
    nd::reach!(cancel == 1 && when < d && busy, "cancelled in time, noticed late");
    nd::reach!(cancel == 1 && when < d, "cancelled in time");
    nd::reach!(cancel == 1 && when > d, "cancelled too late");
}

// ---------------------------------------------------------------- workers
static mut ACTIVE: [u8; 3] = [0; 3];
static mut JOBS: Vec<(u64, String)> = Vec::new();
#[derive(Clone)]
pub struct W;
impl Actor for W {}
pub struct Job(u64);
impl Message for Job { type Result = u64; }
#[async_trait]
impl Handler<Job> for W { async fn handle(&mut self, m: Job, ctx: &mut ActorContext) -> u64 { unsafe { JOBS.push((m.0, ctx.id().to_string())); } rt::yield_now().await; m.0 ^ 0xff } }
#[no_mangle]
pub extern "C" fn h_worker() {
    let mut sys = system();
    let n = nd::choose(3) as usize + 1;
    let w = drive(async move { W.into_worker(n, "w", &mut sys).await }).expect("hangs").expect("worker");
    let (a, b, c) = (nd::u64(), nd::u64(), nd::u64());
    nd::assume(a != b && b != c && a != c);
    let mut fs = vec![];
    for v in [a, b, c] { let mut w = w.clone(); fs.push((v, rt::go(async move { w.dispatch(Job(v)).await }))); }
    rt::explore(4);
    for (v, f) in fs.iter_mut() { assert!(f.try_recv() == Ok(Ok(*v ^ 0xff)), "a job was lost or got another job's result"); }
    let jobs = unsafe { &JOBS };
    assert!(jobs.len() == 3, "a job ran twice or not at all");
    let mut per = vec![];
    for i in 0..n { let id = format!("w-{}", i + 1); per.push(jobs.iter().filter(|j| j.1 == id).count()); }
    for p in per { assert!(p == 3 / n || p == 3 / n + 1, "jobs are not spread over the pool"); }
    nd::reach!(n == 2, "two");
    nd::reach!(n == 3, "three");
}

// ---------------------------------------------------------------- streams
pub struct S { got: Vec<u8> }
impl Actor for S {}
#[derive(Clone)]
pub struct Item(u8);
impl Message for Item { type Result = (); }
#[async_trait]
impl Handler<Item> for S { async fn handle(&mut self, m: Item, _: &mut ActorContext) { unsafe { JOBS.push((m.0 as u64, String::new())); } } }

// ---------------------------------------------------------------- describe
pub struct D { kids: Vec<&'static str> }
#[async_trait]
impl Actor for D {
    async fn started(&mut self, ctx: &mut ActorContext) {
        for k in self.kids.clone() { let sub = if k == "a" { vec!["b", "c"] } else { vec![] }; ctx.spawn(k.into_actor_id(), D { kids: sub }).await.expect("child"); }
    }
}
pub struct Hang;
impl Message for Hang { type Result = (); }
#[async_trait]
impl Handler<Hang> for D { async fn handle(&mut self, _: Hang, _: &mut ActorContext) { std::future::pending::<()>().await } }
fn names(d: &ActorDescription, prefix: &str, out: &mut Vec<String>) {
    let p = format!("{}/{}", prefix, d.actor_id);
    assert!(d.path.as_ref() == p, "a path does not follow the hierarchy");
    out.push(p.clone());
    if let Some(s) = &d.supervised { for r in s.actors.iter() { match r { DescribeResult::Ok(d) => names(d, &p, out), DescribeResult::Err { actor_id, .. } => out.push(format!("err:{}", actor_id)), DescribeResult::Timeout { actor_id, .. } => out.push(format!("timeout:{}", actor_id)) } } }
}
#[no_mangle]
pub extern "C" fn h_describe() {
    let sys = system();
    symstd::collections::set_order(nd::flip());
    let root = spawn_tracked(&sys, "root", D { kids: vec!["a", "d"] }).unwrap();
    let depth = nd::choose(4) as usize; // 3: unlimited
    let max_children = match nd::choose(3) { 0 => None, 1 => Some(1), _ => Some(2) };
    let hang = nd::flip();
    if hang {
        let r = root.clone();
        let d = drive(async move { r.exec(|_| ()).await.unwrap(); }).unwrap();
        unsafe { HANG_D = true; }
        let r = root.clone();
        drive(async move { r.send(HangChild("d")).await }).expect("x").expect("y");
    }
    let (tx, rx) = oneshot::channel();
    let options = Arc::new(DescribeOptions { max_depth: if depth == 3 { None } else { Some(depth) }, max_children, child_describe_timeout: None, child_describe_attached: true });
    let all = nd::flip();
    let mut got = vec![];
    if all {
        let s = sys.clone();
        let v = drive_timed(async move { let (tx, rx) = oneshot::channel(); s.scheduler().send(DescribeAll { options, sender: tx }).await.unwrap(); rx.await }, 30).expect("describe hangs").expect("no description");
        let mut sched = 0;
        for r in v.iter() { match r { DescribeResult::Ok(d) => if &*d.actor_id == "actor-scheduler" { sched += 1 } else { names(d, "s", &mut got) }, _ => panic!("a running actor could not be described") } }
        assert!(sched == 1);
    } else {
        root.describe(Describe { options, sender: Some(tx), current_depth: 0 }).unwrap();
        let d = drive_timed(async move { rx.await }, 30).expect("describe hangs").expect("no description");
        names(&d, "s", &mut got);
    }
    let at = if all { 1 } else { 0 };
    let deep = |lvl: usize| depth == 3 || lvl + at <= depth;
    let has = |s: &str| got.iter().filter(|x| **x == s).count() == 1;
    assert!(has("s/root"));
    let d_name = if hang { "timeout:d" } else { "s/root/d" };
    let lim = max_children.unwrap_or(9).min(2);
    let mut n = 1;
    if deep(1) {
        let first = has("s/root/a") as usize + has(d_name) as usize;
        assert!(first == lim, "children are missing from the description");
        n += first;
        if has("s/root/a") && deep(2) { let second = has("s/root/a/b") as usize + has("s/root/a/c") as usize; assert!(second == lim, "grandchildren are missing"); n += second; }
    }
    assert!(got.len() == n, "the description holds actors that should not be there");
    nd::reach!(depth == 3 && max_children.is_none() && !hang, "everything");
    nd::reach!(hang && has("timeout:d"), "stuck child");
    nd::reach!(depth == 1, "limited depth");
}
static mut HANG_D: bool = false;
pub struct HangChild(&'static str);
impl Message for HangChild { type Result = (); }
#[async_trait]
impl Handler<HangChild> for D { async fn handle(&mut self, m: HangChild, ctx: &mut ActorContext) { ctx.child_ref::<D>(&m.0.into_actor_id()).unwrap().notify(Hang).unwrap(); } }

// ---------------------------------------------------------------- describe: who is asked, and for how long
/// children "a" and "d", and "x", which is somebody else's and attached
pub struct Fam;
#[async_trait]
impl Actor for Fam {
    async fn started(&mut self, ctx: &mut ActorContext) {
        for k in ["a", "d"] { ctx.spawn(k.into_actor_id(), Kid).await.expect("child"); }
    }
}
pub struct Adopt(LocalActorRef<Kid>);
impl Message for Adopt { type Result = (); }
#[async_trait]
impl Handler<Adopt> for Fam { async fn handle(&mut self, m: Adopt, ctx: &mut ActorContext) { ctx.attach_child_ref(m.0.into()); } }
pub struct Get(&'static str);
impl Message for Get { type Result = Option<LocalActorRef<Kid>>; }
#[async_trait]
impl Handler<Get> for Fam { async fn handle(&mut self, m: Get, ctx: &mut ActorContext) -> Option<LocalActorRef<Kid>> { ctx.child_ref::<Kid>(&m.0.into_actor_id()) } }
pub struct Kid;
#[async_trait]
impl Actor for Kid { async fn started(&mut self, ctx: &mut ActorContext) { ctx.set_tags(ctx.id().to_string()); } async fn stopped(&mut self, _: &mut ActorContext) { rt::yield_now().await } }
pub struct Busy(u64);
impl Message for Busy { type Result = (); }
#[async_trait]
impl Handler<Busy> for Kid { async fn handle(&mut self, m: Busy, _: &mut ActorContext) { tokio::time::sleep(std::time::Duration::from_secs(m.0)).await } }

#[no_mangle]
pub extern "C" fn h_describe_busy() {
    let sys = system();
    symstd::collections::set_order(nd::flip());
    let x = spawn(&sys, "x", Kid).unwrap();
    let root = spawn_tracked(&sys, "root", Fam).unwrap();
    let attached = nd::flip();
    let r = root.clone(); let x2 = x.clone();
    drive(async move { r.send(Adopt(x2)).await }).unwrap().unwrap();
    let who = nd::choose(3) as usize;
    let names = ["a", "d", "x"];
    let r = root.clone();
    let kid = drive(async move { r.send(Get(names[who])).await }).unwrap().unwrap().expect("a child is not listed");
    // the child is working for a while, or being stopped
    let stop = nd::flip();
    let busy = nd::u8() as u64;
    let limit = if nd::flip() { let l = nd::u8() as u64; nd::assume(l >= 1 && l <= 30); Some(l) } else { None };
    nd::assume(busy >= 1 && busy <= 60);
    if let Some(l) = limit { nd::assume(l != busy); } else { nd::assume(busy < 4 || busy > 11); }
    if stop { let k = kid.clone(); let _ = rt::go(async move { k.stop().await }); }
    else { kid.notify(Busy(busy)).unwrap(); rt::run(20); }
    let (tx, rx) = oneshot::channel();
    let few = !stop && nd::flip();
    let options = Arc::new(DescribeOptions { max_depth: None, max_children: if few { Some(2) } else { None }, child_describe_timeout: limit.map(std::time::Duration::from_secs), child_describe_attached: attached });
    root.describe(Describe { options, sender: Some(tx), current_depth: 0 }).unwrap();
    let mut f = rt::go(async move { rx.await });
    if stop { rt::explore(4); } else { rt::run(200); }
    let mut n = 0;
    let d = loop { if let Ok(v) = f.try_recv() { break v; } assert!(n < 4 && tokio::time::advance_next(), "describe never ends"); rt::run(200); n += 1; }.expect("no description");
    assert!(&*d.actor_id == "root" && d.actor_type_name == Fam::type_name() && d.path.as_ref() == "s/root");
    let kids = d.supervised.as_ref().map(|s| &s.actors[..]).unwrap_or(&[]);
    if few { assert!(kids.len() == 2, "not as many children as there are and were asked for are described"); nd::reach!(!attached, "own children only, and not more than two"); }
    for i in 0..3 {
        let found: Vec<&DescribeResult> = kids.iter().filter(|k| &**match k { DescribeResult::Ok(d) => &d.actor_id, DescribeResult::Err { actor_id, .. } => actor_id, DescribeResult::Timeout { actor_id, .. } => actor_id } == names[i]).collect();
        if i == 2 && !attached { assert!(found.is_empty(), "an attached child is described though only own ones were asked for"); continue; }
        if stop && i == who { assert!(found.len() <= 1); continue; }
        if few && attached && found.is_empty() { continue; }
        assert!(found.len() == 1, "a child is missing from the description, or twice in it");
        let patience = limit.unwrap_or(10);
        match found[0] {
            DescribeResult::Ok(d) => {
                assert!(stop || i != who || busy < patience, "reported only after the time allowed for it");
                assert!(d.actor_type_name == Kid::type_name() && d.supervised.is_none() && d.tags == names[i].to_string().into(), "a child is described wrongly");
                assert!(d.path.as_ref() == if i == 2 { "s/x".to_string() } else { format!("s/root/{}", names[i]) });
            }
            DescribeResult::Timeout { actor_type, .. } => { assert!(!stop && i == who && busy > patience, "given up before the time allowed"); assert!(actor_type == Kid::type_name()); }
            DescribeResult::Err { .. } => panic!("a running child is reported as failed"),
        }
    }
    assert!(kids.len() <= 3);
    nd::reach!(!stop && limit.is_some() && busy > limit.unwrap(), "given up");
    nd::reach!(!stop && limit.is_some() && busy < limit.unwrap(), "in time");
    nd::reach!(!stop && limit.is_none() && busy > 11, "default");
    nd::reach!(stop && who == 0, "stopping");
    nd::reach!(!attached, "own only");
}
