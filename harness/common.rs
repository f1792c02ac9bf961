//! Helpers shared by the harnesses.
use crate::actor::context::ActorContext;
use crate::actor::message::{Message, MessageUnwrapErr, MessageWrapErr};
use crate::actor::scheduler::ActorType;
use crate::actor::system::ActorSystem;
use crate::actor::{Actor, ActorRefErr, LocalActorRef};
pub use nd;
use std::future::Future;
use tokio::rt;

/// Start an actor and let the system settle (spawn order).
pub fn spawn<A: Actor>(sys: &ActorSystem, id: &str, a: A) -> Result<LocalActorRef<A>, ActorRefErr> {
    let s = sys.clone();
    let id = id.to_string();
    drive(async move { s.new_actor(id, a, ActorType::Anonymous).await }).expect("actor start never finished")
}
pub fn spawn_tracked<A: Actor>(sys: &ActorSystem, id: &str, a: A) -> Result<LocalActorRef<A>, ActorRefErr> {
    let s = sys.clone();
    let id = id.to_string();
    drive(async move { s.new_actor(id, a, ActorType::Tracked).await }).expect("actor start never finished")
}
/// Run `f` next to the spawned tasks until nothing can run any more (no time passes).
pub fn drive<F: Future + 'static>(f: F) -> Option<F::Output> {
    let mut r = rt::go(f);
    rt::run(400);
    r.try_recv().ok()
}
/// The same, letting pending timers fire (at most `timers` of them).
pub fn drive_timed<F: Future + 'static>(f: F, timers: usize) -> Option<F::Output> {
    let mut r = rt::go(f);
    rt::run(400);
    let mut i = 0;
    loop {
        if let Ok(v) = r.try_recv() { return Some(v); }
        if i >= timers || !tokio::time::advance_next() { return None; }
        rt::run(400);
        i += 1;
    }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n { v.push(nd::u8()); i += 1; }
    v
}
