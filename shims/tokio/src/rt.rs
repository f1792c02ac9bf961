use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// stands for the harness' own future
pub const MAX_TASKS: usize = usize::MAX;
type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub static mut TASKS: Vec<Option<Fut>> = Vec::new();
pub static mut READY: Vec<bool> = Vec::new();
pub static mut COUNT: usize = 0;
/// index of the task being polled; MAX_TASKS is the harness' own future
pub static mut CUR: usize = MAX_TASKS;
pub static mut MAIN_READY: bool = false;

pub fn current() -> usize { unsafe { CUR } }
pub fn wake(id: usize) {
    unsafe {
        if id < MAX_TASKS { READY[id] = true } else { MAIN_READY = true }
    }
}

const VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |p| wake(p as usize), |p| wake(p as usize), |_| {});
fn waker(id: usize) -> Waker { unsafe { Waker::from_raw(RawWaker::new(id as *const (), &VT)) } }

pub fn add(f: Fut) -> usize {
    unsafe {
        let id = COUNT;
        TASKS.push(Some(f));
        READY.push(true);
        COUNT += 1;
        id
    }
}
pub fn spawned() -> usize { unsafe { COUNT } }
pub fn alive(id: usize) -> bool { unsafe { TASKS[id].is_some() } }
pub fn is_ready(id: usize) -> bool { unsafe { TASKS[id].is_some() && READY[id] } }
pub fn kill(id: usize) { unsafe { TASKS[id] = None; } }

/// Poll one task (if it is runnable). Returns whether it ran.
pub fn step(id: usize) -> bool {
    unsafe {
        if !is_ready(id) { return false; }
        READY[id] = false;
        let mut f = TASKS[id].take().unwrap();
        let prev = CUR;
        CUR = id;
        let w = waker(id);
        let r = f.as_mut().poll(&mut Context::from_waker(&w));
        CUR = prev;
        if r.is_pending() { TASKS[id] = Some(f); }
        true
    }
}
/// One pass over all tasks in spawn order, polling those runnable. Returns whether any ran.
pub fn pass() -> bool {
    let mut any = false;
    let mut i = 0;
    while i < unsafe { COUNT } {
        if step(i) { any = true; }
        i += 1;
    }
    any
}
/// Run every runnable task in spawn order until none is runnable (at most `passes` passes).
pub fn run(passes: usize) {
    let mut n = 0;
    while n < passes {
        if !pass() { return; }
        n += 1;
    }
    nd::bound(!any_ready());
}
pub fn any_ready() -> bool {
    let mut i = 0;
    while i < unsafe { COUNT } {
        if is_ready(i) { return true; }
        i += 1;
    }
    false
}
/// Poll once
pub fn poll_once<F: Future>(f: Pin<&mut F>) -> Poll<F::Output> {
    unsafe {
        let prev = CUR;
        CUR = MAX_TASKS;
        let w = waker(MAX_TASKS);
        let r = f.poll(&mut Context::from_waker(&w));
        CUR = prev;
        r
    }
}
/// Drive `f`, running spawned tasks in spawn order whenever it waits. None: it can never finish.
pub fn block_on<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut n = 0;
    loop {
        if let Poll::Ready(v) = poll_once(f.as_mut()) { return Some(v); }
        if !pass() { return None; }
        n += 1;
        nd::bound(n < 40);
    }
}
/// Drive `f` without running any other task: it must finish on its own.
pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match poll_once(f.as_mut()) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("future waits on another task"),
    }
}
/// Poll `f` once, outside any task.
pub fn block_on_once<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    match poll_once(f.as_mut()) { Poll::Ready(v) => Some(v), Poll::Pending => None }
}

/// Let the runnable tasks run in an arbitrary order: `choices` times the next task is an arbitrary
/// runnable one (a symbolic choice), after that tasks run in spawn order until none is runnable.
pub fn explore(choices: usize) {
    let mut n = 0;
    while n < choices {
        let mut ready: Vec<usize> = Vec::new();
        let mut i = 0;
        while i < unsafe { COUNT } { if is_ready(i) { ready.push(i); } i += 1; }
        if ready.is_empty() { return; }
        let k = if ready.len() == 1 { 0 } else { n += 1; nd::choose(ready.len() as u8) as usize };
        step(ready[k]);
    }
    run(200);
}
/// The same, but stops as soon as `f` says so (checked before every step).
pub fn explore_until<F: FnMut() -> bool>(choices: usize, mut f: F) {
    let mut n = 0;
    loop {
        if f() { return; }
        let mut ready: Vec<usize> = Vec::new();
        let mut i = 0;
        while i < unsafe { COUNT } { if is_ready(i) { ready.push(i); } i += 1; }
        if ready.is_empty() { return; }
        let k = if ready.len() == 1 || n >= choices { 0 } else { n += 1; nd::choose(ready.len() as u8) as usize };
        step(ready[k]);
    }
}
/// A future driven by the harness next to the spawned tasks.
pub fn go<F: Future + 'static>(f: F) -> crate::sync::oneshot::Receiver<F::Output> {
    let (tx, rx) = crate::sync::oneshot::channel();
    add(Box::pin(async move { let v = f.await; let _ = tx.send(v); }));
    rx
}
/// Like `explore`, but the arbitrary choices begin after an arbitrary multiple (below `windows`) of `stride` steps in spawn order.
pub fn explore_window(windows: u8, stride: usize, choices: usize) {
    let mut k = stride * nd::choose(windows) as usize;
    while k > 0 {
        let mut i = 0;
        let mut any = false;
        while i < unsafe { COUNT } { if is_ready(i) { step(i); any = true; break; } i += 1; }
        if !any { break; }
        k -= 1;
    }
    explore(choices)
}
/// Give way once: lets other tasks run in the middle of a handler.
pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |_| if first { first = false; wake(current()); Poll::Pending } else { Poll::Ready(()) }).await
}
