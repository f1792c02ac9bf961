use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub struct JoinHandle<T> { id: usize, rx: crate::sync::oneshot::Receiver<T> }
#[derive(Debug)] pub struct JoinError;
impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("join error") } }
impl std::error::Error for JoinError {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) { crate::rt::kill(self.id) }
    pub fn is_finished(&self) -> bool { !crate::rt::alive(self.id) }
    pub fn id(&self) -> usize { self.id }
    pub fn abort_handle(&self) -> AbortHandle { AbortHandle(self.id) }
}
#[derive(Clone, Debug)] pub struct AbortHandle(usize);
impl AbortHandle { pub fn abort(&self) { crate::rt::kill(self.0) } pub fn is_finished(&self) -> bool { !crate::rt::alive(self.0) } }
impl<T> std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinHandle") } }
impl JoinError { pub fn is_cancelled(&self) -> bool { true } pub fn is_panic(&self) -> bool { false } }
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { Pin::new(&mut self.rx).poll(cx).map(|r| r.map_err(|_| JoinError)) }
}
pub fn spawn<F: Future + Send + 'static>(f: F) -> JoinHandle<F::Output> where F::Output: Send + 'static {
    let (tx, rx) = crate::sync::oneshot::channel();
    let id = crate::rt::add(Box::pin(async move { let v = f.await; let _ = tx.send(v); }));
    JoinHandle { id, rx }
}
pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |_| if done { Poll::Ready(()) } else { done = true; crate::rt::wake(crate::rt::current()); Poll::Pending }).await
}
pub fn spawn_blocking<R: Send + 'static, F: FnOnce() -> R + Send + 'static>(f: F) -> JoinHandle<R> { spawn(async move { f() }) }

pub async fn join2<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
    let (mut a, mut b) = (Box::pin(a), Box::pin(b));
    let (mut x, mut y) = (None, None);
    std::future::poll_fn(move |cx| {
        if x.is_none() { if let Poll::Ready(v) = a.as_mut().poll(cx) { x = Some(v) } }
        if y.is_none() { if let Poll::Ready(v) = b.as_mut().poll(cx) { y = Some(v) } }
        if x.is_some() && y.is_some() { Poll::Ready((x.take().unwrap(), y.take().unwrap())) } else { Poll::Pending }
    }).await
}
/// Tasks whose results are taken in the order they finish (ties: in the order they were added).
pub struct JoinSet<T> { v: Vec<JoinHandle<T>> }
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self { JoinSet { v: Vec::new() } }
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) { self.v.push(spawn(f)) }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn abort_all(&mut self) { for h in self.v.iter() { h.abort() } }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            if self.v.is_empty() { return Poll::Ready(None); }
            for i in 0..self.v.len() { if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) { self.v.remove(i); return Poll::Ready(Some(r)); } }
            Poll::Pending
        }).await
    }
}
impl<T> Drop for JoinSet<T> { fn drop(&mut self) { for h in self.v.iter() { h.abort() } } }
