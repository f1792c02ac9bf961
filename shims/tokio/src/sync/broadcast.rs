//! Every receiver sees every value sent after it subscribed, in order; a receiver that falls more
//! than `cap` behind gets Lagged(n) and continues with the oldest retained value.
use std::cell::UnsafeCell;
use std::sync::Arc;
use std::task::Poll;
struct Inner<T> { buf: Vec<T>, first: usize, cap: usize, txs: usize, rxs: usize, waiters: Vec<usize> }
struct Shared<T>(UnsafeCell<Inner<T>>);
unsafe impl<T: Send> Send for Shared<T> {}
unsafe impl<T: Send> Sync for Shared<T> {}
impl<T> Shared<T> { fn i(&self) -> &mut Inner<T> { unsafe { &mut *self.0.get() } } }
pub struct Sender<T>(Arc<Shared<T>>);
pub struct Receiver<T> { s: Arc<Shared<T>>, next: usize }
pub fn channel<T: Clone>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let s = Arc::new(Shared(UnsafeCell::new(Inner { buf: Vec::new(), first: 0, cap, txs: 1, rxs: 1, waiters: Vec::new() })));
    (Sender(s.clone()), Receiver { s, next: 0 })
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.i().txs += 1; Sender(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { let i = self.0.i(); i.txs -= 1; if i.txs == 0 { for w in i.waiters.drain(..) { crate::rt::wake(w) } } } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.s.i().rxs -= 1 } }
impl<T: Clone> Sender<T> {
    pub fn send(&self, v: T) -> Result<usize, error::SendError<T>> {
        let i = self.0.i();
        if i.rxs == 0 { return Err(error::SendError(v)); }
        if i.buf.len() == i.cap { i.buf.remove(0); i.first += 1; }
        i.buf.push(v);
        let n = i.rxs;
        for w in i.waiters.drain(..) { crate::rt::wake(w) }
        Ok(n)
    }
    pub fn subscribe(&self) -> Receiver<T> { let i = self.0.i(); i.rxs += 1; Receiver { next: i.first + i.buf.len(), s: self.0.clone() } }
    pub fn receiver_count(&self) -> usize { self.0.i().rxs }
}
impl<T: Clone> Receiver<T> {
    pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
        let i = self.s.i();
        if self.next < i.first { let n = i.first - self.next; self.next = i.first; return Err(error::TryRecvError::Lagged(n as u64)); }
        if self.next < i.first + i.buf.len() { let v = i.buf[self.next - i.first].clone(); self.next += 1; return Ok(v); }
        if i.txs == 0 { Err(error::TryRecvError::Closed) } else { Err(error::TryRecvError::Empty) }
    }
    pub async fn recv(&mut self) -> Result<T, error::RecvError> {
        std::future::poll_fn(|_| match self.try_recv() {
            Ok(v) => Poll::Ready(Ok(v)),
            Err(error::TryRecvError::Lagged(n)) => Poll::Ready(Err(error::RecvError::Lagged(n))),
            Err(error::TryRecvError::Closed) => Poll::Ready(Err(error::RecvError::Closed)),
            Err(error::TryRecvError::Empty) => { self.s.i().waiters.push(crate::rt::current()); Poll::Pending }
        }).await
    }
    pub fn resubscribe(&self) -> Receiver<T> { let i = self.s.i(); i.rxs += 1; Receiver { next: i.first + i.buf.len(), s: self.s.clone() } }
}
pub mod error {
    impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
    impl<T> std::error::Error for SendError<T> {}
    impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed or lagged") } }
    impl std::error::Error for RecvError {}
    pub struct SendError<T>(pub T);
    impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
    #[derive(Debug, PartialEq, Eq, Clone)] pub enum RecvError { Closed, Lagged(u64) }
    #[derive(Debug, PartialEq, Eq, Clone)] pub enum TryRecvError { Empty, Closed, Lagged(u64) }
}
impl<T> Sender<T> { pub fn len(&self) -> usize { self.0.i().buf.len() } pub fn is_empty(&self) -> bool { self.0.i().buf.is_empty() } }
impl<T> Receiver<T> { pub fn len(&self) -> usize { let i = self.s.i(); (i.first + i.buf.len()).saturating_sub(self.next) } pub fn is_empty(&self) -> bool { self.len() == 0 } }
impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
