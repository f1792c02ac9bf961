use std::cell::UnsafeCell;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::collections::VecDeque as Queue;
struct Inner<T> { q: Queue<T>, txs: usize, rx: bool, waiter: Option<usize>, watch: Vec<usize> }
struct Shared<T>(UnsafeCell<Inner<T>>);
unsafe impl<T: Send> Send for Shared<T> {}
unsafe impl<T: Send> Sync for Shared<T> {}
impl<T> Shared<T> { fn i(&self) -> &mut Inner<T> { unsafe { &mut *self.0.get() } } }
pub struct UnboundedSender<T>(Arc<Shared<T>>);
pub struct UnboundedReceiver<T>(Arc<Shared<T>>);
pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let s = Arc::new(Shared(UnsafeCell::new(Inner { q: Queue::new(), txs: 1, rx: true, waiter: None, watch: Vec::new() })));
    (UnboundedSender(s.clone()), UnboundedReceiver(s))
}
impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { self.0.i().txs += 1; UnboundedSender(self.0.clone()) } }
impl<T> Drop for UnboundedSender<T> { fn drop(&mut self) { let i = self.0.i(); i.txs -= 1; if i.txs == 0 { if let Some(w) = i.waiter.take() { crate::rt::wake(w) } } } }
impl<T> Drop for UnboundedReceiver<T> { fn drop(&mut self) { let i = self.0.i(); i.rx = false; i.q.clear(); for w in i.watch.drain(..) { crate::rt::wake(w) } } }
impl<T> UnboundedSender<T> {
    pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
        let i = self.0.i();
        if !i.rx { return Err(error::SendError(v)); }
        i.q.push_back(v);
        if let Some(w) = i.waiter.take() { crate::rt::wake(w) }
        Ok(())
    }
    pub fn is_closed(&self) -> bool { !self.0.i().rx }
    pub fn same_channel(&self, o: &Self) -> bool { Arc::ptr_eq(&self.0, &o.0) }
}
impl<T> UnboundedReceiver<T> {
    pub fn poll_recv(&mut self, _: &mut Context<'_>) -> Poll<Option<T>> {
        let i = self.0.i();
        if let Some(v) = i.q.pop_front() { return Poll::Ready(Some(v)); }
        if i.txs == 0 || !i.rx { return Poll::Ready(None); }
        i.waiter = Some(crate::rt::current());
        Poll::Pending
    }
    pub async fn recv(&mut self) -> Option<T> { std::future::poll_fn(|cx| self.poll_recv(cx)).await }
    pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
        let i = self.0.i();
        match i.q.pop_front() { Some(v) => Ok(v), None => if i.txs == 0 { Err(error::TryRecvError::Disconnected) } else { Err(error::TryRecvError::Empty) } }
    }
    pub fn close(&mut self) { let i = self.0.i(); i.rx = false; for w in i.watch.drain(..) { crate::rt::wake(w) } }
}
impl<T> UnboundedReceiver<T> { pub fn len(&self) -> usize { self.0.i().q.len() } pub fn is_empty(&self) -> bool { self.0.i().q.is_empty() } }
// ---- bounded
struct BInner<T> { q: Queue<T>, cap: usize, txs: usize, rx: bool, waiter: Option<usize>, full: Vec<usize> }
struct BShared<T>(UnsafeCell<BInner<T>>);
unsafe impl<T: Send> Send for BShared<T> {}
unsafe impl<T: Send> Sync for BShared<T> {}
impl<T> BShared<T> { fn i(&self) -> &mut BInner<T> { unsafe { &mut *self.0.get() } } }
pub struct Sender<T>(Arc<BShared<T>>);
pub struct Receiver<T>(Arc<BShared<T>>);
pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
    let s = Arc::new(BShared(UnsafeCell::new(BInner { q: Queue::new(), cap, txs: 1, rx: true, waiter: None, full: Vec::new() })));
    (Sender(s.clone()), Receiver(s))
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.i().txs += 1; Sender(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { let i = self.0.i(); i.txs -= 1; if i.txs == 0 { if let Some(w) = i.waiter.take() { crate::rt::wake(w) } } } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { let i = self.0.i(); i.rx = false; i.q.clear(); for w in i.full.drain(..) { crate::rt::wake(w) } } }
impl<T> Sender<T> {
    pub fn try_send(&self, v: T) -> Result<(), error::TrySendError<T>> {
        let i = self.0.i();
        if !i.rx { return Err(error::TrySendError::Closed(v)); }
        if i.q.len() >= i.cap { return Err(error::TrySendError::Full(v)); }
        i.q.push_back(v);
        if let Some(w) = i.waiter.take() { crate::rt::wake(w) }
        Ok(())
    }
    pub async fn send(&self, v: T) -> Result<(), error::SendError<T>> {
        let mut v = Some(v);
        std::future::poll_fn(move |_| match self.try_send(v.take().unwrap()) {
            Ok(()) => Poll::Ready(Ok(())),
            Err(error::TrySendError::Closed(x)) => Poll::Ready(Err(error::SendError(x))),
            Err(error::TrySendError::Full(x)) => { v = Some(x); self.0.i().full.push(crate::rt::current()); Poll::Pending }
        }).await
    }
    pub fn is_closed(&self) -> bool { !self.0.i().rx }
    pub fn capacity(&self) -> usize { let i = self.0.i(); i.cap - i.q.len() }
    pub fn max_capacity(&self) -> usize { self.0.i().cap }
}
impl<T> Receiver<T> {
    pub fn poll_recv(&mut self, _: &mut Context<'_>) -> Poll<Option<T>> {
        let i = self.0.i();
        if let Some(v) = i.q.pop_front() { for w in i.full.drain(..) { crate::rt::wake(w) } return Poll::Ready(Some(v)); }
        if i.txs == 0 || !i.rx { return Poll::Ready(None); }
        i.waiter = Some(crate::rt::current());
        Poll::Pending
    }
    pub async fn recv(&mut self) -> Option<T> { std::future::poll_fn(|cx| self.poll_recv(cx)).await }
    pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
        let i = self.0.i();
        match i.q.pop_front() { Some(v) => { for w in i.full.drain(..) { crate::rt::wake(w) } Ok(v) } None => if i.txs == 0 { Err(error::TryRecvError::Disconnected) } else { Err(error::TryRecvError::Empty) } }
    }
    pub fn close(&mut self) { let i = self.0.i(); i.rx = false; for w in i.full.drain(..) { crate::rt::wake(w) } }
}
impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
impl<T> std::fmt::Debug for UnboundedSender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("UnboundedSender") } }
pub mod unbounded { pub use super::{UnboundedSender, UnboundedReceiver}; }
pub mod error {
    pub struct SendError<T>(pub T);
    impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
    impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
    impl<T> std::error::Error for SendError<T> {}
    pub enum TrySendError<T> { Full(T), Closed(T) }
    impl<T> std::fmt::Debug for TrySendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TrySendError") } }
    impl<T> std::fmt::Display for TrySendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel full or closed") } }
    impl<T> std::error::Error for TrySendError<T> {}
    pub enum SendTimeoutError<T> { Timeout(T), Closed(T) }
    impl<T> std::fmt::Debug for SendTimeoutError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendTimeoutError") } }
    impl std::fmt::Display for TryRecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("receiving on a closed or empty channel") } }
    impl std::error::Error for TryRecvError {}
    #[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum TryRecvError { Empty, Disconnected }
}
impl<T> UnboundedSender<T> {
    pub async fn closed(&self) { std::future::poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { self.0.i().watch.push(crate::rt::current()); Poll::Pending }).await }
    pub fn downgrade(&self) -> WeakUnboundedSender<T> { WeakUnboundedSender(self.0.clone()) }
}
pub struct WeakUnboundedSender<T>(Arc<Shared<T>>);
impl<T> Clone for WeakUnboundedSender<T> { fn clone(&self) -> Self { WeakUnboundedSender(self.0.clone()) } }
impl<T> WeakUnboundedSender<T> { pub fn upgrade(&self) -> Option<UnboundedSender<T>> { let i = self.0.i(); if i.txs == 0 { None } else { i.txs += 1; Some(UnboundedSender(self.0.clone())) } } }
impl<T> UnboundedReceiver<T> {
    pub fn is_closed(&self) -> bool { let i = self.0.i(); i.txs == 0 || !i.rx }
    pub async fn recv_many(&mut self, buf: &mut Vec<T>, limit: usize) -> usize { if limit == 0 { return 0; } match self.recv().await { None => 0, Some(v) => { buf.push(v); let mut n = 1; while n < limit { match self.try_recv() { Ok(v) => { buf.push(v); n += 1 } Err(_) => break } } n } } }
}
impl<T> Sender<T> {
    pub async fn closed(&self) { std::future::poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { self.0.i().full.push(crate::rt::current()); Poll::Pending }).await }
    pub async fn reserve(&self) -> Result<Permit<'_, T>, error::SendError<()>> { std::future::poll_fn(|_| { let i = self.0.i(); if !i.rx { Poll::Ready(Err(error::SendError(()))) } else if i.q.len() >= i.cap { i.full.push(crate::rt::current()); Poll::Pending } else { Poll::Ready(Ok(Permit(self))) } }).await }
    pub async fn send_timeout(&self, v: T, d: std::time::Duration) -> Result<(), error::SendTimeoutError<T>> {
        match crate::time::timeout(d, self.reserve()).await { Ok(Ok(p)) => { p.send(v); Ok(()) } Ok(Err(_)) => Err(error::SendTimeoutError::Closed(v)), Err(_) => Err(error::SendTimeoutError::Timeout(v)) }
    }
    pub fn same_channel(&self, o: &Self) -> bool { Arc::ptr_eq(&self.0, &o.0) }
}
/// (a slot is not kept: another sender may take the queue above its capacity by one)
pub struct Permit<'a, T>(&'a Sender<T>);
impl<'a, T> Permit<'a, T> { pub fn send(self, v: T) { let i = (self.0).0.i(); if i.rx { i.q.push_back(v); if let Some(w) = i.waiter.take() { crate::rt::wake(w) } } } }
impl<T> Receiver<T> {
    pub fn len(&self) -> usize { self.0.i().q.len() }
    pub fn is_empty(&self) -> bool { self.0.i().q.is_empty() }
    pub async fn recv_many(&mut self, buf: &mut Vec<T>, limit: usize) -> usize { if limit == 0 { return 0; } match self.recv().await { None => 0, Some(v) => { buf.push(v); let mut n = 1; while n < limit { match self.try_recv() { Ok(v) => { buf.push(v); n += 1 } Err(_) => break } } n } } }
}
