use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
struct Inner<T> { val: Option<T>, tx: bool, rx: bool, waiter: Option<usize>, tx_waiter: Option<usize> }
struct Shared<T>(UnsafeCell<Inner<T>>);
unsafe impl<T: Send> Send for Shared<T> {}
unsafe impl<T: Send> Sync for Shared<T> {}
pub struct Sender<T>(Arc<Shared<T>>);
pub struct Receiver<T>(Arc<Shared<T>>);
impl<T> Shared<T> { fn i(&self) -> &mut Inner<T> { unsafe { &mut *self.0.get() } } }
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let s = Arc::new(Shared(UnsafeCell::new(Inner { val: None, tx: true, rx: true, waiter: None, tx_waiter: None })));
    (Sender(s.clone()), Receiver(s))
}
impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }
impl<T> Sender<T> {
    pub fn send(self, v: T) -> Result<(), T> {
        let i = self.0.i();
        if !i.rx { return Err(v); }
        i.val = Some(v);
        Ok(())
    }
    pub fn is_closed(&self) -> bool { !self.0.i().rx }
    pub async fn closed(&mut self) { std::future::poll_fn(|_| if !self.0.i().rx { Poll::Ready(()) } else { self.0.i().tx_waiter = Some(crate::rt::current()); Poll::Pending }).await }
}
impl<T> Drop for Sender<T> { fn drop(&mut self) { let i = self.0.i(); i.tx = false; if let Some(w) = i.waiter.take() { crate::rt::wake(w) } } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { let i = self.0.i(); i.rx = false; if let Some(w) = i.tx_waiter.take() { crate::rt::wake(w) } } }
impl<T> Receiver<T> {
    pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
        let i = self.0.i();
        match i.val.take() {
            Some(v) => Ok(v),
            None => if i.tx { Err(error::TryRecvError::Empty) } else { Err(error::TryRecvError::Closed) },
        }
    }
    pub fn close(&mut self) { self.0.i().rx = false }
    pub fn blocking_recv(self) -> Result<T, error::RecvError> { crate::rt::block_on(self).unwrap_or(Err(error::RecvError)) }
}
impl<T> Future for Receiver<T> {
    type Output = Result<T, error::RecvError>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        let i = self.0.i();
        if let Some(v) = i.val.take() { return Poll::Ready(Ok(v)); }
        if !i.tx { return Poll::Ready(Err(error::RecvError)); }
        i.waiter = Some(crate::rt::current());
        Poll::Pending
    }
}
pub mod error {
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct RecvError;
    #[derive(Debug, Clone, PartialEq, Eq)] pub enum TryRecvError { Empty, Closed }
    impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
    impl std::error::Error for RecvError {}
    impl std::fmt::Display for TryRecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("try recv") } }
    impl std::error::Error for TryRecvError {}
}
