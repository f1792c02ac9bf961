//! Latest-value channel.
use std::cell::UnsafeCell;
use std::sync::Arc;
use std::task::Poll;
struct Inner<T> { v: T, ver: u64, tx: bool, rxs: usize, waiters: Vec<usize> }
struct Shared<T>(UnsafeCell<Inner<T>>);
unsafe impl<T: Send> Send for Shared<T> {}
unsafe impl<T: Send> Sync for Shared<T> {}
impl<T> Shared<T> { fn i(&self) -> &mut Inner<T> { unsafe { &mut *self.0.get() } } }
pub struct Sender<T>(Arc<Shared<T>>);
pub struct Receiver<T> { s: Arc<Shared<T>>, seen: u64 }
pub struct Ref<'a, T>(&'a T);
impl<'a, T> std::ops::Deref for Ref<'a, T> { type Target = T; fn deref(&self) -> &T { self.0 } }
pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) { let s = Arc::new(Shared(UnsafeCell::new(Inner { v, ver: 0, tx: true, rxs: 1, waiters: Vec::new() }))); (Sender(s.clone()), Receiver { s, seen: 0 }) }
impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), error::SendError<T>> { let i = self.0.i(); if i.rxs == 0 { return Err(error::SendError(v)); } i.v = v; i.ver += 1; for w in i.waiters.drain(..) { crate::rt::wake(w) } Ok(()) }
    pub fn send_replace(&self, v: T) -> T { let i = self.0.i(); let o = std::mem::replace(&mut i.v, v); i.ver += 1; for w in i.waiters.drain(..) { crate::rt::wake(w) } o }
    pub fn borrow(&self) -> Ref<'_, T> { Ref(&self.0.i().v) }
    pub fn subscribe(&self) -> Receiver<T> { let i = self.0.i(); i.rxs += 1; Receiver { s: self.0.clone(), seen: i.ver } }
}
impl<T> Drop for Sender<T> { fn drop(&mut self) { let i = self.0.i(); i.tx = false; for w in i.waiters.drain(..) { crate::rt::wake(w) } } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.s.i().rxs -= 1 } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.s.i().rxs += 1; Receiver { s: self.s.clone(), seen: self.seen } } }
impl<T> Receiver<T> {
    pub fn borrow(&self) -> Ref<'_, T> { Ref(&self.s.i().v) }
    pub fn borrow_and_update(&mut self) -> Ref<'_, T> { self.seen = self.s.i().ver; Ref(&self.s.i().v) }
    pub async fn changed(&mut self) -> Result<(), error::RecvError> {
        std::future::poll_fn(|_| { let i = self.s.i(); if i.ver != self.seen { self.seen = i.ver; return Poll::Ready(Ok(())); } if !i.tx { return Poll::Ready(Err(error::RecvError)); } i.waiters.push(crate::rt::current()); Poll::Pending }).await
    }
}
pub mod error {
    pub struct SendError<T>(pub T);
    impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
    #[derive(Debug)] pub struct RecvError;
}
impl<T> Sender<T> {
    pub fn send_modify<F: FnOnce(&mut T)>(&self, f: F) { let i = self.0.i(); f(&mut i.v); i.ver += 1; for w in i.waiters.drain(..) { crate::rt::wake(w) } }
    pub fn send_if_modified<F: FnOnce(&mut T) -> bool>(&self, f: F) -> bool { let i = self.0.i(); let m = f(&mut i.v); if m { i.ver += 1; for w in i.waiters.drain(..) { crate::rt::wake(w) } } m }
    pub fn receiver_count(&self) -> usize { self.0.i().rxs }
    pub fn is_closed(&self) -> bool { self.0.i().rxs == 0 }
}
impl<T> Receiver<T> {
    pub fn has_changed(&self) -> Result<bool, error::RecvError> { let i = self.s.i(); if !i.tx { Err(error::RecvError) } else { Ok(i.ver != self.seen) } }
    pub async fn wait_for<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> Result<Ref<'_, T>, error::RecvError> {
        loop { self.seen = self.s.i().ver; if f(&self.s.i().v) { return Ok(Ref(&self.s.i().v)); } self.changed().await?; }
    }
}
