pub mod oneshot;
pub mod mpsc;
pub mod broadcast;
pub mod watch;
pub use mutex::{OwnedMutexGuard, OwnedSemaphorePermit, Semaphore, SemaphorePermit, TryLockError, Mutex, MutexGuard, Notify, RwLock, RwLockReadGuard, RwLockWriteGuard};
mod mutex {
    use std::cell::{Cell, RefCell, UnsafeCell};
    use std::ops::{Deref, DerefMut};
    use std::task::Poll;
    /// fair enough: everyone waiting is woken on release and the first polled gets it
    struct Gate { r: Cell<usize>, w: Cell<bool>, waiters: RefCell<Vec<usize>> }
    unsafe impl Send for Gate {} unsafe impl Sync for Gate {}
    impl Gate {
        fn new() -> Gate { Gate { r: Cell::new(0), w: Cell::new(false), waiters: RefCell::new(Vec::new()) } }
        fn release(&self) { for t in self.waiters.borrow_mut().drain(..) { crate::rt::wake(t) } }
        fn try_write(&self) -> bool { if self.w.get() || self.r.get() > 0 { false } else { self.w.set(true); true } }
        fn try_read(&self) -> bool { if self.w.get() { false } else { self.r.set(self.r.get() + 1); true } }
        async fn write(&self) { std::future::poll_fn(|_| if self.try_write() { Poll::Ready(()) } else { self.waiters.borrow_mut().push(crate::rt::current()); Poll::Pending }).await }
        async fn read(&self) { std::future::poll_fn(|_| if self.try_read() { Poll::Ready(()) } else { self.waiters.borrow_mut().push(crate::rt::current()); Poll::Pending }).await }
    }
    #[derive(Debug)] pub struct TryLockError;
    pub struct Mutex<T: ?Sized> { g: Gate, v: UnsafeCell<T> }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {} unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
    unsafe impl<'a, T: ?Sized + Send> Send for MutexGuard<'a, T> {} unsafe impl<'a, T: ?Sized + Send + Sync> Sync for MutexGuard<'a, T> {}
    impl<T> Mutex<T> { pub fn new(t: T) -> Self { Mutex { g: Gate::new(), v: UnsafeCell::new(t) } } pub fn into_inner(self) -> T { self.v.into_inner() } }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> { self.g.write().await; MutexGuard(self) }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> { if self.g.try_write() { Ok(MutexGuard(self)) } else { Err(TryLockError) } }
        pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
    }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> { fn drop(&mut self) { self.0.g.w.set(false); self.0.g.release() } }
    impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
    pub struct OwnedMutexGuard<T: ?Sized>(std::sync::Arc<Mutex<T>>);
    impl<T: ?Sized> Mutex<T> { pub async fn lock_owned(self: std::sync::Arc<Self>) -> OwnedMutexGuard<T> { self.g.write().await; OwnedMutexGuard(self) } }
    impl<T: ?Sized> Deref for OwnedMutexGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
    impl<T: ?Sized> DerefMut for OwnedMutexGuard<T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
    impl<T: ?Sized> Drop for OwnedMutexGuard<T> { fn drop(&mut self) { self.0.g.w.set(false); self.0.g.release() } }
    pub struct Semaphore { n: Cell<usize>, closed: Cell<bool>, waiters: RefCell<Vec<usize>> }
    unsafe impl Send for Semaphore {} unsafe impl Sync for Semaphore {}
    #[derive(Debug)] pub struct AcquireError;
    impl std::fmt::Display for AcquireError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("semaphore closed") } }
    impl std::error::Error for AcquireError {}
    pub struct SemaphorePermit<'a>(&'a Semaphore, usize);
    pub struct OwnedSemaphorePermit(std::sync::Arc<Semaphore>, usize);
    impl<'a> Drop for SemaphorePermit<'a> { fn drop(&mut self) { self.0.add_permits(self.1) } }
    impl Drop for OwnedSemaphorePermit { fn drop(&mut self) { self.0.add_permits(self.1) } }
    impl<'a> SemaphorePermit<'a> { pub fn forget(mut self) { self.1 = 0 } }
    impl Semaphore {
        pub fn new(n: usize) -> Semaphore { Semaphore { n: Cell::new(n), closed: Cell::new(false), waiters: RefCell::new(Vec::new()) } }
        pub fn add_permits(&self, n: usize) { if n > 0 { self.n.set(self.n.get() + n); for t in self.waiters.borrow_mut().drain(..) { crate::rt::wake(t) } } }
        pub fn available_permits(&self) -> usize { self.n.get() }
        pub fn close(&self) { self.closed.set(true); for t in self.waiters.borrow_mut().drain(..) { crate::rt::wake(t) } }
        async fn take(&self, n: usize) -> Result<(), AcquireError> { std::future::poll_fn(|_| if self.closed.get() { Poll::Ready(Err(AcquireError)) } else if self.n.get() >= n { self.n.set(self.n.get() - n); Poll::Ready(Ok(())) } else { self.waiters.borrow_mut().push(crate::rt::current()); Poll::Pending }).await }
        pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> { self.take(1).await?; Ok(SemaphorePermit(self, 1)) }
        pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> { self.take(n as usize).await?; Ok(SemaphorePermit(self, n as usize)) }
        pub async fn acquire_owned(self: std::sync::Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> { self.take(1).await?; Ok(OwnedSemaphorePermit(self, 1)) }
        pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryLockError> { if self.n.get() > 0 && !self.closed.get() { self.n.set(self.n.get() - 1); Ok(SemaphorePermit(self, 1)) } else { Err(TryLockError) } }
    }
    pub struct RwLock<T: ?Sized> { g: Gate, v: UnsafeCell<T> }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {} unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    unsafe impl<'a, T: ?Sized + Send + Sync> Send for RwLockReadGuard<'a, T> {} unsafe impl<'a, T: ?Sized + Send + Sync> Send for RwLockWriteGuard<'a, T> {}
    impl<T> RwLock<T> { pub fn new(t: T) -> Self { RwLock { g: Gate::new(), v: UnsafeCell::new(t) } } pub fn into_inner(self) -> T { self.v.into_inner() } }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> { self.g.read().await; RwLockReadGuard(self) }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> { if self.g.try_read() { Ok(RwLockReadGuard(self)) } else { Err(TryLockError) } }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> { if self.g.try_write() { Ok(RwLockWriteGuard(self)) } else { Err(TryLockError) } }
        pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> { self.g.write().await; RwLockWriteGuard(self) }
    }
    impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
    impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
    impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> { fn drop(&mut self) { self.0.g.r.set(self.0.g.r.get() - 1); self.0.g.release() } }
    impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> { fn drop(&mut self) { self.0.g.w.set(false); self.0.g.release() } }
    impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
    #[derive(Default)]
    pub struct Notify { permit: Cell<bool>, waiters: RefCell<Vec<(usize, std::sync::Arc<NotifyFlag>)>> }
    #[derive(Default)] pub struct NotifyFlag(Cell<bool>);
    unsafe impl Send for NotifyFlag {} unsafe impl Sync for NotifyFlag {}
    unsafe impl Send for Notify {} unsafe impl Sync for Notify {}
    impl Notify {
        pub fn new() -> Notify { Notify::default() }
        pub fn notify_one(&self) { let mut w = self.waiters.borrow_mut(); if w.is_empty() { self.permit.set(true) } else { let (t, f) = w.remove(0); f.0.set(true); crate::rt::wake(t) } }
        pub fn notify_waiters(&self) { for (t, f) in self.waiters.borrow_mut().drain(..) { f.0.set(true); crate::rt::wake(t) } }
        pub async fn notified(&self) {
            let mut mine: Option<std::sync::Arc<NotifyFlag>> = None;
            std::future::poll_fn(move |_| {
                if let Some(f) = &mine { return if f.0.get() { Poll::Ready(()) } else { Poll::Pending }; }
                if self.permit.take() { return Poll::Ready(()); }
                let f = std::sync::Arc::new(NotifyFlag::default());
                self.waiters.borrow_mut().push((crate::rt::current(), f.clone()));
                mine = Some(f);
                Poll::Pending
            }).await
        }
    }
}
