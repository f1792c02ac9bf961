//! Single-threaded locks: a second acquisition while held is a self-deadlock and is reported.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};
#[derive(Default)]
pub struct Mutex<T: ?Sized> { held: Cell<bool>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T> Mutex<T> { pub const fn new(v: T) -> Self { Mutex { held: Cell::new(false), v: UnsafeCell::new(v) } } pub fn into_inner(self) -> T { self.v.into_inner() } }
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> { assert!(!self.held.get(), "deadlock: mutex already held"); self.held.set(true); MutexGuard(self) }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
    pub fn is_locked(&self) -> bool { self.held.get() }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { if self.held.get() { None } else { Some(self.lock()) } }
}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> { fn drop(&mut self) { self.0.held.set(false) } }
impl<T: std::fmt::Debug> std::fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Mutex") } }
#[derive(Default)]
pub struct RwLock<T: ?Sized> { w: Cell<bool>, r: Cell<usize>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T> RwLock<T> { pub const fn new(v: T) -> Self { RwLock { w: Cell::new(false), r: Cell::new(0), v: UnsafeCell::new(v) } } pub fn into_inner(self) -> T { self.v.into_inner() } }
impl<T: ?Sized> RwLock<T> {
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> { if self.w.get() || self.r.get() > 0 { None } else { Some(self.write()) } }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> { if self.w.get() { None } else { Some(self.read()) } }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> { assert!(!self.w.get() && self.r.get() == 0, "deadlock: rwlock already held"); self.w.set(true); RwLockWriteGuard(self) }
    pub fn read(&self) -> RwLockReadGuard<'_, T> { assert!(!self.w.get(), "deadlock: rwlock already held"); self.r.set(self.r.get() + 1); RwLockReadGuard(self) }
}
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> { fn drop(&mut self) { self.0.w.set(false) } }
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> { fn drop(&mut self) { self.0.r.set(self.0.r.get() - 1) } }
impl<T: std::fmt::Debug> std::fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RwLock") } }
pub struct MappedRwLockReadGuard<'a, T: ?Sized>(&'a Cell<usize>, &'a T);
impl<'a, T: ?Sized> RwLockReadGuard<'a, T> { pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(g: Self, f: F) -> MappedRwLockReadGuard<'a, U> { let l = g.0; std::mem::forget(g); MappedRwLockReadGuard(&l.r, f(unsafe { &*l.v.get() })) } }
impl<'a, T: ?Sized> Deref for MappedRwLockReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { self.1 } }
impl<'a, T: ?Sized> Drop for MappedRwLockReadGuard<'a, T> { fn drop(&mut self) { self.0.set(self.0.get() - 1) } }
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<'a, T: ?Sized> Deref for RwLockUpgradableReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<'a, T: ?Sized> Drop for RwLockUpgradableReadGuard<'a, T> { fn drop(&mut self) { self.0.r.set(self.0.r.get() - 1) } }
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> { pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> { let l = s.0; drop(s); l.write() } }
impl<T: ?Sized> RwLock<T> { pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> { assert!(!self.w.get(), "deadlock: rwlock already held"); self.r.set(self.r.get() + 1); RwLockUpgradableReadGuard(self) } pub fn is_locked(&self) -> bool { self.w.get() || self.r.get() > 0 } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
