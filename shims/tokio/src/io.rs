pub use std::io::{Error, ErrorKind, Result};
pub trait AsyncRead {} pub trait AsyncWrite {} pub trait AsyncReadExt {} pub trait AsyncWriteExt {}
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::Arc;
/// One direction of a connection: whole frames, in order.
pub struct Pipe { pub frames: VecDeque<Vec<u8>>, pub closed: bool, pub reset: bool, pub waiting: Option<usize>, pub held: bool, pub left: usize, pub log: Vec<Vec<u8>> }
pub struct PipeRef(UnsafeCell<Pipe>);
unsafe impl Send for PipeRef {} unsafe impl Sync for PipeRef {}
impl PipeRef {
    pub fn new() -> Arc<PipeRef> { Arc::new(PipeRef(UnsafeCell::new(Pipe { frames: VecDeque::new(), closed: false, reset: false, waiting: None, held: false, left: usize::MAX, log: Vec::new() }))) }
    pub fn p(&self) -> &mut Pipe { unsafe { &mut *self.0.get() } }
    pub fn wake(&self) { if let Some(t) = self.p().waiting.take() { crate::rt::wake(t) } }
    /// the writer is done; what was written can still be read
    pub fn close(&self) { self.p().closed = true; self.wake() }
    /// the connection is gone, together with what was not read yet
    pub fn reset(&self) { let p = self.p(); p.closed = true; p.reset = true; p.frames.clear(); self.wake() }
}
/// One end of a connection.  Dropping the last handle to it closes both directions.
pub struct Shared { pub rx: Arc<PipeRef>, pub tx: Arc<PipeRef> }
impl Drop for Shared { fn drop(&mut self) { self.tx.close(); self.rx.p().reset = true; } }
impl Shared {
    pub fn write(&self, b: Vec<u8>) -> Result<()> {
        let p = self.tx.p();
        if p.left == 0 { self.tx.close(); self.rx.close(); }
        if p.closed || p.reset { return Err(Error::from(ErrorKind::BrokenPipe)); }
        p.left -= 1;
        p.frames.push_back(b);
        self.tx.wake();
        Ok(())
    }
    pub fn read(&self) -> std::task::Poll<Option<Result<Vec<u8>>>> {
        let p = self.rx.p();
        if p.held && !p.reset { p.waiting = Some(crate::rt::current()); return std::task::Poll::Pending; }
        if let Some(f) = p.frames.pop_front() { return std::task::Poll::Ready(Some(Ok(f))); }
        if p.closed || p.reset { return std::task::Poll::Ready(None); }
        p.waiting = Some(crate::rt::current());
        std::task::Poll::Pending
    }
}
pub struct ReadHalf<S>(pub Arc<Shared>, pub std::marker::PhantomData<S>);
pub struct WriteHalf<S>(pub Arc<Shared>, pub std::marker::PhantomData<S>);
impl<S> AsyncRead for ReadHalf<S> {} impl<S> AsyncWrite for WriteHalf<S> {}
impl<S> Unpin for ReadHalf<S> {} impl<S> Unpin for WriteHalf<S> {}
pub fn split<S: AsShared>(s: S) -> (ReadHalf<S>, WriteHalf<S>) { let a = s.shared(); (ReadHalf(a.clone(), std::marker::PhantomData), WriteHalf(a, std::marker::PhantomData)) }
pub trait AsShared { fn shared(&self) -> Arc<Shared>; }
impl<S> WriteHalf<S> { pub async fn shutdown(&mut self) -> Result<()> { self.0.tx.close(); Ok(()) } pub async fn flush(&mut self) -> Result<()> { Ok(()) } }
