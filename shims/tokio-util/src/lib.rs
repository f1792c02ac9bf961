pub mod sync {
    use std::cell::UnsafeCell;
    use std::sync::Arc;
    use std::task::Poll;
    struct Inner { cancelled: bool, waiters: Vec<usize> }
    struct Shared(UnsafeCell<Inner>);
    unsafe impl Send for Shared {} unsafe impl Sync for Shared {}
    #[derive(Clone)]
    pub struct CancellationToken(Arc<Shared>);
    impl CancellationToken {
        pub fn new() -> Self { CancellationToken(Arc::new(Shared(UnsafeCell::new(Inner { cancelled: false, waiters: Vec::new() })))) }
        fn i(&self) -> &mut Inner { unsafe { &mut *(self.0).0.get() } }
        pub fn cancel(&self) { let i = self.i(); i.cancelled = true; for w in i.waiters.drain(..) { tokio::rt::wake(w) } }
        pub fn is_cancelled(&self) -> bool { self.i().cancelled }
        pub async fn cancelled(&self) { std::future::poll_fn(|_| if self.i().cancelled { Poll::Ready(()) } else { self.i().waiters.push(tokio::rt::current()); Poll::Pending }).await }
        pub fn child_token(&self) -> CancellationToken { self.clone() }
    }
    impl Default for CancellationToken { fn default() -> Self { Self::new() } }
    impl std::fmt::Debug for CancellationToken { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("CancellationToken") } }
}
pub mod codec {
    use bytes::{Bytes, BytesMut};
    use futures::{Sink, Stream};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{ReadHalf, WriteHalf, Shared};
    #[derive(Debug, Default, Clone)] pub struct LengthDelimitedCodec;
    impl LengthDelimitedCodec { pub fn new() -> Self { Self } pub fn builder() -> Self { Self } pub fn max_frame_length(self, _: usize) -> Self { self } pub fn new_codec(self) -> Self { self } }
    pub struct FramedRead<S, C> { pub s: S, pub c: C }
    /// What is fed stays in `buf` until it is flushed.
    pub struct FramedWrite<S, C> { pub s: S, pub c: C, buf: Vec<Bytes> }
    impl<S, C> FramedWrite<S, C> { pub fn get_ref(&self) -> &S { &self.s } pub fn get_mut(&mut self) -> &mut S { &mut self.s } pub fn into_inner(self) -> S { self.s } }
    impl<S, C> FramedRead<S, C> { pub fn get_ref(&self) -> &S { &self.s } pub fn into_inner(self) -> S { self.s } }
    impl<S, C> FramedRead<S, C> { pub fn new(s: S, c: C) -> Self { FramedRead { s, c } } }
    impl<S, C> FramedWrite<S, C> { pub fn new(s: S, c: C) -> Self { FramedWrite { s, c, buf: Vec::new() } } }
    impl<S, C> Unpin for FramedRead<S, C> {}
    pub trait FrameSource { fn sh(&self) -> Option<&Shared>; }
    impl<T> FrameSource for ReadHalf<T> { fn sh(&self) -> Option<&Shared> { Some(&self.0) } }
    impl<S: tokio::io::AsyncRead> Stream for FramedRead<S, LengthDelimitedCodec> {
        type Item = std::io::Result<BytesMut>;
        fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            // every reader in this model is a ReadHalf
            let any: *const S = &self.s;
            let half = unsafe { &*(any as *const ReadHalf<()>) };
            half.0.read().map(|o| o.map(|r| r.map(BytesMut)))
        }
    }
    impl<T> Sink<Bytes> for FramedWrite<WriteHalf<T>, LengthDelimitedCodec> {
        type Error = std::io::Error;
        fn feed_now(&mut self, b: Bytes) -> Result<(), std::io::Error> { self.buf.push(b); Ok(()) }
        fn flush_now(&mut self) -> Result<(), std::io::Error> { while !self.buf.is_empty() { let b = self.buf.remove(0); self.s.0.write(b.0)?; } Ok(()) }
        fn close_now(&mut self) -> Result<(), std::io::Error> { self.flush_now()?; self.s.0.tx.close(); Ok(()) }
    }
}
