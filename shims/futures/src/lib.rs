pub use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[macro_export]
macro_rules! ready {
    ($e:expr $(,)?) => { match $e { core::task::Poll::Ready(t) => t, core::task::Poll::Pending => return core::task::Poll::Pending } };
}
pub mod stream {
    pub use crate::{Stream, StreamExt};
    use super::*;
    pub struct Map<S, F>(pub(crate) Pin<Box<S>>, pub(crate) F);
    impl<S, F> Unpin for Map<S, F> {}
    impl<S: Stream, U, F: FnMut(S::Item) -> U> Stream for Map<S, F> { type Item = U; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<U>> { let p = self.0.as_mut().poll_next(cx); p.map(|o| o.map(|x| (self.1)(x))) } }
    pub struct Iter<I>(I);
    impl<I> Unpin for Iter<I> {}
    pub fn iter<I: IntoIterator>(i: I) -> Iter<I::IntoIter> { Iter(i.into_iter()) }
    impl<I: Iterator> Stream for Iter<I> { type Item = I::Item; fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<I::Item>> { Poll::Ready(self.0.next()) } }
    pub struct Then<S, Fut, F>(pub(crate) Pin<Box<S>>, pub(crate) F, pub(crate) Option<Pin<Box<Fut>>>);
    impl<S, Fut, F> Unpin for Then<S, Fut, F> {}
    impl<S: Stream, Fut: Future, F: FnMut(S::Item) -> Fut> Stream for Then<S, Fut, F> { type Item = Fut::Output; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Fut::Output>> {
        if self.2.is_none() { match self.0.as_mut().poll_next(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(None) => return Poll::Ready(None), Poll::Ready(Some(x)) => { let f = (self.1)(x); self.2 = Some(Box::pin(f)) } } }
        match self.2.as_mut().unwrap().as_mut().poll(cx) { Poll::Ready(v) => { self.2 = None; Poll::Ready(Some(v)) } Poll::Pending => Poll::Pending }
    } }
    pub struct Filter<S: Stream, Fut, F>(pub(crate) Pin<Box<S>>, pub(crate) F, pub(crate) Option<(Option<S::Item>, Pin<Box<Fut>>)>);
    impl<S: Stream, Fut, F> Unpin for Filter<S, Fut, F> {}
    impl<S: Stream, Fut: Future<Output = bool>, F: FnMut(&S::Item) -> Fut> Stream for Filter<S, Fut, F> { type Item = S::Item; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> { loop {
        if self.2.is_none() { match self.0.as_mut().poll_next(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(None) => return Poll::Ready(None), Poll::Ready(Some(x)) => { let f = (self.1)(&x); self.2 = Some((Some(x), Box::pin(f))) } } }
        match self.2.as_mut().unwrap().1.as_mut().poll(cx) { Poll::Ready(k) => { let (x, _) = self.2.take().unwrap(); if k { return Poll::Ready(x); } } Poll::Pending => return Poll::Pending }
    } } }
    pub struct FilterMap<S, Fut, F>(pub(crate) Pin<Box<S>>, pub(crate) F, pub(crate) Option<Pin<Box<Fut>>>);
    impl<S, Fut, F> Unpin for FilterMap<S, Fut, F> {}
    impl<S: Stream, U, Fut: Future<Output = Option<U>>, F: FnMut(S::Item) -> Fut> Stream for FilterMap<S, Fut, F> { type Item = U; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<U>> { loop {
        if self.2.is_none() { match self.0.as_mut().poll_next(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(None) => return Poll::Ready(None), Poll::Ready(Some(x)) => { let f = (self.1)(x); self.2 = Some(Box::pin(f)) } } }
        match self.2.as_mut().unwrap().as_mut().poll(cx) { Poll::Ready(v) => { self.2 = None; if v.is_some() { return Poll::Ready(v); } } Poll::Pending => return Poll::Pending }
    } } }
    pub struct Take<S>(pub(crate) Pin<Box<S>>, pub(crate) usize);
    impl<S> Unpin for Take<S> {}
    impl<S: Stream> Stream for Take<S> { type Item = S::Item; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> { if self.1 == 0 { return Poll::Ready(None); } let p = self.0.as_mut().poll_next(cx); if let Poll::Ready(Some(_)) = p { self.1 -= 1 } p } }
    pub struct Buffered<S: Stream>(pub(crate) Pin<Box<S>>, pub(crate) Option<Pin<Box<S::Item>>>);
    impl<S: Stream> Unpin for Buffered<S> {}
    impl<S: Stream> Stream for Buffered<S> where S::Item: Future { type Item = <S::Item as Future>::Output; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.1.is_none() { match self.0.as_mut().poll_next(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(None) => return Poll::Ready(None), Poll::Ready(Some(x)) => self.1 = Some(Box::pin(x)) } }
        match self.1.as_mut().unwrap().as_mut().poll(cx) { Poll::Ready(v) => { self.1 = None; Poll::Ready(Some(v)) } Poll::Pending => Poll::Pending }
    } }
    pub trait TryStreamExt: Stream { }
    impl<S: ?Sized + Stream> TryStreamExt for S {}
    pub type BoxStream<'a, T> = Pin<Box<dyn Stream<Item = T> + Send + 'a>>;
    pub struct FuturesOrdered<F: Future>(std::collections::VecDeque<(Pin<Box<F>>, Option<F::Output>)>);
    impl<F: Future> Unpin for FuturesOrdered<F> {}
    impl<F: Future> FuturesOrdered<F> { pub fn new() -> Self { FuturesOrdered(Default::default()) } pub fn push_back(&mut self, f: F) { self.0.push_back((Box::pin(f), None)) } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } }
    impl<F: Future> std::iter::FromIterator<F> for FuturesOrdered<F> { fn from_iter<I: IntoIterator<Item = F>>(i: I) -> Self { FuturesOrdered(i.into_iter().map(|f| (Box::pin(f), None)).collect()) } }
    impl<F: Future> Stream for FuturesOrdered<F> { type Item = F::Output; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<F::Output>> {
        if self.0.is_empty() { return Poll::Ready(None); }
        for (f, o) in self.0.iter_mut() { if o.is_none() { if let Poll::Ready(v) = f.as_mut().poll(cx) { *o = Some(v) } } }
        if self.0[0].1.is_some() { Poll::Ready(self.0.pop_front().unwrap().1) } else { Poll::Pending }
    } }
    pub struct FuturesUnordered<F>(Vec<Pin<Box<F>>>);
    impl<F> Unpin for FuturesUnordered<F> {}
    impl<F: Future> FuturesUnordered<F> { pub fn new() -> Self { FuturesUnordered(Vec::new()) } pub fn push(&mut self, f: F) { self.0.push(Box::pin(f)) } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } }
    impl<F: Future> std::iter::FromIterator<F> for FuturesUnordered<F> { fn from_iter<I: IntoIterator<Item = F>>(i: I) -> Self { FuturesUnordered(i.into_iter().map(Box::pin).collect()) } }
    impl<F: Future> Stream for FuturesUnordered<F> { type Item = F::Output; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<F::Output>> {
        if self.0.is_empty() { return Poll::Ready(None); }
        for i in 0..self.0.len() { if let Poll::Ready(v) = self.0[i].as_mut().poll(cx) { let _ = self.0.remove(i); return Poll::Ready(Some(v)); } }
        Poll::Pending
    } }
}
pub mod sink { pub use crate::{Sink, SinkExt}; }
pub trait Stream {
    type Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
}
pub trait StreamExt: Stream {
    fn next(&mut self) -> Next<'_, Self> where Self: Unpin { Next(self) }
    fn map<U, F: FnMut(Self::Item) -> U>(self, f: F) -> stream::Map<Self, F> where Self: Sized { stream::Map(Box::pin(self), f) }
    fn for_each<Fut: Future<Output = ()>, F: FnMut(Self::Item) -> Fut>(self, mut f: F) -> impl Future<Output = ()> where Self: Sized { let mut s = Box::pin(self); async move { while let Some(x) = s.next().await { f(x).await } } }
    fn then<Fut: Future, F: FnMut(Self::Item) -> Fut>(self, f: F) -> stream::Then<Self, Fut, F> where Self: Sized { stream::Then(Box::pin(self), f, None) }
    fn filter<Fut: Future<Output = bool>, F: FnMut(&Self::Item) -> Fut>(self, f: F) -> stream::Filter<Self, Fut, F> where Self: Sized { stream::Filter(Box::pin(self), f, None) }
    fn filter_map<U, Fut: Future<Output = Option<U>>, F: FnMut(Self::Item) -> Fut>(self, f: F) -> stream::FilterMap<Self, Fut, F> where Self: Sized { stream::FilterMap(Box::pin(self), f, None) }
    fn take(self, n: usize) -> stream::Take<Self> where Self: Sized { stream::Take(Box::pin(self), n) }
    fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>> where Self: Sized + Send + 'a { Box::pin(self) }
    fn fold<T, Fut: Future<Output = T>, F: FnMut(T, Self::Item) -> Fut>(self, init: T, mut f: F) -> impl Future<Output = T> where Self: Sized { let mut s = Box::pin(self); async move { let mut a = init; while let Some(x) = s.next().await { a = f(a, x).await } a } }
    /// one after the other: a limit of one is as good as any other
    fn buffer_unordered(self, _: usize) -> stream::Buffered<Self> where Self: Sized, Self::Item: Future { stream::Buffered(Box::pin(self), None) }
    fn buffered(self, _: usize) -> stream::Buffered<Self> where Self: Sized, Self::Item: Future { stream::Buffered(Box::pin(self), None) }
    fn for_each_concurrent<Fut: Future<Output = ()>, F: FnMut(Self::Item) -> Fut>(self, _: impl Into<Option<usize>>, mut f: F) -> impl Future<Output = ()> where Self: Sized { let mut s = Box::pin(self); async move { let mut v = Vec::new(); while let Some(x) = s.next().await { v.push(f(x)) } future::join_all(v).await; } }
    fn collect<C: Default + Extend<Self::Item>>(self) -> impl Future<Output = C> where Self: Sized { let mut s = Box::pin(self); async move { let mut c = C::default(); while let Some(x) = s.next().await { c.extend(Some(x)) } c } }
}
impl<S: ?Sized + Stream> Stream for Pin<Box<S>> { type Item = S::Item; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> { self.as_mut().get_mut().as_mut().poll_next(cx) } }
impl<S: ?Sized + Stream + Unpin> Stream for &mut S { type Item = S::Item; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> { Pin::new(&mut **self).poll_next(cx) } }
impl<T: ?Sized + Stream> StreamExt for T {}
pub struct Next<'a, S: ?Sized>(&'a mut S);
impl<'a, S: ?Sized + Stream + Unpin> Future for Next<'a, S> {
    type Output = Option<S::Item>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> { Pin::new(&mut *self.0).poll_next(cx) }
}
pub trait Sink<Item> {
    type Error;
    fn feed_now(&mut self, item: Item) -> Result<(), Self::Error>;
    fn flush_now(&mut self) -> Result<(), Self::Error>;
    fn send_now(&mut self, item: Item) -> Result<(), Self::Error> { self.feed_now(item)?; self.flush_now() }
    fn close_now(&mut self) -> Result<(), Self::Error>;
}
pub trait SinkExt<Item>: Sink<Item> {
    fn send(&mut self, item: Item) -> std::future::Ready<Result<(), Self::Error>> { std::future::ready(self.send_now(item)) }
    fn feed(&mut self, item: Item) -> std::future::Ready<Result<(), Self::Error>> { std::future::ready(self.feed_now(item)) }
    fn flush(&mut self) -> std::future::Ready<Result<(), Self::Error>> { std::future::ready(self.flush_now()) }
    fn close(&mut self) -> std::future::Ready<Result<(), Self::Error>> { std::future::ready(self.close_now()) }
}
impl<T: ?Sized + Sink<I>, I> SinkExt<I> for T {}
pub mod future {
    use super::*;
    pub use std::future::{ready, pending, Future, Ready};
    pub type BoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
    pub trait FutureExt: Future {
        fn boxed<'a>(self) -> BoxFuture<'a, Self::Output> where Self: Sized + Send + 'a { Box::pin(self) }
        fn map<U, F: FnOnce(Self::Output) -> U>(self, f: F) -> impl Future<Output = U> where Self: Sized { async move { f(self.await) } }
        fn now_or_never(self) -> Option<Self::Output> where Self: Sized { let mut f = Box::pin(self); let mut cx = Context::from_waker(std::task::Waker::noop()); match f.as_mut().poll(&mut cx) { Poll::Ready(v) => Some(v), _ => None } }
        fn inspect<F: FnOnce(&Self::Output)>(self, f: F) -> impl Future<Output = Self::Output> where Self: Sized { async move { let v = self.await; f(&v); v } }
        fn fuse(self) -> Fuse<Self> where Self: Sized { Fuse(Some(Box::pin(self))) }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + 'a>> where Self: Sized + 'a { Box::pin(self) }
        fn then<Fut: Future, F: FnOnce(Self::Output) -> Fut>(self, f: F) -> impl Future<Output = Fut::Output> where Self: Sized { async move { f(self.await).await } }
    }
    impl<T: ?Sized + Future> FutureExt for T {}
    pub struct Fuse<F>(Option<Pin<Box<F>>>);
    impl<F> Unpin for Fuse<F> {}
    impl<F: Future> Future for Fuse<F> { type Output = F::Output; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> { match &mut self.0 { None => Poll::Pending, Some(f) => match f.as_mut().poll(cx) { Poll::Ready(v) => { self.0 = None; Poll::Ready(v) } p => p } } } }
    pub trait TryFutureExt: Future<Output = Result<Self::Ok, Self::Error>> {
        type Ok; type Error;
        fn map_ok<U, F: FnOnce(Self::Ok) -> U>(self, f: F) -> impl Future<Output = Result<U, Self::Error>> where Self: Sized { async move { self.await.map(f) } }
        fn map_err<U, F: FnOnce(Self::Error) -> U>(self, f: F) -> impl Future<Output = Result<Self::Ok, U>> where Self: Sized { async move { self.await.map_err(f) } }
        fn and_then<Fut: Future<Output = Result<U, Self::Error>>, U, F: FnOnce(Self::Ok) -> Fut>(self, f: F) -> impl Future<Output = Result<U, Self::Error>> where Self: Sized { async move { match self.await { Ok(v) => f(v).await, Err(e) => Err(e) } } }
        fn or_else<Fut: Future<Output = Result<Self::Ok, U>>, U, F: FnOnce(Self::Error) -> Fut>(self, f: F) -> impl Future<Output = Result<Self::Ok, U>> where Self: Sized { async move { match self.await { Ok(v) => Ok(v), Err(e) => f(e).await } } }
        fn unwrap_or_else<F: FnOnce(Self::Error) -> Self::Ok>(self, f: F) -> impl Future<Output = Self::Ok> where Self: Sized { async move { self.await.unwrap_or_else(f) } }
    }
    impl<T, E, X: ?Sized + Future<Output = Result<T, E>>> TryFutureExt for X { type Ok = T; type Error = E; }
    #[derive(Debug, Clone)] pub enum Either<A, B> { Left(A), Right(B) }
    pub struct Select<A, B>(Option<(A, B)>);
    impl<A, B> Unpin for Select<A, B> {}
    pub fn select<A: Future + Unpin, B: Future + Unpin>(a: A, b: B) -> Select<A, B> { Select(Some((a, b))) }
    impl<A: Future + Unpin, B: Future + Unpin> Future for Select<A, B> { type Output = Either<(A::Output, B), (B::Output, A)>; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let (mut a, mut b) = self.0.take().expect("polled after completion");
        if let Poll::Ready(v) = Pin::new(&mut a).poll(cx) { return Poll::Ready(Either::Left((v, b))); }
        if let Poll::Ready(v) = Pin::new(&mut b).poll(cx) { return Poll::Ready(Either::Right((v, a))); }
        self.0 = Some((a, b)); Poll::Pending
    } }
    pub async fn select_all<F: Future + Unpin, I: IntoIterator<Item = F>>(it: I) -> (F::Output, usize, Vec<F>) {
        let mut v: Vec<F> = it.into_iter().collect();
        let (out, i) = std::future::poll_fn(|cx| { for i in 0..v.len() { if let Poll::Ready(o) = Pin::new(&mut v[i]).poll(cx) { return Poll::Ready((o, i)); } } Poll::Pending }).await;
        let _ = v.remove(i); (out, i, v)
    }
    pub fn ok<T, E>(t: T) -> Ready<Result<T, E>> { ready(Ok(t)) }
    pub fn err<T, E>(e: E) -> Ready<Result<T, E>> { ready(Err(e)) }
    pub fn lazy<R, F: FnOnce(&mut Context<'_>) -> R>(f: F) -> impl Future<Output = R> { let mut f = Some(f); std::future::poll_fn(move |cx| Poll::Ready((f.take().unwrap())(cx))) }
    pub use std::future::poll_fn;
    pub type LocalBoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
    pub async fn join3<A: Future, B: Future, C: Future>(a: A, b: B, c: C) -> (A::Output, B::Output, C::Output) { let (a, (b, c)) = join(a, join(b, c)).await; (a, b, c) }
    pub async fn join<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
        let (mut a, mut b) = (Box::pin(a), Box::pin(b));
        let (mut x, mut y) = (None, None);
        std::future::poll_fn(move |cx| {
            if x.is_none() { if let Poll::Ready(v) = a.as_mut().poll(cx) { x = Some(v) } }
            if y.is_none() { if let Poll::Ready(v) = b.as_mut().poll(cx) { y = Some(v) } }
            if x.is_some() && y.is_some() { Poll::Ready((x.take().unwrap(), y.take().unwrap())) } else { Poll::Pending }
        }).await
    }
    pub async fn try_join_all<I: IntoIterator<Item = F>, F: Future<Output = Result<T, E>>, T, E>(it: I) -> Result<Vec<T>, E> { join_all(it).await.into_iter().collect() }

    pub struct JoinAll<F: Future> { futs: Vec<Option<Pin<Box<F>>>>, outs: Vec<Option<F::Output>>, }
    impl<F: Future> Unpin for JoinAll<F> {}
    pub fn join_all<I: IntoIterator<Item = F>, F: Future>(it: I) -> JoinAll<F> {
        let mut futs = Vec::new();
        let mut outs = Vec::new();
        for f in it { futs.push(Some(Box::pin(f))); outs.push(None); }
        JoinAll { futs, outs }
    }
    impl<F: Future> Future for JoinAll<F> {
        type Output = Vec<F::Output>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Vec<F::Output>> {
            let mut pending = false;
            let this = &mut *self;
            for i in 0..this.futs.len() {
                if let Some(f) = &mut this.futs[i] {
                    match f.as_mut().poll(cx) {
                        Poll::Ready(v) => { this.outs[i] = Some(v); this.futs[i] = None; }
                        Poll::Pending => pending = true,
                    }
                }
            }
            if pending { Poll::Pending } else {
                let outs = std::mem::take(&mut this.outs);
                Poll::Ready(outs.into_iter().map(|o| o.unwrap()).collect())
            }
        }
    }
}
pub use future::{FutureExt, TryFutureExt};
#[macro_export]
macro_rules! join {
    ($a:expr, $b:expr $(,)?) => { $crate::future::join($a, $b).await };
    ($a:expr, $b:expr, $c:expr $(,)?) => { $crate::future::join3($a, $b, $c).await };
}
#[macro_export]
macro_rules! pin_mut { ($($x:ident),* $(,)?) => { $( let mut $x = std::pin::pin!($x); )* } }
pub use std::pin::pin;
