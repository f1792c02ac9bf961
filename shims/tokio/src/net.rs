//! In-memory network: listeners by address, connections as pairs of frame queues.
use crate::io::{AsShared, PipeRef, Shared};
use std::cell::UnsafeCell;
use std::net::SocketAddr;
use std::sync::Arc;
use std::task::Poll;

pub struct TcpStream(pub Arc<Shared>);
impl AsShared for TcpStream { fn shared(&self) -> Arc<Shared> { self.0.clone() } }
impl crate::io::AsyncRead for TcpStream {} impl crate::io::AsyncWrite for TcpStream {}
/// What the harness sees of a connection.
pub struct Conn { pub addr: String, pub to_server: Arc<PipeRef>, pub to_client: Arc<PipeRef> }
struct Lst { addr: String, queue: Vec<TcpStream>, waiting: Option<usize>, open: bool }
static mut LISTENERS: Vec<Lst> = Vec::new();
static mut CONNS: Vec<Conn> = Vec::new();
static mut REFUSE: usize = 0;
/// Refuse the next `n` connection attempts.
pub fn refuse(n: usize) { unsafe { REFUSE = n } }
static mut UNRESOLVED: usize = 0;
/// The next `n` name lookups fail.
pub fn unresolved(n: usize) { unsafe { UNRESOLVED = n } }
static mut ALIASES: Vec<(String, String)> = Vec::new();
/// `name` leads to `addr` from now on.
pub fn alias(name: &str, addr: &str) { unsafe { ALIASES.retain(|a| a.0 != name); ALIASES.push((name.to_string(), addr.to_string())) } }
pub fn connections() -> &'static Vec<Conn> { unsafe { &CONNS } }
/// Break connection `i`: `lose` drops what is in flight, otherwise it can still be read.
pub fn cut(i: usize, lose: bool) {
    let c = &connections()[i];
    for p in [&c.to_server, &c.to_client] { if lose { p.reset() } else { p.close() } }
}
/// What is sent to the server of connection `i` stays on the way until released.
pub fn hold(i: usize, on: bool) { let p = &connections()[i].to_server; p.p().held = on; if !on { p.wake() } }
impl TcpStream {
    /// This connection breaks when the other end writes to it for the `n`+1st time from now.
    pub fn break_after(&self, n: usize) { self.0.rx.p().left = n }
    pub fn broken(&self) -> bool { self.0.rx.p().closed }
    pub fn cut(&self, lose: bool) { for p in [&self.0.rx, &self.0.tx] { if lose { p.reset() } else { p.close() } } }
}
fn pair(addr: String) -> (TcpStream, TcpStream) {
    let (a, b) = (PipeRef::new(), PipeRef::new());
    unsafe { CONNS.push(Conn { addr, to_server: a.clone(), to_client: b.clone() }) };
    (TcpStream(Arc::new(Shared { rx: b.clone(), tx: a.clone() })), TcpStream(Arc::new(Shared { rx: a, tx: b })))
}
/// A connection whose other end is in the harness' hands.
pub fn socket_pair() -> (TcpStream, TcpStream) { pair(String::new()) }
impl TcpStream {
    pub async fn connect<A: Addr>(a: A) -> std::io::Result<TcpStream> {
        let mut a = a.addr();
        unsafe {
            let mut i = 0;
            while i < ALIASES.len() { if ALIASES[i].0 == a { a = ALIASES[i].1.clone(); } i += 1; }
            if REFUSE > 0 { REFUSE -= 1; return Err(std::io::Error::from(std::io::ErrorKind::ConnectionRefused)); }
            let mut i = 0;
            while i < LISTENERS.len() {
                if LISTENERS[i].open && LISTENERS[i].addr == a {
                    let (c, s) = pair(a);
                    LISTENERS[i].queue.push(s);
                    if let Some(w) = LISTENERS[i].waiting.take() { crate::rt::wake(w) }
                    return Ok(c);
                }
                i += 1;
            }
        }
        Err(std::io::Error::from(std::io::ErrorKind::ConnectionRefused))
    }
    pub fn peer_addr(&self) -> std::io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 1))) }
    pub fn local_addr(&self) -> std::io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 2))) }
    pub fn set_nodelay(&self, _: bool) -> std::io::Result<()> { Ok(()) }
}
pub trait Addr { fn addr(&self) -> String; }
impl Addr for str { fn addr(&self) -> String { self.to_string() } }
impl Addr for String { fn addr(&self) -> String { self.clone() } }
impl Addr for SocketAddr { fn addr(&self) -> String { self.to_string() } }
impl<T: Addr + ?Sized> Addr for &T { fn addr(&self) -> String { (**self).addr() } }
pub trait ToSocketAddrs: Addr {} impl<T: Addr> ToSocketAddrs for T {}
pub struct TcpListener(usize);
impl TcpListener {
    pub async fn bind<A: Addr>(a: A) -> std::io::Result<TcpListener> {
        unsafe { LISTENERS.push(Lst { addr: a.addr(), queue: Vec::new(), waiting: None, open: true }); Ok(TcpListener(LISTENERS.len() - 1)) }
    }
    pub async fn accept(&self) -> std::io::Result<(TcpStream, SocketAddr)> {
        let i = self.0;
        std::future::poll_fn(move |_| unsafe {
            if LISTENERS[i].queue.is_empty() { LISTENERS[i].waiting = Some(crate::rt::current()); return Poll::Pending; }
            Poll::Ready(Ok((LISTENERS[i].queue.remove(0), SocketAddr::from(([127, 0, 0, 1], 1)))))
        }).await
    }
    pub fn local_addr(&self) -> std::io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 1))) }
}
impl Drop for TcpListener { fn drop(&mut self) { unsafe { LISTENERS[self.0].open = false; LISTENERS[self.0].queue.clear(); } } }
impl std::fmt::Debug for TcpListener { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TcpListener") } }
pub struct UdpSocket;
pub async fn lookup_host<A>(_: A) -> std::io::Result<std::vec::IntoIter<SocketAddr>> {
    unsafe { if UNRESOLVED > 0 { UNRESOLVED -= 1; return Err(std::io::Error::from(std::io::ErrorKind::NotFound)); } }
    Ok(Vec::new().into_iter())
}
impl std::fmt::Debug for TcpStream { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TcpStream") } }
pub mod tcp { pub type OwnedReadHalf = crate::io::ReadHalf<super::TcpStream>; pub type OwnedWriteHalf = crate::io::WriteHalf<super::TcpStream>; }
impl TcpStream { pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) { crate::io::split(self) } }
