//! A Redis server as far as sorted sets go, and the client API around it.
//! Scores are integers (the code under check uses no others; a real server keeps doubles, exact up to 2^53).
use std::fmt::{Debug, Display, Formatter};
use std::future::Future;
use tokio::rt;

pub struct RedisError(&'static str);
pub type RedisResult<T> = Result<T, RedisError>;
pub type RedisFuture<'a, T> = std::pin::Pin<Box<dyn Future<Output = RedisResult<T>> + Send + 'a>>;
impl Debug for RedisError { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl Display for RedisError { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for RedisError {}

// ---------------------------------------------------------------- the server
type Set = Vec<(i64, Vec<u8>)>; // by score, then by member
static mut DB: Vec<(Vec<u8>, Set)> = Vec::new();
static mut FAIL: u32 = 0;
static mut LOSE: u32 = 0;
/// the next n commands are refused without effect
pub fn fail(n: u32) { unsafe { FAIL = n } }
/// the next n commands take effect, but their answers are lost
pub fn lose_answers(n: u32) { unsafe { LOSE = n } }
pub fn keys() -> usize { unsafe { DB.iter().filter(|e| e.1.len() > 0).count() } }

#[derive(Debug, Clone, PartialEq)]
pub enum Value { Nil, Int(i64), Data(Vec<u8>), Bulk(Vec<Value>), Status(String), Okay }
#[derive(Clone, Debug)]
pub enum Arg { Int(i64), Data(Vec<u8>) }
impl Arg {
    fn bytes(&self) -> Vec<u8> { match self { Arg::Int(i) => i.to_string().into_bytes(), Arg::Data(d) => d.clone() } }
    fn is(&self, s: &str) -> bool { match self { Arg::Data(d) => d.len() == s.len() && d.eq_ignore_ascii_case(s.as_bytes()), _ => false } }
    fn int(&self) -> Option<i64> { match self { Arg::Int(i) => Some(*i), Arg::Data(d) => std::str::from_utf8(d).ok()?.parse().ok() } }
    /// an end of a range of scores: (value, exclusive); None: not a number
    fn bound(&self) -> Option<Bound> {
        match self {
            Arg::Int(i) => Some(Bound::At(*i, false)),
            Arg::Data(d) => {
                if self.is("+inf") || self.is("inf") { return Some(Bound::High); }
                if self.is("-inf") { return Some(Bound::Low); }
                let (x, d) = if d.len() > 0 && d[0] == b'(' { (true, &d[1..]) } else { (false, &d[..]) };
                Some(Bound::At(std::str::from_utf8(d).ok()?.parse().ok()?, x))
            }
        }
    }
}
#[derive(Clone, Copy)]
enum Bound { Low, High, At(i64, bool) }
fn above(s: i64, lo: Bound) -> bool { match lo { Bound::Low => true, Bound::High => false, Bound::At(v, x) => if x { s > v } else { s >= v } } }
fn below(s: i64, hi: Bound) -> bool { match hi { Bound::High => true, Bound::Low => false, Bound::At(v, x) => if x { s < v } else { s <= v } } }
fn set(key: &Arg) -> &'static mut Set {
    let k = key.bytes();
    unsafe {
        let mut i = 0;
        while i < DB.len() { if DB[i].0 == k { return &mut DB[i].1; } i += 1; }
        DB.push((k, Vec::new()));
        let n = DB.len();
        &mut DB[n - 1].1
    }
}
fn zadd(key: &Arg, score: i64, member: Vec<u8>) -> i64 {
    let s = set(key);
    let mut new = 1;
    let mut i = 0;
    while i < s.len() { if s[i].1 == member { s.remove(i); new = 0; break; } i += 1; }
    let mut i = 0;
    while i < s.len() && (s[i].0 < score || (s[i].0 == score && s[i].1 < member)) { i += 1; }
    s.insert(i, (score, member));
    new
}
fn range(key: &Arg, lo: Bound, hi: Bound, rev: bool, limit: Option<(i64, i64)>) -> Value {
    let mut out = Vec::new();
    let s = set(key);
    let mut i = 0;
    while i < s.len() {
        let e = &s[if rev { s.len() - 1 - i } else { i }];
        if above(e.0, lo) && below(e.0, hi) { out.push(Value::Data(e.1.clone())); }
        i += 1;
    }
    if let Some((off, n)) = limit {
        let off = off.max(0) as usize;
        out = out.into_iter().skip(off).collect();
        if n >= 0 { out.truncate(n as usize); }
    }
    Value::Bulk(out)
}
fn run(a: &[Arg]) -> RedisResult<Value> {
    const SYNTAX: RedisError = RedisError("ERR syntax error");
    const FLOAT: RedisError = RedisError("ERR value is not a valid float");
    const COUNT: RedisError = RedisError("ERR wrong number of arguments");
    if a.is_empty() { return Err(COUNT); }
    if a[0].is("ZADD") {
        let mut at = 2;
        let (mut nx, mut xx) = (false, false);
        while at < a.len() { if a[at].is("NX") { nx = true; } else if a[at].is("XX") { xx = true; } else if !a[at].is("CH") { break; } at += 1; }
        if nx || xx { return Err(RedisError("not modelled")); }
        if a.len() < at + 2 || (a.len() - at) % 2 != 0 { return Err(COUNT); }
        let mut i = at;
        while i < a.len() { if a[i].int().is_none() { return Err(FLOAT); } i += 2; }
        let mut n = 0;
        let mut i = at;
        while i < a.len() { n += zadd(&a[1], a[i].int().unwrap(), a[i + 1].bytes()); i += 2; }
        return Ok(Value::Int(n));
    }
    if a[0].is("ZRANGE") || a[0].is("ZRANGEBYSCORE") || a[0].is("ZREVRANGEBYSCORE") {
        if a.len() < 4 { return Err(COUNT); }
        let (mut byscore, mut rev, mut limit) = (!a[0].is("ZRANGE"), a[0].is("ZREVRANGEBYSCORE"), None);
        let mut i = 4;
        while i < a.len() {
            if a[i].is("BYSCORE") { byscore = true; } else if a[i].is("REV") { rev = true; }
            else if a[i].is("LIMIT") { if i + 2 >= a.len() { return Err(SYNTAX); } limit = Some((a[i + 1].int().ok_or(SYNTAX)?, a[i + 2].int().ok_or(SYNTAX)?)); i += 2; }
            else { return Err(SYNTAX); }
            i += 1;
        }
        if !byscore {
            if limit.is_some() { return Err(SYNTAX); }
            let s = set(&a[1]);
            let n = s.len() as i64;
            let fix = |x: i64| if x < 0 { x + n } else { x };
            let (lo, hi) = (fix(a[2].int().ok_or(SYNTAX)?).max(0), fix(a[3].int().ok_or(SYNTAX)?).min(n - 1));
            let mut out = Vec::new();
            let mut i = lo;
            while i <= hi { out.push(Value::Data(s[if rev { n - 1 - i } else { i } as usize].1.clone())); i += 1; }
            return Ok(Value::Bulk(out));
        }
        let (x, y) = (a[2].bound().ok_or(FLOAT)?, a[3].bound().ok_or(FLOAT)?);
        return Ok(if rev { range(&a[1], y, x, true, limit) } else { range(&a[1], x, y, false, limit) });
    }
    if a[0].is("ZREMRANGEBYSCORE") {
        if a.len() != 4 { return Err(COUNT); }
        let (lo, hi) = (a[2].bound().ok_or(FLOAT)?, a[3].bound().ok_or(FLOAT)?);
        let s = set(&a[1]);
        let n = s.len();
        s.retain(|e| !(above(e.0, lo) && below(e.0, hi)));
        return Ok(Value::Int((n - s.len()) as i64));
    }
    if a[0].is("ZREM") {
        let mut n = 0;
        for m in &a[2..] { let m = m.bytes(); let s = set(&a[1]); let k = s.len(); s.retain(|e| e.1 != m); n += (k - s.len()) as i64; }
        return Ok(Value::Int(n));
    }
    if a[0].is("ZCARD") && a.len() == 2 { return Ok(Value::Int(set(&a[1]).len() as i64)); }
    if a[0].is("ZCOUNT") && a.len() == 4 { return Ok(match range(&a[1], a[2].bound().ok_or(FLOAT)?, a[3].bound().ok_or(FLOAT)?, false, None) { Value::Bulk(v) => Value::Int(v.len() as i64), v => v }); }
    if a[0].is("DEL") || a[0].is("UNLINK") {
        if a.len() < 2 { return Err(COUNT); }
        let mut n = 0;
        for k in &a[1..] { let s = set(k); if s.len() > 0 { n += 1; } s.clear(); }
        return Ok(Value::Int(n));
    }
    if a[0].is("EXISTS") { return Ok(Value::Int(a[1..].iter().filter(|k| set(k).len() > 0).count() as i64)); }
    if a[0].is("PING") { return Ok(Value::Status("PONG".into())); }
    panic!("a command the model of Redis does not know")
}
async fn send(a: Vec<Vec<Arg>>) -> RedisResult<Vec<Value>> {
    rt::yield_now().await; // on its way
    unsafe { if FAIL > 0 { FAIL -= 1; return Err(RedisError("connection refused")); } }
    let mut out = Vec::new();
    let mut bad = None;
    for c in &a { match run(c) { Ok(v) => out.push(v), Err(e) => { bad = Some(e) } } }
    rt::yield_now().await; // the answer
    unsafe { if LOSE > 0 { LOSE -= 1; return Err(RedisError("connection reset")); } }
    match bad { Some(e) => Err(e), None => Ok(out) }
}

// ---------------------------------------------------------------- the client
pub trait ToRedisArgs { fn args(&self, out: &mut Vec<Arg>); }
macro_rules! ints { ($($t:ty)*) => { $(impl ToRedisArgs for $t { fn args(&self, out: &mut Vec<Arg>) { out.push(Arg::Int(*self as i64)) } })* } }
ints!(i8 i16 i32 i64 isize u16 u32 u64 usize);
impl ToRedisArgs for String { fn args(&self, out: &mut Vec<Arg>) { out.push(Arg::Data(self.clone().into_bytes())) } }
impl ToRedisArgs for &str { fn args(&self, out: &mut Vec<Arg>) { out.push(Arg::Data(self.as_bytes().to_vec())) } }
/// (u8 is no argument of its own: a list of them is one string of bytes)
pub trait Many: Sized { fn many(v: &[Self], out: &mut Vec<Arg>); }
impl Many for u8 { fn many(v: &[u8], out: &mut Vec<Arg>) { out.push(Arg::Data(v.to_vec())) } }
macro_rules! lists { ($($t:ty)*) => { $(impl Many for $t { fn many(v: &[$t], out: &mut Vec<Arg>) { for x in v { x.args(out) } } })* } }
lists!(String &str Vec<u8> &String i64 u64 i32 u32 usize);
impl<T: Many> ToRedisArgs for Vec<T> { fn args(&self, out: &mut Vec<Arg>) { T::many(self, out) } }
impl<T: Many> ToRedisArgs for &[T] { fn args(&self, out: &mut Vec<Arg>) { T::many(self, out) } }
impl<T: Many, const N: usize> ToRedisArgs for &[T; N] { fn args(&self, out: &mut Vec<Arg>) { T::many(&self[..], out) } }
impl<T: Many> ToRedisArgs for &Vec<T> { fn args(&self, out: &mut Vec<Arg>) { T::many(self, out) } }
impl ToRedisArgs for &String { fn args(&self, out: &mut Vec<Arg>) { (**self).args(out) } }
impl<T: ToRedisArgs> ToRedisArgs for Option<T> { fn args(&self, out: &mut Vec<Arg>) { if let Some(x) = self { x.args(out) } } }
impl<A: ToRedisArgs, B: ToRedisArgs> ToRedisArgs for (A, B) { fn args(&self, out: &mut Vec<Arg>) { self.0.args(out); self.1.args(out) } }

const TYPE: RedisError = RedisError("response of an incompatible type");
pub trait FromRedisValue: Sized { fn from_value(v: Value) -> RedisResult<Self>; fn from_list(v: Vec<Value>) -> RedisResult<Vec<Self>> { v.into_iter().map(Self::from_value).collect() } fn from_data(_: Vec<u8>) -> RedisResult<Vec<Self>> { Err(TYPE) } }
impl FromRedisValue for () { fn from_value(_: Value) -> RedisResult<()> { Ok(()) } }
impl FromRedisValue for Value { fn from_value(v: Value) -> RedisResult<Value> { Ok(v) } }
impl FromRedisValue for i64 { fn from_value(v: Value) -> RedisResult<i64> { match v { Value::Int(i) => Ok(i), _ => Err(TYPE) } } }
impl FromRedisValue for u64 { fn from_value(v: Value) -> RedisResult<u64> { match v { Value::Int(i) => Ok(i as u64), _ => Err(TYPE) } } }
impl FromRedisValue for usize { fn from_value(v: Value) -> RedisResult<usize> { match v { Value::Int(i) => Ok(i as usize), _ => Err(TYPE) } } }
impl FromRedisValue for bool { fn from_value(v: Value) -> RedisResult<bool> { match v { Value::Int(i) => Ok(i != 0), Value::Okay => Ok(true), Value::Nil => Ok(false), _ => Err(TYPE) } } }
impl FromRedisValue for u8 { fn from_value(v: Value) -> RedisResult<u8> { match v { Value::Int(i) => Ok(i as u8), _ => Err(TYPE) } } fn from_data(d: Vec<u8>) -> RedisResult<Vec<u8>> { Ok(d) } }
impl FromRedisValue for String { fn from_value(v: Value) -> RedisResult<String> { match v { Value::Data(d) => String::from_utf8(d).map_err(|_| TYPE), Value::Status(s) => Ok(s), _ => Err(TYPE) } } }
impl<T: FromRedisValue> FromRedisValue for Option<T> { fn from_value(v: Value) -> RedisResult<Option<T>> { match v { Value::Nil => Ok(None), v => T::from_value(v).map(Some) } } }
impl<T: FromRedisValue> FromRedisValue for Vec<T> { fn from_value(v: Value) -> RedisResult<Vec<T>> { match v { Value::Bulk(l) => T::from_list(l), Value::Data(d) => T::from_data(d), Value::Nil => Ok(Vec::new()), _ => Err(TYPE) } } }

pub fn cmd(name: &str) -> Cmd { let mut c = Cmd::new(); c.arg(name); c }
#[derive(Clone, Default)]
pub struct Cmd { args: Vec<Arg> }
impl Cmd {
    pub fn new() -> Cmd { Cmd { args: Vec::new() } }
    pub fn arg<T: ToRedisArgs>(&mut self, a: T) -> &mut Cmd { a.args(&mut self.args); self }
    pub async fn query_async<C: aio::ConnectionLike, T: FromRedisValue>(&self, _: &mut C) -> RedisResult<T> {
        T::from_value(send(vec![self.args.clone()]).await?.pop().unwrap())
    }
}
pub fn pipe() -> Pipeline { Pipeline { cmds: Vec::new(), ignored: Vec::new() } }
#[derive(Clone, Default)]
pub struct Pipeline { cmds: Vec<Vec<Arg>>, ignored: Vec<bool> }
impl Pipeline {
    pub fn new() -> Pipeline { pipe() }
    pub fn atomic(&mut self) -> &mut Pipeline { self }
    pub fn cmd(&mut self, n: &str) -> &mut Pipeline { self.cmds.push(cmd(n).args); self.ignored.push(false); self }
    pub fn add_command(&mut self, c: Cmd) -> &mut Pipeline { self.cmds.push(c.args); self.ignored.push(false); self }
    pub fn arg<T: ToRedisArgs>(&mut self, a: T) -> &mut Pipeline { let n = self.cmds.len() - 1; a.args(&mut self.cmds[n]); self }
    pub fn ignore(&mut self) -> &mut Pipeline { let n = self.ignored.len() - 1; self.ignored[n] = true; self }
    pub async fn query_async<C: aio::ConnectionLike, T: FromRedisValue>(&self, _: &mut C) -> RedisResult<T> {
        let v = send(self.cmds.clone()).await?;
        T::from_value(Value::Bulk(v.into_iter().zip(self.ignored.iter()).filter(|x| !*x.1).map(|x| x.0).collect()))
    }
}
pub mod aio {
    pub trait ConnectionLike {}
    #[derive(Clone)] pub struct MultiplexedConnection;
    impl ConnectionLike for MultiplexedConnection {}
    #[derive(Clone)] pub struct ConnectionManager;
    impl ConnectionLike for ConnectionManager {}
}
pub trait IntoConnectionInfo {}
impl IntoConnectionInfo for String {}
impl IntoConnectionInfo for &str {}
#[derive(Clone)] pub struct Client;
impl Client {
    pub fn open<T: IntoConnectionInfo>(_: T) -> RedisResult<Client> { Ok(Client) }
    pub async fn get_multiplexed_tokio_connection(&self) -> RedisResult<aio::MultiplexedConnection> { Ok(aio::MultiplexedConnection) }
    pub async fn get_multiplexed_async_connection(&self) -> RedisResult<aio::MultiplexedConnection> { Ok(aio::MultiplexedConnection) }
}
/// the commands as methods
pub trait AsyncCommands: aio::ConnectionLike + Sized + Send {
    fn zadd<'a, K: ToRedisArgs, S: ToRedisArgs, M: ToRedisArgs, T: FromRedisValue + 'a>(&'a mut self, k: K, m: M, s: S) -> RedisFuture<'a, T> where Self: 'a { let mut c = cmd("ZADD"); c.arg(k).arg(s).arg(m); one(c) }
    fn zrangebyscore<'a, K: ToRedisArgs, S: ToRedisArgs, M: ToRedisArgs, T: FromRedisValue + 'a>(&'a mut self, k: K, a: S, b: M) -> RedisFuture<'a, T> where Self: 'a { let mut c = cmd("ZRANGEBYSCORE"); c.arg(k).arg(a).arg(b); one(c) }
    fn zrembyscore<'a, K: ToRedisArgs, S: ToRedisArgs, M: ToRedisArgs, T: FromRedisValue + 'a>(&'a mut self, k: K, a: S, b: M) -> RedisFuture<'a, T> where Self: 'a { let mut c = cmd("ZREMRANGEBYSCORE"); c.arg(k).arg(a).arg(b); one(c) }
    fn del<'a, K: ToRedisArgs, T: FromRedisValue + 'a>(&'a mut self, k: K) -> RedisFuture<'a, T> where Self: 'a { let mut c = cmd("DEL"); c.arg(k); one(c) }
}
impl<C: aio::ConnectionLike + Send> AsyncCommands for C {}
fn one<'a, T: FromRedisValue + 'a>(c: Cmd) -> RedisFuture<'a, T> { Box::pin(async move { T::from_value(send(vec![c.args]).await?.pop().unwrap()) }) }
