//! Development only: uses many APIs of the modelled crates so that a change to the repository which uses them still compiles here.
use std::sync::Arc;
use std::time::Duration;
mod col {
    use symstd::collections::{HashMap, HashSet, VecDeque, BTreeMap, BTreeSet, BinaryHeap, LinkedList, hash_map, hash_map::{Entry, DefaultHasher}, hash_set};
    use symstd::collections::hash_map::{OccupiedEntry, VacantEntry};
    pub fn f() {
        let mut m: HashMap<String, u64> = HashMap::from([("a".to_string(), 1)]);
        let _ = m.iter().filter(|(_, v)| **v > 0).map(|(k, _)| k.clone()).collect::<Vec<String>>();
        m.extend(vec![("b".to_string(), 2)]);
        for (_, v) in m.iter_mut() { *v += 1 }
        for (_, v) in &mut m { *v += 1 }
        for (k, v) in &m { let _ = (k, v); }
        for v in m.values_mut() { *v += 1 }
        m.retain(|_, v| *v > 0);
        let _ = m["a"];
        let _ = m.get("a").copied().unwrap_or_default();
        let _ = m.keys().cloned().collect::<HashSet<_>>();
        let _ = m.keys().max(); let _ = m.values().sum::<u64>(); let _ = m.values().copied().min();
        let _ = m.iter().min_by_key(|(_, v)| **v); let _ = m.iter().max_by(|a, b| a.1.cmp(b.1)).map(|(k, _)| k);
        let _ = m.iter().len(); let _ = m.keys().len(); let _ = m.values().len(); let _ = m.clone().into_iter().len();
        let _ = m.keys().clone(); let _ = m.iter().clone();
        match m.entry("x".into()) { Entry::Occupied(mut e) => { *e.get_mut() += 1; e.insert(3); let _ = e.remove(); } Entry::Vacant(e) => { e.insert(1); } }
        match m.entry("x".into()) { hash_map::Entry::Occupied(e) => { let _: OccupiedEntry<_, _> = e; } hash_map::Entry::Vacant(e) => { let _: VacantEntry<_, _> = e; } }
        *m.entry("y".into()).or_insert(0) += 1; *m.entry("y".into()).or_default() += 1;
        m.entry("y".into()).and_modify(|v| *v += 1).or_insert_with(|| 3);
        let _ = m.entry("zz".into()).insert_entry(4);
        let o: std::collections::HashMap<u8, u8> = Default::default(); let _ = o;
        let _: Option<(String, u64)> = m.remove_entry("a");
        let _ = std::mem::take(&mut m);
        let _ = m.drain().collect::<Vec<_>>();
        let _ = m == HashMap::new();
        let _ = format!("{:?}", m);
        let _: Vec<String> = m.clone().into_keys().collect(); let _: Vec<u64> = m.clone().into_values().collect();
        let x: HashMap<u8, Vec<u8>> = vec![(1u8, vec![1])].into_iter().collect(); let _ = x.get(&1).map(Vec::len);
        let _ = x.iter().flat_map(|(_, v)| v.iter()).count(); let _ = x.values().flatten().count();
        let _ = x.into_iter().partition::<HashMap<_, _>, _>(|(k, _)| *k > 1);
        let _ = m.try_reserve(1); m.shrink_to(3);
        let _ = m.extract_if(|_, v| *v > 3).collect::<Vec<_>>();
        let mm: HashMap<u8, u8, hash_map::RandomState> = HashMap::with_hasher(hash_map::RandomState::new()); let _ = mm;
        let _ = HashMap::<u8, u8>::with_capacity(2);
        let mut s: HashSet<u64> = [1, 2].into_iter().collect(); let t = HashSet::from([1u64]);
        let _ = s.union(&t).count(); let _ = s.symmetric_difference(&t).count(); let _ = &s - &t; let _ = &s | &t; let _ = &s & &t;
        let _ = s.iter().copied().collect::<BTreeSet<_>>(); let _ = s.contains(&1); s.extend(&[3]); s.extend([4]); s.extend(t.iter().copied());
        let _ = s.len(); s.reserve(1); s.shrink_to_fit(); let _ = s.capacity(); let _: hash_set::Iter<u64> = s.iter(); let _ = s.iter().len();
        for x in &s { let _ = x; } for x in s.clone() { let _ = x; } let _ = s == t; let _ = format!("{:?}", s); let _ = s.get_or_insert_with2();
        let _ = std::mem::take(&mut s); let _ = s.drain().next(); let _ = s.extract_if(|v| *v > 1).count();
        let mut q: VecDeque<u8> = VecDeque::new(); q.push_back(1); q.make_contiguous(); q.rotate_left(0); q.extend([1]); let _ = q.drain(..); let _ = q.pop_front();
        let _: BTreeMap<u8, u8> = BTreeMap::new(); let mut h = BinaryHeap::new(); h.push(1); let _: LinkedList<u8> = LinkedList::new();
        use std::hash::{Hash, Hasher}; let mut d = DefaultHasher::new(); 1u8.hash(&mut d); let _ = d.finish(); let _ = DefaultHasher::default();
    }
    trait X { fn get_or_insert_with2(&self) {} } impl X for HashSet<u64> {}
}
mod time {
    use symstd::time::{Instant, Duration, SystemTime, UNIX_EPOCH};
    pub fn f() {
        let a = Instant::now(); let b = a + Duration::from_millis(1); let _ = b - a; let _ = b.checked_sub(Duration::ZERO); let _ = a < b; let _ = a.max(b);
        let _ = a.elapsed().as_millis(); let _ = b.duration_since(a).as_secs_f64(); let _ = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs(); let _ = SystemTime::now().elapsed(); let _ = SystemTime::UNIX_EPOCH;
        let _ = Duration::from_secs_f32(1.0).mul_f32(0.5); let _ = Duration::MAX.saturating_sub(Duration::from_micros(1)); let _ = format!("{:?}", a);
        let _ = std::time::Duration::from_millis(1) == Duration::from_millis(1);
    }
}
async fn tk() {
    use tokio::sync::{mpsc, oneshot, broadcast, watch, Mutex, RwLock, Notify, Semaphore};
    use tokio::time::{self, sleep, timeout, interval, interval_at, Instant, sleep_until, MissedTickBehavior};
    let (t, mut r) = mpsc::unbounded_channel::<u8>(); let _ = t.send(1); let _ = r.recv().await; let _ = r.try_recv(); r.close(); let _ = t.is_closed(); let _ = t.clone().same_channel(&t); drop(t.downgrade()); t.closed().await; let _ = r.is_empty(); let _ = r.len();
    let (t, mut r) = mpsc::channel::<u8>(3); let _ = t.send(1).await; let _ = t.try_send(1); while let Some(x) = r.recv().await { let _ = x; } let _ = t.capacity(); let _ = t.reserve().await.map(|p| p.send(1)); let mut buf = vec![]; let _ = r.recv_many(&mut buf, 3).await;
    match r.try_recv() { Ok(_) => {}, Err(mpsc::error::TryRecvError::Empty) => {}, Err(mpsc::error::TryRecvError::Disconnected) => {} }
    let _ = t.send_timeout(3, Duration::from_secs(1)).await; let _: Result<(), mpsc::error::SendError<u8>> = t.send(1).await;
    let (t, mut r) = oneshot::channel::<u8>(); let _ = r.try_recv(); let _ = t.is_closed(); let _ = t.send(1); let _: Result<u8, oneshot::error::RecvError> = (&mut r).await; r.close();
    let (mut t, r) = oneshot::channel::<u8>(); t.closed().await; drop(r); let _: Result<(), u8> = t.send(1); 
    let (t, mut r) = broadcast::channel::<u8>(3); let _ = t.send(1); let _ = r.recv().await; let _ = r.try_recv(); let _ = t.subscribe(); let _ = t.receiver_count(); let _ = r.resubscribe(); let _ = t.len(); let _ = r.len();
    match r.recv().await { Ok(_) => {}, Err(broadcast::error::RecvError::Lagged(n)) => { let _ = n; }, Err(broadcast::error::RecvError::Closed) => {} }
    let (t, mut r) = watch::channel::<u8>(3); let _ = t.send(1); let _ = *r.borrow(); let _ = r.changed().await; let _ = *r.borrow_and_update(); t.send_replace(3); let _ = t.subscribe(); t.send_modify(|x| *x += 1); let _ = r.wait_for(|x| *x > 1).await.map(|x| *x);
    let m = Mutex::new(1); *m.lock().await += 1; let _ = m.try_lock().map(|x| *x); let _ = m.into_inner();
    let m = RwLock::new(1); let _ = *m.read().await; *m.write().await += 1; let _ = m.try_read().map(|x| *x);
    let am = Arc::new(Mutex::new(1)); let _ = am.lock_owned().await;
    let n = Notify::new(); n.notify_one(); n.notified().await; n.notify_waiters();
    let s = Semaphore::new(3); let _ = s.acquire().await.map(|_| ()); s.add_permits(1); let _ = s.try_acquire().is_ok(); let _ = Arc::new(Semaphore::new(1)).acquire_owned().await;
    sleep(Duration::from_secs(1)).await; let _ = timeout(Duration::from_secs(1), async { 1 }).await.map_err(|e| e.to_string()); let mut i = interval(Duration::from_secs(1)); i.tick().await; i.set_missed_tick_behavior(MissedTickBehavior::Delay); i.reset();
    sleep_until(Instant::now() + Duration::from_secs(1)).await; let _ = interval_at(Instant::now(), Duration::from_secs(1)); let _ = time::timeout_at(Instant::now(), async {}).await; let _ = Instant::now().elapsed(); let _: Result<(), time::error::Elapsed> = timeout(Duration::ZERO, async {}).await;
    let s = sleep(Duration::from_secs(1)); tokio::pin!(s); s.as_mut().reset(Instant::now()); let _ = s.is_elapsed(); (&mut s).await;
    let j = tokio::spawn(async { 1 }); j.abort(); let _ = j.is_finished(); let _ = j.abort_handle(); let _: Result<i32, tokio::task::JoinError> = j.await;
    let mut js = tokio::task::JoinSet::new(); js.spawn(async { 1 }); while let Some(r) = js.join_next().await { let _ = r.unwrap(); } let _ = js.len(); js.abort_all();
    tokio::task::yield_now().await; let _ = tokio::task::spawn_blocking(|| 1).await; let _: tokio::task::JoinHandle<()> = tokio::task::spawn(async {}); let _ = tokio::spawn(async { }).await.map_err(|e| e.is_cancelled());
    let (a, b) = tokio::join!(async { 1 }, async { 2 }); let _ = tokio::try_join!(async { Ok::<_, ()>(a) }, async { Ok::<_, ()>(b) });
    let (_t, mut r) = mpsc::unbounded_channel::<u8>(); let (_t2, mut r2) = oneshot::channel::<u8>();
    tokio::select! { biased; Some(x) = r.recv() => { let _ = x; } _ = &mut r2 => {} _ = sleep(Duration::from_secs(1)), if true => {} else => {} }
    tokio::select! { x = r.recv() => match x { Some(_) => {}, None => {} }, _ = sleep(Duration::ZERO) => return, }
    let _ = tokio::runtime::Handle::try_current().is_ok(); let _ = tokio::runtime::Handle::current().spawn(async {}); 
}
async fn fut() {
    use futures::{future::{self, join_all, try_join_all, BoxFuture, select, Either, FutureExt, TryFutureExt}, stream::{self, StreamExt, FuturesUnordered, FuturesOrdered, TryStreamExt}, SinkExt, Future, Stream};
    let _ = join_all(vec![async { 1 }]).await; let _ = try_join_all(vec![async { Ok::<u8, ()>(1) }]).await; let b: BoxFuture<'static, u8> = async { 1 }.boxed(); let _ = b.map(|x| x + 1).await; let _ = future::ready(1).await; let _ = async { Ok::<u8, u8>(1) }.map_ok(|x| x).map_err(|e| e).await; let _ = async { 1 }.then(|x| async move { x }).await;
    match select(Box::pin(async { 1 }), Box::pin(async { 2 })).await { Either::Left((a, _)) => { let _ = a; } Either::Right((a, _)) => { let _ = a; } }
    let _ = future::join(async {}, async {}).await; let _ = futures::join!(async {}, async {}); let _ = future::select_all(vec![Box::pin(async { 1 })]).await; let _ = async { 1 }.now_or_never(); let _ = future::pending::<()>().now_or_never();
    let mut u = FuturesUnordered::new(); u.push(async { 1 }); while let Some(x) = u.next().await { let _ = x; } let _: Vec<i32> = vec![async { 1 }].into_iter().collect::<FuturesUnordered<_>>().collect().await; let mut o = FuturesOrdered::new(); o.push_back(async { 1 }); let _ = o.next().await;
    let _ = stream::iter(vec![1]).map(|x| x).filter(|x| future::ready(*x > 1)).collect::<Vec<_>>().await; stream::iter(vec![1]).for_each(|_| async {}).await; let _ = stream::iter(vec![1]).then(|x| async move { x }).fold(0, |a, b| async move { a + b }).await; let _ = stream::iter(vec![async { 1 }]).buffer_unordered(2).collect::<Vec<_>>().await; stream::iter(vec![1]).for_each_concurrent(None, |_| async {}).await;
    let _ = async { 1 }.fuse(); let _ = async { 1 }.catch_unwind2();
}
trait Cu { fn catch_unwind2(&self) {} } impl<T> Cu for T {}
mod misc {
    pub fn f() {
        use bytes::{BytesMut, Bytes, Buf, BufMut};
        let mut b = BytesMut::with_capacity(3); b.put_u8(1); b.put_u16(1); b.put_u32(1); b.put_u64(1); b.put_slice(&[1]); b.put(&[1u8][..]); b.extend_from_slice(&[1]); b.reserve(1); let _ = b.len(); let _ = b.is_empty(); let mut c = b.split_to(1); let _ = c.get_u8(); c.advance(0); let _ = c.remaining(); let _ = c.has_remaining(); let _ = c.chunk(); let _ = b.split_off(1); let _ = b.split(); b.clear(); b.truncate(0); b.resize(1, 0); let f: Bytes = b.freeze(); let _ = f.slice(0..0); let _ = f.to_vec(); let _ = Bytes::copy_from_slice(&[1]); let _ = Bytes::from_static(b"a"); let _ = Bytes::from(vec![1]); let _ = f.clone() == f; let _ = &f[..]; let _ = f.as_ref(); let _ = Bytes::new(); let _ = f.iter().count(); let _: Vec<u8> = f.into(); let _ = BytesMut::from(&[1u8][..]); let mut z: Vec<u8> = vec![]; z.put_u8(1); let mut s = &[1u8, 2][..]; let _ = s.get_u8(); let _ = BytesMut::zeroed(1); let mut q = Bytes::from_static(b"abcdefgh"); let _ = q.get_u16(); let _ = q.copy_to_bytes(1); let _ = q.split_to(1);
        use chrono::{Utc, DateTime, Duration, TimeZone, NaiveDateTime};
        let n: DateTime<Utc> = Utc::now(); let _ = n + Duration::milliseconds(1); let _ = n - n; let _ = n.signed_duration_since(n).num_milliseconds(); let _ = n.timestamp(); let _ = n.timestamp_millis(); let _ = n.timestamp_subsec_nanos(); let _ = n.to_rfc3339(); let _ = Utc.timestamp_opt(1, 0).unwrap(); let _ = n < n; let _ = n.max(n); let _ = (n - n).to_std(); let _ = Duration::seconds(1) > Duration::zero(); let _ = Duration::from_std(std::time::Duration::ZERO); let _ = format!("{}", n); let _ = format!("{:?}", n); let _ = NaiveDateTime::from_timestamp_opt(1, 0).map(|x| DateTime::<Utc>::from_utc(x, Utc)); let _ = n.timestamp_nanos(); let _ = (n - n).num_seconds(); let _ = n.checked_add_signed(Duration::days(1));
        use uuid::Uuid; use std::str::FromStr;
        let u = Uuid::new_v4(); let _ = u.to_string(); let _ = Uuid::parse_str("a").is_ok(); let _ = Uuid::from_str("a").ok(); let _ = u.as_u128(); let _ = Uuid::from_u128(1); let _ = u == Uuid::nil(); let _ = u.as_bytes(); let _ = u.is_nil(); let _ = u.to_u128_le(); let _ = u.simple().to_string(); let _ = u.hyphenated().to_string(); let _ = "a".parse::<Uuid>(); let _: String = u.into(); let _ = format!("{u:?}"); let _ = Uuid::from_slice(&[1]); let _ = Uuid::from_bytes([0; 16]); let _ = u.as_u64_pair();
        use rand::{Rng, thread_rng, seq::SliceRandom, RngCore};
        let mut r = thread_rng(); let _: u64 = r.gen(); let _ = r.gen_range(0..3); let _ = r.gen_bool(0.5); let _ = [1].choose(&mut r); let _ = r.next_u64(); let _: u8 = rand::random(); let mut v = vec![1]; v.shuffle(&mut r); let _ = r.gen_range(0..=3u64);
        use parking_lot::{Mutex, RwLock};
        let m = Mutex::new(1); *m.lock() += 1; let _ = m.try_lock().map(|x| *x); let mut m = m; *m.get_mut() += 1; let _ = m.into_inner(); let r = RwLock::new(vec![1]); let _ = r.read().len(); r.write().push(1); let _ = r.try_read().is_some(); let _ = r.try_write().is_some(); let _ = parking_lot::RwLockReadGuard::map(r.read(), |x| &x[0]); let u = r.upgradable_read(); let _w = parking_lot::RwLockUpgradableReadGuard::upgrade(u); let _: Mutex<u8> = Default::default(); let _ = format!("{:?}", Mutex::new(1));
        use tracing::{debug, error, info, trace, warn, instrument, Instrument, span, Level, debug_span, info_span};
        debug!("a {}", 1); error!(a = 1, "b {}", 2); info!(a = %1, b = ?2, "x"); trace!("x"); warn!(target: "x", "y"); let x = 1; debug!(x, "a"); debug!(?x); info!("{x}"); warn!(error = %"a", id = x); let _s = span!(Level::INFO, "a", b = 1).entered(); let _ = debug_span!("a"); let _e = info_span!("x").enter(); let _ = async {}.instrument(tracing::Span::current()); if tracing::enabled!(Level::DEBUG) {} tracing::event!(Level::INFO, "a"); let _ = tracing::Span::none();
        let _ = anyhow::anyhow!("a {}", 1); let _: anyhow::Result<()> = (|| { anyhow::bail!("x") })(); let _: anyhow::Result<()> = (|| { anyhow::ensure!(1 == 1, "a"); Ok(()) })(); use anyhow::Context; let _ = Err::<u8, _>(std::io::Error::from(std::io::ErrorKind::Other)).context("a").with_context(|| "b"); let _ = None::<u8>.context("a"); let e = anyhow::Error::msg("a"); let _ = e.to_string(); let _ = e.downcast_ref::<std::io::Error>(); let _ = format!("{:?} {:#}", e, e); let e: Box<dyn std::error::Error + Send + Sync> = e.into(); let _ = e;
        
        let _ = std::sync::Mutex::new(1).lock().unwrap(); let _ = std::sync::RwLock::new(1).read().unwrap(); static A: std::sync::OnceLock<u8> = std::sync::OnceLock::new(); let _ = A.get_or_init(|| 1); static B: std::sync::LazyLock<u8> = std::sync::LazyLock::new(|| 1); let _ = *B; std::hint::black_box(1);
    }
}
mod netio {
    pub async fn f() -> std::io::Result<()> {
        use tokio::{net::{TcpStream, TcpListener}, io::{AsyncReadExt, AsyncWriteExt, AsyncRead, AsyncWrite, split}};
        use tokio_util::codec::{FramedRead, FramedWrite};
        let s = TcpStream::connect("a:1").await?; let _ = s.set_nodelay(true); let _ = s.peer_addr(); let _ = s.local_addr(); let (r, mut w) = split(s); w.flush().await?; w.shutdown().await?; let _ = r;
        let s = TcpStream::connect("a:1".to_string()).await?; let (mut r, _w) = s.into_split(); 
        let l = TcpListener::bind("a:1").await?; let (_s, a) = l.accept().await?; let _ = a.to_string(); let _ = l.local_addr()?; Ok(())
    }
}
pub fn all() { col::f(); time::f(); misc::f(); let _ = tk(); let _ = fut(); let _ = netio::f(); }
