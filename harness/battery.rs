//! Development only (no property uses it): library code that a change to the repository may come to use has to run in the engine.
use super::common::*;
use tokio::rt;
use std::sync::Arc;
use std::time::Duration;

static ONCE: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
static LAZY: std::sync::LazyLock<Vec<u64>> = std::sync::LazyLock::new(|| vec![1, 2, 3]);
thread_local! { static TL: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new()); }

#[no_mangle]
pub extern "C" fn h_battery() {
    let x = nd::u8();
    let y = nd::u8();
    // std::sync
    let m = std::sync::Mutex::new(1u64);
    *m.lock().unwrap() += x as u64;
    assert!(*m.lock().unwrap() == 1 + x as u64);
    let r = std::sync::RwLock::new(vec![x]);
    r.write().unwrap().push(y);
    assert!(r.read().unwrap().len() == 2);
    assert!(*ONCE.get_or_init(|| 7) == 7 && LAZY.len() == 3);
    TL.with(|t| t.borrow_mut().push(x));
    TL.with(|t| assert!(t.borrow()[0] == x));
    let a = std::sync::atomic::AtomicU64::new(0);
    a.fetch_add(x as u64, std::sync::atomic::Ordering::SeqCst);
    a.fetch_max(3, std::sync::atomic::Ordering::Relaxed);
    let _ = a.compare_exchange(3, 4, std::sync::atomic::Ordering::AcqRel, std::sync::atomic::Ordering::Relaxed);
    let _ = a.fetch_update(std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst, |v| v.checked_add(1));
    // collections
    let mut b = std::collections::BTreeMap::new();
    b.insert(x, 1); b.insert(y, 2); b.insert(5, 3);
    assert!(b.len() <= 3 && *b.get(&y).unwrap() >= 2 || y == 5);
    *b.entry(x).or_insert(0) += 1;
    let f: Vec<u8> = b.range(3..).map(|(k, _)| *k).collect();
    assert!(f.windows(2).all(|w| w[0] < w[1]));
    let mut h = std::collections::BinaryHeap::new();
    h.push(std::cmp::Reverse(x)); h.push(std::cmp::Reverse(y));
    assert!(h.pop().unwrap().0 <= h.pop().unwrap().0);
    let mut q: std::collections::VecDeque<u8> = [x, y, 3].into_iter().collect();
    q.rotate_left(1); q.retain(|v| *v != 3); q.push_front(9);
    let s: std::collections::BTreeSet<u8> = q.iter().copied().collect();
    assert!(s.contains(&9));
    // sorting, iterators
    let mut v = vec![x, y, 7, 1];
    v.sort(); assert!(v.windows(2).all(|w| w[0] <= w[1]));
    v.sort_unstable_by(|a, b| b.cmp(a)); v.dedup(); v.sort_by_key(|k| std::cmp::Reverse(*k)); v.sort_by_cached_key(|k| *k); v.reverse();
    let (p, n): (Vec<u8>, Vec<u8>) = v.iter().partition(|k| **k > 3);
    assert!(p.len() + n.len() == v.len());
    assert!(v.iter().max() >= v.iter().min());
    let _ = v.iter().position(|k| *k == 7).unwrap();
    let _ = v.binary_search(&7);
    let _: Vec<Vec<u8>> = v.chunks(2).map(|c| c.to_vec()).collect();
    let t: u64 = v.iter().map(|k| *k as u64).sum(); let _ = v.iter().fold(0u8, |a, b| a.wrapping_add(*b));
    let _ = v.iter().zip(v.iter().skip(1)).rev().enumerate().filter_map(|(i, (a, b))| if a > b { Some(i) } else { None }).count();
    let _ = v.iter().scan(0u64, |a, b| { *a += *b as u64; Some(*a) }).take_while(|k| *k < 20).last();
    let _ = v.iter().flat_map(|k| vec![*k; 2]).step_by(2).collect::<std::collections::VecDeque<_>>();
    let _ = v.split_off(1); v.insert(0, 3); v.swap_remove(0); v.truncate(2); v.drain(..).for_each(drop); v.extend_from_slice(&[1, 2]); v.resize(4, 0); v.splice(0..1, [9, 9]);
    let _ = v.iter().try_fold(0u8, |a, b| a.checked_add(*b)); let _: Option<Vec<u8>> = v.iter().map(|k| k.checked_sub(1)).collect(); let _: Result<Vec<u8>, ()> = v.iter().map(|k| Ok(*k)).collect();
    // strings
    let st = format!("{}-{:?}-{:04}-{:x}", "abc", Some("d"), 12, 255);
    assert!(st.contains("abc") && st.starts_with("abc-") && st.len() == 21);
    let parts: Vec<&str> = st.split('-').collect(); assert!(parts[0] == "abc");
    assert!("12".parse::<u64>().unwrap() == 12 && "x".parse::<u64>().is_err());
    let up = st.to_uppercase(); let _ = up.to_lowercase().trim().replace("a", "b"); let _ = st.chars().rev().collect::<String>(); let _ = st.find("d").is_some(); let _ = st.split_once('-'); let _ = [st.as_str(), "x"].join("/"); let _ = [st.clone(), up].concat(); let _ = st.strip_prefix("abc"); let _ = st.bytes().nth(1); let _ = st.rsplitn(2, '-').next(); let _ = st.char_indices().count(); let _ = st.eq_ignore_ascii_case("A");
    let _ = String::from_utf8(vec![65, x & 127]).unwrap(); let _ = String::from_utf8_lossy(&[65, 66]).into_owned(); let _ = std::borrow::Cow::from("a").to_string();
    // numbers
    let _ = x.checked_add(y); let _ = x.saturating_sub(y); let _ = x.wrapping_mul(y); let _ = (x as u64).pow(2); let _ = x.leading_zeros(); let _ = x.count_ones(); let _ = (x as u64).rotate_left(3); let _ = u32::from(x).swap_bytes(); let _ = (x as u32).abs_diff(y as u32); let _ = x.clamp(1, 3); let _ = x.min(y).max(3); let _ = u8::try_from(x as u64 + 1).is_ok(); let _ = (x as u64).div_ceil(3); let _ = (x as f64 * 0.5) as u64; let _ = (x as u32).next_power_of_two(); let _ = x.is_power_of_two(); let _ = (x as u64).isqrt();
    let _ = t;
    // any, rc, cell, boxes
    let d: Box<dyn std::any::Any> = Box::new(x); assert!(*d.downcast::<u8>().unwrap() == x);
    let rc = std::rc::Rc::new(std::cell::RefCell::new(x)); *rc.borrow_mut() = 3; let w = std::rc::Rc::downgrade(&rc); assert!(w.upgrade().is_some()); drop(rc); assert!(w.upgrade().is_none());
    let ar: Arc<str> = Arc::from("abc"); let a2 = ar.clone(); assert!(Arc::ptr_eq(&ar, &a2) && Arc::strong_count(&ar) == 2); let mut am = Arc::new(1u8); *Arc::make_mut(&mut am) += 1; let _ = Arc::try_unwrap(am).unwrap(); let wk = Arc::downgrade(&ar); assert!(wk.upgrade().is_some());
    let o = Some(x); let _ = o.filter(|k| *k > 3).xor(Some(1)).zip(Some(2)); let _ = o.is_some_and(|k| k > 3); let _ = o.map_or(0, |k| k / 2); let mut oo = o; let _ = oo.take(); let _ = oo.get_or_insert(3); let _ = oo.replace(4); let _ = oo.insert(3); let _ = o.ok_or("x").and_then(|k| if k > 3 { Ok(k) } else { Err("y") }).unwrap_or_default(); let _ = o.as_ref().copied().into_iter().chain(None).next();
    let dd = Duration::from_millis(x as u64) * 3 / 2 + Duration::from_secs(1); let _ = dd.as_secs_f64(); let _ = dd.as_millis() as u64; let _ = dd.checked_sub(Duration::from_secs(2)); let _ = format!("{:?}", Duration::from_millis(1500));
    std::hint::black_box(x);
    let res = std::panic::Location::caller().line(); let _ = res; let _ = std::any::type_name::<u8>(); let _ = std::env::var("NO_SUCH_VARIABLE").is_err();
    // async
    rt::go(async move {
        let m = Arc::new(tokio::sync::Mutex::new(0u8));
        let mut js = tokio::task::JoinSet::new();
        for i in 0..3u8 { let m = m.clone(); js.spawn(async move { let mut g = m.lock().await; tokio::task::yield_now().await; *g += i; i }); }
        let mut n = 0; while let Some(r) = js.join_next().await { n += r.unwrap(); }
        assert!(n == 3 && *m.lock().await == 3);
        use futures::{StreamExt, stream};
        let v = stream::iter(1..5u8).filter(|k| futures::future::ready(*k % 2 == 0)).then(|k| async move { k * 2 }).collect::<Vec<_>>().await;
        assert!(v == vec![4, 8]);
        let v: Vec<u8> = stream::iter((1..4u8).map(|k| async move { k })).buffer_unordered(2).collect().await; assert!(v.len() == 3);
        let s = tokio::sync::Semaphore::new(1); let p = s.acquire().await.unwrap(); assert!(s.try_acquire().is_err()); drop(p); assert!(s.try_acquire().is_ok());
        let (t, mut r) = tokio::sync::watch::channel(1u8); let j = tokio::spawn(async move { r.wait_for(|v| *v == 3).await.map(|v| *v).unwrap() }); t.send_modify(|v| *v = 2); tokio::task::yield_now().await; t.send(3).unwrap(); assert!(j.await.unwrap() == 3);
        match futures::future::select(Box::pin(futures::future::pending::<u8>()), Box::pin(async { 4u8 })).await { futures::future::Either::Right((v, _)) => assert!(v == 4), _ => panic!("select") }
        nd::reach!("async");
    });
    rt::run(200);
}
