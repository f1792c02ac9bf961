#![allow(static_mut_refs)]
//! Deterministic single-threaded stand-in for tokio.  Tasks are polled by the harness, in the order
//! the harness (or the solver) chooses; timers run on a virtual clock the harness moves.
pub mod rt;
pub mod sync;
pub mod time;
pub mod net;
pub mod io;
pub mod task;
pub mod runtime;
pub use task::spawn;

/// Up to four branches. Without `biased;` polling starts at an arbitrary branch where the harness asked for that
/// (`select_any`), and in the order written otherwise. A branch whose pattern does not match is disabled.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__sel!(@parse [0] [] $($t)*) };
    ($($t:tt)*) => { $crate::__sel!(@parse [$crate::select_start()] [] $($t)*) };
}
static mut SELECT_ANY: bool = false;
pub fn select_any(on: bool) { unsafe { SELECT_ANY = on } }
pub fn select_start() -> usize { if unsafe { SELECT_ANY } { nd::choose(2) as usize } else { 0 } }
#[macro_export]
macro_rules! __sel {
    (@parse [$s:expr] [$($acc:tt)*]) => { $crate::__sel!(@go [$s] [$($acc)*] [unreachable!()]) };
    (@parse [$s:expr] [$($acc:tt)*] else => $b:expr $(,)?) => { $crate::__sel!(@go [$s] [$($acc)*] [$b]) };
    (@parse [$s:expr] [$($acc:tt)*] $p:pat = $f:expr, if $c:expr => $b:block $(,)? $($t:tt)*) => { $crate::__sel!(@parse [$s] [$($acc)* {($p) ($f) ($c) ($b)}] $($t)*) };
    (@parse [$s:expr] [$($acc:tt)*] $p:pat = $f:expr, if $c:expr => $b:expr, $($t:tt)*) => { $crate::__sel!(@parse [$s] [$($acc)* {($p) ($f) ($c) ($b)}] $($t)*) };
    (@parse [$s:expr] [$($acc:tt)*] $p:pat = $f:expr, if $c:expr => $b:expr) => { $crate::__sel!(@parse [$s] [$($acc)* {($p) ($f) ($c) ($b)}]) };
    (@parse [$s:expr] [$($acc:tt)*] $p:pat = $f:expr => $b:block $(,)? $($t:tt)*) => { $crate::__sel!(@parse [$s] [$($acc)* {($p) ($f) (true) ($b)}] $($t)*) };
    (@parse [$s:expr] [$($acc:tt)*] $p:pat = $f:expr => $b:expr, $($t:tt)*) => { $crate::__sel!(@parse [$s] [$($acc)* {($p) ($f) (true) ($b)}] $($t)*) };
    (@parse [$s:expr] [$($acc:tt)*] $p:pat = $f:expr => $b:expr) => { $crate::__sel!(@parse [$s] [$($acc)* {($p) ($f) (true) ($b)}]) };
    (@go [$s:expr] [{($p1:pat) ($f1:expr) ($c1:expr) ($b1:expr)}] [$e:expr]) => { $crate::__sel4!($s, $p1, $f1, $c1, $b1, _, std::future::pending::<()>(), false, unreachable!(), _, std::future::pending::<()>(), false, unreachable!(), _, std::future::pending::<()>(), false, unreachable!(), $e) };
    (@go [$s:expr] [{($p1:pat) ($f1:expr) ($c1:expr) ($b1:expr)} {($p2:pat) ($f2:expr) ($c2:expr) ($b2:expr)}] [$e:expr]) => { $crate::__sel4!($s, $p1, $f1, $c1, $b1, $p2, $f2, $c2, $b2, _, std::future::pending::<()>(), false, unreachable!(), _, std::future::pending::<()>(), false, unreachable!(), $e) };
    (@go [$s:expr] [{($p1:pat) ($f1:expr) ($c1:expr) ($b1:expr)} {($p2:pat) ($f2:expr) ($c2:expr) ($b2:expr)} {($p3:pat) ($f3:expr) ($c3:expr) ($b3:expr)}] [$e:expr]) => { $crate::__sel4!($s, $p1, $f1, $c1, $b1, $p2, $f2, $c2, $b2, $p3, $f3, $c3, $b3, _, std::future::pending::<()>(), false, unreachable!(), $e) };
    (@go [$s:expr] [{($p1:pat) ($f1:expr) ($c1:expr) ($b1:expr)} {($p2:pat) ($f2:expr) ($c2:expr) ($b2:expr)} {($p3:pat) ($f3:expr) ($c3:expr) ($b3:expr)} {($p4:pat) ($f4:expr) ($c4:expr) ($b4:expr)}] [$e:expr]) => { $crate::__sel4!($s, $p1, $f1, $c1, $b1, $p2, $f2, $c2, $b2, $p3, $f3, $c3, $b3, $p4, $f4, $c4, $b4, $e) };
}
#[macro_export]
macro_rules! __sel4 {
    ($s:expr, $p1:pat, $f1:expr, $c1:expr, $b1:expr, $p2:pat, $f2:expr, $c2:expr, $b2:expr, $p3:pat, $f3:expr, $c3:expr, $b3:expr, $p4:pat, $f4:expr, $c4:expr, $b4:expr, $e:expr) => {{
        let out = {
            let (mut e1, mut e2, mut e3, mut e4) = ($c1, $c2, $c3, $c4);
            let mut f1 = Box::pin(async { $f1.await });
            let mut f2 = Box::pin(async { $f2.await });
            let mut f3 = Box::pin(async { $f3.await });
            let mut f4 = Box::pin(async { $f4.await });
            std::future::poll_fn(|cx| {
                use std::future::Future;
                use std::task::Poll::Ready;
                #[allow(unreachable_patterns, unused_variables)]
                {
                    let start = $s;
                    let mut k = 0;
                    while k < 4 {
                        match (start + k) % 4 {
                            0 => if e1 { if let Ready(v) = f1.as_mut().poll(cx) { e1 = false; match &v { $p1 => return Ready($crate::Either4::A(v)), _ => {} } } },
                            1 => if e2 { if let Ready(v) = f2.as_mut().poll(cx) { e2 = false; match &v { $p2 => return Ready($crate::Either4::B(v)), _ => {} } } },
                            2 => if e3 { if let Ready(v) = f3.as_mut().poll(cx) { e3 = false; match &v { $p3 => return Ready($crate::Either4::C(v)), _ => {} } } },
                            _ => if e4 { if let Ready(v) = f4.as_mut().poll(cx) { e4 = false; match &v { $p4 => return Ready($crate::Either4::D(v)), _ => {} } } },
                        }
                        k += 1;
                    }
                }
                if !e1 && !e2 && !e3 && !e4 { return Ready($crate::Either4::E); }
                std::task::Poll::Pending
            }).await
        };
        #[allow(unreachable_patterns)]
        match out { $crate::Either4::A($p1) => $b1, $crate::Either4::B($p2) => $b2, $crate::Either4::C($p3) => $b3, $crate::Either4::D($p4) => $b4, $crate::Either4::E => $e, _ => unreachable!() }
    }};
}
pub enum Either4<A, B, C, D> { A(A), B(B), C(C), D(D), E }
#[macro_export]
macro_rules! pin { ($($x:ident),* $(,)?) => { $( let mut $x = std::pin::pin!($x); )* } }
#[macro_export]
macro_rules! join {
    ($a:expr, $b:expr $(,)?) => {{ let (a, b) = $crate::task::join2($a, $b).await; (a, b) }};
    ($a:expr, $b:expr, $c:expr $(,)?) => {{ let (a, (b, c)) = $crate::task::join2($a, $crate::task::join2($b, $c)).await; (a, b, c) }};
    ($a:expr, $b:expr, $c:expr, $d:expr $(,)?) => {{ let ((a, b), (c, d)) = $crate::task::join2($crate::task::join2($a, $b), $crate::task::join2($c, $d)).await; (a, b, c, d) }};
}
#[macro_export]
macro_rules! try_join {
    ($a:expr, $b:expr $(,)?) => {{ match $crate::task::join2($a, $b).await { (Ok(a), Ok(b)) => Ok((a, b)), (Err(e), _) => Err(e), (_, Err(e)) => Err(e) } }};
    ($a:expr, $b:expr, $c:expr $(,)?) => {{ match $crate::task::join2($a, $crate::task::join2($b, $c)).await { (Ok(a), (Ok(b), Ok(c))) => Ok((a, b, c)), (Err(e), _) => Err(e), (_, (Err(e), _)) => Err(e), (_, (_, Err(e))) => Err(e) } }};
}
