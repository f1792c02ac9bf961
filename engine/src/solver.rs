//! Z3 through its C API, with constraint slicing and a query cache.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString, CStr};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}
extern "C" fn on_err(_: P, e: c_int) { eprintln!("z3 error {}", e); std::process::exit(4); }

pub enum Res { Sat(Model), Unsat, Unknown }
pub struct Solver {
    c: P, s: P,
    bv: FxMap<u32, P>, // 1-bit and wider terms as bit-vectors
    bo: FxMap<u32, P>, // 1-bit terms as booleans
    cache: std::collections::HashMap<Vec<u32>, Option<std::rc::Rc<Vec<(u32, u128)>>>>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub time: f64, pub slowest: f64,
}
impl Solver {
    pub fn new(timeout_ms: u32) -> Solver { unsafe {
        let cfg = Z3_mk_config();
        let c = Z3_mk_context(cfg);
        Z3_set_error_handler(c, on_err);
        let s = Z3_mk_solver(c);
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
        let nm = CString::new("timeout").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, nm.as_ptr()), timeout_ms);
        Z3_solver_set_params(c, s, p);
        Solver { c, s, bv: Default::default(), bo: Default::default(), cache: Default::default(), queries: 0, sat: 0, unsat: 0, unknown: 0, cached: 0, time: 0.0, slowest: 0.0 }
    } }
    fn b(&mut self, e: E) -> P {
        if let Some(&p) = self.bo.get(&e.0) { return p; }
        let n = e.n();
        let c = self.c;
        let r = unsafe { match n.k {
            K::Const => if e.is_true() { Z3_mk_true(c) } else { Z3_mk_false(c) },
            K::Eq => { if E(n.a).w() == 1 { let x = self.b(E(n.a)); let y = self.b(E(n.b)); Z3_mk_eq(c, x, y) } else { let x = self.v(E(n.a)); let y = self.v(E(n.b)); Z3_mk_eq(c, x, y) } }
            K::Ult => { let x = self.v(E(n.a)); let y = self.v(E(n.b)); Z3_mk_bvult(c, x, y) }
            K::Ule => { let x = self.v(E(n.a)); let y = self.v(E(n.b)); Z3_mk_bvule(c, x, y) }
            K::Slt => { let x = self.v(E(n.a)); let y = self.v(E(n.b)); Z3_mk_bvslt(c, x, y) }
            K::Sle => { let x = self.v(E(n.a)); let y = self.v(E(n.b)); Z3_mk_bvsle(c, x, y) }
            K::Not => { let x = self.b(E(n.a)); Z3_mk_not(c, x) }
            K::And => { let x = [self.b(E(n.a)), self.b(E(n.b))]; Z3_mk_and(c, 2, x.as_ptr()) }
            K::Or => { let x = [self.b(E(n.a)), self.b(E(n.b))]; Z3_mk_or(c, 2, x.as_ptr()) }
            K::Xor => { let x = self.b(E(n.a)); let y = self.b(E(n.b)); Z3_mk_not(c, Z3_mk_eq(c, x, y)) }
            K::Ite => { let x = self.b(E(n.a)); let y = self.b(E(n.b)); let z = self.b(E(n.c)); Z3_mk_ite(c, x, y, z) }
            _ => { let x = self.v(e); Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) }
        } };
        self.bo.insert(e.0, r);
        r
    }
    fn v(&mut self, e: E) -> P {
        if let Some(&p) = self.bv.get(&e.0) { return p; }
        let n = e.n();
        let c = self.c;
        let r = unsafe { 
            if n.w == 1 && matches!(n.k, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::Not | K::And | K::Or | K::Xor | K::Ite) {
                let s = Z3_mk_bv_sort(c, 1);
                let x = self.b(e);
                Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
            } else { match n.k {
                K::Const => { let s = CString::new(e.cv().unwrap().to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, n.w as c_uint)) }
                K::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
                K::Not => { let x = self.v(E(n.a)); Z3_mk_bvnot(c, x) }
                K::Ite => { let x = self.b(E(n.a)); let y = self.v(E(n.b)); let z = self.v(E(n.c)); Z3_mk_ite(c, x, y, z) }
                K::Extract => { let x = self.v(E(n.a)); Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, x) }
                K::ZExt => { let x = self.v(E(n.a)); Z3_mk_zero_ext(c, (n.w - E(n.a).w()) as c_uint, x) }
                K::SExt => { let x = self.v(E(n.a)); Z3_mk_sign_ext(c, (n.w - E(n.a).w()) as c_uint, x) }
                k => { let x = self.v(E(n.a)); let y = self.v(E(n.b)); let f: unsafe extern "C" fn(P, P, P) -> P = match k {
                    K::Add => Z3_mk_bvadd, K::Sub => Z3_mk_bvsub, K::Mul => Z3_mk_bvmul, K::UDiv => Z3_mk_bvudiv, K::SDiv => Z3_mk_bvsdiv,
                    K::URem => Z3_mk_bvurem, K::SRem => Z3_mk_bvsrem, K::And => Z3_mk_bvand, K::Or => Z3_mk_bvor, K::Xor => Z3_mk_bvxor,
                    K::Shl => Z3_mk_bvshl, K::LShr => Z3_mk_bvlshr, K::AShr => Z3_mk_bvashr, K::Concat => Z3_mk_concat, _ => unreachable!() };
                    f(c, x, y) }
            } }
        };
        self.bv.insert(e.0, r);
        r
    }
    /// Is pc ∧ extra satisfiable?  `base` satisfies pc and supplies values for unrelated variables.
    pub fn check(&mut self, pc: &[E], extra: E, base: &Model) -> Res {
        if extra.is_false() { return Res::Unsat; }
        // slice: constraints connected to extra through shared variables
        let mut vs: Vec<u32> = vars_of(extra).to_vec();
        let mut used = vec![false; pc.len()];
        let mut sel = vec![extra];
        loop {
            let mut grew = false;
            for (i, &e) in pc.iter().enumerate() {
                if used[i] { continue; }
                let ev = vars_of(e);
                if ev.iter().any(|v| vs.binary_search(v).is_ok()) {
                    used[i] = true; sel.push(e);
                    for &v in ev.iter() { if let Err(p) = vs.binary_search(&v) { vs.insert(p, v); grew = true; } }
                }
            }
            if !grew { break; }
        }
        let mut key: Vec<u32> = sel.iter().map(|e| e.0).collect();
        key.sort(); key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return match r { None => Res::Unsat, Some(m) => { let mut b = base.clone(); for &(k, v) in m.iter() { b.insert(k, v); } Res::Sat(b) } };
        }
        let t = Instant::now();
        self.queries += 1;
        let c = self.c;
        let (r, vals) = unsafe {
            Z3_solver_push(c, self.s);
            for &e in &sel { let p = self.b(e); Z3_solver_assert(c, self.s, p); }
            let r = Z3_solver_check(c, self.s);
            let mut vals = vec![];
            if r == 1 { vals = self.model(self.s, &vs); }
            Z3_solver_pop(c, self.s, 1);
            if r == 0 {
                // second attempt with the dedicated bit-vector strategy
                let nm = CString::new("QF_BV").unwrap();
                let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, nm.as_ptr()));
                Z3_solver_inc_ref(c, s2);
                let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
                let nm = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, nm.as_ptr()), 120_000);
                Z3_solver_set_params(c, s2, p);
                for &e in &sel { let p = self.b(e); Z3_solver_assert(c, s2, p); }
                let r2 = Z3_solver_check(c, s2);
                let mut v2 = vec![];
                if r2 == 1 { v2 = self.model(s2, &vs); }
                Z3_solver_dec_ref(c, s2);
                (r2, v2)
            } else { (r, vals) }
        };
        let dt = t.elapsed().as_secs_f64();
        self.time += dt; if dt > self.slowest { self.slowest = dt; }
        match r {
            1 => {
                self.sat += 1;
                let mut b = base.clone();
                for &(k, v) in &vals { b.insert(k, v); }
                self.cache.insert(key, Some(std::rc::Rc::new(vals)));
                // the model must satisfy what was asked (guards the term translation)
                for &e in &sel { if eval(e, &b) != 1 { eprintln!("model check failed for {}", show(e)); std::process::exit(4); } }
                Res::Sat(b)
            }
            -1 => { self.unsat += 1; self.cache.insert(key, None); Res::Unsat }
            _ => { self.unknown += 1; Res::Unknown }
        }
    }
    unsafe fn model(&mut self, s: P, vs: &[u32]) -> Vec<(u32, u128)> {
        let c = self.c;
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut out = vec![];
        for &v in vs {
            let e = var_id(v);
            let t = self.v(e);
            let mut r: P = std::ptr::null_mut();
            if Z3_model_eval(c, m, t, true, &mut r) {
                let s = CStr::from_ptr(Z3_get_numeral_string(c, r)).to_str().unwrap();
                out.push((v, s.parse::<u128>().unwrap()));
            }
        }
        Z3_model_dec_ref(c, m);
        out
    }
}
