//! Hash-consed bit-vector terms.
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn finish(&self) -> u64 { self.0 }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Not, Ite, Concat, Extract, ZExt, SExt }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub k: K, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, u32>,
    consts: Vec<u128>,
    cmap: FxMap<(u64, u64, u16), u32>,
    pub vars: Vec<Option<std::rc::Rc<Vec<u32>>>>,
}
struct G(UnsafeCell<Option<Arena>>);
unsafe impl Sync for G {}
static ARENA: G = G(UnsafeCell::new(None));
pub fn ar() -> &'static mut Arena {
    unsafe {
        let o = &mut *ARENA.0.get();
        if o.is_none() { *o = Some(Arena { nodes: vec![], map: Default::default(), consts: vec![], cmap: Default::default(), vars: vec![] }); }
        o.as_mut().unwrap()
    }
}
#[inline] pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn mk(n: Node) -> E {
    let a = ar();
    if let Some(&i) = a.map.get(&n) { return E(i); }
    let i = a.nodes.len() as u32;
    a.nodes.push(n);
    a.vars.push(None);
    a.map.insert(n, i);
    E(i)
}
pub fn cst(v: u128, w: u16) -> E {
    let v = v & mask(w);
    let a = ar();
    let key = (v as u64, (v >> 64) as u64, w);
    if let Some(&i) = a.cmap.get(&key) { return E(i); }
    let ci = a.consts.len() as u32;
    a.consts.push(v);
    let i = a.nodes.len() as u32;
    a.nodes.push(Node { k: K::Const, w, a: ci, b: 0, c: 0 });
    a.vars.push(None);
    a.cmap.insert(key, i);
    E(i)
}
/// the n-th input of a path, of width w (shared by every path whose n-th input has this width)
pub fn var_n(n: u32, w: u16) -> E { var_id((n << 8) | w as u32) }
pub fn var_id(id: u32) -> E { mk(Node { k: K::Var, w: (id & 255) as u16, a: id, b: 0, c: 0 }) }

impl E {
    #[inline] pub fn n(self) -> Node { ar().nodes[self.0 as usize] }
    #[inline] pub fn w(self) -> u16 { ar().nodes[self.0 as usize].w }
    #[inline] pub fn k(self) -> K { ar().nodes[self.0 as usize].k }
    #[inline] pub fn cv(self) -> Option<u128> { let n = self.n(); if n.k == K::Const { Some(ar().consts[n.a as usize]) } else { None } }
    pub fn is_true(self) -> bool { self.cv() == Some(1) }
    pub fn is_false(self) -> bool { self.cv() == Some(0) }
}
pub fn tru() -> E { cst(1, 1) }
pub fn fls() -> E { cst(0, 1) }

pub fn fold(k: K, a: u128, b: u128, w: u16) -> u128 {
    let m = mask(w);
    match k {
        K::Add => a.wrapping_add(b) & m,
        K::Sub => a.wrapping_sub(b) & m,
        K::Mul => a.wrapping_mul(b) & m,
        K::UDiv => if b == 0 { m } else { a / b },
        K::URem => if b == 0 { a } else { a % b },
        K::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        K::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        K::And => a & b, K::Or => a | b, K::Xor => a ^ b,
        K::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        K::LShr => if b >= w as u128 { 0 } else { a >> b },
        K::AShr => { let s = if b >= w as u128 { w as u128 - 1 } else { b }; ((sx(a, w) >> s) as u128) & m }
        K::Eq => (a == b) as u128,
        K::Ult => (a < b) as u128, K::Ule => (a <= b) as u128,
        K::Slt => (sx(a, w) < sx(b, w)) as u128, K::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }
}
fn is_cmp(k: K) -> bool { matches!(k, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle) }
/// an ite tree with constant leaves (bounded depth)
fn leafy(e: E, d: u32) -> bool {
    let n = e.n();
    match n.k { K::Const => true, K::Ite => d > 0 && leafy(E(n.b), d - 1) && leafy(E(n.c), d - 1), _ => false }
}
fn map_leaves(e: E, f: &dyn Fn(u128) -> E) -> E {
    if let Some(v) = e.cv() { return f(v); }
    let n = e.n();
    ite(E(n.a), map_leaves(E(n.b), f), map_leaves(E(n.c), f))
}

pub fn bin(k: K, a: E, b: E) -> E {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    let (ca, cb) = (a.cv(), b.cv());
    let rw = if is_cmp(k) { 1 } else { w };
    if let (Some(x), Some(y)) = (ca, cb) { return cst(fold(k, x, y, w), rw); }
    // commutative: constant to the right
    let comm = matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq);
    if comm && ca.is_some() { return bin(k, b, a); }
    if comm && cb.is_none() && a.0 > b.0 { return bin(k, b, a); }
    if let Some(y) = cb {
        if a.k() == K::Ite && leafy(a, 6) { return map_leaves(a, &|x| cst(fold(k, x, y, w), rw)); }
    }
    if let Some(x) = ca {
        if b.k() == K::Ite && leafy(b, 6) { return map_leaves(b, &|y| cst(fold(k, x, y, w), rw)); }
    }
    let m = mask(w);
    match k {
        K::Add => {
            if cb == Some(0) { return a; }
            let n = a.n();
            if let (Some(y), K::Add) = (cb, n.k) { if let Some(z) = E(n.b).cv() { return bin(K::Add, E(n.a), cst(y.wrapping_add(z), w)); } }
        }
        K::Sub => {
            if a == b { return cst(0, w); }
            if let Some(y) = cb { return bin(K::Add, a, cst(0u128.wrapping_sub(y), w)); }
            if ca == Some(0) { }
        }
        K::Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; }
            if let Some(y) = cb { if y.is_power_of_two() { return bin(K::Shl, a, cst(y.trailing_zeros() as u128, w)); } } }
        K::UDiv => { if cb == Some(1) { return a; } if let Some(y) = cb { if y.is_power_of_two() { return bin(K::LShr, a, cst(y.trailing_zeros() as u128, w)); } } }
        K::URem => { if let Some(y) = cb { if y.is_power_of_two() { return bin(K::And, a, cst(y - 1, w)); } } }
        K::And => {
            if a == b { return a; }
            if cb == Some(0) { return b; }
            if cb == Some(m) { return a; }
            if let Some(y) = cb {
                let n = a.n();
                if n.k == K::ZExt {
                    let iw = E(n.a).w();
                    if y & mask(iw) == mask(iw) { return a; }
                    if y <= mask(iw) { return zext(bin(K::And, E(n.a), cst(y, iw)), w); }
                }
                if n.k == K::And { if let Some(z) = E(n.b).cv() { return bin(K::And, E(n.a), cst(y & z, w)); } }
                // low mask
                if y != m && (y & (y + 1)) == 0 { let lw = y.trailing_ones() as u16; return zext(extract(a, 0, lw), w); }
            }
        }
        K::Or => {
            if a == b { return a; }
            if cb == Some(0) { return a; }
            if cb == Some(m) { return b; }
            // (zext x) | (y << s)  ->  concat
            if let Some(e) = or_concat(a, b, w).or_else(|| or_concat(b, a, w)) { return e; }
        }
        K::Xor => { if a == b { return cst(0, w); } if cb == Some(0) { return a; } if w == 1 && cb == Some(1) { return not(a); } if cb == Some(m) { return not(a); } }
        K::Shl | K::LShr => {
            if cb == Some(0) { return a; }
            if let Some(y) = cb {
                if y >= w as u128 { return cst(0, w); }
                if k == K::LShr { return zext(extract(a, y as u16, w - y as u16), w); }
                if k == K::Shl { return concat(extract(a, 0, w - y as u16), cst(0, y as u16)); }
            }
            if ca == Some(0) { return a; }
        }
        K::AShr => { if cb == Some(0) { return a; } }
        K::Eq => {
            if a == b { return tru(); }
            if w == 1 { if let Some(y) = cb { return if y == 1 { a } else { not(a) }; } }
            if let Some(y) = cb {
                let n = a.n();
                match n.k {
                    K::ZExt => { let iw = E(n.a).w(); return if y > mask(iw) { fls() } else { bin(K::Eq, E(n.a), cst(y, iw)) }; }
                    K::SExt => { let iw = E(n.a).w(); let t = y & mask(iw); return if (sx(t, iw) as u128) & m == y { bin(K::Eq, E(n.a), cst(t, iw)) } else { fls() }; }
                    K::Add => if let Some(z) = E(n.b).cv() { return bin(K::Eq, E(n.a), cst(y.wrapping_sub(z), w)); },
                    K::Xor => if let Some(z) = E(n.b).cv() { return bin(K::Eq, E(n.a), cst(y ^ z, w)); },
                    K::Not => return bin(K::Eq, E(n.a), cst(!y, w)),
                    K::Concat => { let (h, l) = (E(n.a), E(n.b)); let lw = l.w(); return band(bin(K::Eq, l, cst(y, lw)), bin(K::Eq, h, cst(y >> lw, h.w()))); }
                    K::Ite => {
                        let (t, f) = (E(n.b), E(n.c));
                        if let Some(tv) = t.cv() { return if tv == y { bor(E(n.a), bin(K::Eq, f, b)) } else { band(not(E(n.a)), bin(K::Eq, f, b)) }; }
                        if let Some(fv) = f.cv() { return if fv == y { bor(not(E(n.a)), bin(K::Eq, t, b)) } else { band(E(n.a), bin(K::Eq, t, b)) }; }
                    }
                    _ => {}
                }
            } else {
                let (na, nb) = (a.n(), b.n());
                if na.k == K::ZExt && nb.k == K::ZExt && E(na.a).w() == E(nb.a).w() { return bin(K::Eq, E(na.a), E(nb.a)); }
                if na.k == K::Concat && nb.k == K::Concat && E(na.b).w() == E(nb.b).w() { return band(bin(K::Eq, E(na.a), E(nb.a)), bin(K::Eq, E(na.b), E(nb.b))); }
            }
        }
        K::Ult => {
            if a == b { return fls(); }
            if cb == Some(0) { return fls(); }
            if ca == Some(m) { return fls(); }
            if cb == Some(1) { return bin(K::Eq, a, cst(0, w)); }
            if ca == Some(0) { return not(bin(K::Eq, b, cst(0, w))); }
            if w == 1 { return band(not(a), b); }
            if let (Some(y), K::ZExt) = (cb, a.k()) { let i = E(a.n().a); let iw = i.w(); return if y > mask(iw) { tru() } else { bin(K::Ult, i, cst(y, iw)) }; }
            if let (Some(x), K::ZExt) = (ca, b.k()) { let i = E(b.n().a); let iw = i.w(); return if x > mask(iw) { fls() } else { bin(K::Ult, cst(x, iw), i) }; }
            if a.k() == K::ZExt && b.k() == K::ZExt && E(a.n().a).w() == E(b.n().a).w() { return bin(K::Ult, E(a.n().a), E(b.n().a)); }
        }
        K::Ule => { if a == b { return tru(); } return not(bin(K::Ult, b, a)); }
        K::Slt => {
            if a == b { return fls(); }
            // both provably non-negative
            if nonneg(a) && nonneg(b) { return bin(K::Ult, a, b); }
            if let (Some(y), true) = (cb, nonneg(a)) { if sx(y, w) < 0 { return fls(); } }
            if let (Some(x), true) = (ca, nonneg(b)) { if sx(x, w) < 0 { return tru(); } }
        }
        K::Sle => { if a == b { return tru(); } return not(bin(K::Slt, b, a)); }
        _ => {}
    }
    mk(Node { k, w: rw, a: a.0, b: b.0, c: 0 })
}
fn nonneg(e: E) -> bool {
    let n = e.n();
    match n.k { K::ZExt => true, K::Const => sx(e.cv().unwrap(), n.w) >= 0, K::And => nonneg(E(n.a)) || nonneg(E(n.b)), K::Concat => nonneg(E(n.a)), _ => false }
}
fn or_concat(a: E, b: E, w: u16) -> Option<E> {
    // a = zext(x : iw), b = concat(h, 0:lw) with iw <= lw
    let (na, nb) = (a.n(), b.n());
    if na.k == K::ZExt && nb.k == K::Concat {
        let lw = E(nb.b).w();
        if E(nb.b).cv() == Some(0) && E(na.a).w() <= lw { return Some(concat(E(nb.a), zext(E(na.a), lw))); }
    }
    // a = zext(x), b = zext(concat(h,0))
    if na.k == K::ZExt && nb.k == K::ZExt {
        let (x, y) = (E(na.a), E(nb.a));
        let iw = x.w().max(y.w());
        if iw < w { return Some(zext(bin(K::Or, zext(x, iw), zext(y, iw)), w)); }
    }
    None
}
pub fn not(a: E) -> E {
    let n = a.n();
    if let Some(v) = a.cv() { return cst(!v, n.w); }
    if n.k == K::Not { return E(n.a); }
    mk(Node { k: K::Not, w: n.w, a: a.0, b: 0, c: 0 })
}
pub fn band(a: E, b: E) -> E { if a.is_false() || b.is_false() { return fls(); } if a.is_true() { return b; } if b.is_true() { return a; } if a == b { return a; } if a == not(b) { return fls(); }
    let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) }; mk(Node { k: K::And, w: 1, a: a.0, b: b.0, c: 0 }) }
pub fn bor(a: E, b: E) -> E { if a.is_true() || b.is_true() { return tru(); } if a.is_false() { return b; } if b.is_false() { return a; } if a == b { return a; } if a == not(b) { return tru(); }
    let (a, b) = if a.0 < b.0 { (a, b) } else { (b, a) }; mk(Node { k: K::Or, w: 1, a: a.0, b: b.0, c: 0 }) }
pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(v) = c.cv() { return if v == 1 { t } else { f }; }
    if t == f { return t; }
    let cn = c.n();
    if cn.k == K::Not { return ite(E(cn.a), f, t); }
    let w = t.w();
    if w == 1 {
        if t.is_true() { return bor(c, f); }
        if f.is_false() { return band(c, t); }
        if t.is_false() { return band(not(c), f); }
        if f.is_true() { return bor(not(c), t); }
    }
    // ite(c, ite(c,a,_), f) -> ite(c,a,f)
    let tn = t.n(); if tn.k == K::Ite && tn.a == c.0 { return ite(c, E(tn.b), f); }
    let fnn = f.n(); if fnn.k == K::Ite && fnn.a == c.0 { return ite(c, t, E(fnn.c)); }
    mk(Node { k: K::Ite, w, a: c.0, b: t.0, c: f.0 })
}
pub fn extract(e: E, lo: u16, w: u16) -> E {
    let n = e.n();
    if lo == 0 && w == n.w { return e; }
    if let Some(v) = e.cv() { return cst(v >> lo, w); }
    match n.k {
        K::Extract => return extract(E(n.a), lo + n.b as u16, w),
        K::ZExt => {
            let i = E(n.a); let iw = i.w();
            if lo >= iw { return cst(0, w); }
            if lo + w <= iw { return extract(i, lo, w); }
            return zext(extract(i, lo, iw - lo), w);
        }
        K::SExt => { let i = E(n.a); let iw = i.w(); if lo + w <= iw { return extract(i, lo, w); } }
        K::Concat => {
            let (h, l) = (E(n.a), E(n.b)); let lw = l.w();
            if lo + w <= lw { return extract(l, lo, w); }
            if lo >= lw { return extract(h, lo - lw, w); }
            return concat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo));
        }
        K::Ite if leafy(e, 6) => return map_leaves(e, &|v| cst(v >> lo, w)),
        K::And | K::Or | K::Xor => {
            let (a, b) = (E(n.a), E(n.b));
            return bin(n.k, extract(a, lo, w), extract(b, lo, w));
        }
        K::Not => return not(extract(E(n.a), lo, w)),
        K::Add | K::Sub | K::Mul if lo == 0 => {
            let (a, b) = (E(n.a), E(n.b));
            if b.cv().is_some() || matches!(a.k(), K::ZExt | K::SExt) || matches!(b.k(), K::ZExt | K::SExt) { return bin(n.k, extract(a, 0, w), extract(b, 0, w)); }
        }
        _ => {}
    }
    mk(Node { k: K::Extract, w, a: e.0, b: lo as u32, c: 0 })
}
pub fn concat(h: E, l: E) -> E {
    let w = h.w() + l.w();
    if let (Some(x), Some(y)) = (h.cv(), l.cv()) { return cst((x << l.w()) | y, w); }
    if h.cv() == Some(0) { return zext(l, w); }
    let (hn, ln) = (h.n(), l.n());
    if hn.k == K::Extract && ln.k == K::Extract && hn.a == ln.a && hn.b == ln.b + ln.w as u32 { return extract(E(hn.a), ln.b as u16, w); }
    if hn.k == K::Extract && hn.a == l.0 && hn.b == ln.w as u32 { }
    // concat(extract(x,k..), concat(extract(x,..k), rest))
    if ln.k == K::Concat { let m = concat_try(h, E(ln.a)); if let Some(m) = m { return concat(m, E(ln.b)); } }
    // concat(zext(x), l) -> zext(concat(x,l))
    if hn.k == K::ZExt { return zext(concat(E(hn.a), l), w); }
    // ite with the same condition on both sides
    if hn.k == K::Ite && ln.k == K::Ite && hn.a == ln.a && leafy(h, 6) && leafy(l, 6) { return ite(E(hn.a), concat(E(hn.b), E(ln.b)), concat(E(hn.c), E(ln.c))); }
    mk(Node { k: K::Concat, w, a: h.0, b: l.0, c: 0 })
}
fn concat_try(h: E, l: E) -> Option<E> {
    let (hn, ln) = (h.n(), l.n());
    if hn.k == K::Extract && ln.k == K::Extract && hn.a == ln.a && hn.b == ln.b + ln.w as u32 { return Some(extract(E(hn.a), ln.b as u16, hn.w + ln.w)); }
    None
}
pub fn zext(e: E, w: u16) -> E {
    let n = e.n();
    if n.w == w { return e; }
    if let Some(v) = e.cv() { return cst(v, w); }
    if n.k == K::ZExt { return zext(E(n.a), w); }
    if n.k == K::Ite && leafy(e, 6) { return map_leaves(e, &|v| cst(v, w)); }
    mk(Node { k: K::ZExt, w, a: e.0, b: 0, c: 0 })
}
pub fn sext(e: E, w: u16) -> E {
    let n = e.n();
    if n.w == w { return e; }
    if let Some(v) = e.cv() { return cst(sx(v, n.w) as u128, w); }
    if n.k == K::ZExt && E(n.a).w() < n.w { return zext(E(n.a), w); }
    if n.k == K::Ite && leafy(e, 6) { let ow = n.w; return map_leaves(e, &move |v| cst(sx(v, ow) as u128, w)); }
    mk(Node { k: K::SExt, w, a: e.0, b: 0, c: 0 })
}

pub type Model = FxMap<u32, u128>;
pub fn eval(e: E, m: &Model) -> u128 { let mut memo = FxMap::default(); eval_m(e, m, &mut memo) }
fn eval_m(e: E, m: &Model, memo: &mut FxMap<u32, u128>) -> u128 {
    let n = e.n();
    match n.k {
        K::Const => return e.cv().unwrap(),
        K::Var => return m.get(&n.a).copied().unwrap_or(0) & mask(n.w),
        _ => {}
    }
    if let Some(&v) = memo.get(&e.0) { return v; }
    let v = match n.k {
        K::Not => !eval_m(E(n.a), m, memo) & mask(n.w),
        K::Ite => if eval_m(E(n.a), m, memo) == 1 { eval_m(E(n.b), m, memo) } else { eval_m(E(n.c), m, memo) },
        K::Concat => (eval_m(E(n.a), m, memo) << E(n.b).w()) | eval_m(E(n.b), m, memo),
        K::Extract => (eval_m(E(n.a), m, memo) >> n.b) & mask(n.w),
        K::ZExt => eval_m(E(n.a), m, memo),
        K::SExt => (sx(eval_m(E(n.a), m, memo), E(n.a).w()) as u128) & mask(n.w),
        k => fold(k, eval_m(E(n.a), m, memo), eval_m(E(n.b), m, memo), E(n.a).w()),
    };
    memo.insert(e.0, v);
    v
}
/// sorted variable numbers occurring in e
pub fn vars_of(e: E) -> std::rc::Rc<Vec<u32>> {
    if let Some(v) = &ar().vars[e.0 as usize] { return v.clone(); }
    let n = e.n();
    let mut out: Vec<u32> = vec![];
    let mut add = |x: u32| { for &v in vars_of(E(x)).iter() { out.push(v) } };
    match n.k {
        K::Const => {}
        K::Var => out.push(n.a),
        K::Not | K::Extract | K::ZExt | K::SExt => add(n.a),
        K::Ite => { add(n.a); add(n.b); add(n.c) }
        _ => { add(n.a); add(n.b) }
    }
    out.sort(); out.dedup();
    let r = std::rc::Rc::new(out);
    ar().vars[e.0 as usize] = Some(r.clone());
    r
}
pub fn show(e: E) -> String { show_d(e, 6) }
fn show_d(e: E, d: u32) -> String {
    let n = e.n();
    if d == 0 { return "..".into(); }
    match n.k {
        K::Const => format!("{}", e.cv().unwrap()),
        K::Var => format!("v{}", n.a >> 8),
        K::Not => format!("!{}", show_d(E(n.a), d - 1)),
        K::Extract => format!("{}[{}+{}]", show_d(E(n.a), d - 1), n.b, n.w),
        K::ZExt => format!("z{}({})", n.w, show_d(E(n.a), d - 1)),
        K::SExt => format!("s{}({})", n.w, show_d(E(n.a), d - 1)),
        K::Ite => format!("({}?{}:{})", show_d(E(n.a), d - 1), show_d(E(n.b), d - 1), show_d(E(n.c), d - 1)),
        k => format!("({:?} {} {})", k, show_d(E(n.a), d - 1), show_d(E(n.b), d - 1)),
    }
}
