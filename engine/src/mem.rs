//! Copy-on-write paged memory; every byte is concrete or a slice of a term.
use crate::expr::*;
use std::rc::Rc;

pub const PB: usize = 12;
pub const PS: usize = 1 << PB;
pub const TOP: u64 = 1 << 32;

#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<FxMap<u16, (E, u8)>>> }
#[derive(Clone)]
pub struct Chunk([Option<Rc<Page>>; 256]);
#[derive(Clone)]
pub struct Mem { c: Vec<Option<Rc<Chunk>>> }

pub enum Bytes { C(u128), S(E) }

impl Mem {
    pub fn new() -> Mem { Mem { c: vec![None; (TOP >> 20) as usize] } }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> { match &self.c[(a >> 20) as usize] { None => None, Some(c) => c.0[((a >> 12) & 255) as usize].as_deref() } }
    #[inline]
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let c = &mut self.c[(a >> 20) as usize];
        if c.is_none() { const N: Option<Rc<Page>> = None; *c = Some(Rc::new(Chunk([N; 256]))); }
        let c = Rc::make_mut(c.as_mut().unwrap());
        let p = &mut c.0[((a >> 12) & 255) as usize];
        if p.is_none() { *p = Some(Rc::new(Page { d: [0; PS], s: None })); }
        Rc::make_mut(p.as_mut().unwrap())
    }
    /// n <= 16 bytes, little endian
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Bytes {
        let o = (a as usize) & (PS - 1);
        if o + n <= PS {
            match self.page(a) {
                None => return Bytes::C(0),
                Some(p) if p.s.is_none() => {
                    if n == 8 { let mut b = [0u8; 8]; b.copy_from_slice(&p.d[o..o + 8]); return Bytes::C(u64::from_le_bytes(b) as u128); }
                    let mut b = [0u8; 16]; b[..n].copy_from_slice(&p.d[o..o + n]); return Bytes::C(u128::from_le_bytes(b));
                }
                _ => {}
            }
        }
        self.read_slow(a, n)
    }
    #[inline]
    pub fn byte(&self, a: u64) -> (u8, Option<(E, u8)>) {
        match self.page(a) { None => (0, None), Some(p) => { let o = (a as usize) & (PS - 1); (p.d[o], p.s.as_ref().and_then(|s| s.get(&(o as u16)).copied())) } }
    }
    pub fn byte_e(&self, a: u64) -> E { let (c, s) = self.byte(a); match s { Some((e, i)) => extract(e, i as u16 * 8, 8), None => cst(c as u128, 8) } }
    fn read_slow(&self, a: u64, n: usize) -> Bytes {
        let mut any = false; let mut v = 0u128;
        let mut parts: [(u8, Option<(E, u8)>); 16] = [(0, None); 16];
        for i in 0..n { let b = self.byte(a + i as u64); if b.1.is_some() { any = true; } v |= (b.0 as u128) << (8 * i); parts[i] = b; }
        if !any { return Bytes::C(v); }
        // runs of the same term
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < n {
            let (c, s) = parts[i];
            let piece;
            let mut j = i + 1;
            match s {
                Some((e, k)) => {
                    while j < n { match parts[j].1 { Some((e2, k2)) if e2 == e && k2 as usize == k as usize + (j - i) => j += 1, _ => break } }
                    piece = extract(e, k as u16 * 8, ((j - i) * 8) as u16);
                }
                None => {
                    let mut x = c as u128;
                    while j < n && parts[j].1.is_none() { x |= (parts[j].0 as u128) << (8 * (j - i)); j += 1; }
                    piece = cst(x, ((j - i) * 8) as u16);
                }
            }
            acc = Some(match acc { None => piece, Some(l) => concat(piece, l) });
            i = j;
        }
        let e = acc.unwrap();
        match e.cv() { Some(v) => Bytes::C(v), None => Bytes::S(e) }
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, v: u128, n: usize) {
        let o = (a as usize) & (PS - 1);
        if o + n <= PS {
            let p = self.page_mut(a);
            if n == 8 { p.d[o..o + 8].copy_from_slice(&(v as u64).to_le_bytes()); } else { p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]); }
            if let Some(s) = &mut p.s { for i in o..o + n { s.remove(&(i as u16)); } if s.is_empty() { p.s = None; } }
        } else { for i in 0..n { self.write_c(a + i as u64, (v >> (8 * i)) & 255, 1); } }
    }
    pub fn write_s(&mut self, a: u64, e: E, n: usize) {
        for i in 0..n {
            let ad = a + i as u64;
            let x = extract(e, (i * 8) as u16, 8);
            if let Some(c) = x.cv() { self.write_c(ad, c, 1); continue; }
            let p = self.page_mut(ad);
            let s = p.s.get_or_insert_with(Default::default);
            s.insert((ad as usize & (PS - 1)) as u16, (e, i as u8));
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 || dst == src { return; }
        let mut buf = vec![0u8; n as usize];
        let mut syms: Vec<(u64, (E, u8))> = vec![];
        let mut i = 0u64;
        while i < n {
            let a = src + i;
            let o = a as usize & (PS - 1);
            let k = ((PS - o) as u64).min(n - i);
            if let Some(p) = self.page(a) {
                buf[i as usize..(i + k) as usize].copy_from_slice(&p.d[o..o + k as usize]);
                if let Some(s) = &p.s { if (s.len() as u64) < k { for (&off, &v) in s.iter() { let off = off as usize; if off >= o && off < o + k as usize { syms.push((i + (off - o) as u64, v)); } } } else { for j in 0..k { if let Some(&v) = s.get(&((o as u64 + j) as u16)) { syms.push((i + j, v)); } } } }
            }
            i += k;
        }
        self.write_bytes(dst, &buf);
        for (o, v) in syms { let a = dst + o; let p = self.page_mut(a); p.s.get_or_insert_with(Default::default).insert((a as usize & (PS - 1)) as u16, v); }
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let ad = a + i as u64;
            let o = ad as usize & (PS - 1);
            let k = (PS - o).min(b.len() - i);
            let p = self.page_mut(ad);
            p.d[o..o + k].copy_from_slice(&b[i..i + k]);
            if let Some(s) = &mut p.s { if s.len() < k { s.retain(|&x, _| (x as usize) < o || (x as usize) >= o + k); } else { for j in o..o + k { s.remove(&(j as u16)); } } if s.is_empty() { p.s = None; } }
            i += k;
        }
    }
    pub fn has_sym(&self, a: u64, n: u64) -> bool {
        let mut i = 0;
        while i < n { let ad = a + i; let o = ad as usize & (PS - 1); let k = ((PS - o) as u64).min(n - i); if let Some(p) = self.page(ad) { if let Some(s) = &p.s { for j in 0..k { if s.contains_key(&((o as u64 + j) as u16)) { return true; } } } } i += k; }
        false
    }
    pub fn bytes(&self, a: u64, n: u64) -> Vec<u8> { (0..n).map(|i| self.byte(a + i).0).collect() }
}
