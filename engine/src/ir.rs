//! LLVM textual IR: types, constants, globals, lazily parsed function bodies.
use std::collections::HashMap;
use std::rc::Rc;
use crate::expr::FxMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Arr(u64, Rc<Ty>), Vect(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Meta, Label, Func }
impl Ty {
    pub fn size(&self) -> u64 { match self {
        Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
        Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
        Ty::Arr(n, t) => n * t.size(),
        Ty::Vect(n, t) => match &**t { Ty::Int(1) => (n + 7) / 8, t => n * t.size() },
        Ty::Struct(f, packed) => { let mut o = 0; let mut m = 1; for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; if a > m { m = a } } o += t.size(); } (o + m - 1) / m * m }
        _ => 0 } }
    pub fn align(&self) -> u64 { match self {
        Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
        Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
        Ty::Arr(_, t) => t.align(), Ty::Vect(..) => self.size().next_power_of_two(),
        Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        _ => 1 } }
    pub fn offset(&self, i: usize) -> (u64, Ty) { match self {
        Ty::Arr(_, t) | Ty::Vect(_, t) => (i as u64 * t.size(), (**t).clone()),
        Ty::Struct(f, packed) => { let mut o = 0; for (j, t) in f.iter().enumerate() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } if j == i { return (o, t.clone()); } o += t.size(); } panic!("field") }
        _ => panic!("offset of scalar") } }
    pub fn width(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, t => panic!("width of {:?}", t) } }
    pub fn count(&self) -> usize { match self { Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize, Ty::Struct(f, _) => f.len(), _ => 0 } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Vect(..) | Ty::Struct(..)) }
}

#[derive(Clone, Debug)]
pub enum Val { C(u64), S(crate::expr::E), W(Rc<u128>), A(Rc<Vec<Val>>) }
impl Val { pub fn wide(v: u128, w: u16) -> Val { if w <= 64 { Val::C(v as u64) } else { Val::W(Rc::new(v)) } } }

#[derive(Clone, Debug)]
pub enum Op { R(u32), V(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { ZExt, SExt, Trunc, Bit }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Debug)]
pub enum Inst {
    Alloca { d: u32, size: u64, align: u64, n: Option<Op> },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    /// base + sum(idx_i * scale_i) + off   (index sign-extended from its width)
    Gep { d: u32, base: Op, idx: Vec<(Op, u16, u64)>, off: u64 },
    Bin { d: u32, k: crate::expr::K, w: u16, a: Op, b: Op, lanes: u32 },
    Icmp { d: u32, p: Pred, w: u16, a: Op, b: Op, lanes: u32 },
    Select { d: u32, c: Op, a: Op, b: Op, ty: Ty },
    Cast { d: u32, k: Cast, from: Ty, to: Ty, a: Op },
    Extract { d: u32, a: Op, idx: Vec<u32> },
    Insert { d: u32, ty: Ty, a: Op, v: Op, idx: Vec<u32> },
    ExtractEl { d: u32, a: Op, i: Op },
    InsertEl { d: u32, a: Op, v: Op, i: Op },
    Shuffle { d: u32, a: Op, b: Op, n: usize, m: Vec<u32> },
    Call { d: Option<u32>, f: Callee, args: Vec<Op>, tys: Rc<Vec<Ty>>, rty: Ty, normal: Option<u32> },
    Rmw { d: u32, k: Rmw, p: Op, v: Op, w: u16 },
    CmpXchg { d: u32, p: Op, a: Op, b: Op, w: u16 },
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u16, def: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<Op> },
    Unreachable,
    LandingPad { d: u32 },
    Copy { d: u32, a: Op },
    Nop,
    Unsupported(String),
}
#[derive(Debug)]
pub enum Callee { Fn(usize), Ind(Op), Asm }

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op)>)>, pub insts: Vec<Inst> }
pub struct Body { pub blocks: Vec<Block>, pub nregs: usize, pub nparams: usize }

pub struct Func { pub name: String, pub addr: u64, pub text: Option<(usize, usize, usize)>, pub body: Option<Rc<Body>>, pub builtin: u32 }
pub struct Global { pub name: String, pub addr: u64, pub ty: Ty, pub init: Option<(usize, usize)>, pub constant: bool }

pub struct Module {
    pub src: String,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub by_addr: FxMap<u64, usize>,
    pub globals: Vec<Global>,
    pub sym: HashMap<String, u64>,
    pub types: HashMap<String, Ty>,
    pub gend: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> { Id(&'a str), Loc(&'a str), Glob(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), P(char), Meta, Attr, NL, Eof }

pub struct Lex<'a> { s: &'a str, b: &'a [u8], pub i: usize, end: usize }
impl<'a> Lex<'a> {
    pub fn new(s: &'a str, a: usize, e: usize) -> Self { Lex { s, b: s.as_bytes(), i: a, end: e } }
    fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
    pub fn next(&mut self) -> T<'a> {
        loop {
            if self.i >= self.end { return T::Eof; }
            let c = self.b[self.i];
            match c {
                b' ' | b'\t' | b'\r' => { self.i += 1; }
                b'\n' => { self.i += 1; return T::NL; }
                b';' => { while self.i < self.end && self.b[self.i] != b'\n' { self.i += 1; } }
                b'%' | b'@' => {
                    self.i += 1;
                    let name;
                    if self.b[self.i] == b'"' { let st = self.i + 1; self.i = st; while self.b[self.i] != b'"' { self.i += 1; } name = &self.s[st..self.i]; self.i += 1; }
                    else { let st = self.i; while self.i < self.end && Self::idch(self.b[self.i]) { self.i += 1; } name = &self.s[st..self.i]; }
                    return if c == b'%' { T::Loc(name) } else { T::Glob(name) };
                }
                b'"' => { let st = self.i + 1; self.i = st; while self.b[self.i] != b'"' { self.i += 1; } let r = &self.s[st..self.i]; self.i += 1; return T::Str(r); }
                b'!' => { self.i += 1; while self.i < self.end && (Self::idch(self.b[self.i])) { self.i += 1; } return T::Meta; }
                b'#' => { self.i += 1; while self.i < self.end && (Self::idch(self.b[self.i])) { self.i += 1; } return T::Attr; }
                b'0'..=b'9' => { let st = self.i; while self.i < self.end && (Self::idch(self.b[self.i]) || self.b[self.i] == b'+') { self.i += 1; } return T::Num(&self.s[st..self.i]); }
                b'-' if self.i + 1 < self.end && self.b[self.i + 1].is_ascii_digit() => { let st = self.i; self.i += 1; while self.i < self.end && (Self::idch(self.b[self.i]) || self.b[self.i] == b'+') { self.i += 1; } return T::Num(&self.s[st..self.i]); }
                b'c' if self.i + 1 < self.end && self.b[self.i + 1] == b'"' => { let st = self.i + 2; self.i = st; while self.b[self.i] != b'"' { self.i += 1; } let r = &self.s[st..self.i]; self.i += 1; return T::CStr(r); }
                _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => { let st = self.i; while self.i < self.end && Self::idch(self.b[self.i]) { self.i += 1; } return T::Id(&self.s[st..self.i]); }
                b'.' => { let st = self.i; while self.i < self.end && self.b[self.i] == b'.' { self.i += 1; } return T::Id(&self.s[st..self.i]); }
                _ => { self.i += 1; return T::P(c as char); }
            }
        }
    }
    pub fn peek(&mut self) -> T<'a> { let s = self.i; let t = self.next(); self.i = s; t }
    pub fn eat(&mut self, c: char) -> bool { let s = self.i; if self.next() == T::P(c) { true } else { self.i = s; false } }
    pub fn eat_id(&mut self, x: &str) -> bool { let s = self.i; if self.next() == T::Id(x) { true } else { self.i = s; false } }
    pub fn expect(&mut self, c: char) { let t = self.next(); if t != T::P(c) { self.fail(&format!("expected {:?} got {:?}", c, t)); } }
    pub fn fail(&self, m: &str) -> ! { let a = self.i.saturating_sub(160); let b = (self.i + 80).min(self.s.len()); panic!("IR parse: {} near ...{}", m, &self.s.get(a..b).unwrap_or("?")) }
    pub fn line_end(&mut self) { loop { match self.next() { T::NL | T::Eof => return, _ => {} } } }
    pub fn skip_nl(&mut self) { loop { let s = self.i; if self.next() != T::NL { self.i = s; return; } } }
    pub fn parens(&mut self) { self.expect('('); let mut d = 1; while d > 0 { match self.next() { T::P('(') => d += 1, T::P(')') => d -= 1, T::Eof => self.fail("eof"), _ => {} } } }
}

fn is_type_word(s: &str) -> bool {
    matches!(s, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "opaque")
        || (s.len() > 1 && s.as_bytes()[0] == b'i' && s.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn parse_ty(&self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            T::Id(s) => match s {
                "ptr" => Ty::Ptr, "void" => Ty::Void, "float" => Ty::F32, "double" => Ty::F64, "metadata" => Ty::Meta, "label" => Ty::Label, "opaque" => Ty::Struct(Rc::new(vec![]), false),
                s if is_type_word(s) && s.starts_with('i') => Ty::Int(s[1..].parse().unwrap()),
                s => l.fail(&format!("type {}", s)),
            },
            T::P('[') => { let n = match l.next() { T::Num(n) => n.parse().unwrap(), _ => l.fail("array") }; l.eat_id("x"); let t = self.parse_ty(l); l.expect(']'); Ty::Arr(n, Rc::new(t)) }
            T::P('{') => { let f = self.fields(l, '}'); Ty::Struct(Rc::new(f), false) }
            T::P('<') => {
                if l.eat('{') { let f = self.fields(l, '}'); l.expect('>'); Ty::Struct(Rc::new(f), true) }
                else { let n = match l.next() { T::Num(n) => n.parse().unwrap(), _ => l.fail("vector") }; l.eat_id("x"); let t = self.parse_ty(l); l.expect('>'); Ty::Vect(n, Rc::new(t)) }
            }
            T::Loc(n) => self.types.get(n).cloned().unwrap_or_else(|| l.fail("named type")),
            t => l.fail(&format!("type token {:?}", t)),
        };
        // function type
        if l.peek() == T::P('(') && false { return Ty::Func; }
        t
    }
    fn fields(&self, l: &mut Lex, close: char) -> Vec<Ty> {
        let mut f = vec![];
        if l.eat(close) { return f; }
        loop { f.push(self.parse_ty(l)); if l.eat(',') { continue; } l.expect(close); return f; }
    }
    pub fn zero(&self, ty: &Ty) -> Val {
        if ty.is_agg() { Val::A(Rc::new((0..ty.count()).map(|i| self.zero(&ty.offset(i).1)).collect())) }
        else { match ty { Ty::Int(w) => Val::wide(0, *w), _ => Val::C(0) } }
    }
    pub fn parse_const(&self, l: &mut Lex, ty: &Ty) -> Val {
        match l.next() {
            T::Num(n) => match ty {
                Ty::Int(w) => { let v: u128 = if let Some(m) = n.strip_prefix('-') { 0u128.wrapping_sub(m.parse::<u128>().unwrap()) } else { n.parse().unwrap_or_else(|_| l.fail("num")) }; Val::wide(v & crate::expr::mask(*w), *w) }
                Ty::F64 | Ty::F32 => { let v: f64 = if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { n.parse().unwrap() }; if *ty == Ty::F64 { Val::C(v.to_bits()) } else { Val::C((v as f32).to_bits() as u64) } }
                _ => l.fail("num type"),
            },
            T::Id("true") => Val::C(1), T::Id("false") => Val::C(0), T::Id("null") => Val::C(0),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") | T::Id("none") => self.zero(ty),
            T::CStr(s) => Val::A(Rc::new(unescape(s).into_iter().map(|b| Val::C(b as u64)).collect())),
            T::Glob(n) => Val::C(*self.sym.get(n).unwrap_or_else(|| l.fail(&format!("symbol {}", n)))),
            T::P('[') => self.elems(l, ']'),
            T::P('{') => self.elems(l, '}'),
            T::P('<') => { if l.eat('{') { let v = self.elems(l, '}'); l.expect('>'); v } else { self.elems(l, '>') } }
            T::Id("splat") => { l.expect('('); let t = self.parse_ty(l); let v = self.parse_const(l, &t); l.expect(')'); Val::A(Rc::new(vec![v; ty.count()])) }
            T::Id("getelementptr") => {
                loop { match l.peek() { T::Id("inbounds") | T::Id("nuw") | T::Id("nusw") => { l.next(); } T::Id("inrange") => { l.next(); l.parens(); } _ => break } }
                l.expect('(');
                let t = self.parse_ty(l); l.expect(',');
                let pt = self.parse_ty(l); let b = self.parse_const(l, &pt);
                let mut addr = match b { Val::C(a) => a, _ => l.fail("gep base") };
                let mut cur = t; let mut first = true;
                while l.eat(',') {
                    let it = self.parse_ty(l); let i = match self.parse_const(l, &it) { Val::C(i) => crate::expr::sx(i as u128, it.width()) as i64, _ => l.fail("idx") };
                    if first { addr = addr.wrapping_add((i as u64).wrapping_mul(cur.size())); first = false; }
                    else { let (o, nt) = cur.offset(if matches!(cur, Ty::Struct(..)) { i as usize } else { 0 }); if matches!(cur, Ty::Struct(..)) { addr = addr.wrapping_add(o); } else { addr = addr.wrapping_add((i as u64).wrapping_mul(nt.size())); } cur = nt; }
                }
                l.expect(')');
                Val::C(addr)
            }
            T::Id("ptrtoint") | T::Id("inttoptr") | T::Id("bitcast") | T::Id("addrspacecast") | T::Id("trunc") => {
                l.expect('('); let t = self.parse_ty(l); let v = self.parse_const(l, &t); l.eat_id("to"); let to = self.parse_ty(l); l.expect(')');
                match v { Val::C(x) => Val::C(x & crate::expr::mask(to.width()) as u64), v => v }
            }
            T::Id(k @ ("sub" | "add" | "xor")) => {
                while let T::Id("nuw" | "nsw") = l.peek() { l.next(); }
                l.expect('('); let t = self.parse_ty(l); let a = self.parse_const(l, &t); l.expect(','); let t2 = self.parse_ty(l); let b = self.parse_const(l, &t2); l.expect(')');
                match (a, b) { (Val::C(a), Val::C(b)) => Val::C((match k { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b }) & crate::expr::mask(t.width()) as u64), _ => l.fail("constexpr") }
            }
            T::Id("blockaddress") => { l.parens(); Val::C(0) }
            T::Id("asm") => { l.line_end(); Val::C(0) }
            t => l.fail(&format!("const {:?}", t)),
        }
    }
    fn elems(&self, l: &mut Lex, close: char) -> Val {
        let mut v = vec![];
        if l.eat(close) { return Val::A(Rc::new(v)); }
        loop { let t = self.parse_ty(l); v.push(self.parse_const(l, &t)); if l.eat(',') { continue; } l.expect(close); return Val::A(Rc::new(v)); }
    }

    pub fn load(src: String) -> Module {
        let mut m = Module { src: String::new(), funcs: vec![], fidx: HashMap::new(), by_addr: Default::default(), globals: vec![], sym: HashMap::new(), types: HashMap::new(), gend: 0 };
        let n = src.len();
        // pass 1: symbols
        let mut pos = 0;
        let mut galias: Vec<(String, usize)> = vec![];
        let b = src.as_bytes();
        let mut gpending: Vec<(String, usize)> = vec![];
        while pos < n {
            let eol = src[pos..].find('\n').map(|i| pos + i).unwrap_or(n);
            let line = &src[pos..eol];
            if line.starts_with('@') { let mut l = Lex::new(&src, pos, eol); if let T::Glob(nm) = l.next() { gpending.push((nm.to_string(), pos)); } }
            else if line.starts_with('%') {
                let mut l = Lex::new(&src, pos, eol);
                if let T::Loc(nm) = l.next() { l.expect('='); l.eat_id("type"); let t = m.parse_ty(&mut l); m.types.insert(nm.to_string(), t); }
            }
            else if line.starts_with("define") || line.starts_with("declare") {
                let mut l = Lex::new(&src, pos, eol);
                let name = loop { match l.next() { T::Glob(nm) => break nm.to_string(), T::NL | T::Eof => panic!("define without name"), _ => {} } };
                let addr = 0x10000 + 16 * m.funcs.len() as u64;
                m.fidx.insert(name.clone(), m.funcs.len());
                m.sym.insert(name.clone(), addr);
                m.by_addr.insert(addr, m.funcs.len());
                let mut text = None;
                if line.starts_with("define") {
                    let params = l.i;
                    // body ends at a line consisting of "}"
                    let mut e = eol;
                    loop { let ne = src[e + 1..].find('\n').map(|i| e + 1 + i).unwrap_or(n); if b[e + 1] == b'}' { text = Some((params, eol, e + 1)); e = ne; break; } e = ne; }
                    pos = e;
                    m.funcs.push(Func { name, addr, text, body: None, builtin: 0 });
                    pos += 1;
                    continue;
                }
                m.funcs.push(Func { name, addr, text, body: None, builtin: 0 });
            }
            pos = eol + 1;
        }
        let mut addr = 0x1000000u64;
        for (nm, p) in &gpending {
            let mut l = Lex::new(&src, *p, n);
            l.next(); l.expect('=');
            let mut constant = false; let mut external = false;
            loop {
                let s = l.i;
                match l.next() {
                    T::Id("constant") => { constant = true; break; }
                    T::Id("global") => break,
                    T::Id("alias") => { galias.push((nm.clone(), l.i)); external = false; constant = false; break; }
                    T::Id("external") | T::Id("extern_weak") => external = true,
                    T::Id("thread_local") => { if l.peek() == T::P('(') { l.parens(); } }
                    T::Id("addrspace") => { l.parens(); }
                    T::Id(_) => {}
                    t => { l.i = s; panic!("global {:?} {}", t, nm) }
                }
            }
            if galias.last().map(|g| &g.0 == nm).unwrap_or(false) { continue; }
            let ty = m.parse_ty(&mut l);
            let init = if external { None } else { Some((l.i, n)) };
            let al = ty.align().max(16);
            addr = (addr + al - 1) / al * al;
            m.sym.insert(nm.clone(), addr);
            let sz = ty.size();
            m.globals.push(Global { name: nm.clone(), addr, ty, init, constant });
            addr += sz.max(1);
        }
        m.gend = addr;
        m.src = src;
        for _ in 0..2 { for (nm, p) in &galias {
            let mut l = Lex::new(&m.src, *p, n);
            // alias <ty>, ptr @target
            let _ = m.parse_ty(&mut l);
            if l.peek() == T::P('(') { l.parens(); }
            l.expect(','); let t = m.parse_ty(&mut l);
            if let T::Glob(g) = l.peek() { if !m.sym.contains_key(g) { continue; } }
            if let Val::C(a) = m.parse_const(&mut l, &t) { m.sym.insert(nm.clone(), a); if let Some(&f) = m.by_addr.get(&a) { m.fidx.insert(nm.clone(), f); } }
        } }
        m
    }

    pub fn body(&mut self, f: usize) -> Rc<Body> {
        if let Some(b) = &self.funcs[f].body { return b.clone(); }
        let b = Rc::new(self.parse_body(f));
        self.funcs[f].body = Some(b.clone());
        b
    }

    fn parse_body(&self, f: usize) -> Body {
        let (ps, bs, be) = self.funcs[f].text.unwrap();
        let mut fp = FP { m: self, regs: HashMap::new(), labels: HashMap::new() };
        let mut l = Lex::new(&self.src, ps, bs);
        l.expect('(');
        let mut np = 0;
        let mut unnamed = 0u32;
        if !l.eat(')') {
            loop {
                if let T::Id("...") = l.peek() { l.next(); l.expect(')'); break; }
                let _ = self.parse_ty(&mut l);
                fp.attrs(&mut l);
                match l.peek() { T::Loc(nm) => { l.next(); fp.reg(nm); } _ => { let nm = unnamed.to_string(); fp.reg(&nm); } }
                unnamed += 1;
                np += 1;
                if l.eat(',') { continue; }
                l.expect(')'); break;
            }
        }
        let src: &str = &self.src;
        // labels first
        let mut blocks_txt: Vec<(String, usize, usize)> = vec![];
        let mut pos = bs + 1;
        let mut cur: Option<(String, usize)> = None;
        while pos < be {
            let eol = src[pos..].find('\n').map(|i| pos + i).unwrap_or(be).min(be);
            let line = &src[pos..eol];
            let fb = line.as_bytes().first().copied().unwrap_or(b' ');
            if fb != b' ' && fb != b'\t' && !line.is_empty() && fb != b';' && fb != b'}' {
                let nm = if fb == b'"' { let e = line[1..].find('"').unwrap(); &line[1..1 + e] } else { &line[..line.find(':').unwrap()] };
                if let Some((n, s)) = cur.take() { blocks_txt.push((n, s, pos)); }
                cur = Some((nm.to_string(), eol + 1));
            } else if cur.is_none() && !line.trim().is_empty() {
                // the entry block has no label; its implicit number follows the unnamed parameters
                cur = Some((unnamed_entry(np, &fp), pos));
            }
            pos = eol + 1;
        }
        if let Some((n, s)) = cur.take() { blocks_txt.push((n, s, be)); }
        for (i, b) in blocks_txt.iter().enumerate() { fp.labels.insert(b.0.clone(), i as u32); }
        let mut blocks = vec![];
        for (_, s, e) in &blocks_txt {
            let mut l = Lex::new(src, *s, *e);
            let mut blk = Block { phis: vec![], insts: vec![] };
            loop {
                l.skip_nl();
                if l.peek() == T::Eof { break; }
                fp.inst(&mut l, &mut blk);
            }
            blocks.push(blk);
        }
        Body { blocks, nregs: fp.regs.len(), nparams: np }
    }
}
fn unnamed_entry(np: usize, fp: &FP) -> String { let mut k = 0; for i in 0..np { if fp.regs.contains_key(&i.to_string()) { k = i + 1; } } k.to_string() }

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } } else { o.push(b[i]); i += 1; } }
    o
}

struct FP<'m> { m: &'m Module, regs: HashMap<String, u32>, labels: HashMap<String, u32> }
impl<'m> FP<'m> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn attrs(&mut self, l: &mut Lex) {
        loop {
            match l.peek() {
                T::Id(s) => {
                    if matches!(s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "sub" | "add" | "xor" | "none" | "splat" | "trunc" | "asm" | "...") { return; }
                    l.next();
                    if s == "align" { if l.peek() == T::P('(') { l.parens(); } else { l.next(); } }
                    else if l.peek() == T::P('(') { l.parens(); }
                }
                T::Str(_) => { l.next(); if l.eat('=') { l.next(); } }
                T::Attr => { l.next(); }
                _ => return,
            }
        }
    }
    fn op(&mut self, l: &mut Lex, ty: &Ty) -> Op {
        match l.peek() {
            T::Loc(n) => { l.next(); Op::R(self.reg(n)) }
            _ => { if *ty == Ty::Meta { // metadata operand
                    match l.next() { T::Meta => {}, _ => {} } if l.peek() == T::P('(') { l.parens(); } return Op::V(Val::C(0)); }
                Op::V(self.m.parse_const(l, ty)) }
        }
    }
    fn tyop(&mut self, l: &mut Lex) -> (Ty, Op) { let t = self.m.parse_ty(l); let o = self.op(l, &t); (t, o) }
    fn label(&mut self, l: &mut Lex) -> u32 { if !l.eat_id("label") { l.fail("label"); } match l.next() { T::Loc(n) => *self.labels.get(n).unwrap_or_else(|| l.fail("unknown label")), _ => l.fail("label") } }
    fn flags(&mut self, l: &mut Lex) { while let T::Id("nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") = l.peek() { l.next(); } }

    fn inst(&mut self, l: &mut Lex, blk: &mut Block) {
        let mut d: Option<u32> = None;
        let st = l.i;
        let mut t = l.next();
        if let T::Loc(n) = t { let s = l.i; if l.eat('=') { d = Some(self.reg(n)); t = l.next(); } else { l.i = s; } }
        let id = match t { T::Id(s) => s, T::Attr => { l.line_end(); return; } t => l.fail(&format!("inst {:?}", t)) };
        use crate::expr::K;
        let dd = d.unwrap_or(0);
        let m = self.m;
        macro_rules! push { ($e:expr) => { blk.insts.push($e) }; }
        match id {
            "alloca" => {
                l.eat_id("inalloca");
                let ty = m.parse_ty(l);
                let mut n = None; let mut align = ty.align();
                while l.eat(',') {
                    if l.eat_id("align") { if let T::Num(a) = l.next() { align = a.parse().unwrap(); } }
                    else if let T::Meta = l.peek() { break; }
                    else { let (_, o) = self.tyop(l); n = Some(o); }
                }
                push!(Inst::Alloca { d: dd, size: ty.size(), align, n });
            }
            "load" => { l.eat_id("atomic"); l.eat_id("volatile"); let ty = m.parse_ty(l); l.expect(','); let (_, p) = self.tyop(l); push!(Inst::Load { d: dd, ty, p }); }
            "store" => { l.eat_id("atomic"); l.eat_id("volatile"); let (ty, v) = self.tyop(l); l.expect(','); let (_, p) = self.tyop(l); push!(Inst::Store { ty, v, p }); }
            "getelementptr" => {
                loop { match l.peek() { T::Id("inbounds") | T::Id("nuw") | T::Id("nusw") => { l.next(); } T::Id("inrange") => { l.next(); l.parens(); } _ => break } }
                let ty = m.parse_ty(l); l.expect(',');
                let (bt, base) = self.tyop(l);
                if bt.is_agg() { push!(Inst::Unsupported("vector gep".into())); l.line_end(); return; }
                let mut off = 0u64; let mut idx = vec![]; let mut cur = ty; let mut first = true;
                while l.eat(',') {
                    if let T::Meta = l.peek() { break; }
                    let (it, o) = self.tyop(l);
                    if it.is_agg() { push!(Inst::Unsupported("vector gep".into())); l.line_end(); return; }
                    let w = it.width();
                    let scale;
                    if first { scale = cur.size(); first = false; }
                    else if let Ty::Struct(..) = cur { let i = match &o { Op::V(Val::C(i)) => *i as usize, _ => l.fail("struct idx") }; let (fo, nt) = cur.offset(i); off = off.wrapping_add(fo); cur = nt; continue; }
                    else { let (_, nt) = cur.offset(0); scale = nt.size(); cur = nt; }
                    match &o { Op::V(Val::C(i)) => off = off.wrapping_add((crate::expr::sx(*i as u128, w) as i64 as u64).wrapping_mul(scale)), _ => idx.push((o, w, scale)) }
                }
                push!(Inst::Gep { d: dd, base, idx, off });
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags(l);
                let ty = m.parse_ty(l); let a = self.op(l, &ty); l.expect(','); let b = self.op(l, &ty);
                let k = match id { "add" => K::Add, "sub" => K::Sub, "mul" => K::Mul, "udiv" => K::UDiv, "sdiv" => K::SDiv, "urem" => K::URem, "srem" => K::SRem, "and" => K::And, "or" => K::Or, "xor" => K::Xor, "shl" => K::Shl, "lshr" => K::LShr, _ => K::AShr };
                let (w, lanes) = match &ty { Ty::Vect(n, t) => (t.width(), *n as u32), t => (t.width(), 0) };
                push!(Inst::Bin { d: dd, k, w, a, b, lanes });
            }
            "icmp" => {
                self.flags(l);
                let p = match l.next() { T::Id(p) => match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => l.fail("pred") }, _ => l.fail("pred") };
                let ty = m.parse_ty(l); let a = self.op(l, &ty); l.expect(','); let b = self.op(l, &ty);
                let (w, lanes) = match &ty { Ty::Vect(n, t) => (t.width(), *n as u32), t => (t.width(), 0) };
                push!(Inst::Icmp { d: dd, p, w, a, b, lanes });
            }
            "select" => { self.flags(l); let (_, c) = self.tyop(l); l.expect(','); let (ty, a) = self.tyop(l); l.expect(','); let (_, b) = self.tyop(l); push!(Inst::Select { d: dd, c, a, b, ty }); }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.flags(l);
                let (from, a) = self.tyop(l); l.eat_id("to"); let to = m.parse_ty(l);
                let k = match id { "zext" => Cast::ZExt, "sext" => Cast::SExt, "trunc" => Cast::Trunc, "bitcast" => Cast::Bit, _ => { let (a, b) = (from.width(), to.width()); if a > b { Cast::Trunc } else { Cast::ZExt } } };
                push!(Inst::Cast { d: dd, k, from, to, a });
            }
            "freeze" => { let (_, a) = self.tyop(l); push!(Inst::Copy { d: dd, a }); }
            "extractvalue" => { let (_, a) = self.tyop(l); let mut idx = vec![]; while l.eat(',') { match l.next() { T::Num(n) => idx.push(n.parse().unwrap()), _ => break } } push!(Inst::Extract { d: dd, a, idx }); }
            "insertvalue" => { let (ty, a) = self.tyop(l); l.expect(','); let (_, v) = self.tyop(l); let mut idx = vec![]; while l.eat(',') { match l.next() { T::Num(n) => idx.push(n.parse().unwrap()), _ => break } } push!(Inst::Insert { d: dd, ty, a, v, idx }); }
            "extractelement" => { let (_, a) = self.tyop(l); l.expect(','); let (_, i) = self.tyop(l); push!(Inst::ExtractEl { d: dd, a, i }); }
            "insertelement" => { let (_, a) = self.tyop(l); l.expect(','); let (_, v) = self.tyop(l); l.expect(','); let (_, i) = self.tyop(l); push!(Inst::InsertEl { d: dd, a, v, i }); }
            "shufflevector" => { let (ta, a) = self.tyop(l); l.expect(','); let (_, b) = self.tyop(l); l.expect(','); let (_, mv) = self.tyop(l);
                let mm = match mv { Op::V(Val::A(v)) => v.iter().map(|x| if let Val::C(c) = x { *c as u32 } else { 0 }).collect(), _ => l.fail("mask") };
                push!(Inst::Shuffle { d: dd, a, b, n: ta.count(), m: mm }); }
            "phi" => {
                self.flags(l);
                let ty = m.parse_ty(l);
                let mut inc = vec![];
                loop { l.expect('['); let o = self.op(l, &ty); l.expect(','); let b = match l.next() { T::Loc(n) => *self.labels.get(n).unwrap_or_else(|| l.fail("phi label")), _ => l.fail("phi") }; l.expect(']'); inc.push((b, o));
                    let s = l.i; if l.eat(',') { if l.peek() == T::P('[') { continue; } l.i = s; } break; }
                blk.phis.push((dd, inc));
            }
            "tail" | "musttail" | "notail" => { l.eat_id("call"); self.call(l, d, blk, false); }
            "call" => self.call(l, d, blk, false),
            "invoke" => self.call(l, d, blk, true),
            "br" => {
                if let T::Id("label") = l.peek() { let t = self.label(l); push!(Inst::Br { t }); }
                else { let (_, c) = self.tyop(l); l.expect(','); let t = self.label(l); l.expect(','); let f = self.label(l); push!(Inst::CondBr { c, t, f }); }
            }
            "switch" => {
                let (ty, v) = self.tyop(l); l.expect(','); let def = self.label(l); l.expect('[');
                let mut cases = vec![];
                loop { l.skip_nl(); if l.eat(']') { break; } let t = m.parse_ty(l); let c = m.parse_const(l, &t); let c = match c { Val::C(c) => c as u128, Val::W(w) => *w, _ => l.fail("case") }; l.expect(','); cases.push((c, self.label(l))); }
                push!(Inst::Switch { v, w: ty.width(), def, cases });
            }
            "ret" => { let t = m.parse_ty(l); let v = if t == Ty::Void { None } else { Some(self.op(l, &t)) }; push!(Inst::Ret { v }); }
            "unreachable" => push!(Inst::Unreachable),
            "resume" => push!(Inst::Unreachable),
            "landingpad" => { l.line_end(); // clauses follow on their own lines
                loop { let s = l.i; match l.next() { T::Id("cleanup") | T::Id("catch") | T::Id("filter") => l.line_end(), _ => { l.i = s; break } } }
                push!(Inst::LandingPad { d: dd }); return; }
            "atomicrmw" => {
                l.eat_id("volatile");
                let k = match l.next() { T::Id(k) => match k { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => l.fail("rmw") }, _ => l.fail("rmw") };
                let (_, p) = self.tyop(l); l.expect(','); let (t, v) = self.tyop(l);
                push!(Inst::Rmw { d: dd, k, p, v, w: t.width() });
            }
            "cmpxchg" => { l.eat_id("weak"); l.eat_id("volatile"); let (_, p) = self.tyop(l); l.expect(','); let (t, a) = self.tyop(l); l.expect(','); let (_, b) = self.tyop(l); push!(Inst::CmpXchg { d: dd, p, a, b, w: t.width() }); }
            "fence" => push!(Inst::Nop),
            _ => { let e = l.i; l.line_end(); push!(Inst::Unsupported(m.src[st..l.i.max(e)].trim().to_string())); return; }
        }
        l.line_end();
    }
    fn call(&mut self, l: &mut Lex, d: Option<u32>, blk: &mut Block, invoke: bool) {
        let m = self.m;
        // calling convention, return attributes
        loop {
            match l.peek() {
                T::Id(s) if is_type_word(s) => break,
                T::Id("cc") => { l.next(); l.next(); }
                T::Id(s) => { let _ = s; l.next(); if s == "align" { if l.peek() != T::P('(') { l.next(); continue; } } if l.peek() == T::P('(') { l.parens(); } }
                _ => break,
            }
        }
        let rty = m.parse_ty(l);
        if l.peek() == T::P('(') { l.parens(); }
        let callee = match l.next() {
            T::Glob(n) => Callee::Fn(match m.fidx.get(n) { Some(&f) => f, None => l.fail(&format!("call of {}", n)) }),
            T::Loc(n) => Callee::Ind(Op::R(self.reg(n))),
            T::Id("asm") => { while l.peek() != T::P('(') { l.next(); } Callee::Asm }
            T::Id("inttoptr") | T::Id("null") | T::Id("undef") | T::Id("poison") => { while l.peek() != T::P('(') { l.next(); } Callee::Ind(Op::V(Val::C(0))) }
            t => l.fail(&format!("callee {:?}", t)),
        };
        l.expect('(');
        let mut args = vec![]; let mut tys = vec![];
        if !l.eat(')') {
            loop { let t = m.parse_ty(l); self.attrs(l); let o = self.op(l, &t); args.push(o); tys.push(t); if l.eat(',') { continue; } l.expect(')'); break; }
        }
        let mut normal = None;
        if invoke {
            loop { match l.next() { T::Id("to") => break, T::Eof => l.fail("invoke"), _ => {} } }
            normal = Some(self.label(l));
            if !l.eat_id("unwind") { l.fail("unwind"); }
            self.label(l);
        }
        blk.insts.push(Inst::Call { d, f: callee, args, tys: Rc::new(tys), rty, normal });
    }
}
