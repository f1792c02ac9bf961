//! Path-forking symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { f: usize, body: Rc<Body>, regs: Vec<Val>, blk: u32, ip: u32, ret: Option<u32>, normal: Option<u32>, sp: u64 }
#[derive(Clone)]
pub struct State { frames: Vec<Frame>, mem: Mem, sp: u64, heap: u64, pc: Vec<E>, model: Rc<Model>, inputs: Vec<(u16, E)>, steps: u64, last_alloc: u64, notes: Vec<String>, depth: u32, panic_ok: bool }

pub enum End { Done, Assumed, Panic(String), Bound(String), Error(String), Hang }

pub struct Stats { pub paths: u64, pub assumed: u64, pub steps: u64, pub forks: u64, pub max_depth: u32, pub max_inputs: usize, pub max_path_steps: u64 }
pub struct Finding { pub kind: String, pub what: String, pub values: Vec<(u16, u128)>, pub notes: Vec<String> }

pub struct Exec {
    pub m: Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub reached: BTreeMap<String, u64>,
    pub called: Vec<bool>,
    pub max_steps: u64,
    pub trace: bool,
    pub deadline: Option<Instant>,
    pub samples: Vec<Vec<(u16, u128)>>,
    pub panics: u64,
}

const B_NONE: u32 = 0;
const HEAP: u64 = 0x4000_0000;
const STACK: u64 = 0x2000_0000;

fn builtin_id(name: &str, defined: bool) -> u32 {
    if name.starts_with("llvm.") { return 1; }
    let has = |s: &str| name.contains(s);
    if has("7___rustc12___rust_alloc") && name.ends_with("12___rust_alloc") { return 2; }
    if name.ends_with("19___rust_alloc_zeroed") { return 3; }
    if name.ends_with("14___rust_dealloc") { return 4; }
    if name.ends_with("14___rust_realloc") { return 5; }
    if has("___rust_no_alloc_shim_is_unstable") { return 6; }
    if has("4core9panicking") && (name.ends_with("9panic_fmt") || name.ends_with("18panic_nounwind_fmt") || has("panic_nounwind")) { return 7; }
    if has("___rust_start_panic") || name == "abort" || has("rust_begin_unwind") || has("alloc18handle_alloc_error") || has("3std9panicking11begin_panic") { return 7; }
    match name { "memcpy" | "memmove" => return 8, "memset" => return 9, "memcmp" | "bcmp" => return 10, "strlen" => return 11, _ => {} }
    match name { "nd_u8" => return 20, "nd_u32" => return 21, "nd_u64" => return 22, "nd_assume" => return 23, "nd_bound" => return 24, "nd_reach" => return 25, "nd_note" => return 26, "nd_fork" => return 27, "nd_is_sym" => return 28, "nd_panic_ok" => return 29, _ => {} }
    if defined && has("4core3fmt3num3imp") && name.ends_with("7Display3fmt") { return 30; }
    if !defined { return 99; }
    B_NONE
}

fn w2(v: u64, w: u16) -> u64 { if w >= 64 { v } else { v & ((1u64 << w) - 1) } }
fn s64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn to_e(v: &Val, w: u16) -> E { match v { Val::C(c) => cst(*c as u128, w), Val::W(x) => cst(**x, w), Val::S(e) => *e, Val::A(_) => panic!("aggregate as scalar") } }
fn from_e(e: E) -> Val { match e.cv() { Some(v) => Val::wide(v, e.w()), None => Val::S(e) } }

enum Flow { Next, Jumped, End(End) }

impl Exec {
    pub fn new(mut m: Module, solver: Solver, max_steps: u64) -> Exec {
        let n = m.funcs.len();
        for f in m.funcs.iter_mut() { f.builtin = builtin_id(&f.name, f.text.is_some()); }
        Exec { m, solver, work: vec![], stats: Stats { paths: 0, assumed: 0, steps: 0, forks: 0, max_depth: 0, max_inputs: 0, max_path_steps: 0 }, reached: BTreeMap::new(), called: vec![false; n], max_steps, trace: false, deadline: None, samples: vec![], panics: 0 }
    }
    fn init_global(&self, mem: &mut Mem, addr: u64, ty: &Ty, v: &Val) {
        match v {
            Val::A(vs) => {
                if let Ty::Arr(_, t) = ty { if **t == Ty::Int(8) { let b: Vec<u8> = vs.iter().map(|x| if let Val::C(c) = x { *c as u8 } else { 0 }).collect(); mem.write_bytes(addr, &b); return; } }
                for (i, x) in vs.iter().enumerate() { let (o, t) = ty.offset(i); self.init_global(mem, addr + o, &t, x); }
            }
            Val::C(c) => { let n = ty.size() as usize; if *c != 0 { mem.write_c(addr, *c as u128, n) } }
            Val::W(c) => mem.write_c(addr, **c, ty.size() as usize),
            Val::S(_) => unreachable!(),
        }
    }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fidx.get(entry).ok_or_else(|| format!("no such harness {}", entry))?;
        let mut mem = Mem::new();
        for g in &self.m.globals {
            if let Some((p, e)) = g.init { let mut l = Lex::new(&self.m.src, p, e); let v = self.m.parse_const(&mut l, &g.ty); self.init_global(&mut mem, g.addr, &g.ty, &v); }
        }
        let body = self.m.body(f);
        self.called[f] = true;
        let fr = Frame { f, regs: vec![Val::C(0); body.nregs], body, blk: 0, ip: 0, ret: None, normal: None, sp: STACK };
        self.work.push(State { frames: vec![fr], mem, sp: STACK, heap: HEAP, pc: vec![], model: Rc::new(Model::default()), inputs: vec![], steps: 0, last_alloc: 0, notes: vec![], depth: 0, panic_ok: false });
        Ok(())
    }
    /// explore everything; stops at the first finding
    pub fn run(&mut self) -> Result<Option<Finding>, String> {
        while let Some(mut st) = self.work.pop() {
            if let Some(d) = self.deadline { if Instant::now() > d { return Err("TIME-BUDGET exhausted".into()); } }
            let end = self.run_state(&mut st);
            self.stats.steps += st.steps; // includes shared prefix of forked paths
            if st.steps > self.stats.max_path_steps { self.stats.max_path_steps = st.steps; }
            if st.depth > self.stats.max_depth { self.stats.max_depth = st.depth; }
            if st.inputs.len() > self.stats.max_inputs { self.stats.max_inputs = st.inputs.len(); }
            let mk = |st: &State, kind: &str, what: String| Finding { kind: kind.into(), what, values: st.inputs.iter().map(|(w, e)| (*w, eval(*e, &st.model))).collect(), notes: st.notes.clone() };
            let end = match end { End::Panic(_) if st.panic_ok => { self.panics += 1; End::Done } e => e };
            match end {
                End::Done => { self.stats.paths += 1; if self.stats.paths < 3 || (self.stats.paths.is_power_of_two() && self.samples.len() < 8) { self.samples.push(mk(&st, "", String::new()).values); } if self.trace { eprintln!("path {} done: {} steps, {} constraints, {} queued; notes {:?}", self.stats.paths, st.steps, st.pc.len(), self.work.len(), st.notes); } }
                End::Assumed => self.stats.assumed += 1,
                End::Panic(w) => return Ok(Some(mk(&st, "panic", format!("{}\n{}", w, self.backtrace(&st))))),
                End::Hang => return Ok(Some(mk(&st, "hang", format!("no end after {} instructions\n{}", st.steps, self.backtrace(&st))))),
                End::Bound(w) => { eprintln!("bound: inputs {:?} notes {:?}", mk(&st, "", String::new()).values, st.notes); return Err(format!("BOUND {}\n{}", w, self.backtrace(&st))) }
                End::Error(w) => return Err(format!("{}\n{}", w, self.backtrace(&st))),
            }
        }
        Ok(None)
    }
    fn backtrace(&self, st: &State) -> String {
        let mut o = String::new();
        for f in st.frames.iter().rev().take(25) { o += &format!("    at {}\n", crate::demangle(&self.m.funcs[f.f].name)); }
        o
    }
    fn run_state(&mut self, st: &mut State) -> End {
        loop {
            if st.steps > self.max_steps { return End::Hang; }
            match self.step(st) { Flow::Next => { st.frames.last_mut().unwrap().ip += 1; } Flow::Jumped => {} Flow::End(e) => return e }
        }
    }
    #[inline]
    fn get(&self, st: &State, o: &Op) -> Val { match o { Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Op::V(v) => v.clone() } }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) { st.frames.last_mut().unwrap().regs[d as usize] = v; }

    fn jump(&mut self, st: &mut State, t: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let body = fr.body.clone();
        let b = &body.blocks[t as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let mut found = false;
                for (fb, o) in inc { if *fb == from { vals.push((*d, match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::V(v) => v.clone() })); found = true; break; } }
                debug_assert!(found);
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.blk = t; fr.ip = 0;
    }
    /// add c to the path condition: c is known true under the current model
    fn assume_true(&mut self, st: &mut State, c: E) { if !c.is_true() { if c.n().k == K::And && c.w() == 1 { let n = c.n(); self.assume_true(st, E(n.a)); self.assume_true(st, E(n.b)); return; } if !st.pc.contains(&c) { st.pc.push(c); } } }
    /// which truth values of c are possible?  (true-model, false-model)
    fn both(&mut self, st: &State, c: E) -> Result<(Option<Rc<Model>>, Option<Rc<Model>>), String> {
        let nc = not(c);
        if st.pc.contains(&c) { return Ok((Some(st.model.clone()), None)); }
        if st.pc.contains(&nc) { return Ok((None, Some(st.model.clone()))); }
        let cur = eval(c, &st.model) == 1;
        let other = if cur { nc } else { c };
        let o = match self.solver.check(&st.pc, other, &st.model) { Res::Sat(m) => Some(Rc::new(m)), Res::Unsat => None, Res::Unknown => return Err("solver returned unknown".into()) };
        Ok(if cur { (Some(st.model.clone()), o) } else { (o, Some(st.model.clone())) })
    }
    fn fork(&mut self, st: &State, c: E, m: Rc<Model>) -> State { self.stats.forks += 1; let mut n = st.clone(); n.model = m; n.depth += 1; self.assume_true(&mut n, c); n }

    /// make a term concrete: the current path takes the model's value, another path takes the rest
    fn concretize(&mut self, st: &mut State, v: &Val, w: u16) -> Result<u64, String> {
        match v {
            Val::C(c) => Ok(*c),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => Err("aggregate where scalar expected".into()),
            Val::S(e) => {
                let x = eval(*e, &st.model);
                let c = bin(K::Eq, *e, cst(x, w));
                let nc = not(c);
                match self.solver.check(&st.pc, nc, &st.model) {
                    Res::Sat(m) => { let n = self.fork(st, nc, Rc::new(m)); self.work.push(n); }
                    Res::Unsat => {}
                    Res::Unknown => return Err("solver returned unknown".into()),
                }
                st.depth += 1;
                self.assume_true(st, c);
                Ok(x as u64)
            }
        }
    }
    fn addr_ok(&self, a: u64, n: u64) -> Result<(), String> { if a < 0x10000 || a.wrapping_add(n) >= TOP || a.wrapping_add(n) < a { Err(format!("invalid memory access at {:#x}+{}", a, n)) } else { Ok(()) } }
    fn load_val(&self, st: &State, a: u64, ty: &Ty) -> Val {
        match ty {
            Ty::Vect(n, t) if **t == Ty::Int(1) => {
                let b = st.mem.read(a, ((*n + 7) / 8) as usize);
                Val::A(Rc::new((0..*n).map(|i| match &b { Bytes::C(c) => Val::C(((c >> i) & 1) as u64), Bytes::S(e) => from_e(extract(*e, i as u16, 1)) }).collect()))
            }
            t if t.is_agg() => Val::A(Rc::new((0..t.count()).map(|i| { let (o, ft) = t.offset(i); self.load_val(st, a + o, &ft) }).collect())),
            t => {
                let w = t.width();
                let nb = (w as usize + 7) / 8;
                match st.mem.read(a, nb) {
                    Bytes::C(c) => if w <= 64 { Val::C(w2(c as u64, w)) } else { Val::wide(c & mask(w), w) },
                    Bytes::S(e) => from_e(extract(e, 0, w)),
                }
            }
        }
    }
    fn store_val(&self, st: &mut State, a: u64, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Vect(n, t), Val::A(vs)) if **t == Ty::Int(1) => {
                let mut acc: Option<E> = None;
                for i in 0..*n as usize { let b = to_e(&vs[i], 1); acc = Some(match acc { None => b, Some(l) => concat(b, l) }); }
                let e = zext(acc.unwrap(), ((*n + 7) / 8 * 8) as u16);
                let nb = (*n as usize + 7) / 8;
                match e.cv() { Some(c) => st.mem.write_c(a, c, nb), None => st.mem.write_s(a, e, nb) }
            }
            (t, Val::A(vs)) if t.is_agg() => for (i, x) in vs.iter().enumerate() { let (o, ft) = t.offset(i); self.store_val(st, a + o, &ft, x); },
            (t, v) => {
                let w = t.width();
                let nb = (w as usize + 7) / 8;
                match v {
                    Val::C(c) => st.mem.write_c(a, *c as u128, nb),
                    Val::W(c) => st.mem.write_c(a, **c, nb),
                    Val::S(e) => st.mem.write_s(a, zext(*e, (nb * 8) as u16), nb),
                    Val::A(_) => panic!("aggregate store"),
                }
            }
        }
    }
    /// an upper bound of an allocation size (exact when it is concrete)
    fn size_bound(&mut self, st: &mut State, v: &Val) -> Result<u64, String> {
        if let Val::S(e) = v {
            let cur = eval(*e, &st.model);
            for k in [256u128, 4096, 65536, 1 << 20, 32 << 20] {
                if cur > k { continue; }
                match self.solver.check(&st.pc, bin(K::Ult, cst(k, 64), *e), &st.model) { Res::Unsat => return Ok(k as u64), Res::Sat(_) => {}, Res::Unknown => return Err("solver returned unknown".into()) }
            }
        }
        self.concretize(st, v, 64)
    }
    fn malloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 { let al = align.max(16); let a = (st.heap + al - 1) / al * al; st.heap = a + size.max(1); st.last_alloc = a; a }

    fn bin_val(&self, k: K, w: u16, a: &Val, b: &Val) -> Result<Val, String> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let r = match k {
                    K::Add => x.wrapping_add(*y), K::Sub => x.wrapping_sub(*y), K::Mul => x.wrapping_mul(*y),
                    K::And => x & y, K::Or => x | y, K::Xor => x ^ y,
                    K::Shl => if *y >= w as u64 { 0 } else { x << y }, K::LShr => if *y >= w as u64 { 0 } else { x >> y },
                    K::AShr => (s64(*x, w) >> (*y).min(w as u64 - 1).min(63)) as u64,
                    K::UDiv => if *y == 0 { return Err("division by zero".into()) } else { x / y },
                    K::URem => if *y == 0 { return Err("division by zero".into()) } else { x % y },
                    K::SDiv => if *y == 0 { return Err("division by zero".into()) } else { s64(*x, w).wrapping_div(s64(*y, w)) as u64 },
                    K::SRem => if *y == 0 { return Err("division by zero".into()) } else { s64(*x, w).wrapping_rem(s64(*y, w)) as u64 },
                    _ => unreachable!(),
                };
                return Ok(Val::C(w2(r, w)));
            }
        }
        Ok(from_e(bin(k, to_e(a, w), to_e(b, w))))
    }
    fn icmp_val(&self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => s64(*x, w) > s64(*y, w), Pred::Sge => s64(*x, w) >= s64(*y, w), Pred::Slt => s64(*x, w) < s64(*y, w), Pred::Sle => s64(*x, w) <= s64(*y, w),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        from_e(match p {
            Pred::Eq => bin(K::Eq, x, y), Pred::Ne => not(bin(K::Eq, x, y)),
            Pred::Ult => bin(K::Ult, x, y), Pred::Ule => bin(K::Ule, x, y), Pred::Ugt => bin(K::Ult, y, x), Pred::Uge => bin(K::Ule, y, x),
            Pred::Slt => bin(K::Slt, x, y), Pred::Sle => bin(K::Sle, x, y), Pred::Sgt => bin(K::Slt, y, x), Pred::Sge => bin(K::Sle, y, x),
        })
    }
    fn cast_val(&self, k: Cast, from: &Ty, to: &Ty, v: &Val) -> Result<Val, String> {
        if let (Ty::Vect(n, ft), Ty::Vect(n2, tt)) = (from, to) {
            if k != Cast::Bit || n == n2 { if let Val::A(vs) = v { let mut o = vec![]; for x in vs.iter() { o.push(self.cast_val(k, ft, tt, x)?); } return Ok(Val::A(Rc::new(o))); } }
        }
        if k == Cast::Bit && (from.is_agg() || to.is_agg()) {
            // through the bit pattern
            let bits = match (from, v) { (Ty::Vect(_, t), Val::A(vs)) => { let mut acc: Option<E> = None; for x in vs.iter() { let b = to_e(x, t.width()); acc = Some(match acc { None => b, Some(l) => { if l.w() + b.w() > 128 { return Err("wide vector bitcast".into()) } concat(b, l) } }); } acc.unwrap() } _ => to_e(v, from.width()) };
            return Ok(match to { Ty::Vect(n, t) => { let w = t.width(); Val::A(Rc::new((0..*n).map(|i| from_e(extract(bits, i as u16 * w, w))).collect())) } _ => from_e(bits) });
        }
        let (fw, tw) = (from.width(), to.width());
        Ok(match (k, v) {
            (Cast::Bit, v) => v.clone(),
            (Cast::ZExt, Val::C(c)) => Val::wide(*c as u128, tw),
            (Cast::Trunc, Val::C(c)) => Val::C(w2(*c, tw)),
            (Cast::SExt, Val::C(c)) => Val::wide((s64(*c, fw) as i128 as u128) & mask(tw), tw),
            (Cast::ZExt, v) => from_e(zext(to_e(v, fw), tw)),
            (Cast::SExt, v) => from_e(sext(to_e(v, fw), tw)),
            (Cast::Trunc, v) => from_e(extract(to_e(v, fw), 0, tw)),
        })
    }
    fn select_val(&self, c: E, a: &Val, b: &Val, ty: &Ty) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => Val::A(Rc::new((0..x.len()).map(|i| self.select_val(c, &x[i], &y[i], &ty.offset(i).1)).collect())),
            _ => { let w = ty.width(); from_e(ite(c, to_e(a, w), to_e(b, w))) }
        }
    }

    fn step(&mut self, st: &mut State) -> Flow {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let body = fr.body.clone();
        let inst = &body.blocks[fr.blk as usize].insts[fr.ip as usize];
        macro_rules! tr { ($e:expr) => { match $e { Ok(v) => v, Err(m) => return Flow::End(End::Error(m)) } }; }
        match inst {
            Inst::Load { d, ty, p } => {
                let p = self.get(st, p);
                let a = match p { Val::C(a) => a, v => tr!(self.concretize(st, &v, 64)) };
                tr!(self.addr_ok(a, ty.size()));
                let v = self.load_val(st, a, ty);
                self.set(st, *d, v); Flow::Next
            }
            Inst::Store { ty, v, p } => {
                let p = self.get(st, p);
                let a = match p { Val::C(a) => a, v => tr!(self.concretize(st, &v, 64)) };
                tr!(self.addr_ok(a, ty.size()));
                let v = self.get(st, v);
                self.store_val(st, a, ty, &v); Flow::Next
            }
            Inst::Gep { d, base, idx, off } => {
                let b = self.get(st, base);
                let mut acc = match b { Val::C(x) => Val::C(x.wrapping_add(*off)), Val::S(e) => from_e(bin(K::Add, e, cst(*off as u128, 64))), _ => return Flow::End(End::Error("gep".into())) };
                for (o, w, scale) in idx {
                    let i = self.get(st, o);
                    acc = match (acc, &i) {
                        (Val::C(a), Val::C(i)) => Val::C(a.wrapping_add((s64(*i, *w) as u64).wrapping_mul(*scale))),
                        (a, i) => { let ie = sext(to_e(i, *w), 64); let ie = if ie.w() > 64 { extract(ie, 0, 64) } else { ie }; from_e(bin(K::Add, to_e(&a, 64), bin(K::Mul, ie, cst(*scale as u128, 64)))) }
                    };
                }
                self.set(st, *d, acc); Flow::Next
            }
            Inst::Bin { d, k, w, a, b, lanes } => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = if *lanes == 0 { tr!(self.bin_val(*k, *w, &a, &b)) } else { match (&a, &b) { (Val::A(x), Val::A(y)) => { let mut o = vec![]; for i in 0..x.len() { o.push(tr!(self.bin_val(*k, *w, &x[i], &y[i]))); } Val::A(Rc::new(o)) } _ => return Flow::End(End::Error("vector bin".into())) } };
                self.set(st, *d, v); Flow::Next
            }
            Inst::Icmp { d, p, w, a, b, lanes } => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = if *lanes == 0 { self.icmp_val(*p, *w, &a, &b) } else { match (&a, &b) { (Val::A(x), Val::A(y)) => Val::A(Rc::new((0..x.len()).map(|i| self.icmp_val(*p, *w, &x[i], &y[i])).collect())), _ => return Flow::End(End::Error("vector icmp".into())) } };
                self.set(st, *d, v); Flow::Next
            }
            Inst::Select { d, c, a, b, ty } => {
                let c = self.get(st, c);
                let v = match &c {
                    Val::C(x) => if *x & 1 == 1 { self.get(st, a) } else { self.get(st, b) },
                    Val::S(e) => { let (a, b) = (self.get(st, a), self.get(st, b)); self.select_val(*e, &a, &b, ty) }
                    Val::A(cs) => match (self.get(st, a), self.get(st, b)) { (Val::A(x), Val::A(y)) => Val::A(Rc::new((0..x.len()).map(|i| self.select_val(to_e(&cs[i], 1), &x[i], &y[i], &ty.offset(i).1)).collect())), _ => return Flow::End(End::Error("vector select".into())) },
                    _ => unreachable!(),
                };
                self.set(st, *d, v); Flow::Next
            }
            Inst::Cast { d, k, from, to, a } => { let a = self.get(st, a); let v = tr!(self.cast_val(*k, from, to, &a)); self.set(st, *d, v); Flow::Next }
            Inst::Copy { d, a } => { let a = self.get(st, a); self.set(st, *d, a); Flow::Next }
            Inst::Extract { d, a, idx } => { let mut v = self.get(st, a); for &i in idx { v = match v { Val::A(x) => x[i as usize].clone(), _ => return Flow::End(End::Error("extractvalue".into())) }; } self.set(st, *d, v); Flow::Next }
            Inst::Insert { d, a, v, idx, .. } => {
                let a = self.get(st, a); let v = self.get(st, v);
                fn ins(a: Val, v: Val, idx: &[u32]) -> Val { if idx.is_empty() { return v; } match a { Val::A(x) => { let mut y = (*x).clone(); let i = idx[0] as usize; y[i] = ins(y[i].clone(), v, &idx[1..]); Val::A(Rc::new(y)) } a => a } }
                let r = ins(a, v, idx); self.set(st, *d, r); Flow::Next
            }
            Inst::ExtractEl { d, a, i } => { let a = self.get(st, a); let i = self.get(st, i); let i = tr!(self.concretize(st, &i, 64)); let v = match a { Val::A(x) => x[i as usize].clone(), _ => return Flow::End(End::Error("extractelement".into())) }; self.set(st, *d, v); Flow::Next }
            Inst::InsertEl { d, a, v, i } => { let a = self.get(st, a); let v = self.get(st, v); let i = self.get(st, i); let i = tr!(self.concretize(st, &i, 64)); let r = match a { Val::A(x) => { let mut y = (*x).clone(); y[i as usize] = v; Val::A(Rc::new(y)) } _ => return Flow::End(End::Error("insertelement".into())) }; self.set(st, *d, r); Flow::Next }
            Inst::Shuffle { d, a, b, n, m } => { let (a, b) = (self.get(st, a), self.get(st, b)); let r = match (a, b) { (Val::A(x), Val::A(y)) => Val::A(Rc::new(m.iter().map(|&i| if (i as usize) < *n { x[i as usize].clone() } else { y[i as usize - n].clone() }).collect())), _ => return Flow::End(End::Error("shuffle".into())) }; self.set(st, *d, r); Flow::Next }
            Inst::Alloca { d, size, align, n } => {
                let cnt = match n { Some(o) => { let v = self.get(st, o); tr!(self.concretize(st, &v, 64)) } None => 1 };
                let al = (*align).max(1);
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + size * cnt;
                if st.sp > HEAP { return Flow::End(End::Error("stack overflow".into())); }
                self.set(st, *d, Val::C(a)); Flow::Next
            }
            Inst::Br { t } => { self.jump(st, *t); Flow::Jumped }
            Inst::CondBr { c, t, f } => {
                let c = self.get(st, c);
                match c {
                    Val::C(x) => { self.jump(st, if x & 1 == 1 { *t } else { *f }); Flow::Jumped }
                    Val::S(e) => {
                        let (a, b) = tr!(self.both(st, e));
                        match (a, b) {
                            (Some(ma), Some(mb)) => {
                                let mut other = self.fork(st, not(e), mb);
                                self.jump(&mut other, *f);
                                self.work.push(other);
                                st.model = ma; st.depth += 1; self.assume_true(st, e); self.jump(st, *t);
                            }
                            (Some(m), None) => { st.model = m; self.jump(st, *t) }
                            (None, Some(m)) => { st.model = m; self.jump(st, *f) }
                            _ => return Flow::End(End::Error("infeasible path".into())),
                        }
                        Flow::Jumped
                    }
                    _ => Flow::End(End::Error("br".into())),
                }
            }
            Inst::Switch { v, w, def, cases } => {
                let v = self.get(st, v);
                match &v {
                    Val::C(_) | Val::W(_) => { let x = match &v { Val::C(c) => *c as u128, Val::W(c) => **c, _ => 0 }; let t = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def); self.jump(st, t); Flow::Jumped }
                    Val::S(e) => {
                        // group cases by target
                        let mut by: BTreeMap<u32, E> = BTreeMap::new();
                        let mut any = fls();
                        for (c, t) in cases { let q = bin(K::Eq, *e, cst(*c, *w)); any = bor(any, q); let x = by.entry(*t).or_insert(fls()); *x = bor(*x, q); }
                        let x = by.entry(*def).or_insert(fls()); *x = bor(*x, not(any));
                        let mut taken: Option<(u32, E)> = None;
                        let mut others = vec![];
                        for (t, c) in by {
                            if c.is_false() { continue; }
                            if eval(c, &st.model) == 1 { taken = Some((t, c)); continue; }
                            match self.solver.check(&st.pc, c, &st.model) { Res::Sat(m) => others.push((t, c, Rc::new(m))), Res::Unsat => {}, Res::Unknown => return Flow::End(End::Error("solver returned unknown".into())) }
                        }
                        for (t, c, m) in others { let mut o = self.fork(st, c, m); self.jump(&mut o, t); self.work.push(o); }
                        let (t, c) = taken.expect("switch");
                        self.assume_true(st, c);
                        self.jump(st, t); Flow::Jumped
                    }
                    _ => Flow::End(End::Error("switch".into())),
                }
            }
            Inst::Ret { v } => {
                let v = v.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                st.sp = fr.sp;
                if st.frames.is_empty() { return Flow::End(End::Done); }
                if let (Some(d), Some(v)) = (fr.ret, v) { self.set(st, d, v); }
                if let Some(b) = fr.normal { self.jump(st, b); return Flow::Jumped; }
                Flow::Next
            }
            Inst::Rmw { d, k, p, v, w } => {
                let p = self.get(st, p); let a = tr!(self.concretize(st, &p, 64)); tr!(self.addr_ok(a, 1));
                let ty = Ty::Int(*w);
                let old = self.load_val(st, a, &ty); let v = self.get(st, v);
                let new = match k {
                    Rmw::Xchg => v, Rmw::Add => tr!(self.bin_val(K::Add, *w, &old, &v)), Rmw::Sub => tr!(self.bin_val(K::Sub, *w, &old, &v)),
                    Rmw::And => tr!(self.bin_val(K::And, *w, &old, &v)), Rmw::Or => tr!(self.bin_val(K::Or, *w, &old, &v)), Rmw::Xor => tr!(self.bin_val(K::Xor, *w, &old, &v)),
                    Rmw::Nand => from_e(not(bin(K::And, to_e(&old, *w), to_e(&v, *w)))),
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => { let (x, y) = (to_e(&old, *w), to_e(&v, *w)); let c = match k { Rmw::Max => bin(K::Slt, y, x), Rmw::Min => bin(K::Slt, x, y), Rmw::UMax => bin(K::Ult, y, x), _ => bin(K::Ult, x, y) }; from_e(ite(c, x, y)) }
                };
                self.store_val(st, a, &ty, &new);
                self.set(st, *d, old); Flow::Next
            }
            Inst::CmpXchg { d, p, a, b, w } => {
                let p = self.get(st, p); let ad = tr!(self.concretize(st, &p, 64)); tr!(self.addr_ok(ad, 1));
                let ty = Ty::Int(*w);
                let old = self.load_val(st, ad, &ty); let (a, b) = (self.get(st, a), self.get(st, b));
                let c = self.icmp_val(Pred::Eq, *w, &old, &a);
                let new = match &c { Val::C(1) => b, Val::C(_) => old.clone(), _ => from_e(ite(to_e(&c, 1), to_e(&b, *w), to_e(&old, *w))) };
                self.store_val(st, ad, &ty, &new);
                self.set(st, *d, Val::A(Rc::new(vec![old, c]))); Flow::Next
            }
            Inst::Unreachable => Flow::End(End::Error("reached an unreachable instruction".into())),
            Inst::LandingPad { .. } => Flow::End(End::Error("landing pad reached".into())),
            Inst::Nop => Flow::Next,
            Inst::Unsupported(s) => Flow::End(End::Error(format!("unsupported instruction: {}", s))),
            Inst::Call { d, f, args, tys, rty, normal } => {
                let fi = match f {
                    Callee::Fn(i) => *i,
                    Callee::Asm => { if let Some(b) = normal { self.jump(st, *b); return Flow::Jumped; } return Flow::Next; }
                    Callee::Ind(o) => { let v = self.get(st, o); let a = tr!(self.concretize(st, &v, 64)); match self.m.by_addr.get(&a) { Some(&i) => i, None => return Flow::End(End::Error(format!("call through {:#x}", a))) } }
                };
                self.call(st, fi, *d, args, tys, rty, *normal)
            }
        }
    }

    fn call(&mut self, st: &mut State, fi: usize, d: Option<u32>, args: &[Op], tys: &[Ty], rty: &Ty, normal: Option<u32>) -> Flow {
        macro_rules! tr { ($e:expr) => { match $e { Ok(v) => v, Err(m) => return Flow::End(End::Error(m)) } }; }
        let bid = self.m.funcs[fi].builtin;
        if bid != B_NONE {
            let av: Vec<Val> = args.iter().map(|o| self.get(st, o)).collect();
            let r: Result<Option<Val>, End> = self.builtin(st, bid, fi, &av, tys, rty);
            match r {
                Err(End::Error(m)) if m == "CALL" => {} // not handled: fall through to the body
                Err(End::Error(m)) if m == "RETAIL" => { // rewritten into a call of another function
                    return self.pending(st, d, normal);
                }
                Err(e) => return Flow::End(e),
                Ok(v) => {
                    if let (Some(d), Some(v)) = (d, v) { self.set(st, d, v); }
                    if let Some(b) = normal { self.jump(st, b); return Flow::Jumped; }
                    return Flow::Next;
                }
            }
        }
        if self.m.funcs[fi].text.is_none() { return Flow::End(End::Error(format!("call of external function {}", self.m.funcs[fi].name))); }
        let body = if let Some(b) = &self.m.funcs[fi].body { b.clone() } else { self.m.body(fi) };
        self.called[fi] = true;
        let mut regs = Vec::with_capacity(body.nregs);
        for o in args.iter().take(body.nparams) { regs.push(self.get(st, o)); }
        regs.resize(body.nregs, Val::C(0));
        if st.frames.len() > 400 { return Flow::End(End::Error("call depth".into())); }
        let sp = st.sp;
        st.frames.push(Frame { f: fi, body, regs, blk: 0, ip: 0, ret: d, normal, sp });
        let _ = tr!(Ok::<(), String>(()));
        Flow::Jumped
    }
    fn pending(&mut self, st: &mut State, d: Option<u32>, normal: Option<u32>) -> Flow {
        let (fi, vals) = PENDING.with(|p| p.borrow_mut().take().unwrap());
        let body = self.m.body(fi);
        self.called[fi] = true;
        let mut regs = vals; regs.resize(body.nregs, Val::C(0));
        let sp = st.sp;
        st.frames.push(Frame { f: fi, body, regs, blk: 0, ip: 0, ret: d, normal, sp });
        Flow::Jumped
    }
    fn input(&mut self, st: &mut State, w: u16) -> Val { let e = var_n(st.inputs.len() as u32, w); st.inputs.push((w, e)); Val::S(e) }
    fn string(&self, st: &State, p: u64, n: u64) -> String { String::from_utf8_lossy(&st.mem.bytes(p, n.min(400))).into_owned() }

    fn builtin(&mut self, st: &mut State, id: u32, fi: usize, a: &[Val], tys: &[Ty], rty: &Ty) -> Result<Option<Val>, End> {
        let er = |m: String| End::Error(m);
        macro_rules! conc { ($v:expr, $w:expr) => { match $v { Val::C(c) => *c, v => self.concretize(st, v, $w).map_err(er)? } }; }
        match id {
            2 | 3 => { let n = match self.size_bound(st, &a[0]) { Ok(n) => n, Err(e) => return Err(End::Error(e)) }; let al = conc!(&a[1], 64); if n > (64 << 20) { return Err(End::Error(format!("allocation of {} bytes", n))); } Ok(Some(Val::C(self.malloc(st, n, al)))) }
            4 => Ok(None),
            5 => { let p = conc!(&a[0], 64); let old = match self.size_bound(st, &a[1]) { Ok(n) => n, Err(e) => return Err(End::Error(e)) }; let al = conc!(&a[2], 64); let n = match self.size_bound(st, &a[3]) { Ok(n) => n, Err(e) => return Err(End::Error(e)) }; if n > (64 << 20) { return Err(End::Error(format!("allocation of {} bytes", n))); }
                if p == st.last_alloc && p + old.max(1) == st.heap && n >= old { st.heap = p + n; return Ok(Some(Val::C(p))); }
                let q = self.malloc(st, n, al); st.mem.copy(q, p, old.min(n)); Ok(Some(Val::C(q))) }
            6 => Ok(None),
            7 => Err(End::Panic(self.panic_info(st, fi, a))),
            8 => { let dst = conc!(&a[0], 64); let s = conc!(&a[1], 64); let n = conc!(&a[2], 64); st.mem.copy(dst, s, n); Ok(Some(Val::C(dst))) }
            9 => { let dst = conc!(&a[0], 64); let n = conc!(&a[2], 64); self.memset(st, dst, &a[1], n); Ok(Some(Val::C(dst))) }
            10 => { let p = conc!(&a[0], 64); let q = conc!(&a[1], 64); let n = conc!(&a[2], 64); Ok(Some(self.memcmp(st, p, q, n, self.m.funcs[fi].name == "bcmp"))) }
            11 => { let p = conc!(&a[0], 64); let mut n = 0; while st.mem.byte(p + n).0 != 0 { n += 1; } Ok(Some(Val::C(n))) }
            20 => Ok(Some(self.input(st, 8))),
            21 => Ok(Some(self.input(st, 32))),
            22 => Ok(Some(self.input(st, 64))),
            23 => {
                let c = match &a[0] { Val::C(x) => cst((*x & 1) as u128, 1), v => { let e = to_e(v, tys[0].width()); if e.w() == 1 { e } else { extract(e, 0, 1) } } };
                if c.is_true() { return Ok(None); }
                if c.is_false() { return Err(End::Assumed); }
                if eval(c, &st.model) == 1 { self.assume_true(st, c); return Ok(None); }
                match self.solver.check(&st.pc, c, &st.model) { Res::Sat(m) => { st.model = Rc::new(m); self.assume_true(st, c); Ok(None) } Res::Unsat => Err(End::Assumed), Res::Unknown => Err(End::Error("solver returned unknown".into())) }
            }
            24 => match &a[0] {
                Val::C(x) if x & 1 == 1 => Ok(None),
                Val::C(_) => Err(End::Bound("model capacity exceeded".into())),
                v => { let e = to_e(v, tys[0].width()); let e = extract(e, 0, 1); match self.solver.check(&st.pc, not(e), &st.model) { Res::Unsat => Ok(None), _ => Err(End::Bound("model capacity exceeded".into())) } }
            },
            25 => {
                let p = conc!(&a[0], 64); let n = conc!(&a[1], 64); let s = self.string(st, p, n);
                let c = match &a[2] { Val::C(x) => cst((*x & 1) as u128, 1), v => extract(to_e(v, tys[2].width()), 0, 1) };
                if c.is_false() { return Ok(None); }
                if self.reached.contains_key(&s) && !c.is_true() { return Ok(None); }
                let ok = c.is_true() || eval(c, &st.model) == 1 || matches!(self.solver.check(&st.pc, c, &st.model), Res::Sat(_));
                if ok { *self.reached.entry(s).or_insert(0) += 1; }
                Ok(None)
            }
            26 => { let p = conc!(&a[0], 64); let n = conc!(&a[1], 64); let s = self.string(st, p, n); let v = match &a[2] { Val::C(x) => x.to_string(), v => show(to_e(v, 64)) }; if self.trace { eprintln!("note {} = {}", s, v); } st.notes.push(format!("{}={}", s, v)); Ok(None) }
            27 => { let v = conc!(&a[0], 64); Ok(Some(Val::C(v))) }
            28 => Ok(Some(Val::C(matches!(a[0], Val::S(_)) as u64))),
            29 => { let v = conc!(&a[0], 8); st.panic_ok = v & 1 == 1; Ok(None) }
            30 => {
                // Display of an integer: a symbolic value is rendered as a fixed-width injective code
                let p = conc!(&a[0], 64);
                let name = self.m.funcs[fi].name.clone();
                // the primitive's letter follows "3num3imp"
                let at = name.find("3num3imp").unwrap() + 8;
                let n = match name.as_bytes()[at] { b'h' | b'a' => 1, b't' | b's' => 2, b'm' | b'l' => 4, b'y' | b'x' | b'j' | b'i' => 8, _ => return Err(End::Error("CALL".into())) };
                let v = match st.mem.read(p, n) { Bytes::C(_) => return Err(End::Error("CALL".into())), Bytes::S(e) => e };
                let ws = match self.m.funcs.iter().position(|f| f.name.contains("4core3fmt") && f.name.ends_with("9Formatter9write_str") && f.text.is_some()) { Some(i) => i, None => return Err(End::Error("formatting of a symbolic integer".into())) };
                let buf = self.malloc(st, 2 * n as u64 + 1, 1);
                st.mem.write_c(buf, b'#' as u128, 1);
                for i in 0..2 * n as u64 { let nib = zext(extract(v, (4 * i) as u16, 4), 8); st.mem.write_s(buf + 1 + i, bin(K::Add, nib, cst(b'a' as u128, 8)), 1); }
                PENDING.with(|q| *q.borrow_mut() = Some((ws, vec![a[1].clone(), Val::C(buf), Val::C(2 * n as u64 + 1)])));
                Err(End::Error("RETAIL".into()))
            }
            99 => {
                let n = &self.m.funcs[fi].name;
                match n.as_str() {
                    "write" | "writev" => Ok(Some(a[2].clone())),
                    "getenv" => Ok(Some(Val::C(0))),
                    "gettid" | "getpid" => Ok(Some(Val::C(1))),
                    "__cxa_thread_atexit_impl" => Ok(Some(Val::C(0))),
                    "__errno_location" => Ok(Some(Val::C(0x1000000 - 64))),
                    _ => Err(End::Error(format!("call of external function {}", n))),
                }
            }
            1 => self.intrinsic(st, fi, a, tys, rty),
            _ => Err(End::Error("builtin".into())),
        }
    }
    fn panic_info(&self, st: &State, fi: usize, a: &[Val]) -> String {
        let mut out = crate::demangle(&self.m.funcs[fi].name);
        // the last pointer argument of panic_fmt is the Location { file ptr, file len, line, col }
        if let Some(Val::C(p)) = a.last() {
            if *p >= 0x1000000 && *p < TOP - 32 {
                if let (Bytes::C(fp), Bytes::C(fl), Bytes::C(line)) = (st.mem.read(*p, 8), st.mem.read(*p + 8, 8), st.mem.read(*p + 16, 4)) {
                    if fl > 0 && fl < 300 && (fp as u64) > 0x1000000 && (fp as u64) < TOP - 400 { out += &format!(" at {}:{}", self.string(st, fp as u64, fl as u64), line); }
                }
            }
        }
        out
    }
    fn memset(&mut self, st: &mut State, dst: u64, v: &Val, n: u64) { match v { Val::C(c) => { let b = vec![*c as u8; n as usize]; st.mem.write_bytes(dst, &b); } v => { let e = to_e(v, 8); for i in 0..n { st.mem.write_s(dst + i, e, 1); } } } }
    fn memcmp(&mut self, st: &mut State, p: u64, q: u64, n: u64, eq_only: bool) -> Val {
        if !st.mem.has_sym(p, n) && !st.mem.has_sym(q, n) {
            let (x, y) = (st.mem.bytes(p, n), st.mem.bytes(q, n));
            return Val::C(match x.cmp(&y) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1 });
        }
        if eq_only {
            let mut c = tru();
            for i in 0..n { c = band(c, bin(K::Eq, st.mem.byte_e(p + i), st.mem.byte_e(q + i))); if c.is_false() { break; } }
            return from_e(ite(c, cst(0, 32), cst(1, 32)));
        }
        let mut r = cst(0, 32);
        for i in (0..n).rev() {
            let (x, y) = (st.mem.byte_e(p + i), st.mem.byte_e(q + i));
            r = ite(bin(K::Eq, x, y), r, ite(bin(K::Ult, x, y), cst(0xffff_ffff, 32), cst(1, 32)));
        }
        from_e(r)
    }
    fn intrinsic(&mut self, st: &mut State, fi: usize, a: &[Val], tys: &[Ty], _rty: &Ty) -> Result<Option<Val>, End> {
        let er = |m: String| End::Error(m);
        let name = self.m.funcs[fi].name.clone();
        let n = &name[5..];
        macro_rules! conc { ($v:expr, $w:expr) => { match $v { Val::C(c) => *c, v => self.concretize(st, v, $w).map_err(er)? } }; }
        if n.starts_with("lifetime.") || n.starts_with("assume") || n.starts_with("experimental.noalias") || n.starts_with("dbg.") || n.starts_with("donothing") || n.starts_with("prefetch") || n.starts_with("x86.sse2.pause") || n.starts_with("invariant.") { return Ok(None); }
        if n.starts_with("memcpy.") || n.starts_with("memmove.") { let len = conc!(&a[2], 64); if len == 0 { return Ok(None); } let dst = conc!(&a[0], 64); let s = conc!(&a[1], 64); self.addr_ok(dst, len).map_err(er)?; self.addr_ok(s, len).map_err(er)?; st.mem.copy(dst, s, len); return Ok(None); }
        if n.starts_with("memset.") { let len = conc!(&a[2], 64); if len == 0 { return Ok(None); } let dst = conc!(&a[0], 64); self.addr_ok(dst, len).map_err(er)?; self.memset(st, dst, &a[1], len); return Ok(None); }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { return Err(End::Panic("trap".into())); }
        if n.starts_with("threadlocal.address") || n.starts_with("launder") || n.starts_with("expect.") || n.starts_with("ptrmask") && false { return Ok(Some(a[0].clone())); }
        if n.starts_with("is.constant") { return Ok(Some(Val::C(0))); }
        if n.starts_with("objectsize") { return Ok(Some(Val::C(!0))); }
        if let Ty::Vect(_, t) = &tys[0] {
            // elementwise
            let mut out = vec![];
            let k = if let Val::A(x) = &a[0] { x.len() } else { 0 };
            if n.starts_with("vector.reduce.") {
                let xs = if let Val::A(x) = &a[0] { x.clone() } else { return Err(End::Error(name)) };
                let w = t.width();
                let op = if n.contains(".or.") { K::Or } else if n.contains(".and.") { K::And } else if n.contains(".add.") { K::Add } else if n.contains(".xor.") { K::Xor } else { return Err(End::Error(format!("intrinsic {}", name))) };
                let mut acc = xs[0].clone(); for x in xs.iter().skip(1) { acc = self.bin_val(op, w, &acc, x).map_err(er)?; } return Ok(Some(acc));
            }
            for i in 0..k { let ai: Vec<Val> = a.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect(); let ti: Vec<Ty> = tys.iter().map(|ty| if let Ty::Vect(_, t) = ty { (**t).clone() } else { ty.clone() }).collect(); match self.scalar_intrinsic(st, n, &ai, &ti).map_err(er)? { Some(v) => out.push(v), None => return Ok(None) } }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        self.scalar_intrinsic(st, n, a, tys).map_err(er)
    }
    fn scalar_intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], tys: &[Ty]) -> Result<Option<Val>, String> {
        let w = tys[0].width();
        let base = n.split('.').next().unwrap();
        let e = |i: usize| to_e(&a[i], w);
        let parts: Vec<&str> = n.split('.').collect();
        let r = match base {
            "umin" => { let c = bin(K::Ult, e(0), e(1)); ite(c, e(0), e(1)) }
            "umax" => { let c = bin(K::Ult, e(0), e(1)); ite(c, e(1), e(0)) }
            "smin" => { let c = bin(K::Slt, e(0), e(1)); ite(c, e(0), e(1)) }
            "smax" => { let c = bin(K::Slt, e(0), e(1)); ite(c, e(1), e(0)) }
            "abs" => { let c = bin(K::Slt, e(0), cst(0, w)); ite(c, bin(K::Sub, cst(0, w), e(0)), e(0)) }
            "ucmp" | "scmp" => {
                let rw: u16 = parts[1][1..].parse().unwrap();
                let k = if base == "ucmp" { K::Ult } else { K::Slt };
                ite(bin(K::Eq, e(0), e(1)), cst(0, rw), ite(bin(k, e(0), e(1)), cst(mask(rw), rw), cst(1, rw)))
            }
            "fshl" | "fshr" => {
                let s = bin(K::URem, e(2), cst(w as u128, w));
                let (x, y) = (e(0), e(1));
                if let Some(sv) = s.cv() {
                    if sv == 0 { if base == "fshl" { x } else { y } } else {
                        let (l, r) = if base == "fshl" { (sv, w as u128 - sv) } else { (w as u128 - sv, sv) };
                        bin(K::Or, bin(K::Shl, x, cst(l, w)), bin(K::LShr, y, cst(r, w)))
                    }
                } else {
                    let inv = bin(K::Sub, cst(w as u128, w), s);
                    let z = bin(K::Eq, s, cst(0, w));
                    if base == "fshl" { ite(z, x, bin(K::Or, bin(K::Shl, x, s), bin(K::LShr, y, inv))) } else { ite(z, y, bin(K::Or, bin(K::Shl, x, inv), bin(K::LShr, y, s))) }
                }
            }
            "bswap" => { let x = e(0); let nb = w / 8; let mut acc: Option<E> = None; for i in (0..nb).rev() { let b = extract(x, i * 8, 8); acc = Some(match acc { None => b, Some(l) => concat(b, l) }); } acc.unwrap() }
            "bitreverse" => { let x = e(0); let mut acc: Option<E> = None; for i in (0..w).rev() { let b = extract(x, i, 1); acc = Some(match acc { None => b, Some(l) => concat(b, l) }); } acc.unwrap() }
            "ctpop" => { let x = e(0); let mut acc = cst(0, w); for i in 0..w { acc = bin(K::Add, acc, zext(extract(x, i, 1), w)); } acc }
            "ctlz" => { let x = e(0); let mut acc = cst(w as u128, w); for i in 0..w { acc = ite(extract(x, i, 1), cst((w - 1 - i) as u128, w), acc); } acc }
            "cttz" => { let x = e(0); let mut acc = cst(w as u128, w); for i in (0..w).rev() { acc = ite(extract(x, i, 1), cst(i as u128, w), acc); } acc }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let (x, y) = (e(0), e(1));
                let k = if base.ends_with("add") { K::Add } else if base.ends_with("sub") { K::Sub } else { K::Mul };
                let signed = base.starts_with('s');
                let r = bin(k, x, y);
                let ov = match (k, signed) {
                    (K::Add, false) => bin(K::Ult, r, x),
                    (K::Sub, false) => bin(K::Ult, x, y),
                    (K::Add, true) | (K::Sub, true) => {
                        let (sa, sb, sr) = (bin(K::Slt, x, cst(0, w)), bin(K::Slt, y, cst(0, w)), bin(K::Slt, r, cst(0, w)));
                        if k == K::Add { band(bin(K::Eq, sa, sb), not(bin(K::Eq, sa, sr))) } else { band(not(bin(K::Eq, sa, sb)), not(bin(K::Eq, sa, sr))) }
                    }
                    (K::Mul, s) => {
                        if let (Some(p), Some(q)) = (x.cv(), y.cv()) {
                            let o = if s { match sx(p, w).checked_mul(sx(q, w)) { Some(v) => sx((v as u128) & mask(w), w) != v, None => true } } else { match p.checked_mul(q) { Some(v) => v > mask(w), None => true } };
                            cst(o as u128, 1)
                        } else if w <= 64 {
                            let (xx, yy) = if s { (sext(x, 2 * w), sext(y, 2 * w)) } else { (zext(x, 2 * w), zext(y, 2 * w)) };
                            let full = bin(K::Mul, xx, yy);
                            not(bin(K::Eq, full, if s { sext(r, 2 * w) } else { zext(r, 2 * w) }))
                        } else { return Err("wide symbolic multiplication overflow".into()) }
                    }
                    _ => unreachable!(),
                };
                if parts[1] == "with" { return Ok(Some(Val::A(Rc::new(vec![from_e(r), from_e(ov)])))); }
                // saturating
                match (k, signed) { (K::Add, false) => ite(ov, cst(mask(w), w), r), (K::Sub, false) => ite(ov, cst(0, w), r),
                    (_, true) => { let neg = bin(K::Slt, x, cst(0, w)); let min = cst(1u128 << (w - 1), w); let max = cst((1u128 << (w - 1)) - 1, w); ite(ov, ite(neg, min, max), r) } _ => return Err(format!("intrinsic {}", n)) }
            }
            "ptrmask" => bin(K::And, e(0), e(1)),
            _ => { let _ = st; return Err(format!("intrinsic llvm.{}", n)); }
        };
        Ok(Some(from_e(r)))
    }
    pub fn functions(&self) -> BTreeSet<String> { let mut s = BTreeSet::new(); for (i, c) in self.called.iter().enumerate() { if *c { s.insert(crate::demangle(&self.m.funcs[i].name)); } } s }
}
thread_local! { static PENDING: std::cell::RefCell<Option<(usize, Vec<Val>)>> = std::cell::RefCell::new(None); }
