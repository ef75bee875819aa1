//! The symbolic executor: depth-first exploration of all feasible paths of one entry point.
use crate::expr::{fold, mask, sext, Arena, Op, Ranges, E};
use crate::ir::*;
use crate::mem::Mem;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    Val,
    Conc,
    Assume,
    Assert,
    Cover,
    Obs,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    RustAlloc,
    RustAllocZ,
    RustDealloc,
    RustRealloc,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memset,
    GetRandom,
    Print,
    Panic,
    Abort,
    Exit,
    HashOne,
    HashWrite,
    Clock,
    Zero,
    Read,
    Write,
    Errno,
    Unknown,
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub sp0: u64,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, bool>>,
    pub ranges: Rc<Ranges>,
    pub vars: Rc<Vec<u32>>,
    pub model: Rc<Vec<u64>>,
    pub model_id: u64,
    pub obs: Vec<Val>,
    pub covers: Rc<Vec<u32>>,
    pub insts: u64,
    pub depth: u32,
    pub asserts: u32,
    pub out: Vec<u8>,
    pub reads: u32,
}

pub struct Violation {
    pub kind: String,
    pub code: u32,
    pub what: String,
    pub model: Vec<u64>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub model: Vec<u64>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub assumed_out: u64,
    pub covers: BTreeMap<u32, u64>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub undecided: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub wall: f64,
    pub peak_states: usize,
    pub nvars_max: usize,
    pub incomplete: Option<String>,
}

pub enum Hash {
    Const,
    Seed(u64),
}

pub struct Limits {
    pub max_insts_path: u64,
    pub job_secs: f64,
    pub max_viol: usize,
    pub samples: usize,
}

pub struct Exec {
    pub m: &'static Module,
    pub ext: Vec<Ext>,
    pub ar: Arena,
    pub solver: Solver,
    pub base: Mem,
    pub next_model: u64,
    pub stats: Stats,
    pub viol: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub cov: Vec<Vec<u64>>,
    pub hash: Hash,
    pub lim: Limits,
    stack: Vec<State>,
    t0: Instant,
    rng: u64,
    profile: Option<HashMap<String, u64>>,
}

enum Dec {
    One(bool),
    Both(bool, Vec<u64>),
}

enum Stop {
    /// this path is over
    End,
    /// violation found at this point
    Viol(String, u32, String),
    /// cannot continue soundly
    Fail(String),
    /// path infeasible / assumed away
    Drop,
    /// The solver gave no verdict in time: the path is given up and counted.
    Undecided,
}

type R<T> = Result<T, Stop>;

macro_rules! mem {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(s) => return Err(Stop::Viol("memory".into(), 0, s)),
        }
    };
}

pub fn classify(m: &Module) -> Vec<Ext> {
    m.funcs
        .iter()
        .map(|f| {
            let n = f.name.as_str();
            let d = f.dem.as_str();
            match n {
                "sx_val" => Ext::Val,
                "sx_conc" => Ext::Conc,
                "sx_assume_" => Ext::Assume,
                "sx_assert_" => Ext::Assert,
                "sx_cover_" => Ext::Cover,
                "sx_obs_" => Ext::Obs,
                "malloc" => Ext::Malloc,
                "calloc" => Ext::Calloc,
                "realloc" => Ext::Realloc,
                "free" => Ext::Free,
                "posix_memalign" => Ext::Memalign,
                "memcmp" => Ext::Memcmp,
                "bcmp" => Ext::Bcmp,
                "strlen" => Ext::Strlen,
                "memcpy" | "memmove" => Ext::Memcpy,
                "memset" => Ext::Memset,
                "getrandom" => Ext::GetRandom,
                "abort" => Ext::Abort,
                "exit" | "_exit" => Ext::Exit,
                "sx_end_" => Ext::Exit,
                "read" if f.decl => Ext::Read,
                "write" if f.decl => Ext::Write,
                "clock_gettime" => Ext::Clock,
                "__errno_location" => Ext::Errno,
                "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => Ext::Zero,
                _ => {
                    if n.ends_with("___rust_alloc") {
                        Ext::RustAlloc
                    } else if n.ends_with("___rust_alloc_zeroed") {
                        Ext::RustAllocZ
                    } else if n.ends_with("___rust_dealloc") {
                        Ext::RustDealloc
                    } else if n.ends_with("___rust_realloc") {
                        Ext::RustRealloc
                    } else if d == "std::io::stdio::_eprint" {
                        Ext::Print
                    } else if d.starts_with("core::panicking::panic_fmt") || d.starts_with("core::panicking::panic_nounwind_fmt") || d.starts_with("std::panicking::panic_handler") || d.starts_with("std::panicking::begin_panic") || d.starts_with("alloc::alloc::handle_alloc_error") || d.starts_with("std::process::abort") {
                        Ext::Panic
                    } else if d.contains("BuildHasher>::hash_one") {
                        Ext::HashOne
                    } else if d.contains("DefaultHasher as core::hash::Hasher>::write") {
                        Ext::HashWrite
                    } else if f.decl {
                        Ext::Unknown
                    } else {
                        Ext::None
                    }
                }
            }
        })
        .collect()
}

impl Exec {
    pub fn new(m: &'static Module, base: Mem, hash: Hash, lim: Limits) -> Self {
        let ext = classify(m);
        let cov = m.funcs.iter().map(|f| vec![0u64; (f.blocks.len() + 63) / 64]).collect();
        Exec {
            m,
            ext,
            ar: Arena::new(),
            solver: Solver::new(20_000),
            base,
            next_model: 1,
            stats: Stats::default(),
            viol: vec![],
            samples: vec![],
            cov,
            hash,
            lim,
            stack: vec![],
            t0: Instant::now(),
            rng: 0x9e3779b97f4a7c15,
            profile: if std::env::var("SX_PROFILE").is_ok() { Some(HashMap::new()) } else { None },
        }
    }

    pub fn run(&mut self, entry: &str, arg: u64) -> Result<(), String> {
        self.t0 = Instant::now();
        let name = format!("sx_entry_{}", entry);
        let fi = *self.m.fn_by_name.get(&name).ok_or(format!("no entry {}", name))?;
        let f = &self.m.funcs[fi as usize];
        let mut regs = vec![Val::I(0); f.nregs as usize];
        if let Some(&p) = f.params.first() {
            regs[p as usize] = Val::I(arg);
        }
        let mem = self.base.clone();
        let sp = mem.sp;
        let st = State {
            frames: vec![Frame { func: fi, blk: 0, ip: 0, regs, sp0: sp, dst: None, normal: None }],
            mem,
            pc: vec![],
            known: Rc::new(HashMap::new()),
            ranges: Rc::new(vec![]),
            vars: Rc::new(vec![]),
            model: Rc::new(vec![]),
            model_id: 1,
            obs: vec![],
            covers: Rc::new(vec![]),
            insts: 0,
            depth: 0,
            asserts: 0,
            out: vec![],
            reads: 0,
        };
        self.next_model = 2;
        self.stack.push(st);
        let mut mx = 0;
        while let Some(st) = self.stack.pop() {
            mx = mx.max(self.stack.len() + 1);
            self.path(st);
            if self.viol.len() >= self.lim.max_viol {
                self.stats.incomplete.get_or_insert("stopped after violations".into());
                self.stack.clear();
            }
            if self.stats.incomplete.is_some() {
                self.stack.clear();
            }
        }
        self.stats.peak_states = mx;
        self.stats.queries = self.solver.queries;
        self.stats.sat = self.solver.sat;
        self.stats.unsat = self.solver.unsat;
        self.stats.unknown = self.solver.unknown;
        self.stats.solver_s = self.solver.secs;
        self.stats.max_query_s = self.solver.max_secs;
        self.stats.wall = self.t0.elapsed().as_secs_f64();
        if let Some(p) = &self.profile {
            let mut v: Vec<_> = p.iter().collect();
            v.sort_by(|a, b| b.1.cmp(a.1));
            for (k, n) in v.iter().take(40) {
                eprintln!("{:>12} {}", n, k);
            }
        }
        Ok(())
    }

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .map(|f| {
                let x = &self.m.funcs[f.func as usize];
                format!("{} bb{}:{}", if x.dem.is_empty() { &x.name } else { &x.dem }, f.blk, f.ip)
            })
            .collect()
    }

    fn path(&mut self, mut st: State) {
        let r = self.exec(&mut st);
        self.stats.insts += st.insts;
        match r {
            Ok(()) | Err(Stop::End) => {
                self.stats.paths += 1;
                self.stats.asserts += st.asserts as u64;
                self.stats.nvars_max = self.stats.nvars_max.max(st.vars.len());
                let mut cs: Vec<u32> = st.covers.iter().copied().collect();
                cs.sort();
                cs.dedup();
                for c in cs {
                    *self.stats.covers.entry(c).or_insert(0) += 1;
                }
                // reservoir sample of completed paths
                self.rng ^= self.rng << 13;
                self.rng ^= self.rng >> 7;
                self.rng ^= self.rng << 17;
                let n = self.stats.paths;
                let k = self.lim.samples;
                let slot = if self.samples.len() < k {
                    Some(self.samples.len())
                } else {
                    let j = (self.rng % n) as usize;
                    if j < k {
                        Some(j)
                    } else {
                        None
                    }
                };
                if let Some(j) = slot {
                    let model = (*st.model).clone();
                    let id = st.model_id;
                    let obs = st
                        .obs
                        .iter()
                        .map(|v| match v {
                            Val::I(x) => *x,
                            Val::S(e) => self.ar.eval(*e, &model, id) as u64,
                            _ => 0,
                        })
                        .collect();
                    let s = Sample { model, obs };
                    if j < self.samples.len() {
                        self.samples[j] = s;
                    } else {
                        self.samples.push(s);
                    }
                }
            }
            Err(Stop::Drop) => self.stats.assumed_out += 1,
            Err(Stop::Undecided) => self.stats.undecided += 1,
            Err(Stop::Viol(kind, code, what)) => {
                let t = self.trace(&st);
                self.viol.push(Violation { kind, code, what, model: (*st.model).clone(), trace: t });
                self.stats.paths += 1;
            }
            Err(Stop::Fail(s)) => {
                let t = self.trace(&st);
                self.stats.incomplete.get_or_insert(format!("{} [in {}] model {:?}", s, t.iter().take(6).cloned().collect::<Vec<_>>().join(" < "), st.model));
            }
        }
    }

    // ---------- constraint handling ----------
    fn lit(&self, c: E) -> (E, bool) {
        match self.ar.is_not(c) {
            Some(i) => (i, false),
            None => (c, true),
        }
    }
    fn learn(&mut self, st: &mut State, c: E) {
        let (b, t) = self.lit(c);
        Rc::make_mut(&mut st.known).insert(b, t);
        let mut r = (*st.ranges).clone();
        self.ar.refine(c, true, &mut r);
        if r != *st.ranges {
            st.ranges = Rc::new(r);
        }
    }
    fn assume(&mut self, st: &mut State, c: E) {
        st.pc.push(c);
        self.learn(st, c);
    }
    fn set_model(&mut self, st: &mut State, m: Vec<u64>) {
        st.model = Rc::new(m);
        st.model_id = self.next_model;
        self.next_model += 1;
    }
    fn quick(&self, st: &State, c: E) -> Option<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Some(k == 1);
        }
        let (b, t) = self.lit(c);
        if let Some(&v) = st.known.get(&b) {
            return Some(v == t);
        }
        let r = self.ar.range(c, &st.ranges, 16);
        if r.0 == r.1 {
            return Some(r.0 == 1);
        }
        None
    }
    fn decide(&mut self, st: &mut State, c: E) -> R<Dec> {
        if let Some(b) = self.quick(st, c) {
            return Ok(Dec::One(b));
        }
        let side = self.ar.eval(c, &st.model, st.model_id) == 1;
        let other = if side { self.ar.not1(c) } else { c };
        match self.solver.check(&mut self.ar, &st.pc, other, &st.vars) {
            Res::Unsat => {
                let l = if side { c } else { self.ar.not1(c) };
                self.learn(st, l);
                Ok(Dec::One(side))
            }
            Res::Sat(m) => Ok(Dec::Both(side, m)),
            Res::Unknown => Err(Stop::Undecided),
        }
    }
    /// A concrete value for e on this path; other values are explored by re-executing the instruction.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => {
                let e = *e;
                if let Some(k) = self.ar.as_const(e) {
                    return Ok(k as u64);
                }
                let r = self.ar.range(e, &st.ranges, 16);
                if r.0 == r.1 {
                    return Ok(r.0 as u64);
                }
                let x = self.ar.eval(e, &st.model, st.model_id);
                let k = self.ar.konst(w, x);
                let eq = self.ar.bin(Op::Eq, e, k);
                match self.decide(st, eq)? {
                    Dec::One(_) => Ok(x as u64),
                    Dec::Both(_, m) => {
                        let ne = self.ar.not1(eq);
                        let mut o = st.clone();
                        o.insts = 0;
                        o.depth += 1;
                        self.assume(&mut o, ne);
                        self.set_model(&mut o, m);
                        self.push(o);
                        self.assume(st, eq);
                        Ok(x as u64)
                    }
                }
            }
            Val::B(x) => Ok(**x as u64),
            Val::A(_) => Err(Stop::Fail("conc of aggregate".into())),
        }
    }
    fn push(&mut self, o: State) {
        self.stats.forks += 1;
        self.stack.push(o);
    }

    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.ar.konst(w, *x as u128),
            Val::B(x) => self.ar.konst(w, **x),
            Val::S(e) => *e,
            Val::A(_) => panic!("to_e of aggregate"),
        }
    }
    fn from_e(&self, e: E) -> Val {
        match self.ar.as_const(e) {
            Some(k) if self.ar.w(e) <= 64 => Val::I(k as u64),
            Some(k) => Val::B(Rc::new(k)),
            None => Val::S(e),
        }
    }

    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> Val {
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
        };
        let big = |v: &Val| match v {
            Val::I(x) => Some(*x as u128),
            Val::B(x) => Some(**x),
            _ => None,
        };
        if let (Some(x), Some(y)) = (big(a), big(b)) {
            let r = fold(o, w, x, y);
            return if w <= 64 { Val::I(r as u64) } else { Val::B(Rc::new(r)) };
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let e = self.ar.bin(o, x, y);
        self.from_e(e)
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        let (o, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        let big = |v: &Val| match v {
            Val::I(x) => Some(*x as u128),
            Val::B(x) => Some(**x),
            _ => None,
        };
        if let (Some(x), Some(y)) = (big(a), big(b)) {
            let r = fold(o, w, x, y) as u64;
            return Val::I(if neg { 1 - r } else { r });
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let mut e = self.ar.bin(o, x, y);
        if neg {
            e = self.ar.not1(e);
        }
        self.from_e(e)
    }
    fn cast(&mut self, k: CastK, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::I(x) => match k {
                CastK::Trunc | CastK::ZExt | CastK::Same => {
                    if tw > 64 {
                        Val::B(Rc::new(*x as u128))
                    } else {
                        Val::I(*x & mask(tw) as u64)
                    }
                }
                CastK::SExt => {
                    let r = (sext(*x as u128, fw) as u128) & mask(tw);
                    if tw > 64 {
                        Val::B(Rc::new(r))
                    } else {
                        Val::I(r as u64)
                    }
                }
            },
            Val::B(x) => {
                let r = match k {
                    CastK::SExt => (sext(**x, fw) as u128) & mask(tw),
                    _ => **x & mask(tw),
                };
                if tw > 64 {
                    Val::B(Rc::new(r))
                } else {
                    Val::I(r as u64)
                }
            }
            Val::S(e) => {
                let r = match k {
                    CastK::Trunc => self.ar.extract(*e, 0, tw),
                    CastK::ZExt => self.ar.zext(*e, tw),
                    CastK::SExt => self.ar.sext(*e, tw),
                    CastK::Same => *e,
                };
                self.from_e(r)
            }
            Val::A(_) => panic!("cast of aggregate"),
        }
    }
    fn ite(&mut self, c: E, a: &Val, b: &Val, ty: &Ty) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let v = (0..x.len()).map(|i| self.ite(c, &x[i], &y[i], &ty.elem(i as u64))).collect();
                Val::A(Rc::new(v))
            }
            _ => {
                let w = ty.bits();
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let e = self.ar.ite(c, x, y);
                self.from_e(e)
            }
        }
    }

    fn load_ty(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let v = mem!(st.mem.load(&mut self.ar, a, ty.size() as u32));
                let mut l = Vec::new();
                for i in 0..*n {
                    l.push(match &v {
                        Val::I(x) => Val::I((x >> i) & 1),
                        Val::S(e) => {
                            let x = self.ar.extract(*e, i as u32, 1);
                            self.from_e(x)
                        }
                        _ => return Err(Stop::Fail("load <n x i1>".into())),
                    });
                }
                Ok(Val::A(Rc::new(l)))
            }
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let mut l = Vec::with_capacity(*n as usize);
                let s = t.size();
                for i in 0..*n {
                    l.push(self.load_ty(st, a + i * s, t)?);
                }
                Ok(Val::A(Rc::new(l)))
            }
            Ty::Struct(_, f) => {
                let mut l = Vec::with_capacity(f.len());
                for i in 0..f.len() {
                    l.push(self.load_ty(st, a + ty.field_off(i as u64), &f[i])?);
                }
                Ok(Val::A(Rc::new(l)))
            }
            _ => {
                let w = ty.bits();
                let n = (w + 7) / 8;
                let v = mem!(st.mem.load(&mut self.ar, a, n));
                Ok(if w % 8 != 0 { self.cast(CastK::Trunc, n * 8, w, &v) } else { v })
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Vec(_, t), Val::A(l)) if **t == Ty::Int(1) => {
                let mut acc = 0u64;
                for (i, x) in l.iter().enumerate() {
                    match x {
                        Val::I(k) => acc |= k << i,
                        _ => return Err(Stop::Fail("store symbolic <n x i1>".into())),
                    }
                }
                mem!(st.mem.store(&mut self.ar, a, ty.size() as u32, &Val::I(acc)));
                Ok(())
            }
            (Ty::Vec(_, t), Val::A(l)) | (Ty::Arr(_, t), Val::A(l)) => {
                let s = t.size();
                for (i, x) in l.iter().enumerate() {
                    self.store_ty(st, a + i as u64 * s, t, x)?;
                }
                Ok(())
            }
            (Ty::Struct(_, f), Val::A(l)) => {
                for i in 0..f.len() {
                    self.store_ty(st, a + ty.field_off(i as u64), &f[i], &l[i])?;
                }
                Ok(())
            }
            _ => {
                let n = (ty.bits() + 7) / 8;
                mem!(st.mem.store(&mut self.ar, a, n, v));
                Ok(())
            }
        }
    }

    /// A read at a symbolic address whose possible cells are few: an if-then-else over the cells.
    fn table_load(&mut self, st: &State, e: E, n: u32, w: u32) -> Option<Val> {
        // e = base + idx * stride
        let mut base = 0u128;
        let mut cur = e;
        let mut stride = 1u128;
        loop {
            let nd = self.ar.n(cur);
            match nd.op {
                Op::Add => {
                    if let Some(k) = self.ar.as_const(nd.b) {
                        base = base.wrapping_add(k.wrapping_mul(stride)) & mask(64);
                        cur = nd.a;
                        continue;
                    }
                    return None;
                }
                Op::ZExt => {
                    cur = nd.a;
                    // arithmetic below a zext must not wrap: only accept when ranges say so
                    let r = self.ar.range(cur, &st.ranges, 16);
                    if r.1 - r.0 > 4096 {
                        return None;
                    }
                    continue;
                }
                Op::Concat => {
                    if self.ar.as_const(nd.b) == Some(0) {
                        stride <<= self.ar.w(nd.b);
                        cur = nd.a;
                        continue;
                    }
                    break;
                }
                Op::Shl => {
                    if let Some(k) = self.ar.as_const(nd.b) {
                        if k < 16 {
                            stride <<= k;
                            cur = nd.a;
                            continue;
                        }
                    }
                    break;
                }
                Op::Mul => {
                    if let Some(k) = self.ar.as_const(nd.b) {
                        if k < 1 << 16 {
                            stride *= k;
                            cur = nd.a;
                            continue;
                        }
                    }
                    break;
                }
                _ => break,
            }
        }
        let r = self.ar.range(cur, &st.ranges, 16);
        if r.1 - r.0 > 512 {
            return None;
        }
        // check the decomposition is exact on the interval (no wrap): compare interval of e
        let full = self.ar.range(e, &st.ranges, 16);
        let lo = (base + r.0 * stride) & mask(64);
        let hi = (base + r.1 * stride) & mask(64);
        if full != (lo, hi) {
            return None;
        }
        let cw = self.ar.w(cur);
        let mut vals = Vec::new();
        let mut i = r.0;
        while i <= r.1 {
            let a = (base + i * stride) as u64;
            match st.mem.load(&mut self.ar, a, n) {
                Ok(Val::I(x)) => vals.push((i, x)),
                _ => return None,
            }
            i += 1;
        }
        let mut acc = self.ar.konst(n * 8, vals.last().unwrap().1 as u128);
        let mut lastv = vals.last().unwrap().1;
        for j in (0..vals.len() - 1).rev() {
            if vals[j].1 != lastv {
                // idx < vals[j+1].0 ? vals[j].1 : acc
                let k = self.ar.konst(cw, vals[j + 1].0);
                let c = self.ar.bin(Op::Ult, cur, k);
                let x = self.ar.konst(n * 8, vals[j].1 as u128);
                acc = self.ar.ite(c, x, acc);
                lastv = vals[j].1;
            }
        }
        let v = self.from_e(acc);
        Some(if w != n * 8 { self.cast(CastK::Trunc, n * 8, w, &v) } else { v })
    }

    #[inline]
    fn get(&self, f: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(i) => f.regs[*i as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.blk;
        let b = &self.m.funcs[f.func as usize].blocks[to as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let ph = &b.phis[0];
                let o = &ph.inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = match o {
                    Opd::R(i) => f.regs[*i as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                f.regs[ph.dst as usize] = v;
            }
            _ => {
                let mut vals = Vec::with_capacity(b.phis.len());
                for ph in &b.phis {
                    let o = &ph.inc.iter().find(|x| x.0 == from).expect("phi").1;
                    vals.push(match o {
                        Opd::R(i) => f.regs[*i as usize].clone(),
                        Opd::K(v) => v.clone(),
                    });
                }
                for (ph, v) in b.phis.iter().zip(vals) {
                    f.regs[ph.dst as usize] = v;
                }
            }
        }
        f.blk = to;
        f.ip = 0;
        self.cov[f.func as usize][(to >> 6) as usize] |= 1 << (to & 63);
    }

    fn exec(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 {
                if st.insts > self.lim.max_insts_path {
                    return Err(Stop::Viol("hang".into(), 0, format!("more than {} instructions on one path", self.lim.max_insts_path)));
                }
                if self.t0.elapsed().as_secs_f64() > self.lim.job_secs {
                    return Err(Stop::Fail("job time limit".into()));
                }
                if let Some(p) = &mut self.profile {
                    for f in st.frames.iter() {
                        let x = &m.funcs[f.func as usize];
                        *p.entry(format!("incl {}", x.dem)).or_insert(0) += 1;
                    }
                    let x = &m.funcs[st.frames.last().unwrap().func as usize];
                    *p.entry(format!("self {}", x.dem)).or_insert(0) += 1;
                }
            }
            st.insts += 1;
            let fr = st.frames.last_mut().unwrap();
            let blk = &m.funcs[fr.func as usize].blocks[fr.blk as usize];
            let inst = &blk.insts[fr.ip as usize];
            match inst {
                Inst::Bin { op, w, lanes, dst, a, b } => {
                    let x = self.get(fr, a);
                    let y = self.get(fr, b);
                    let r = if *lanes == 0 {
                        if let (Val::I(x), Val::I(y)) = (&x, &y) {
                            let (x, y) = (*x, *y);
                            let mk = if *w >= 64 { !0u64 } else { (1u64 << w) - 1 };
                            match op {
                                Bin::Add => Val::I(x.wrapping_add(y) & mk),
                                Bin::Sub => Val::I(x.wrapping_sub(y) & mk),
                                Bin::And => Val::I(x & y),
                                Bin::Or => Val::I(x | y),
                                Bin::Xor => Val::I(x ^ y),
                                Bin::Mul if *w <= 64 => Val::I(x.wrapping_mul(y) & mk),
                                Bin::Shl if *w <= 64 && y < *w as u64 => Val::I((x << y) & mk),
                                Bin::LShr if *w <= 64 && y < *w as u64 => Val::I(x >> y),
                                _ => {
                                    if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && y == 0 {
                                        return Err(Stop::Viol("ub".into(), 0, "division by zero".into()));
                                    }
                                    self.bin(*op, *w, &Val::I(x), &Val::I(y))
                                }
                            }
                        } else {
                            self.bin(*op, *w, &x, &y)
                        }
                    } else {
                        match (&x, &y) {
                            (Val::A(x), Val::A(y)) => {
                                let v: Vec<Val> = (0..*lanes as usize).map(|i| self.bin(*op, *w, &x[i], &y[i])).collect();
                                Val::A(Rc::new(v))
                            }
                            _ => return Err(Stop::Fail("vector bin".into())),
                        }
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::Icmp { p, w, lanes, dst, a, b } => {
                    let x = self.get(fr, a);
                    let y = self.get(fr, b);
                    let r = if *lanes == 0 {
                        match (&x, &y) {
                            (Val::I(x), Val::I(y)) => {
                                let (x, y) = (*x, *y);
                                let s = |v: u64| sext(v as u128, *w) as i64;
                                let r = match p {
                                    Pred::Eq => x == y,
                                    Pred::Ne => x != y,
                                    Pred::Ult => x < y,
                                    Pred::Ule => x <= y,
                                    Pred::Ugt => x > y,
                                    Pred::Uge => x >= y,
                                    Pred::Slt => s(x) < s(y),
                                    Pred::Sle => s(x) <= s(y),
                                    Pred::Sgt => s(x) > s(y),
                                    Pred::Sge => s(x) >= s(y),
                                };
                                Val::I(r as u64)
                            }
                            _ => self.cmp(*p, *w, &x, &y),
                        }
                    } else {
                        match (&x, &y) {
                            (Val::A(x), Val::A(y)) => {
                                let v: Vec<Val> = (0..*lanes as usize).map(|i| self.cmp(*p, *w, &x[i], &y[i])).collect();
                                Val::A(Rc::new(v))
                            }
                            _ => return Err(Stop::Fail("vector icmp".into())),
                        }
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::Cast { k, fw, tw, lanes, dst, a } => {
                    let x = self.get(fr, a);
                    let r = if *lanes == 0 {
                        self.cast(*k, *fw, *tw, &x)
                    } else {
                        match &x {
                            Val::A(x) => {
                                let v: Vec<Val> = x.iter().map(|y| self.cast(*k, *fw, *tw, y)).collect();
                                Val::A(Rc::new(v))
                            }
                            _ => return Err(Stop::Fail("vector cast".into())),
                        }
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::Gep { dst, base, off, idx } => {
                    let b = self.get(fr, base);
                    let mut acc = match b {
                        Val::I(x) => Val::I(x.wrapping_add(*off)),
                        v => self.bin(Bin::Add, 64, &v, &Val::I(*off)),
                    };
                    for (o, w, sc) in idx {
                        let fr = st.frames.last().unwrap();
                        let i = self.get(fr, o);
                        match (&acc, &i) {
                            (Val::I(a), Val::I(x)) => {
                                let x = if *w == 64 { *x } else { sext(*x as u128, *w) as i64 as u64 };
                                acc = Val::I(a.wrapping_add(x.wrapping_mul(*sc)));
                            }
                            _ => {
                                let x = self.cast(CastK::SExt, *w, 64, &i);
                                let y = self.bin(Bin::Mul, 64, &x, &Val::I(*sc));
                                acc = self.bin(Bin::Add, 64, &acc, &y);
                            }
                        }
                    }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = acc;
                    fr.ip += 1;
                }
                Inst::Load { dst, n, w, addr } => {
                    let a = self.get(fr, addr);
                    let r = match a {
                        Val::I(x) => {
                            let v = mem!(st.mem.load(&mut self.ar, x, *n));
                            if *w != *n * 8 {
                                self.cast(CastK::Trunc, *n * 8, *w, &v)
                            } else {
                                v
                            }
                        }
                        Val::S(e) => match self.table_load(st, e, *n, *w) {
                            Some(v) => v,
                            None => {
                                let x = self.conc(st, &a, 64)?;
                                let v = mem!(st.mem.load(&mut self.ar, x, *n));
                                if *w != *n * 8 {
                                    self.cast(CastK::Trunc, *n * 8, *w, &v)
                                } else {
                                    v
                                }
                            }
                        },
                        _ => return Err(Stop::Fail("load addr".into())),
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::LoadT { dst, ty, addr } => {
                    let a = self.get(fr, addr);
                    let x = self.conc(st, &a, 64)?;
                    let r = self.load_ty(st, x, ty)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::Store { n, v, addr, .. } => {
                    let a = self.get(fr, addr);
                    let v = self.get(fr, v);
                    let x = match a {
                        Val::I(x) => x,
                        _ => self.conc(st, &a, 64)?,
                    };
                    mem!(st.mem.store(&mut self.ar, x, *n, &v));
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Inst::StoreT { ty, v, addr } => {
                    let a = self.get(fr, addr);
                    let v = self.get(fr, v);
                    let x = self.conc(st, &a, 64)?;
                    self.store_ty(st, x, ty, &v)?;
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Inst::Br(t) => self.jump(st, *t),
                Inst::CondBr { c, t, f } => {
                    let v = self.get(fr, c);
                    match v {
                        Val::I(x) => {
                            let to = if x & 1 == 1 { *t } else { *f };
                            self.jump(st, to)
                        }
                        Val::S(e) => match self.decide(st, e)? {
                            Dec::One(b) => self.jump(st, if b { *t } else { *f }),
                            Dec::Both(side, mo) => {
                                let ne = self.ar.not1(e);
                                let (cur, oth) = if side { (e, ne) } else { (ne, e) };
                                let mut o = st.clone();
                                o.insts = 0;
                                o.depth += 1;
                                self.assume(&mut o, oth);
                                self.set_model(&mut o, mo);
                                self.jump(&mut o, if side { *f } else { *t });
                                self.push(o);
                                self.assume(st, cur);
                                self.jump(st, if side { *t } else { *f });
                            }
                        },
                        _ => return Err(Stop::Fail("branch".into())),
                    }
                }
                Inst::Switch { v, w, def, cases } => {
                    let v = self.get(fr, v);
                    match v {
                        Val::I(x) => {
                            let to = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                            self.jump(st, to);
                        }
                        Val::S(e) => {
                            // Group the cases by target; branch on "in this group" one group at a time.
                            let mut groups: Vec<(u32, E)> = Vec::new();
                            for (k, t) in cases {
                                if *t == *def {
                                    continue;
                                }
                                let kk = self.ar.konst(*w, *k as u128);
                                let c = self.ar.bin(Op::Eq, e, kk);
                                match groups.iter_mut().find(|g| g.0 == *t) {
                                    Some(g) => g.1 = self.ar.or1(g.1, c),
                                    None => groups.push((*t, c)),
                                }
                            }
                            let mut done = false;
                            for (t, c) in groups {
                                match self.decide(st, c)? {
                                    Dec::One(true) => {
                                        self.jump(st, t);
                                        done = true;
                                        break;
                                    }
                                    Dec::One(false) => {}
                                    Dec::Both(side, mo) => {
                                        let nc = self.ar.not1(c);
                                        let (cur, oth) = if side { (c, nc) } else { (nc, c) };
                                        let mut o = st.clone();
                                        o.insts = 0;
                                        o.depth += 1;
                                        self.assume(&mut o, oth);
                                        self.set_model(&mut o, mo);
                                        if side {
                                            // the other state re-executes the switch without this group
                                            self.push(o);
                                            self.assume(st, cur);
                                            self.jump(st, t);
                                            done = true;
                                            break;
                                        } else {
                                            self.jump(&mut o, t);
                                            self.push(o);
                                            self.assume(st, cur);
                                        }
                                    }
                                }
                            }
                            if !done {
                                self.jump(st, *def);
                            }
                        }
                        _ => return Err(Stop::Fail("switch".into())),
                    }
                }
                Inst::Select { dst, c, a, b, ty, vec } => {
                    let cv = self.get(fr, c);
                    let r = if *vec {
                        let x = self.get(fr, a);
                        let y = self.get(fr, b);
                        match (&cv, &x, &y) {
                            (Val::A(c), Val::A(x), Val::A(y)) => {
                                let mut v = Vec::new();
                                for i in 0..c.len() {
                                    v.push(match &c[i] {
                                        Val::I(1) => x[i].clone(),
                                        Val::I(_) => y[i].clone(),
                                        Val::S(e) => self.ite(*e, &x[i], &y[i], &ty.elem(0)),
                                        _ => return Err(Stop::Fail("select".into())),
                                    });
                                }
                                Val::A(Rc::new(v))
                            }
                            _ => return Err(Stop::Fail("vector select".into())),
                        }
                    } else {
                        match cv {
                            Val::I(x) => {
                                if x & 1 == 1 {
                                    self.get(fr, a)
                                } else {
                                    self.get(fr, b)
                                }
                            }
                            Val::S(e) => {
                                let x = self.get(fr, a);
                                let y = self.get(fr, b);
                                match self.quick(st, e) {
                                    Some(true) => x,
                                    Some(false) => y,
                                    None => self.ite(e, &x, &y, ty),
                                }
                            }
                            _ => return Err(Stop::Fail("select".into())),
                        }
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::Alloca { dst, size, align, count } => {
                    let c = self.get(fr, count);
                    let c = self.conc(st, &c, 64)?;
                    let a = (st.mem.sp + align - 1) / align * align;
                    st.mem.sp = a + size * c + 8;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = Val::I(a);
                    fr.ip += 1;
                }
                Inst::Move { dst, a } => {
                    let v = self.get(fr, a);
                    fr.regs[*dst as usize] = v;
                    fr.ip += 1;
                }
                Inst::Nop => fr.ip += 1,
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| self.get(fr, o));
                    let f = st.frames.pop().unwrap();
                    st.mem.sp = f.sp0;
                    match st.frames.last_mut() {
                        None => return Err(Stop::End),
                        Some(c) => {
                            if let (Some(d), Some(v)) = (f.dst, v) {
                                c.regs[d as usize] = v;
                            }
                            match f.normal {
                                Some(n) => self.jump(st, n),
                                None => c.ip += 1,
                            }
                        }
                    }
                }
                Inst::Unreachable => return Err(Stop::Viol("ub".into(), 0, "unreachable code reached".into())),
                Inst::Call { dst, callee, args, ret, normal } => match callee {
                    Callee::Intr(n) => {
                        let r = self.intrinsic(st, n, args, ret)?;
                        let fr = st.frames.last_mut().unwrap();
                        if let (Some(d), Some(v)) = (dst, r) {
                            fr.regs[*d as usize] = v;
                        }
                        match normal {
                            Some(n) => self.jump(st, *n),
                            None => fr.ip += 1,
                        }
                    }
                    Callee::Asm(s) => {
                        if s.starts_with("\"\"") || s.starts_with("\"nop\"") {
                            fr.ip += 1;
                        } else {
                            return Err(Stop::Fail(format!("inline asm {}", s)));
                        }
                    }
                    Callee::Fn(i) => {
                        let i = *i;
                        self.call(st, i, args, *dst, *normal)?;
                    }
                    Callee::Dyn(o) => {
                        let a = self.get(fr, o);
                        let a = self.conc(st, &a, 64)?;
                        if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= m.funcs.len() as u64 {
                            return Err(Stop::Viol("memory".into(), 0, format!("call of invalid address {:#x}", a)));
                        }
                        self.call(st, ((a - FN_BASE) / 16) as u32, args, *dst, *normal)?;
                    }
                },
                Inst::Extract { dst, a, path } => {
                    let mut v = self.get(fr, a);
                    for p in path {
                        v = match v {
                            Val::A(x) => x[*p as usize].clone(),
                            _ => return Err(Stop::Fail("extractvalue".into())),
                        };
                    }
                    fr.regs[*dst as usize] = v;
                    fr.ip += 1;
                }
                Inst::Insert { dst, a, v, path, .. } => {
                    fn ins(x: &Val, path: &[u32], v: Val) -> Val {
                        if path.is_empty() {
                            return v;
                        }
                        match x {
                            Val::A(l) => {
                                let mut n = (**l).clone();
                                n[path[0] as usize] = ins(&l[path[0] as usize], &path[1..], v);
                                Val::A(Rc::new(n))
                            }
                            _ => panic!("insertvalue"),
                        }
                    }
                    let x = self.get(fr, a);
                    let y = self.get(fr, v);
                    fr.regs[*dst as usize] = ins(&x, path, y);
                    fr.ip += 1;
                }
                Inst::InsElem { dst, a, v, i, .. } => {
                    let x = self.get(fr, a);
                    let y = self.get(fr, v);
                    let iv = self.get(fr, i);
                    let k = self.conc(st, &iv, 64)?;
                    let r = match x {
                        Val::A(l) => {
                            let mut n = (*l).clone();
                            n[k as usize] = y;
                            Val::A(Rc::new(n))
                        }
                        _ => return Err(Stop::Fail("insertelement".into())),
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::ExtElem { dst, a, i, .. } => {
                    let x = self.get(fr, a);
                    let iv = self.get(fr, i);
                    let k = self.conc(st, &iv, 64)?;
                    let r = match x {
                        Val::A(l) => l[k as usize].clone(),
                        _ => return Err(Stop::Fail("extractelement".into())),
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::Shuffle { dst, a, b, n, m: mk } => {
                    let x = self.get(fr, a);
                    let y = self.get(fr, b);
                    let r = match (x, y) {
                        (Val::A(x), Val::A(y)) => Val::A(Rc::new(mk.iter().map(|&k| if (k as u64) < *n { x[k as usize].clone() } else { y[(k as u64 - n) as usize].clone() }).collect())),
                        _ => return Err(Stop::Fail("shufflevector".into())),
                    };
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::BitCast { from, to, dst, a } => {
                    let x = self.get(fr, a);
                    let r = self.bitcast(from, to, &x)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::CmpXchg { dst, n, w, addr, cmp, new } => {
                    let a = self.get(fr, addr);
                    let c = self.get(fr, cmp);
                    let nv = self.get(fr, new);
                    let a = self.conc(st, &a, 64)?;
                    let old = mem!(st.mem.load(&mut self.ar, a, *n));
                    let eq = self.cmp(Pred::Eq, *w, &old, &c);
                    let eq = self.conc(st, &eq, 1)?;
                    if eq == 1 {
                        mem!(st.mem.store(&mut self.ar, a, *n, &nv));
                    }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::I(eq)]));
                    fr.ip += 1;
                }
                Inst::Rmw { dst, op, n, w, addr, v } => {
                    let a = self.get(fr, addr);
                    let v = self.get(fr, v);
                    let a = self.conc(st, &a, 64)?;
                    let old = mem!(st.mem.load(&mut self.ar, a, *n));
                    let new = match &**op {
                        "xchg" => v,
                        "add" => self.bin(Bin::Add, *w, &old, &v),
                        "sub" => self.bin(Bin::Sub, *w, &old, &v),
                        "and" => self.bin(Bin::And, *w, &old, &v),
                        "or" => self.bin(Bin::Or, *w, &old, &v),
                        "xor" => self.bin(Bin::Xor, *w, &old, &v),
                        o => return Err(Stop::Fail(format!("atomicrmw {}", o))),
                    };
                    mem!(st.mem.store(&mut self.ar, a, *n, &new));
                    let fr = st.frames.last_mut().unwrap();
                    if (*dst as usize) < fr.regs.len() {
                        fr.regs[*dst as usize] = old;
                    }
                    fr.ip += 1;
                }
                Inst::FBin { op, f32: is32, dst, a, b } => {
                    let x = self.get(fr, a);
                    let y = self.get(fr, b);
                    let x = self.conc(st, &x, if *is32 { 32 } else { 64 })?;
                    let y = self.conc(st, &y, if *is32 { 32 } else { 64 })?;
                    let r = if *is32 {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match &**op {
                            "fadd" => x + y,
                            "fsub" => x - y,
                            "fmul" => x * y,
                            "fdiv" => x / y,
                            _ => x % y,
                        })
                        .to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        (match &**op {
                            "fadd" => x + y,
                            "fsub" => x - y,
                            "fmul" => x * y,
                            "fdiv" => x / y,
                            _ => x % y,
                        })
                        .to_bits()
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = Val::I(r);
                    fr.ip += 1;
                }
                Inst::FNeg { f32: is32, dst, a } => {
                    let x = self.get(fr, a);
                    let w = if *is32 { 32 } else { 64 };
                    let r = self.bin(Bin::Xor, w, &x, &Val::I(1u64 << (w - 1)));
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.ip += 1;
                }
                Inst::FCmp { p, f32: is32, dst, a, b } => {
                    let x = self.get(fr, a);
                    let y = self.get(fr, b);
                    let x = self.conc(st, &x, if *is32 { 32 } else { 64 })?;
                    let y = self.conc(st, &y, if *is32 { 32 } else { 64 })?;
                    let (x, y) = if *is32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match &**p {
                        "oeq" => x == y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "one" => !un && x != y,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "une" => un || x != y,
                        "true" => true,
                        _ => false,
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = Val::I(r as u64);
                    fr.ip += 1;
                }
                Inst::FCast { op, from, to, dst, a } => {
                    let x = self.get(fr, a);
                    let x = self.conc(st, &x, from.bits())?;
                    let f = |x: u64| if *from == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                    let g = |v: f64| if *to == Ty::F32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
                    let r = match &**op {
                        "sitofp" => g(sext(x as u128, from.bits()) as f64),
                        "uitofp" => g(x as f64),
                        "fptosi" => (f(x) as i64 as u64) & mask(to.bits()) as u64,
                        "fptoui" => (f(x) as u64) & mask(to.bits()) as u64,
                        _ => g(f(x)),
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = Val::I(r);
                    fr.ip += 1;
                }
                Inst::Bad(s) => return Err(Stop::Fail(format!("unsupported instruction {}", s))),
            }
        }
    }

    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        // flatten to bits, rebuild
        let fl = from.lanes();
        let tl = to.lanes();
        if fl.is_none() && tl.is_none() {
            return Ok(v.clone());
        }
        let whole: E = match (fl, v) {
            (Some((n, w)), Val::A(l)) => {
                // concrete fast path into i16 masks
                if tl.is_none() && l.iter().all(|x| matches!(x, Val::I(_))) && n * w as u64 <= 128 {
                    let mut acc = 0u128;
                    for (i, x) in l.iter().enumerate() {
                        if let Val::I(k) = x {
                            acc |= (*k as u128) << (i as u32 * w);
                        }
                    }
                    return Ok(if to.bits() <= 64 { Val::I(acc as u64) } else { Val::B(Rc::new(acc)) });
                }
                let mut acc = self.to_e(&l[0], w);
                for x in l.iter().skip(1) {
                    let h = self.to_e(x, w);
                    acc = self.ar.concat(h, acc);
                }
                acc
            }
            (None, v) => self.to_e(v, from.bits()),
            _ => return Err(Stop::Fail("bitcast".into())),
        };
        match tl {
            None => Ok(self.from_e(whole)),
            Some((n, w)) => {
                let mut l = Vec::new();
                for i in 0..n {
                    let x = self.ar.extract(whole, i as u32 * w, w);
                    l.push(self.from_e(x));
                }
                Ok(Val::A(Rc::new(l)))
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Opd, Ty)], ret: &Ty) -> R<Option<Val>> {
        let fr = st.frames.last().unwrap();
        let n = &n[5..];
        let base = n.split('.').next().unwrap();
        let av: Vec<Val> = args.iter().map(|a| self.get(fr, &a.0)).collect();
        // vectors lane-wise for the simple arithmetic intrinsics
        if let (Some((l, _)), true) = (ret.lanes(), matches!(base, "umin" | "umax" | "smin" | "smax" | "ctpop" | "cttz" | "ctlz" | "abs" | "usub" | "uadd" | "bswap" | "fshl" | "fshr")) {
            let et = ret.elem(0);
            let mut out = Vec::new();
            for i in 0..l as usize {
                let lane: Vec<Val> = av
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                out.push(self.scalar_intr(st, n, base, &lane, &et)?);
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        match base {
            "memcpy" | "memmove" => {
                let len = self.conc(st, &av[2], 64)?;
                if len == 0 {
                    return Ok(None);
                }
                let d = self.conc(st, &av[0], 64)?;
                let s = self.conc(st, &av[1], 64)?;
                mem!(st.mem.copy(d, s, len));
                Ok(None)
            }
            "memset" => {
                let len = self.conc(st, &av[2], 64)?;
                let d = self.conc(st, &av[0], 64)?;
                match &av[1] {
                    Val::I(x) => {
                        let b = vec![*x as u8; len as usize];
                        mem!(st.mem.write_raw(d, &b));
                    }
                    Val::S(e) => {
                        for i in 0..len {
                            mem!(st.mem.set_byte(d + i, Err((*e, 0))));
                        }
                    }
                    _ => {}
                }
                Ok(None)
            }
            "trap" | "ubsantrap" | "debugtrap" => Err(Stop::Viol("panic".into(), 0, "trap".into())),
            "threadlocal" => Ok(Some(av[0].clone())),
            "is" => Ok(Some(Val::I(0))),
            "expect" | "launder" | "strip" | "ptrmask" if base != "ptrmask" => Ok(Some(av[0].clone())),
            "x86" | "prefetch" | "va_start" | "va_end" | "sideeffect" | "donothing" | "stackrestore" => Ok(None),
            "stacksave" => Ok(Some(Val::I(0))),
            "vector" => {
                // llvm.vector.reduce.OP
                let op = n.split('.').nth(2).unwrap_or("");
                let (l, w) = args[0].1.lanes().unwrap_or((0, 0));
                let v = match &av[0] {
                    Val::A(v) => v.clone(),
                    _ => return Err(Stop::Fail("reduce".into())),
                };
                let mut acc = v[0].clone();
                for i in 1..l as usize {
                    acc = match op {
                        "add" => self.bin(Bin::Add, w, &acc, &v[i]),
                        "or" => self.bin(Bin::Or, w, &acc, &v[i]),
                        "and" => self.bin(Bin::And, w, &acc, &v[i]),
                        "xor" => self.bin(Bin::Xor, w, &acc, &v[i]),
                        "mul" => self.bin(Bin::Mul, w, &acc, &v[i]),
                        "umax" => self.scalar_intr(st, "umax", "umax", &[acc, v[i].clone()], &Ty::Int(w))?,
                        "umin" => self.scalar_intr(st, "umin", "umin", &[acc, v[i].clone()], &Ty::Int(w))?,
                        _ => return Err(Stop::Fail(format!("reduce {}", op))),
                    };
                }
                Ok(Some(acc))
            }
            _ => {
                let t = if matches!(n.split('.').nth(1), Some("with")) || matches!(base, "ucmp" | "scmp") { args[0].1.clone() } else { ret.clone() };
                let rt = ret.clone();
                let r = self.scalar_intr2(st, n, base, &av, &t, &rt)?;
                Ok(Some(r))
            }
        }
    }
    fn scalar_intr(&mut self, st: &mut State, n: &str, base: &str, av: &[Val], t: &Ty) -> R<Val> {
        self.scalar_intr2(st, n, base, av, t, t)
    }
    fn scalar_intr2(&mut self, st: &mut State, n: &str, base: &str, av: &[Val], t: &Ty, rt: &Ty) -> R<Val> {
        let w = t.bits();
        let conc1 = |v: &Val| match v {
            Val::I(x) => Some(*x as u128),
            Val::B(x) => Some(**x),
            _ => None,
        };
        let mkv = |x: u128, w: u32| if w <= 64 { Val::I(x as u64) } else { Val::B(Rc::new(x)) };
        match base {
            "umin" | "umax" | "smin" | "smax" => {
                let p = if base.starts_with('u') { Pred::Ult } else { Pred::Slt };
                let c = self.cmp(p, w, &av[0], &av[1]);
                let (x, y) = if base.ends_with("min") { (&av[0], &av[1]) } else { (&av[1], &av[0]) };
                Ok(match c {
                    Val::I(1) => x.clone(),
                    Val::I(_) => y.clone(),
                    Val::S(e) => match self.quick(st, e) {
                        Some(true) => x.clone(),
                        Some(false) => y.clone(),
                        None => self.ite(e, x, y, t),
                    },
                    _ => unreachable!(),
                })
            }
            "abs" => {
                let z = mkv(0, w);
                let c = self.cmp(Pred::Slt, w, &av[0], &z);
                let ng = self.bin(Bin::Sub, w, &z, &av[0]);
                Ok(match c {
                    Val::I(1) => ng,
                    Val::I(_) => av[0].clone(),
                    Val::S(e) => self.ite(e, &ng, &av[0], t),
                    _ => unreachable!(),
                })
            }
            "ctpop" | "cttz" | "ctlz" => {
                if let Some(x) = conc1(&av[0]) {
                    let r = match base {
                        "ctpop" => x.count_ones(),
                        "cttz" => {
                            if x == 0 {
                                w
                            } else {
                                x.trailing_zeros()
                            }
                        }
                        _ => {
                            if x == 0 {
                                w
                            } else {
                                x.leading_zeros() - (128 - w)
                            }
                        }
                    };
                    return Ok(mkv(r as u128, w));
                }
                let e = self.to_e(&av[0], w);
                let mut acc;
                match base {
                    "ctpop" => {
                        acc = self.ar.konst(w, 0);
                        for i in 0..w {
                            let b = self.ar.extract(e, i, 1);
                            let z = self.ar.zext(b, w);
                            acc = self.ar.bin(Op::Add, acc, z);
                        }
                    }
                    _ => {
                        acc = self.ar.konst(w, w as u128);
                        for j in 0..w {
                            let i = if base == "cttz" { w - 1 - j } else { j };
                            let b = self.ar.extract(e, i, 1);
                            let pos = if base == "cttz" { i } else { w - 1 - i };
                            let k = self.ar.konst(w, pos as u128);
                            acc = self.ar.ite(b, k, acc);
                        }
                    }
                }
                Ok(self.from_e(acc))
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let sat = n.split('.').nth(1) == Some("sat");
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    _ => Bin::Mul,
                };
                let r = self.bin(op, w, &av[0], &av[1]);
                // overflow flag, computed in double width
                let ow = if op == Bin::Mul { 2 * w } else { w + 1 };
                let ov = if let (Some(x), Some(y)) = (conc1(&av[0]), conc1(&av[1])) {
                    let b = if signed {
                        let (x, y) = (sext(x, w), sext(y, w));
                        let z = match op {
                            Bin::Add => x + y,
                            Bin::Sub => x - y,
                            _ => x.wrapping_mul(y),
                        };
                        sext((z as u128) & mask(w), w) != z
                    } else {
                        match op {
                            Bin::Add => x + y > mask(w),
                            Bin::Sub => x < y,
                            _ => x.checked_mul(y).map_or(true, |z| z > mask(w)),
                        }
                    };
                    Val::I(b as u64)
                } else if ow > 128 {
                    return Err(Stop::Fail("wide overflow op".into()));
                } else {
                    let k = if signed { CastK::SExt } else { CastK::ZExt };
                    let x = self.cast(k, w, ow, &av[0]);
                    let y = self.cast(k, w, ow, &av[1]);
                    if !signed && op == Bin::Sub {
                        self.cmp(Pred::Ult, w, &av[0], &av[1])
                    } else {
                        let z = self.bin(op, ow, &x, &y);
                        let back = self.cast(k, w, ow, &r);
                        self.cmp(Pred::Ne, ow, &z, &back)
                    }
                };
                if sat {
                    if signed {
                        return Err(Stop::Fail("signed saturation".into()));
                    }
                    let lim = if op == Bin::Add { mkv(mask(w), w) } else { mkv(0, w) };
                    return Ok(match ov {
                        Val::I(1) => lim,
                        Val::I(_) => r,
                        Val::S(e) => self.ite(e, &lim, &r, t),
                        _ => unreachable!(),
                    });
                }
                Ok(Val::A(Rc::new(vec![r, ov])))
            }
            "ucmp" | "scmp" => {
                let rw = rt.bits();
                let p = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.cmp(p, w, &av[0], &av[1]);
                let eq = self.cmp(Pred::Eq, w, &av[0], &av[1]);
                if let (Val::I(l), Val::I(e)) = (&lt, &eq) {
                    return Ok(mkv(
                        if *l == 1 {
                            mask(rw)
                        } else if *e == 1 {
                            0
                        } else {
                            1
                        },
                        rw,
                    ));
                }
                let l = self.to_e(&lt, 1);
                let q = self.to_e(&eq, 1);
                let m1 = self.ar.konst(rw, mask(rw));
                let z = self.ar.konst(rw, 0);
                let o = self.ar.konst(rw, 1);
                let i = self.ar.ite(q, z, o);
                let r = self.ar.ite(l, m1, i);
                Ok(self.from_e(r))
            }
            "fshl" | "fshr" => {
                let s = self.conc(st, &av[2], w)? % w as u64;
                let s = if base == "fshr" { (w as u64 - s) % w as u64 } else { s };
                if base == "fshr" && s == 0 {
                    return Ok(av[1].clone());
                }
                if s == 0 {
                    return Ok(av[0].clone());
                }
                let a = self.bin(Bin::Shl, w, &av[0], &mkv(s as u128, w));
                let b = self.bin(Bin::LShr, w, &av[1], &mkv((w as u64 - s) as u128, w));
                Ok(self.bin(Bin::Or, w, &a, &b))
            }
            "bswap" => {
                if let Some(x) = conc1(&av[0]) {
                    return Ok(mkv(x.swap_bytes() >> (128 - w), w));
                }
                let e = self.to_e(&av[0], w);
                let mut acc = self.ar.extract(e, 0, 8);
                for i in 1..w / 8 {
                    let b = self.ar.extract(e, i * 8, 8);
                    acc = self.ar.concat(acc, b);
                }
                Ok(self.from_e(acc))
            }
            "bitreverse" => {
                let x = self.conc(st, &av[0], w)?;
                Ok(mkv((x as u128).reverse_bits() >> (128 - w), w))
            }
            "sqrt" | "fabs" | "floor" | "ceil" | "trunc" | "round" => {
                let x = self.conc(st, &av[0], w)?;
                if w != 64 {
                    return Err(Stop::Fail("f32 intrinsic".into()));
                }
                let x = f64::from_bits(x);
                let r = match base {
                    "sqrt" => x.sqrt(),
                    "fabs" => x.abs(),
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    _ => x.round(),
                };
                Ok(Val::I(r.to_bits()))
            }
            _ => Err(Stop::Fail(format!("intrinsic llvm.{}", n))),
        }
    }

    fn call(&mut self, st: &mut State, i: u32, args: &[(Opd, Ty)], dst: Option<u32>, normal: Option<u32>) -> R<()> {
        let x = self.ext[i as usize];
        let mut scalar = None;
        if x != Ext::None {
            let fr = st.frames.last().unwrap();
            let av: Vec<Val> = args.iter().map(|a| self.get(fr, &a.0)).collect();
            if x == Ext::HashWrite && av.len() == 2 {
                // a number rather than bytes
                if let (Hash::Seed(_), Val::S(e)) = (&self.hash, &av[1]) {
                    let w = self.ar.w(*e);
                    scalar = Some(self.conc(st, &av[1], w)?);
                }
            } else if let Some(r) = self.external(st, i, x, &av)? {
                let fr = st.frames.last_mut().unwrap();
                if let Some(d) = dst {
                    fr.regs[d as usize] = r;
                }
                match normal {
                    Some(n) => self.jump(st, n),
                    None => fr.ip += 1,
                }
                return Ok(());
            }
        }
        let f = &self.m.funcs[i as usize];
        if st.frames.len() > 400 {
            return Err(Stop::Viol("hang".into(), 0, "recursion deeper than 400 frames".into()));
        }
        let fr = st.frames.last().unwrap();
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = self.get(fr, &a.0);
        }
        if let Some(k) = scalar {
            regs[f.params[1] as usize] = Val::I(k);
        }
        let sp0 = st.mem.sp;
        self.cov[i as usize][0] |= 1;
        st.frames.push(Frame { func: i, blk: 0, ip: 0, regs, sp0, dst, normal });
        Ok(())
    }

    fn external(&mut self, st: &mut State, fi: u32, x: Ext, av: &[Val]) -> R<Option<Val>> {
        let u = Val::I(0);
        match x {
            Ext::Val => {
                let lo = self.conc(st, &av[0], 64)?;
                let hi = self.conc(st, &av[1], 64)?;
                if lo >= hi {
                    // still counts as a recorded value
                    let idx = st.vars.len();
                    let _ = idx;
                    Rc::make_mut(&mut st.vars).push(1);
                    Rc::make_mut(&mut st.ranges).push((0, 1));
                    let mut m = (*st.model).clone();
                    m.push(lo);
                    self.set_model(st, m);
                    // a one-valued input: keep it concrete
                    return Ok(Some(Val::I(lo)));
                }
                let w = 64 - hi.leading_zeros();
                let idx = st.vars.len() as u32;
                let v = self.ar.var(idx, w);
                Rc::make_mut(&mut st.vars).push(w);
                Rc::make_mut(&mut st.ranges).push((lo, hi));
                let mut m = (*st.model).clone();
                m.push(lo);
                self.set_model(st, m);
                if lo > 0 {
                    let k = self.ar.konst(w, lo as u128);
                    let c = self.ar.bin(Op::Ult, v, k);
                    let c = self.ar.not1(c);
                    st.pc.push(c);
                }
                if (hi as u128) < mask(w) {
                    let k = self.ar.konst(w, hi as u128 + 1);
                    let c = self.ar.bin(Op::Ult, v, k);
                    st.pc.push(c);
                }
                let e = self.ar.zext(v, 64);
                Ok(Some(Val::S(e)))
            }
            Ext::Conc => {
                let k = self.conc(st, &av[0], 64)?;
                Ok(Some(Val::I(k)))
            }
            Ext::Assume => {
                let c = self.cmp(Pred::Ne, 32, &av[0], &u);
                match c {
                    Val::I(1) => Ok(Some(u)),
                    Val::I(_) => Err(Stop::Drop),
                    Val::S(e) => {
                        if let Some(b) = self.quick(st, e) {
                            return if b { Ok(Some(u)) } else { Err(Stop::Drop) };
                        }
                        if self.ar.eval(e, &st.model, st.model_id) == 1 {
                            self.assume(st, e);
                            return Ok(Some(u));
                        }
                        match self.solver.check(&mut self.ar, &st.pc, e, &st.vars) {
                            Res::Unsat => Err(Stop::Drop),
                            Res::Sat(m) => {
                                self.assume(st, e);
                                self.set_model(st, m);
                                Ok(Some(u))
                            }
                            Res::Unknown => Err(Stop::Undecided),
                        }
                    }
                    _ => Err(Stop::Fail("assume".into())),
                }
            }
            Ext::Assert => {
                let code = self.conc(st, &av[1], 32)? as u32;
                st.asserts += 1;
                let c = self.cmp(Pred::Ne, 32, &av[0], &u);
                match c {
                    Val::I(1) => Ok(Some(u)),
                    Val::I(_) => Err(Stop::Viol("assert".into(), code, format!("assertion {}", code))),
                    Val::S(e) => {
                        self.stats.sym_asserts += 1;
                        let ne = self.ar.not1(e);
                        match self.solver.check(&mut self.ar, &st.pc, ne, &st.vars) {
                            Res::Unsat => {
                                self.learn(st, e);
                                Ok(Some(u))
                            }
                            Res::Sat(m) => {
                                self.set_model(st, m);
                                Err(Stop::Viol("assert".into(), code, format!("assertion {}", code)))
                            }
                            Res::Unknown => Err(Stop::Undecided),
                        }
                    }
                    _ => Err(Stop::Fail("assert".into())),
                }
            }
            Ext::Cover => {
                let c = self.conc(st, &av[0], 32)? as u32;
                Rc::make_mut(&mut st.covers).push(c);
                Ok(Some(u))
            }
            Ext::Obs => {
                st.obs.push(av[0].clone());
                Ok(Some(u))
            }
            Ext::Malloc => {
                let n = self.conc(st, &av[0], 64)?;
                self.big(n)?;
                Ok(Some(Val::I(st.mem.alloc(n, 16))))
            }
            Ext::RustAlloc | Ext::RustAllocZ => {
                let n = self.conc(st, &av[0], 64)?;
                let al = self.conc(st, &av[1], 64)?;
                self.big(n)?;
                let a = st.mem.alloc(n, al);
                // pages may hold stale bytes only where nothing was allocated before; zero explicitly
                if x == Ext::RustAllocZ && n > 0 {
                    mem!(st.mem.write_raw(a, &vec![0; n as usize]));
                }
                Ok(Some(Val::I(a)))
            }
            Ext::Calloc => {
                let n = self.conc(st, &av[0], 64)?;
                let k = self.conc(st, &av[1], 64)?;
                self.big(n * k)?;
                let a = st.mem.alloc(n * k, 16);
                mem!(st.mem.write_raw(a, &vec![0; (n * k) as usize]));
                Ok(Some(Val::I(a)))
            }
            Ext::Memalign => {
                let p = self.conc(st, &av[0], 64)?;
                let al = self.conc(st, &av[1], 64)?;
                let n = self.conc(st, &av[2], 64)?;
                let a = st.mem.alloc(n, al);
                mem!(st.mem.store(&mut self.ar, p, 8, &Val::I(a)));
                Ok(Some(u))
            }
            Ext::Free | Ext::RustDealloc => {
                let p = self.conc(st, &av[0], 64)?;
                if p != 0 {
                    mem!(st.mem.free(p));
                }
                Ok(Some(u))
            }
            Ext::Realloc | Ext::RustRealloc => {
                let p = self.conc(st, &av[0], 64)?;
                let (n, al) = if x == Ext::Realloc { (self.conc(st, &av[1], 64)?, 16) } else { (self.conc(st, &av[3], 64)?, self.conc(st, &av[2], 64)?) };
                self.big(n)?;
                let a = st.mem.alloc(n, al);
                if p != 0 {
                    let old = mem!(st.mem.alloc_size(p));
                    mem!(st.mem.copy(a, p, old.min(n)));
                    mem!(st.mem.free(p));
                }
                Ok(Some(Val::I(a)))
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.conc(st, &av[2], 64)?;
                if n == 0 {
                    return Ok(Some(u));
                }
                let a = self.conc(st, &av[0], 64)?;
                let b = self.conc(st, &av[1], 64)?;
                let mut xs = Vec::new();
                let mut ys = Vec::new();
                for i in 0..n {
                    xs.push(mem!(st.mem.byte(a + i)));
                    ys.push(mem!(st.mem.byte(b + i)));
                }
                if xs.iter().chain(ys.iter()).all(|z| z.is_ok()) {
                    let x: Vec<u8> = xs.iter().map(|z| *z.as_ref().unwrap()).collect();
                    let y: Vec<u8> = ys.iter().map(|z| *z.as_ref().unwrap()).collect();
                    let r = match x.cmp(&y) {
                        std::cmp::Ordering::Less => mask(32) as u64,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    return Ok(Some(Val::I(r)));
                }
                let be = |s: &mut Self, z: &Result<u8, (E, u8)>| match z {
                    Ok(k) => s.ar.konst(8, *k as u128),
                    Err((e, i)) => s.ar.extract(*e, 8 * *i as u32, 8),
                };
                if x == Ext::Bcmp {
                    let mut all = self.ar.konst(1, 1);
                    for i in 0..n as usize {
                        let p = be(self, &xs[i]);
                        let q = be(self, &ys[i]);
                        let e = self.ar.bin(Op::Eq, p, q);
                        all = self.ar.and1(all, e);
                    }
                    let z = self.ar.konst(32, 0);
                    let o = self.ar.konst(32, 1);
                    let r = self.ar.ite(all, z, o);
                    return Ok(Some(self.from_e(r)));
                }
                let mut acc = self.ar.konst(32, 0);
                let one = self.ar.konst(32, 1);
                let m1 = self.ar.konst(32, mask(32));
                for i in (0..n as usize).rev() {
                    let p = be(self, &xs[i]);
                    let q = be(self, &ys[i]);
                    let lt = self.ar.bin(Op::Ult, p, q);
                    let eq = self.ar.bin(Op::Eq, p, q);
                    let t = self.ar.ite(eq, acc, one);
                    acc = self.ar.ite(lt, m1, t);
                }
                Ok(Some(self.from_e(acc)))
            }
            Ext::Strlen => {
                let a = self.conc(st, &av[0], 64)?;
                let mut n = 0;
                loop {
                    match mem!(st.mem.byte(a + n)) {
                        Ok(0) => return Ok(Some(Val::I(n))),
                        Ok(_) => n += 1,
                        Err(_) => return Err(Stop::Fail("symbolic strlen".into())),
                    }
                }
            }
            Ext::Memcpy => {
                let n = self.conc(st, &av[2], 64)?;
                let d = self.conc(st, &av[0], 64)?;
                let s = self.conc(st, &av[1], 64)?;
                mem!(st.mem.copy(d, s, n));
                Ok(Some(Val::I(d)))
            }
            Ext::Memset => {
                let n = self.conc(st, &av[2], 64)?;
                let d = self.conc(st, &av[0], 64)?;
                let b = self.conc(st, &av[1], 32)?;
                mem!(st.mem.write_raw(d, &vec![b as u8; n as usize]));
                Ok(Some(Val::I(d)))
            }
            Ext::GetRandom => {
                let p = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[1], 64)?;
                let mut s = match self.hash {
                    Hash::Const => 0x1234_5678,
                    Hash::Seed(s) => s.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xdead_beef_cafe,
                };
                let mut b = Vec::new();
                for _ in 0..n {
                    s ^= s << 13;
                    s ^= s >> 7;
                    s ^= s << 17;
                    b.push((s >> 24) as u8);
                }
                mem!(st.mem.write_raw(p, &b));
                Ok(Some(Val::I(n)))
            }
            Ext::Print | Ext::Zero => Ok(Some(u)),
            Ext::Panic => {
                let f = &self.m.funcs[fi as usize];
                let mut at = String::new();
                if let Some(Val::I(l)) = av.last() {
                    if let (Ok(Val::I(p)), Ok(Val::I(n)), Ok(Val::I(line)), Ok(Val::I(col))) = (st.mem.load(&mut self.ar, *l, 8), st.mem.load(&mut self.ar, l + 8, 8), st.mem.load(&mut self.ar, l + 16, 4), st.mem.load(&mut self.ar, l + 20, 4)) {
                        if n < 400 {
                            if let Some(b) = st.mem.read_conc(p, n) {
                                at = format!(" at {}:{}:{}", String::from_utf8_lossy(&b), line, col);
                            }
                        }
                    }
                }
                Err(Stop::Viol("panic".into(), 0, format!("panic ({}){}", f.dem, at)))
            }
            Ext::Abort => Err(Stop::Viol("panic".into(), 0, "abort".into())),
            Ext::Exit => Err(Stop::End),
            Ext::HashOne => match self.hash {
                Hash::Const => Ok(Some(Val::I(0))),
                Hash::Seed(_) => Ok(None),
            },
            Ext::HashWrite => {
                if let Hash::Seed(_) = self.hash {
                    // make the hashed bytes concrete (one path per value)
                    let p = self.conc(st, &av[1], 64)?;
                    let n = self.conc(st, &av[2], 64)?;
                    for i in 0..n {
                        if let Err((e, j)) = mem!(st.mem.byte(p + i)) {
                            let b = self.ar.extract(e, 8 * j as u32, 8);
                            let bv = self.from_e(b);
                            let k = self.conc(st, &bv, 8)?;
                            mem!(st.mem.set_byte(p + i, Ok(k as u8)));
                        }
                    }
                    return Ok(None);
                }
                Ok(None)
            }
            Ext::Clock => {
                let a = self.conc(st, &av[1], 64)?;
                mem!(st.mem.write_raw(a, &[0; 16]));
                Ok(Some(Val::I(0)))
            }
            Ext::Errno => {
                let a = st.mem.alloc(8, 8);
                mem!(st.mem.write_raw(a, &[0; 8]));
                Ok(Some(Val::I(a)))
            }
            Ext::Read => {
                let r = self.sys_read(st, av)?;
                Ok(Some(r))
            }
            Ext::Write => {
                let fd = self.conc(st, &av[0], 32)?;
                let p = self.conc(st, &av[1], 64)?;
                let n = self.conc(st, &av[2], 64)?;
                if fd == 1 {
                    for i in 0..n {
                        match mem!(st.mem.byte(p + i)) {
                            Ok(b) => st.out.push(b),
                            Err((e, j)) => {
                                let b = self.ar.extract(e, 8 * j as u32, 8);
                                let bv = self.from_e(b);
                                let k = self.conc(st, &bv, 8)?;
                                st.out.push(k as u8);
                            }
                        }
                    }
                }
                Ok(Some(Val::I(n)))
            }
            Ext::None => Ok(None),
            Ext::Unknown => Err(Stop::Fail(format!("external function {}", self.m.funcs[fi as usize].name))),
        }
    }
    fn sys_read(&mut self, _st: &mut State, _av: &[Val]) -> R<Val> {
        Err(Stop::Fail("read".into()))
    }
    fn big(&self, n: u64) -> R<()> {
        if n > 64 << 20 {
            return Err(Stop::Viol("hang".into(), 0, format!("allocation of {} bytes", n)));
        }
        Ok(())
    }
}
