//! Parser for the textual LLVM IR that rustc emits, decoded into a compact executable form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(u32),
    B(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u64, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Label,
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    (n + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(packed, f) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, f) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            t => t.size().max(1).min(16),
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(packed, f) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(_, f) => f[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
    /// bit width of a scalar held in a register
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn lanes(&self) -> Option<(u64, u32)> {
        if let Ty::Vec(n, t) = self {
            Some((*n, t.bits()))
        } else {
            None
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Same,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Dyn(Opd),
    Intr(Rc<str>),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    Cast { k: CastK, fw: u32, tw: u32, lanes: u32, dst: u32, a: Opd },
    BitCast { from: Ty, to: Ty, dst: u32, a: Opd },
    Load { dst: u32, n: u32, w: u32, addr: Opd },
    LoadT { dst: u32, ty: Ty, addr: Opd },
    Store { n: u32, w: u32, v: Opd, addr: Opd },
    StoreT { ty: Ty, v: Opd, addr: Opd },
    Gep { dst: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Alloca { dst: u32, size: u64, align: u64, count: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, ty: Ty, vec: bool },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Opd, Ty)>, ret: Ty, normal: Option<u32> },
    Extract { dst: u32, a: Opd, path: Vec<u32> },
    Insert { dst: u32, a: Opd, v: Opd, path: Vec<u32>, ty: Ty },
    InsElem { dst: u32, a: Opd, v: Opd, i: Opd, n: u64 },
    ExtElem { dst: u32, a: Opd, i: Opd, n: u64 },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u64, m: Vec<u32> },
    Move { dst: u32, a: Opd },
    CmpXchg { dst: u32, n: u32, w: u32, addr: Opd, cmp: Opd, new: Opd },
    Rmw { dst: u32, op: Rc<str>, n: u32, w: u32, addr: Opd, v: Opd },
    FBin { op: Rc<str>, f32: bool, dst: u32, a: Opd, b: Opd },
    FNeg { f32: bool, dst: u32, a: Opd },
    FCmp { p: Rc<str>, f32: bool, dst: u32, a: Opd, b: Opd },
    FCast { op: Rc<str>, from: Ty, to: Ty, dst: u32, a: Opd },
    Nop,
    Bad(Rc<str>),
}

pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opd)>,
}
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub name: String,
    pub dem: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
}

pub const FN_BASE: u64 = 0x1_0000;
pub const G_BASE: u64 = 1 << 32;

pub struct Module {
    pub funcs: Vec<Func>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub image: Vec<u8>,
    pub hash: u64,
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn wsnl(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                self.eol();
            } else {
                break;
            }
        }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        if self.i < self.s.len() {
            self.i += 1;
        }
    }
    fn pk(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.pk() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected {}", c as char));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let e = (self.i + 200).min(self.s.len());
        let b = self.i.saturating_sub(200);
        panic!("IR parse: {} at >>>{}<<< context {}", m, String::from_utf8_lossy(&self.s[self.i..e]), String::from_utf8_lossy(&self.s[b..self.i]));
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// after % or @ : a plain or quoted name
    fn name(&mut self) -> String {
        if self.pk() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.pk() != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while is_id(self.pk()) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| self.fail(&format!("int {}", w)))
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.pk() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.pk() != b'"' {
                        self.i += 1;
                    }
                }
                0 => self.fail("balanced"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_type_start(&mut self) -> bool {
        self.ws();
        match self.pk() {
            b'{' | b'[' | b'<' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "ptr" | "double" | "float" | "label" | "metadata" | "half" | "token") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        match self.pk() {
            b'{' => {
                self.i += 1;
                let f = self.tylist(b'}');
                Ty::Struct(false, Rc::new(f))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.pk() == b'{' {
                    self.i += 1;
                    let f = self.tylist(b'}');
                    self.exp(b'>');
                    Ty::Struct(true, Rc::new(f))
                } else {
                    let n = self.int() as u64;
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.exp(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                if !self.eatw("x") {
                    self.fail("array");
                }
                let t = self.ty();
                self.exp(b']');
                Ty::Arr(n, Rc::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "label" => Ty::Label,
                    "metadata" | "token" => Ty::Meta,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.fail("type"))),
                    _ => self.fail(&format!("type {}", w)),
                }
            }
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = Vec::new();
        self.ws();
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(b',') {
                continue;
            }
            self.exp(end);
            return v;
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at c"
        self.i += 2;
        let mut v = Vec::new();
        loop {
            let c = self.pk();
            self.i += 1;
            match c {
                b'"' => return v,
                b'\\' if self.pk() == b'\\' => {
                    v.push(b'\\');
                    self.i += 1;
                }
                b'\\' => {
                    let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 2;
                }
                _ => v.push(c),
            }
        }
    }
}

pub fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Int(w) if *w > 64 => Val::B(Rc::new(0)),
        Ty::Vec(n, e) | Ty::Arr(n, e) => Val::A(Rc::new((0..*n).map(|_| zero_of(e)).collect())),
        Ty::Struct(_, f) => Val::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => Val::I(0),
    }
}

fn int_val(w: u32, v: i128) -> Val {
    if w > 64 {
        Val::B(Rc::new((v as u128) & crate::expr::mask(w)))
    } else {
        Val::I((v as u64) & (crate::expr::mask(w) as u64))
    }
}

struct Ctx<'m> {
    fn_by_name: &'m HashMap<String, u32>,
    gaddr: &'m HashMap<String, u64>,
}

impl<'m> Ctx<'m> {
    fn sym(&self, n: &str) -> Option<u64> {
        if let Some(i) = self.fn_by_name.get(n) {
            return Some(FN_BASE + (*i as u64) * 16);
        }
        self.gaddr.get(n).copied()
    }
    /// A constant of the given type.
    fn konst(&self, p: &mut P, t: &Ty) -> Val {
        p.ws();
        match p.pk() {
            b'@' => {
                p.i += 1;
                let n = p.name();
                match self.sym(&n) {
                    Some(a) => Val::I(a),
                    None => p.fail(&format!("unknown symbol {}", n)),
                }
            }
            b'c' if p.s[p.i + 1] == b'"' => {
                let b = p.cstr();
                Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u64)).collect()))
            }
            b'{' | b'[' | b'<' => {
                let mut packed = false;
                if p.pk() == b'<' && p.s[p.i + 1] == b'{' {
                    p.i += 2;
                    packed = true;
                } else {
                    p.i += 1;
                }
                let mut v = Vec::new();
                p.ws();
                loop {
                    p.ws();
                    if matches!(p.pk(), b'}' | b']' | b'>') {
                        p.i += 1;
                        break;
                    }
                    let et = p.ty();
                    v.push(self.konst(p, &et));
                    p.eat(b',');
                }
                if packed {
                    p.exp(b'>');
                }
                Val::A(Rc::new(v))
            }
            c if c.is_ascii_digit() || c == b'-' || c == b'+' || (c == b'f' && p.s[p.i..].starts_with(b"f0x")) => {
                for (w, v) in [("+inf", f64::INFINITY), ("-inf", f64::NEG_INFINITY), ("+qnan", f64::NAN), ("-qnan", -f64::NAN)] {
                    if p.s[p.i..].starts_with(w.as_bytes()) {
                        p.i += w.len();
                        return Val::I(if *t == Ty::F32 { (v as f32).to_bits() as u64 } else { v.to_bits() });
                    }
                }
                if p.s[p.i..].starts_with(b"f0x") {
                    p.i += 3;
                    let st = p.i;
                    while p.pk().is_ascii_hexdigit() {
                        p.i += 1;
                    }
                    return Val::I(u64::from_str_radix(std::str::from_utf8(&p.s[st..p.i]).unwrap(), 16).unwrap());
                }
                if matches!(t, Ty::F64 | Ty::F32) {
                    let st = p.i;
                    while is_id(p.pk()) || p.pk() == b'+' {
                        p.i += 1;
                    }
                    let w = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                    let bits = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { w.parse::<f64>().unwrap().to_bits() };
                    if *t == Ty::F32 {
                        return Val::I((f64::from_bits(bits) as f32).to_bits() as u64);
                    }
                    return Val::I(bits);
                }
                let v = p.int();
                int_val(t.bits().max(1), v)
            }
            _ => {
                let w = p.word();
                match w {
                    "null" | "none" | "false" => zero_of(t),
                    "undef" | "poison" | "zeroinitializer" => zero_of(t),
                    "true" => Val::I(1),
                    "splat" => {
                        p.exp(b'(');
                        let et = p.ty();
                        let v = self.konst(p, &et);
                        p.exp(b')');
                        if let Ty::Vec(n, _) = t {
                            Val::A(Rc::new((0..*n).map(|_| v.clone()).collect()))
                        } else {
                            v
                        }
                    }
                    "getelementptr" => {
                        while !matches!(p.pk(), b'(') {
                            p.i += 1;
                            if p.pk() == b'i' && p.peek_word().starts_with("inrange") {
                                p.word();
                                p.ws();
                                p.balanced();
                                p.ws();
                            }
                        }
                        p.exp(b'(');
                        let mut cur = p.ty();
                        p.exp(b',');
                        let bt = p.ty();
                        let base = match self.konst(p, &bt) {
                            Val::I(x) => x,
                            _ => p.fail("gep base"),
                        };
                        let mut off = 0u64;
                        let mut first = true;
                        while p.eat(b',') {
                            let it = p.ty();
                            let k = match self.konst(p, &it) {
                                Val::I(x) => crate::expr::sext(x as u128, it.bits()) as i64,
                                _ => p.fail("gep idx"),
                            };
                            if first {
                                off = off.wrapping_add((k as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                off = off.wrapping_add(cur.field_off(k as u64));
                                cur = cur.elem(k as u64);
                            }
                        }
                        p.exp(b')');
                        Val::I(base.wrapping_add(off))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        p.exp(b'(');
                        let ft = p.ty();
                        let v = self.konst(p, &ft);
                        p.eatw("to");
                        let tt = p.ty();
                        p.exp(b')');
                        match v {
                            Val::I(x) => Val::I(x & crate::expr::mask(tt.bits().min(64)) as u64),
                            v => v,
                        }
                    }
                    "sub" | "add" | "xor" | "and" | "or" | "mul" => {
                        p.eatw("nuw");
                        p.eatw("nsw");
                        p.eatw("nuw");
                        p.exp(b'(');
                        let t1 = p.ty();
                        let a = self.konst(p, &t1);
                        p.exp(b',');
                        let t2 = p.ty();
                        let b = self.konst(p, &t2);
                        p.exp(b')');
                        match (a, b) {
                            (Val::I(x), Val::I(y)) => {
                                let r = match w {
                                    "sub" => x.wrapping_sub(y),
                                    "add" => x.wrapping_add(y),
                                    "xor" => x ^ y,
                                    "and" => x & y,
                                    "mul" => x.wrapping_mul(y),
                                    _ => x | y,
                                };
                                Val::I(r & crate::expr::mask(t1.bits()) as u64)
                            }
                            _ => p.fail("const expr"),
                        }
                    }
                    _ => p.fail(&format!("constant {}", w)),
                }
            }
        }
    }
    fn opd(&self, p: &mut P, t: &Ty, f: &mut FnCtx) -> Opd {
        p.ws();
        if p.pk() == b'%' {
            p.i += 1;
            let n = p.name();
            Opd::R(f.reg(n))
        } else {
            Opd::K(self.konst(p, t))
        }
    }
    /// Skips parameter/return attributes.
    fn attrs(&self, p: &mut P) {
        loop {
            p.ws();
            let w = p.peek_word();
            if w.is_empty() {
                return;
            }
            let skip = matches!(
                w,
                "noundef" | "nonnull" | "noalias" | "readonly" | "readnone" | "writeonly" | "nocapture" | "signext" | "zeroext" | "inreg" | "returned" | "immarg" | "swiftself" | "nofree" | "dead_on_unwind" | "writable" | "allocptr" | "allocalign" | "nest" | "noext" | "dead_on_return" | "nocreateundeforpoison"
            );
            if skip {
                p.i += w.len();
                p.ws();
                if p.pk() == b'(' {
                    p.balanced();
                }
                continue;
            }
            if w == "align" {
                p.i += w.len();
                p.ws();
                if p.pk() == b'(' {
                    p.balanced();
                } else {
                    p.int();
                }
                continue;
            }
            if matches!(w, "range" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "initializes" | "sret" | "byval" | "nofpclass" | "elementtype" | "memory" | "byref" | "preallocated" | "inalloca") {
                p.i += w.len();
                p.ws();
                p.balanced();
                continue;
            }
            return;
        }
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        p.ws();
        if !p.eatw("label") {
            p.fail("label");
        }
        p.exp(b'%');
        let n = p.name();
        self.lab(n)
    }
    fn lab(&mut self, n: String) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &c in b {
        h ^= c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn parse(text: &[u8]) -> Module {
    // pass 1: symbols
    let mut fn_by_name = HashMap::new();
    let mut gaddr = HashMap::new();
    let mut globals: Vec<Global> = Vec::new();
    let mut ginit: Vec<(usize, usize, Ty)> = Vec::new(); // (global idx, text pos of initializer, type)
    let mut fdefs: Vec<(String, String, usize, bool)> = Vec::new();
    let mut aliases: Vec<(String, usize)> = Vec::new();
    let mut p = P { s: text, i: 0 };
    let mut cur = G_BASE + 0x1000;
    let mut last_comment: Vec<String> = Vec::new();
    while p.i < text.len() {
        let c = p.pk();
        match c {
            b'@' => {
                let st = p.i;
                p.i += 1;
                let n = p.name();
                p.exp(b'=');
                let mut ext = false;
                let mut alias = false;
                loop {
                    p.ws();
                    let w = p.word();
                    match w {
                        "global" | "constant" => break,
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => ext = true,
                        "thread_local" => {
                            p.ws();
                            if p.pk() == b'(' {
                                p.balanced();
                            }
                        }
                        "" => p.fail("global"),
                        _ => {
                            p.ws();
                            if p.pk() == b'(' {
                                p.balanced();
                            }
                        }
                    }
                }
                if alias {
                    aliases.push((n, st));
                } else {
                    let t = p.ty();
                    let size = t.size();
                    cur = (cur + 15) / 16 * 16;
                    let addr = if ext { 0 } else { cur };
                    if !ext {
                        cur += size.max(1) + 16;
                        ginit.push((globals.len(), p.i, t));
                    }
                    gaddr.insert(n.clone(), addr);
                    globals.push(Global { name: n, addr, size });
                }
                p.eol();
            }
            b'd' => {
                let w = p.peek_word();
                if w == "define" || w == "declare" {
                    let decl = w == "declare";
                    let st = p.i;
                    // name is after first '@' on the line (attributes before it contain no '@')
                    while p.pk() != b'@' {
                        p.i += 1;
                    }
                    p.i += 1;
                    let n = p.name();
                    let dem = last_comment.first().cloned().unwrap_or_default();
                    fn_by_name.insert(n.clone(), fdefs.len() as u32);
                    fdefs.push((n, dem, st, decl));
                    if decl {
                        p.eol();
                    } else {
                        loop {
                            p.eol();
                            if p.pk() == b'}' && (p.i == 0 || text[p.i - 1] == b'\n') {
                                break;
                            }
                        }
                        p.eol();
                    }
                } else {
                    p.eol();
                }
                last_comment.clear();
            }
            b';' => {
                let st = p.i;
                p.eol();
                let l = String::from_utf8_lossy(&text[st..p.i]).trim().trim_start_matches("; ").to_string();
                last_comment.push(l);
            }
            _ => {
                if c == b'\n' {
                    last_comment.clear();
                }
                p.eol();
            }
        }
    }
    for (n, st) in aliases {
        // @x = alias T, ptr @y
        let mut q = P { s: text, i: st + 1 };
        q.name();
        let line_end = (st..text.len()).find(|&j| text[j] == b'\n').unwrap();
        let l = &text[st..line_end];
        let pos = l.iter().rposition(|&c| c == b'@').unwrap();
        q.i = st + pos + 1;
        let target = q.name();
        if let Some(&i) = fn_by_name.get(&target) {
            fn_by_name.insert(n, i);
        } else if let Some(&a) = gaddr.get(&target) {
            gaddr.insert(n, a);
        }
    }
    let ctx = Ctx { fn_by_name: &fn_by_name, gaddr: &gaddr };
    let mut image = vec![0u8; (cur - G_BASE + 4096) as usize];
    for (gi, pos, t) in &ginit {
        let mut q = P { s: text, i: *pos };
        q.ws();
        let a = (globals[*gi].addr - G_BASE) as usize;
        if globals[*gi].name.starts_with("llvm.") {
            continue;
        }
        if q.pk() == b'c' && q.s[q.i + 1] == b'"' {
            let b = q.cstr();
            image[a..a + b.len()].copy_from_slice(&b);
            continue;
        }
        let v = ctx.konst(&mut q, t);
        write_const(&mut image, a, t, &v);
    }
    // pass 2: bodies
    let mut funcs = Vec::with_capacity(fdefs.len());
    for (n, dem, st, decl) in &fdefs {
        let mut q = P { s: text, i: *st };
        if *decl {
            funcs.push(Func { name: n.clone(), dem: dem.clone(), params: vec![], nregs: 0, blocks: vec![], decl: true });
            continue;
        }
        while q.pk() != b'@' {
            q.i += 1;
        }
        q.i += 1;
        q.name();
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        let mut params = Vec::new();
        q.exp(b'(');
        q.ws();
        if !q.eat(b')') {
            loop {
                q.ws();
                if q.pk() == b'.' {
                    q.i += 3;
                    q.exp(b')');
                    break;
                }
                q.ty();
                ctx.attrs(&mut q);
                q.ws();
                if q.pk() == b'%' {
                    q.i += 1;
                    let n = q.name();
                    params.push(f.reg(n));
                } else {
                    let k = format!("#anon{}", params.len());
                    params.push(f.reg(k));
                }
                if q.eat(b',') {
                    continue;
                }
                if !q.eat(b')') {
                    q.fail("params");
                }
                break;
            }
        }
        q.eol();
        let nparams = params.len();
        // a body with something unknown in it only matters if it is executed
        let blocks = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_body(&ctx, &mut q, &mut f, nparams))) {
            Ok(b) => b,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
                vec![Block { phis: vec![], insts: vec![Inst::Bad(Rc::from(m.as_str()))] }]
            }
        };
        funcs.push(Func { name: n.clone(), dem: dem.clone(), params, nregs: f.regs.len() as u32, blocks, decl: false });
    }
    Module { funcs, fn_by_name, globals, gaddr, image, hash: fnv(text) }
}

fn write_const(img: &mut [u8], a: usize, t: &Ty, v: &Val) {
    match (t, v) {
        (Ty::Struct(..), Val::A(f)) => {
            for (i, x) in f.iter().enumerate() {
                write_const(img, a + t.field_off(i as u64) as usize, &t.elem(i as u64), x);
            }
        }
        (Ty::Arr(_, e), Val::A(f)) | (Ty::Vec(_, e), Val::A(f)) => {
            let s = e.size() as usize;
            for (i, x) in f.iter().enumerate() {
                write_const(img, a + i * s, e, x);
            }
        }
        (_, Val::I(x)) => {
            let n = t.size() as usize;
            img[a..a + n.min(8)].copy_from_slice(&x.to_le_bytes()[..n.min(8)]);
        }
        (_, Val::B(x)) => img[a..a + 16].copy_from_slice(&x.to_le_bytes()),
        _ => panic!("write_const {:?} {:?}", t, v),
    }
}

fn parse_body(ctx: &Ctx, p: &mut P, f: &mut FnCtx, nparams: usize) -> Vec<Block> {
    let mut order: Vec<(u32, Block)> = Vec::new();
    let mut cur: Option<(u32, Block)> = None;
    loop {
        // skip blank and comment lines
        p.wsnl();
        if p.pk() == b'}' {
            break;
        }
        // label?
        let st = p.i;
        let at_col0 = st == 0 || p.s[st - 1] == b'\n';
        if at_col0 {
            let n = p.name();
            if p.pk() == b':' {
                p.eol();
                if let Some(b) = cur.take() {
                    order.push(b);
                }
                let l = f.lab(n);
                cur = Some((l, Block { phis: vec![], insts: vec![] }));
                continue;
            }
            p.fail("label expected");
        }
        if cur.is_none() {
            let l = f.lab(format!("{}", nparams));
            cur = Some((l, Block { phis: vec![], insts: vec![] }));
        }
        parse_inst(ctx, p, f, &mut cur.as_mut().unwrap().1);
    }
    if let Some(b) = cur.take() {
        order.push(b);
    }
    // renumber labels so that block index = position
    let mut map = vec![u32::MAX; f.labels.len()];
    for (i, (l, _)) in order.iter().enumerate() {
        map[*l as usize] = i as u32;
    }
    let mut blocks: Vec<Block> = order.into_iter().map(|x| x.1).collect();
    for b in blocks.iter_mut() {
        for ph in b.phis.iter_mut() {
            for x in ph.inc.iter_mut() {
                x.0 = map[x.0 as usize];
            }
        }
        for i in b.insts.iter_mut() {
            match i {
                Inst::Br(t) => *t = map[*t as usize],
                Inst::CondBr { t, f, .. } => {
                    *t = map[*t as usize];
                    *f = map[*f as usize];
                }
                Inst::Switch { def, cases, .. } => {
                    *def = map[*def as usize];
                    for c in cases.iter_mut() {
                        c.1 = map[c.1 as usize];
                    }
                }
                Inst::Call { normal: Some(n), .. } => *n = map[*n as usize],
                _ => {}
            }
        }
    }
    blocks
}

fn skip_words(p: &mut P, ws: &[&str]) {
    loop {
        let w = p.peek_word();
        if ws.contains(&w) {
            p.i += w.len();
        } else {
            return;
        }
    }
}

fn lanes_of(t: &Ty) -> (u32, u32) {
    match t.lanes() {
        Some((n, w)) => (n as u32, w),
        None => (0, t.bits()),
    }
}

fn parse_inst(ctx: &Ctx, p: &mut P, f: &mut FnCtx, blk: &mut Block) {
    let start = p.i;
    let mut dst: Option<u32> = None;
    if p.pk() == b'%' {
        p.i += 1;
        let n = p.name();
        p.exp(b'=');
        dst = Some(f.reg(n));
        p.ws();
    }
    let mut w = p.word();
    while matches!(w, "tail" | "musttail" | "notail") {
        p.ws();
        w = p.word();
    }
    let d = dst.unwrap_or(u32::MAX);
    let bin = match w {
        "add" => Some(Bin::Add),
        "sub" => Some(Bin::Sub),
        "mul" => Some(Bin::Mul),
        "udiv" => Some(Bin::UDiv),
        "sdiv" => Some(Bin::SDiv),
        "urem" => Some(Bin::URem),
        "srem" => Some(Bin::SRem),
        "shl" => Some(Bin::Shl),
        "lshr" => Some(Bin::LShr),
        "ashr" => Some(Bin::AShr),
        "and" => Some(Bin::And),
        "or" => Some(Bin::Or),
        "xor" => Some(Bin::Xor),
        _ => None,
    };
    let inst = if let Some(op) = bin {
        skip_words(p, &["nuw", "nsw", "exact", "disjoint"]);
        let t = p.ty();
        let a = ctx.opd(p, &t, f);
        p.exp(b',');
        let b = ctx.opd(p, &t, f);
        let (lanes, w) = lanes_of(&t);
        Inst::Bin { op, w, lanes, dst: d, a, b }
    } else {
        match w {
            "icmp" => {
                skip_words(p, &["samesign"]);
                p.ws();
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => p.fail("pred"),
                };
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                p.exp(b',');
                let b = ctx.opd(p, &t, f);
                let (lanes, w) = lanes_of(&t);
                Inst::Icmp { p: pr, w, lanes, dst: d, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" => {
                skip_words(p, &["nuw", "nsw", "nneg"]);
                let ft = p.ty();
                let a = ctx.opd(p, &ft, f);
                if !p.eatw("to") {
                    p.fail("to");
                }
                let tt = p.ty();
                if w == "bitcast" {
                    Inst::BitCast { from: ft, to: tt, dst: d, a }
                } else {
                    let (lanes, fw) = lanes_of(&ft);
                    let (_, tw) = lanes_of(&tt);
                    let k = match w {
                        "trunc" => CastK::Trunc,
                        "zext" => CastK::ZExt,
                        "sext" => CastK::SExt,
                        _ => {
                            if fw > tw {
                                CastK::Trunc
                            } else if fw < tw {
                                CastK::ZExt
                            } else {
                                CastK::Same
                            }
                        }
                    };
                    Inst::Cast { k, fw, tw, lanes, dst: d, a }
                }
            }
            "load" => {
                skip_words(p, &["atomic", "volatile"]);
                let t = p.ty();
                p.exp(b',');
                let pt = p.ty();
                let addr = ctx.opd(p, &pt, f);
                match &t {
                    Ty::Int(w) if *w <= 64 => Inst::Load { dst: d, n: (*w + 7) / 8, w: *w, addr },
                    Ty::Ptr | Ty::F64 => Inst::Load { dst: d, n: 8, w: 64, addr },
                    Ty::F32 => Inst::Load { dst: d, n: 4, w: 32, addr },
                    _ => Inst::LoadT { dst: d, ty: t, addr },
                }
            }
            "store" => {
                skip_words(p, &["atomic", "volatile"]);
                let t = p.ty();
                let v = ctx.opd(p, &t, f);
                p.exp(b',');
                let pt = p.ty();
                let addr = ctx.opd(p, &pt, f);
                match &t {
                    Ty::Int(w) if *w <= 64 => Inst::Store { n: (*w + 7) / 8, w: *w, v, addr },
                    Ty::Ptr | Ty::F64 => Inst::Store { n: 8, w: 64, v, addr },
                    Ty::F32 => Inst::Store { n: 4, w: 32, v, addr },
                    _ => Inst::StoreT { ty: t, v, addr },
                }
            }
            "getelementptr" => {
                skip_words(p, &["inbounds", "nuw", "nusw"]);
                let mut cur = p.ty();
                p.exp(b',');
                let bt = p.ty();
                let base = ctx.opd(p, &bt, f);
                let mut off = 0u64;
                let mut idx = Vec::new();
                let mut first = true;
                while p.eat(b',') {
                    p.ws();
                    if p.pk() == b'!' {
                        break;
                    }
                    let it = p.ty();
                    let o = ctx.opd(p, &it, f);
                    let (scale, next) = if first {
                        (cur.size(), None)
                    } else {
                        match &cur {
                            Ty::Struct(..) => (0, None),
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), Some((**t).clone())),
                            _ => p.fail("gep"),
                        }
                    };
                    match &o {
                        Opd::K(Val::I(k)) => {
                            let k = crate::expr::sext(*k as u128, it.bits()) as i64 as u64;
                            if !first && matches!(cur, Ty::Struct(..)) {
                                off = off.wrapping_add(cur.field_off(k));
                                cur = cur.elem(k);
                                first = false;
                                continue;
                            }
                            off = off.wrapping_add(k.wrapping_mul(scale));
                        }
                        _ => idx.push((o, it.bits(), scale)),
                    }
                    if let Some(n) = next {
                        cur = n;
                    }
                    first = false;
                }
                Inst::Gep { dst: d, base, off, idx }
            }
            "alloca" => {
                let t = p.ty();
                let mut align = t.align();
                let mut count = Opd::K(Val::I(1));
                while p.eat(b',') {
                    p.ws();
                    if p.eatw("align") {
                        align = p.int() as u64;
                    } else if p.is_type_start() {
                        let it = p.ty();
                        count = ctx.opd(p, &it, f);
                    } else {
                        break;
                    }
                }
                Inst::Alloca { dst: d, size: t.size(), align, count }
            }
            "select" => {
                let ct = p.ty();
                let c = ctx.opd(p, &ct, f);
                p.exp(b',');
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                p.exp(b',');
                let t2 = p.ty();
                let b = ctx.opd(p, &t2, f);
                Inst::Select { dst: d, c, a, b, ty: t, vec: ct.lanes().is_some() }
            }
            "phi" => {
                let t = p.ty();
                let mut inc = Vec::new();
                loop {
                    p.exp(b'[');
                    let o = ctx.opd(p, &t, f);
                    p.exp(b',');
                    p.exp(b'%');
                    let n = p.name();
                    let l = f.lab(n);
                    p.exp(b']');
                    inc.push((l, o));
                    p.ws();
                    if p.pk() == b',' {
                        p.i += 1;
                        p.ws();
                        if p.pk() == b'[' {
                            continue;
                        }
                    }
                    break;
                }
                blk.phis.push(Phi { dst: d, inc });
                p.eol();
                return;
            }
            "br" => {
                if p.peek_word() == "label" {
                    Inst::Br(f.label(p))
                } else {
                    let t = p.ty();
                    let c = ctx.opd(p, &t, f);
                    p.exp(b',');
                    let a = f.label(p);
                    p.exp(b',');
                    let b = f.label(p);
                    Inst::CondBr { c, t: a, f: b }
                }
            }
            "switch" => {
                let t = p.ty();
                let v = ctx.opd(p, &t, f);
                p.exp(b',');
                let def = f.label(p);
                p.exp(b'[');
                let mut cases = Vec::new();
                loop {
                    p.wsnl();
                    if p.pk() == b']' {
                        p.i += 1;
                        break;
                    }
                    let ct = p.ty();
                    let k = match ctx.konst(p, &ct) {
                        Val::I(x) => x,
                        Val::B(x) => *x as u64,
                        _ => p.fail("case"),
                    };
                    p.exp(b',');
                    let l = f.label(p);
                    cases.push((k, l));
                }
                Inst::Switch { v, w: t.bits(), def, cases }
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(ctx.opd(p, &t, f)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "freeze" => {
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                Inst::Move { dst: d, a }
            }
            "extractvalue" => {
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                let mut path = Vec::new();
                while p.eat(b',') {
                    p.ws();
                    if !p.pk().is_ascii_digit() {
                        break;
                    }
                    path.push(p.int() as u32);
                }
                Inst::Extract { dst: d, a, path }
            }
            "insertvalue" => {
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                p.exp(b',');
                let vt = p.ty();
                let v = ctx.opd(p, &vt, f);
                let mut path = Vec::new();
                while p.eat(b',') {
                    p.ws();
                    if !p.pk().is_ascii_digit() {
                        break;
                    }
                    path.push(p.int() as u32);
                }
                Inst::Insert { dst: d, a, v, path, ty: t }
            }
            "insertelement" => {
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                p.exp(b',');
                let vt = p.ty();
                let v = ctx.opd(p, &vt, f);
                p.exp(b',');
                let it = p.ty();
                let i = ctx.opd(p, &it, f);
                Inst::InsElem { dst: d, a, v, i, n: t.lanes().unwrap().0 }
            }
            "extractelement" => {
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                p.exp(b',');
                let it = p.ty();
                let i = ctx.opd(p, &it, f);
                Inst::ExtElem { dst: d, a, i, n: t.lanes().unwrap().0 }
            }
            "shufflevector" => {
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                p.exp(b',');
                let t2 = p.ty();
                let b = ctx.opd(p, &t2, f);
                p.exp(b',');
                let mt = p.ty();
                let m = ctx.konst(p, &mt);
                let m = match m {
                    Val::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(k) => *k as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => p.fail("mask"),
                };
                Inst::Shuffle { dst: d, a, b, n: t.lanes().unwrap().0, m }
            }
            "cmpxchg" => {
                skip_words(p, &["weak", "volatile"]);
                let pt = p.ty();
                let addr = ctx.opd(p, &pt, f);
                p.exp(b',');
                let t = p.ty();
                let cmp = ctx.opd(p, &t, f);
                p.exp(b',');
                let t2 = p.ty();
                let new = ctx.opd(p, &t2, f);
                Inst::CmpXchg { dst: d, n: t.size() as u32, w: t.bits(), addr, cmp, new }
            }
            "atomicrmw" => {
                skip_words(p, &["volatile"]);
                p.ws();
                let op: Rc<str> = Rc::from(p.word());
                let pt = p.ty();
                let addr = ctx.opd(p, &pt, f);
                p.exp(b',');
                let t = p.ty();
                let v = ctx.opd(p, &t, f);
                Inst::Rmw { dst: d, op, n: t.size() as u32, w: t.bits(), addr, v }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_words(p, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                p.exp(b',');
                let b = ctx.opd(p, &t, f);
                if t.lanes().is_some() {
                    Inst::Bad(Rc::from("vector float"))
                } else {
                    Inst::FBin { op: Rc::from(w), f32: t == Ty::F32, dst: d, a, b }
                }
            }
            "fneg" => {
                skip_words(p, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                Inst::FNeg { f32: t == Ty::F32, dst: d, a }
            }
            "fcmp" => {
                skip_words(p, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                p.ws();
                let pr: Rc<str> = Rc::from(p.word());
                let t = p.ty();
                let a = ctx.opd(p, &t, f);
                p.exp(b',');
                let b = ctx.opd(p, &t, f);
                Inst::FCmp { p: pr, f32: t == Ty::F32, dst: d, a, b }
            }
            "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                skip_words(p, &["nneg"]);
                let ft = p.ty();
                let a = ctx.opd(p, &ft, f);
                p.eatw("to");
                let tt = p.ty();
                Inst::FCast { op: Rc::from(w), from: ft, to: tt, dst: d, a }
            }
            "landingpad" => {
                p.eol();
                loop {
                    let save = p.i;
                    p.ws();
                    let w = p.peek_word();
                    if matches!(w, "cleanup" | "catch" | "filter") {
                        p.eol();
                    } else {
                        p.i = save;
                        break;
                    }
                }
                blk.insts.push(Inst::Bad(Rc::from("landingpad")));
                return;
            }
            "resume" => Inst::Bad(Rc::from("resume")),
            "call" | "invoke" => {
                // cc, return attributes
                loop {
                    p.ws();
                    if p.is_type_start() {
                        break;
                    }
                    let before = p.i;
                    ctx.attrs(p);
                    if p.i == before {
                        p.ws();
                        if p.is_type_start() {
                            break;
                        }
                        let w2 = p.word();
                        if w2.is_empty() {
                            p.fail("call");
                        }
                        if w2 == "cc" {
                            p.int();
                        }
                    }
                }
                let ret = p.ty();
                p.ws();
                if p.pk() == b'(' {
                    p.balanced(); // function type of a varargs callee
                    p.ws();
                }
                let callee = if p.pk() == b'@' {
                    p.i += 1;
                    let n = p.name();
                    if n.starts_with("llvm.") {
                        Callee::Intr(Rc::from(n.as_str()))
                    } else {
                        match ctx.fn_by_name.get(&n) {
                            Some(&i) => Callee::Fn(i),
                            None => p.fail(&format!("callee {}", n)),
                        }
                    }
                } else if p.peek_word() == "asm" {
                    p.word();
                    skip_words(p, &["sideeffect", "alignstack", "inteldialect", "unwind"]);
                    p.ws();
                    let st = p.i;
                    while p.pk() != b'(' {
                        if p.pk() == b'"' {
                            p.i += 1;
                            while p.pk() != b'"' {
                                p.i += 1;
                            }
                        }
                        p.i += 1;
                    }
                    Callee::Asm(Rc::from(String::from_utf8_lossy(&p.s[st..p.i]).as_ref()))
                } else {
                    Callee::Dyn(ctx.opd(p, &Ty::Ptr, f))
                };
                let mut args = Vec::new();
                let skip_all = matches!(&callee, Callee::Intr(n) if n.starts_with("llvm.experimental") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume"));
                if skip_all {
                    p.eol();
                    return;
                }
                p.exp(b'(');
                p.ws();
                if !p.eat(b')') {
                    loop {
                        let t = p.ty();
                        ctx.attrs(p);
                        if t == Ty::Meta {
                            p.ws();
                            while p.pk() != b',' && p.pk() != b')' {
                                p.i += 1;
                            }
                            args.push((Opd::K(Val::I(0)), t));
                        } else {
                            let o = ctx.opd(p, &t, f);
                            args.push((o, t));
                        }
                        if p.eat(b',') {
                            continue;
                        }
                        p.exp(b')');
                        break;
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    // optional attributes / bundles up to "to label"
                    loop {
                        p.wsnl();
                        let x = p.peek_word();
                        if x == "to" {
                            p.i += 2;
                            break;
                        }
                        if x.is_empty() {
                            p.i += 1;
                        } else {
                            p.i += x.len();
                        }
                    }
                    normal = Some(f.label(p));
                }
                Inst::Call { dst, callee, args, ret, normal }
            }
            "va_arg" | "indirectbr" | "callbr" => Inst::Bad(Rc::from(w)),
            _ => {
                p.i = start;
                p.fail("instruction")
            }
        }
    };
    p.eol();
    blk.insts.push(inst);
}
