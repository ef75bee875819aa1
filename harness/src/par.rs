//! Parser harnesses (C11-C19, C21, C22).
use crate::gram::{run, Call, Kid, Out, Run, G, S};
use crate::sx;
use crate::tok::Arg;
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: usize,
    pub id: usize,
}
impl EnumIndex for Tok {
    fn enum_index(&self) -> usize {
        self.kind
    }
}
#[derive(Debug)]
pub struct Nt {
    pub n: usize,
    pub call: usize,
}
impl EnumIndex for Nt {
    fn enum_index(&self) -> usize {
        self.n
    }
}
impl Tok {
    pub fn of(kind: usize) -> Tok {
        Tok { kind, id: 0 }
    }
}
impl Nt {
    pub fn of(n: usize) -> Nt {
        Nt { n, call: 0 }
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct Er(pub usize);
impl std::fmt::Display for Er {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if self.0 % 2 == 0 { "even failure" } else { "odd failure" })
    }
}
impl std::error::Error for Er {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        // some errors have a cause of their own
        if self.0 % 2 == 0 {
            Some(&CAUSE)
        } else {
            None
        }
    }
}
#[derive(Debug)]
struct Cause;
static CAUSE: Cause = Cause;
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cause")
    }
}
impl std::error::Error for Cause {}

/// What the reducers saw.
#[derive(Default)]
pub struct Log {
    pub calls: Vec<Call>,
    /// the call that fails, and the number of tokens pulled when it did
    pub fail: Option<usize>,
    pub pulled: Rc<Cell<usize>>,
    pub pulled_at_fail: usize,
    /// an argument that was not what the rule says, or a child used twice
    pub bad: u32,
}
pub type L = Rc<RefCell<Log>>;
pub type P = LR1Parser<Nt, Tok, Er>;

/// Numbers given to the symbols of a grammar; the number after the last terminal's is that of a kind the grammar does not know.
#[derive(Clone)]
pub struct Num {
    pub n: Vec<usize>,
    pub t: Vec<usize>,
}
impl Num {
    pub fn plain(g: &G) -> Num {
        Num::line(g, (1, 0), (1, 0))
    }
    pub fn line(g: &G, n: (usize, usize), t: (usize, usize)) -> Num {
        let f = |k: usize, (a, b): (usize, usize)| (0..k).map(|i| a.wrapping_mul(i).wrapping_add(b)).collect();
        Num { n: f(g.nts, n), t: f(g.ts + 1, t) }
    }
    /// Any different numbers.
    pub fn any(g: &G, nt: bool, tm: bool) -> Num {
        let f = |k: usize, on: bool| {
            let mut v: Vec<usize> = Vec::new();
            for i in 0..k {
                if !on {
                    v.push(i);
                    continue;
                }
                let x = sx::val(0, u64::MAX) as usize;
                let mut ok = true;
                for y in &v {
                    ok &= x != *y;
                }
                sx::assume(ok);
                v.push(x);
            }
            v
        };
        Num { n: f(g.nts, nt), t: f(g.ts + 1, tm) }
    }
    pub fn nt(&self, i: usize) -> usize {
        self.n[i]
    }
    pub fn tm(&self, i: usize) -> usize {
        self.t[i]
    }
}

pub fn reducer(l: L, rule: usize, n: usize) -> impl Fn(&mut [Symbol<&mut Nt, &Tok, &[Tok]>]) -> Result<Nt, Er> + 'static {
    move |list| {
        let mut log = l.borrow_mut();
        let me = log.calls.len();
        let mut kids = Vec::with_capacity(list.len());
        for s in list.iter_mut() {
            kids.push(match s {
                Symbol::NonTerminal(c) => {
                    // the value is ours: take it
                    let k = c.call;
                    c.call = usize::MAX;
                    Kid::N(k)
                }
                Symbol::Terminal(t) => Kid::T(t.id),
                Symbol::Error(e) => {
                    for (i, t) in e.iter().enumerate() {
                        if t.id != e[0].id + i {
                            log.bad = 1;
                        }
                    }
                    // an empty slice has no place of its own
                    match e.first() {
                        Some(t) => Kid::E(t.id, t.id + e.len()),
                        None => Kid::E(usize::MAX, usize::MAX),
                    }
                }
            });
        }
        log.calls.push(Call { rule, kids });
        if log.fail == Some(me) {
            log.pulled_at_fail = log.pulled.get();
            return Err(Er(me + 40));
        }
        Ok(Nt { n, call: me })
    }
}

pub fn sym(s: &S, m: &Num) -> Symbol<usize, usize, ()> {
    match s {
        S::N(n) => Symbol::NonTerminal(m.nt(*n)),
        S::T(t) => Symbol::Terminal(m.tm(*t)),
        S::E => Symbol::Error(()),
    }
}
pub fn syntax(g: &G, m: &Num, l: &L) -> Syntax<Nt, Tok, Er> {
    let mut b = Syntax::builder();
    for (i, (lhs, rhs)) in g.rules.iter().enumerate() {
        let s: Vec<_> = rhs.iter().map(|s| sym(s, m)).collect();
        b = b.rule(Rule::new_raw(m.nt(*lhs), &s, reducer(l.clone(), i, m.nt(*lhs))));
    }
    b.build_raw(m.nt(0))
}

/// Builds the parser; the texts of the warnings only when wanted.
pub fn make(g: &G, m: &Num, l: &L, texts: bool) -> (P, Vec<String>) {
    let (p, w) = LR1Parser::new(syntax(g, m, l));
    (p, w.iter().map(|w| if texts { format!("{:?}", w) } else { String::new() }).collect())
}

pub struct Source {
    pub toks: Vec<Tok>,
    pub at: Rc<Cell<usize>>,
}
impl Iterator for Source {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        let i = self.at.get();
        if i < self.toks.len() {
            self.at.set(i + 1);
            Some(self.toks[i].clone())
        } else {
            None
        }
    }
}

/// The prefix of the grammar, then up to `long` tokens of every kind of the grammar and one it does not know.
pub fn tokens(g: &G, long: usize) -> (usize, Vec<usize>, Vec<Tok>) {
    let n = g.prefix.len() + sx::pick(long + 1);
    let mut kinds = Vec::with_capacity(n);
    for i in 0..n {
        kinds.push(if i < g.prefix.len() { g.prefix[i] } else { sx::val(0, g.ts as u64) as usize });
    }
    let toks = kinds.iter().enumerate().map(|(id, k)| Tok { kind: *k, id }).collect();
    (n, kinds, toks)
}

pub fn log() -> L {
    Rc::new(RefCell::new(Log::default()))
}
/// Runs the real parser.
pub fn go(p: &P, l: &L, toks: &[Tok]) -> Run {
    let at = l.borrow().pulled.clone();
    at.set(0);
    l.borrow_mut().calls.clear();
    let r = Source { toks: toks.to_vec(), at: at.clone() }.parse(p);
    let out = match r {
        Ok(n) => Out::Ok(n.call),
        Err(ParseError::RecoveryRuleNotFound) => Out::NotFound,
        Err(ParseError::ErrorInReducer(e)) => Out::Reducer(e.0),
    };
    let calls = std::mem::take(&mut l.borrow_mut().calls);
    Run { out, calls, pulled: at.get(), recovered: 0 }
}
pub fn observe(r: &Run) {
    sx::obs(match r.out {
        Out::Ok(c) => 10 + c as u64,
        Out::NotFound => 1,
        Out::Reducer(e) => 100 + e as u64,
        Out::Endless => 2,
    });
    sx::obs(r.pulled as u64);
    sx::obs(r.calls.len() as u64);
    for c in &r.calls {
        sx::obs(c.rule as u64);
    }
}

// ---------------------------------------------------------------- grammars

/// Grammars without error rules, free of LR(1) conflicts.
pub const CLEAN: &[&str] = &[
    "S=a",
    "S=",
    "S=aS|b",
    "S=Sa|b",
    "S=Sa|",
    "S=aS|",
    "S=aSb|",
    "S=aSa|b",
    "S=SaT|T;T=TbF|F;F=cSd|e",
    "S=AB;A=a|;B=b|",
    "S=AaBb;A=;B=",
    "S=AaAb|BbBa;A=;B=",
    "S=aAd|bBd|aBe|bAe;A=c;B=c",
    "S=CC;C=aC|b",
    "S=LaR|R;L=bR|c;R=L",
    "S=A;A=B;B=C;C=a|bAc",
    "S=aT;T=bT|",
    "S=aTc;T=Tb|",
    "S=aSbS|",
    "S=ABC;A=a|;B=b|;C=c|",
    "S=aB|bA;A=a|aS|bAA;B=b|bS|aBB;C=c",
    "S=a;A=b;B=AS",
    "S=A;A=aA|bA|c",
    "S=cAd;A=ab|a",
    "S=TS|;T=aTb|c",
    "S=aBC;B=b|;C=BcC|",
    "S=IaSeS|b;I=c",
    "S=E;E=EaF|c;F=c|bEd",
    "S=AA;A=aA|b",
    "S=XYa;X=b|;Y=dc|;Z=d",
    "S=aaa|aab|ab",
    "S=aAb|aBc;A=a;B=a",
    "S=VcE|E;V=a|bE;E=V",
    "S=BA;A=aBA|;B=DC;C=bDC|;D=cSd|e",
    "S=aSS|b",
    "S=SSa|b",
    "S=Ab;A=AB|;B=a",
    "S=Ta|aTb;T=c",
    "S=aLa;L=b|Lcb",
    "S=ABAB;A=a;B=|b",
];
/// Grammars with conflicts.
pub const DIRTY: &[&str] = &[
    "S=SaS|b",
    "S=SaS|SbS|c",
    "S=aSeS|aS|b",
    "S=A|B;A=a;B=a",
    "S=A|B|C;A=a;B=a;C=a",
    "S=AB;A=a|;B=a|",
    "S=aAb|aB;A=c;B=cb",
    "S=A|a;A=a",
    "S=Aa|Ba;A=b;B=b",
    "S=Ba|Aa;A=b;B=b",
    "S=SS|a",
    "S=aSa|bSb|",
    "S=S|a",
    "S=A;A=S|a",
    "S=aS|aSb|c",
    "S=A|aB;A=a;B=|b",
    "S=XaX|b;X=S|c",
    "S=Ac|Bc|d;A=aA|;B=aB|",
    "S=AAa;A=b|",
    "S=aA|aB;A=b;B=bc|b",
];
/// Grammars with error rules.
pub const ERRS: &[&str] = &[
    "S=a|!",
    "S=a|!b",
    "S=aSb|c|!",
    "S=aSb|c|a!b",
    "S=SaT|T;T=TbF|F;F=cSd|e|c!d",
    "S=TaS|T;T=b|!",
    "S=L;L=LI|;I=ab|!b",
    "S=L;L=LI|;I=acb|a!b|!b",
    "S=IS|;I=ab|!b",
    "S=a!b|c",
    "S=!a|b",
    "S=!S|a",
    "S=A;A=aBc|!;B=b|!d",
    "S=AB;A=a|!a;B=b|!b",
    "S=aAb;A=cA|d|!",
    "S=aAb|!;A=c|!d",
    "S=A!|b;A=a",
    "S=A!b|a;A=",
    "S=Aab|c;A=|!d",
    "S=SIb|;I=a|!",
    "S=aBd|!d;B=bC|!;C=c|!a",
    "S=a!|b!c",
    "S=!!a|b",
    "S=AcS|a;A=!b",
    "S=Tb|TbS;T=a|!",
    "S=PaQ|P!Q;P=b;Q=c",
    "S=aS|bS|c|!c",
    "S=XaY;X=b|!;Y=c|!",
    "S=FaS|F;F=e|cSd|c!d|!",
];

/// Larger grammars (expressions, JSON, statements, declarations, ...), with token sequences to go on from.
pub const LARGE: &[(&str, &[&str])] = &[
    ("S=SaT|SbT|T;T=TcF|TdF|F;F=eSf|g|bF", &["", "gag", "egcg", "eegaf", "gcbgb"]),
    ("V=O|R|a|b;O=cMd|cd;M=P|MeP;P=afV;R=gEh|gh;E=V|EeV", &["", "caf", "gbe", "cafbea", "gcdegh"]),
    ("P=SP|;S=aeEb|cEgPh|cEgPhdgPh;E=EfT|T;T=a|iEj", &["", "aea", "cagaeab", "caghdg", "aeiafa"]),
    ("S=AXYZe;A=a;X=b|;Y=c|;Z=d|", &["", "a", "ab"]),
    ("S=ABCDEf;A=a|;B=b|;C=c|;D=d|;E=e|", &["", "bd"]),
    ("D=TLc;T=a|b|Td;L=LeI|I;I=f|IgNh|iIj;N=k|", &["", "adi", "afg", "bdfeif"]),
    ("E=aVbE|A;A=AF|F;F=c|dEe;V=cV|c", &["", "accb", "cdcc", "dacbc"]),
    ("L=aIb;I=IX|;X=c|L|dX", &["", "aca", "adda", "aabcd"]),
    ("S=aBe|aCf|bBf|bCe;B=DdD;C=DdD;D=c|", &["", "acd", "bd"]),
    ("S=AB|BA;A=aAb|;B=cBd|c", &["", "aab", "ccd"]),
    ("S=XYZW;X=aX|;Y=bY|;Z=cZ|;W=dW|", &["", "abb", "ac"]),
    // with conflicts
    ("S=aEbScS|aEbS|d;E=EeE|EfE|fE|g", &["", "agb", "aagb", "agegf", "agbagbdc"]),
    ("E=EaE|EbE|EcE|dEe|cE|f", &["", "faf", "dfbcf", "cfcf"]),
    ("S=T|F;T=TaN|N;F=FaN|N;N=b|c", &["", "bac"]),
    ("S=ABCa;A=b|;B=b|c|;C=c|b", &["", "b"]),
    // with error rules
    ("P=PS|;S=aeEb|a!b|gPh|!h;E=EfT|T;T=a|iEj|i!j", &["", "aea", "gaeab", "aeia", "gga", "aeib"]),
    ("V=O|R|a|b;O=cMd|cd|c!d;M=P|MeP;P=afV;R=gEh|gh|g!h;E=V|EeV", &["", "caf", "gbe", "cag", "gcbg", "gcafbed"]),
    ("C=aiAj|ai!j;A=B|;B=E|BkE;E=a|C|b!c", &["", "ai", "aib", "aiaiak", "aiakk"]),
    ("S=LeS|L;L=aEb|a!b|!;E=c|Edc|fEf", &["", "acb", "ac", "afc"]),
    ("F=aBb|!;B=BX|;X=cYd|!d|aBb;Y=e|Yfe|!", &["", "ac", "acef", "aacb", "aacfd"]),
    ("S=AaBbCc;A=d|!d;B=e|;C=f|!", &["", "d", "da", "dae"]),
    ("S=fM|gK;M=X|Y;K=X|Z;X=a!Ub|ab;Y=a!c|ac;Z=a!d|ad;U=gKe|e", &["", "faf", "fagag", "gab"]),
    ("S=IJ;I=ab|a!b|a!c;J=de|d!e", &["", "aab", "abdd", "aacd"]),
    ("T=aUb|c;U=dTe|!e|TfT|Tf!", &["", "ad", "acf", "adcc", "adaf"]),
];

fn rhs(mut i: usize, syms: &[S], long: usize) -> Option<Vec<S>> {
    let k = syms.len();
    let mut size = 1;
    for len in 0..=long {
        if i < size {
            let mut v = Vec::new();
            for _ in 0..len {
                v.push(syms[i % k]);
                i /= k;
            }
            return Some(v);
        }
        i -= size;
        size *= k;
    }
    None
}
/// All grammars of a shape, by number.
/// shape 0: S -> x | y over S a b; 1: S -> x, A -> y; 2: S -> x, A -> y | z; 3: S -> x | y, A -> z (all over S A a b, up to two symbols);
/// 4..=7 the same with the error symbol; 8: S -> x, A -> y with up to three symbols; 9: the same with the error symbol;
/// 10: S -> x | y up to three symbols; 11: with the error symbol
pub fn small(shape: usize, i: usize) -> Option<G> {
    let e = (4..8).contains(&shape) || shape == 9 || shape == 11;
    let two = !(shape % 4 == 0 && shape < 8 || shape >= 10);
    let long = if shape >= 8 { 3 } else { 2 };
    let mut syms = vec![S::N(0)];
    if two {
        syms.push(S::N(1));
    }
    syms.push(S::T(0));
    syms.push(S::T(1));
    if e {
        syms.push(S::E);
    }
    let k = syms.len();
    let m: usize = (0..=long).map(|l| k.pow(l as u32)).sum();
    let d = |j: usize| rhs(i / m.pow(j as u32) % m, &syms, long);
    let shapes: &[usize] = match shape {
        0 | 4 | 10 | 11 => &[0, 0],
        1 | 5 | 8 | 9 => &[0, 1],
        2 | 6 => &[0, 1, 1],
        _ => &[0, 0, 1],
    };
    if i >= m.pow(shapes.len() as u32) {
        return None;
    }
    let mut rules = Vec::new();
    for (j, l) in shapes.iter().enumerate() {
        rules.push((*l, d(j)?));
    }
    // a rule twice is no grammar of interest, and every symbol should be in use
    for a in 0..rules.len() {
        for b in 0..a {
            if rules[a] == rules[b] {
                return None;
            }
        }
    }
    if two && !rules.iter().any(|r| r.0 == 0 && r.1.contains(&S::N(1))) {
        return None;
    }
    // the two terminals are interchangeable: the first to occur is number 0
    if rules.iter().flat_map(|r| &r.1).find(|s| matches!(s, S::T(_))) == Some(&S::T(1)) {
        return None;
    }
    Some(G { nts: if two { 2 } else { 1 }, ts: 2, rules, prefix: Vec::new() })
}

/// Family 0: CLEAN; 1: DIRTY; 2: ERRS; 3: LARGE; 16+s: small grammars of shape s. lo + pick(cnt).
pub fn grammar(a: Arg) -> Option<G> {
    let i = a.lo + if a.fam == 3 { 0 } else { sx::pick(a.cnt) };
    let g = match a.fam {
        0 => G::read(CLEAN.get(i)?),
        1 => G::read(DIRTY.get(i)?),
        2 => G::read(ERRS.get(i)?),
        3 => {
            // lo: the grammar, cnt: its prefix
            let (text, prefixes) = LARGE.get(a.lo)?;
            let mut g = G::read(text);
            g.prefix = prefixes.get(a.cnt)?.bytes().map(|c| (c - b'a') as usize).collect();
            g
        }
        s => small(s as usize - 16, i * STEP[s as usize - 16])?,
    };
    if g.defined() {
        Some(g)
    } else {
        None
    }
}
/// The larger shapes are walked in steps (coprime to their structure) to fit the argument.
const STEP: [usize; 12] = [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1];

/// Are the tokens, of which the first are known, a sentence?
fn sentence(g: &G, kinds: &[usize], known: usize) -> bool {
    let (n, all) = g.recognise(&kinds[..known]);
    if known == kinds.len() {
        return all;
    }
    // whatever follows a dead end, it is none
    n == known && g.recognise(&settle(kinds, kinds.len())).1
}
/// Concrete kinds for the tokens the parser looked at: its path depends on nothing else.
pub fn settle(kinds: &[usize], pulled: usize) -> Vec<usize> {
    kinds.iter().enumerate().map(|(i, k)| if i < pulled { sx::conc(*k as u64) as usize } else { *k }).collect()
}

// ---------------------------------------------------------------- C11, C12, C15

/// prop 11: accepts exactly the language; 12: the calls are the parse tree; 15: detection.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_parse(arg: u64) {
    let a = Arg::new(arg);
    let g = match grammar(a) {
        Some(g) => g,
        None => return,
    };
    if g.has_error() || (a.prop == 15 && !g.productive().iter().all(|b| *b)) {
        return;
    }
    let l = log();
    let (p, w) = make(&g, &Num::plain(&g), &l, false);
    if !w.is_empty() {
        return;
    }
    let (n, kinds, toks) = tokens(&g, a.len);
    let r = go(&p, &l, &toks);
    observe(&r);
    let kinds = settle(&kinds, r.pulled);
    sx::check(!matches!(r.out, Out::Reducer(_)), 110);
    sx::check(r.pulled <= n, 115);
    match a.prop {
        11 => {
            sx::check(matches!(r.out, Out::Ok(_)) == sentence(&g, &kinds, r.pulled), 111);
            if let Out::Ok(_) = r.out {
                sx::cover(112);
            } else {
                sx::cover(113);
            }
        }
        12 => {
            if let Out::Ok(root) = r.out {
                sx::cover(120);
                sx::check(l.borrow().bad == 0, 121);
                check_tree(&g, &r, root, &kinds);
            }
        }
        _ => {
            if r.out == Out::NotFound {
                sx::cover(150);
                // everything before the last token pulled begins a sentence
                if r.pulled > 0 {
                    sx::check(g.recognise(&kinds[..r.pulled - 1]).0 == r.pulled - 1, 151);
                }
                if r.pulled < n {
                    sx::cover(152);
                    sx::check(g.recognise(&kinds[..r.pulled]).0 < r.pulled, 153);
                }
            }
            let d = sentence(&g, &kinds, r.pulled);
            sx::check(r.out == Out::NotFound || d, 154);
            sx::check(r.out != Out::NotFound || !d, 155);
        }
    }
}

fn leaves(calls: &[Call], c: usize, out: &mut Vec<Kid>) {
    for k in &calls[c].kids {
        match k {
            Kid::N(i) => leaves(calls, *i, out),
            k => out.push(k.clone()),
        }
    }
}
/// The calls are a left-to-right bottom-up walk of one derivation tree of all the tokens.
fn check_tree(g: &G, r: &Run, root: usize, kinds: &[usize]) {
    let mut open: Vec<usize> = Vec::new();
    for (i, c) in r.calls.iter().enumerate() {
        sx::check(c.rule < g.rules.len(), 122);
        let rhs = &g.rules[c.rule].1;
        sx::check(c.kids.len() == rhs.len(), 123);
        let subs: Vec<usize> = c.kids.iter().filter_map(|k| if let Kid::N(x) = k { Some(*x) } else { None }).collect();
        sx::check(subs.len() <= open.len() && open[open.len() - subs.len()..] == subs[..], 124);
        for (k, s) in c.kids.iter().zip(rhs) {
            let fits = match (k, s) {
                (Kid::N(x), S::N(n)) => *x < i && g.rules[r.calls[*x].rule].0 == *n,
                (Kid::T(x), S::T(t)) => *x < kinds.len() && kinds[*x] == *t,
                _ => false,
            };
            sx::check(fits, 125);
        }
        open.truncate(open.len() - subs.len());
        open.push(i);
    }
    sx::check(open == [root], 126);
    sx::check(g.rules[r.calls[root].rule].0 == 0, 127);
    let mut v = Vec::new();
    leaves(&r.calls, root, &mut v);
    sx::check(v.len() == kinds.len() && v.iter().enumerate().all(|(i, k)| *k == Kid::T(i)), 128);
    if v.len() > 1 && r.calls.len() > 2 {
        sx::cover(129);
    }
}

// ---------------------------------------------------------------- C13

/// (kind, rules, the items of the state) of a warning's text
fn warning(s: &str) -> Option<(bool, Vec<usize>, Vec<(usize, usize, usize, usize)>)> {
    let sr = s.starts_with("ShiftReduce");
    if !sr && !s.starts_with("ReduceReduce") {
        return None;
    }
    let b = s.as_bytes();
    // the braces after "state: "
    let from = s.find("state: {")? + 8;
    let mut depth = 1;
    let mut i = from;
    while depth > 0 {
        match *b.get(i)? {
            b'{' => depth += 1,
            b'}' => depth -= 1,
            _ => {}
        }
        i += 1;
    }
    let mut items = Vec::new();
    for part in s[from..i - 1].split('}') {
        let v = crate::tok::numbers(part);
        if part.contains("rule: ") {
            // LR1Item: the type's name carries a digit
            let v = &v[if part.contains("LR1Item") { 1 } else { 0 }..];
            let (k, x) = if part.contains("EOI") {
                (2, 0)
            } else if part.contains("Error") {
                (1, 0)
            } else {
                (0, *v.get(2)?)
            };
            items.push((*v.first()?, *v.get(1)?, k, x));
        }
    }
    items.sort();
    let v = crate::tok::numbers(&s[i..]);
    let rules = if sr { vec![*v.last()?] } else { vec![*v.get(v.len().checked_sub(2)?)?, *v.last()?] };
    Some((sr, rules, items))
}
/// Warnings against the conflicts of the canonical automaton.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_conflicts(arg: u64) {
    let a = Arg::new(arg);
    let g = match grammar(a) {
        Some(g) => g,
        None => return,
    };
    let l = log();
    let (_p, w) = make(&g, &Num::plain(&g), &l, true);
    let auto = g.auto();
    sx::obs(w.len() as u64);
    sx::check(w.is_empty() == auto.conflicts.is_empty(), 131);
    sx::cover(if w.is_empty() { 132 } else { 133 });
    let mut count = vec![0usize; auto.states.len()];
    let mut named: Vec<Vec<usize>> = vec![Vec::new(); auto.states.len()];
    for s in &w {
        let (sr, rules, items) = match warning(s) {
            Some(x) => x,
            None => {
                sx::check(false, 134);
                return;
            }
        };
        let at = auto.states.iter().position(|st| {
            let mut v: Vec<_> = st.iter().map(|(r, p, c)| if *c == auto.eoi { (*r, *p, 2, 0) } else if *c == auto.err { (*r, *p, 1, 0) } else { (*r, *p, 0, *c) }).collect();
            v.sort();
            v == items
        });
        sx::check(at.is_some(), 135);
        let at = match at {
            Some(x) => x,
            None => return,
        };
        // some lookahead has this very conflict
        let real = auto.conflicts.iter().any(|(s, _, shift, red)| *s == at && if sr { *shift && red.contains(&rules[0]) } else { rules[0] != rules[1] && red.contains(&rules[0]) && red.contains(&rules[1]) });
        sx::check(real, 136);
        count[at] += 1;
        named[at].extend(rules.iter().cloned());
    }
    for (s, _, shift, red) in &auto.conflicts {
        // each rule that loses here is named
        let lose: Vec<usize> = if *shift { red.clone() } else { red.clone() };
        sx::check(lose.iter().all(|r| named[*s].contains(r)), 137);
        let here = auto.conflicts.iter().filter(|c| c.0 == *s).count();
        sx::check(count[*s] >= here, 138);
    }
    if auto.conflicts.iter().any(|c| c.3.contains(&g.rules.len())) {
        sx::cover(139);
    }
}

// ---------------------------------------------------------------- C14, C17, C21: runs as specified

/// The column of a token, deciding its kind no further than the grammar can tell.
pub fn columns<'a>(g: &'a G, kinds: &'a [usize]) -> impl Fn(usize) -> usize + 'a {
    move |i| {
        for t in 0..g.ts {
            if kinds[i] == t {
                return t;
            }
        }
        g.ts + 2
    }
}
pub fn same(r: &Run, e: &Run, base: u32) {
    sx::check(r.out == e.out, base);
    sx::check(r.calls.len() == e.calls.len(), base + 1);
    for (x, y) in r.calls.iter().zip(&e.calls) {
        sx::check(x.rule == y.rule, base + 1);
        sx::check(x.kids.len() == y.kids.len(), base + 2);
        for (p, q) in x.kids.iter().zip(&y.kids) {
            let ok = match (p, q) {
                (Kid::E(a, b), Kid::E(c, d)) => (a == c && b == d) || (a == b && c == d),
                (p, q) => p == q,
            };
            sx::check(ok, base + 3);
        }
    }
    sx::check(r.pulled == e.pulled, base + 4);
}
pub fn steps(n: usize, g: &G) -> usize {
    200 + 60 * n * g.rules.len()
}

/// prop 14: grammars with conflicts; 17: with error rules, free of conflicts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_policy(arg: u64) {
    let a = Arg::new(arg);
    let g = match grammar(a) {
        Some(g) => g,
        None => return,
    };
    let auto = g.auto();
    if auto.conflicts.is_empty() == (a.prop == 14) || (a.prop == 17 && !g.has_error()) {
        return;
    }
    // between accepting and reducing the code accepts; the property is about shifts and reductions
    if auto.conflicts.iter().any(|c| c.3.contains(&g.rules.len())) {
        return;
    }
    let l = log();
    let (n, kinds, toks) = tokens(&g, a.len);
    let (p, _w) = make(&g, &Num::plain(&g), &l, false);
    let col = columns(&g, &kinds);
    if a.prop == 14 {
        let e = run(&g, &auto, n, &col, steps(n, &g));
        if e.out == Out::Endless {
            return; // empty rules in a loop: nothing is promised
        }
        let r = go(&p, &l, &toks);
        observe(&r);
        same(&r, &e, 140);
        sx::cover(if r.out == Out::NotFound { 146 } else { 147 });
        return;
    }
    let r = go(&p, &l, &toks);
    observe(&r);
    let e = run(&g, &auto, n, &col, steps(n, &g));
    sx::check(l.borrow().bad == 0, 170);
    same(&r, &e, 171);
    if e.recovered > 0 {
        sx::cover(if r.out == Out::NotFound { 177 } else { 176 });
    }
    if e.recovered > 2 && r.out != Out::NotFound {
        sx::cover(178);
    }
    // in any case: an error symbol is handed a contiguous part of the input
    for c in &r.calls {
        for k in &c.kids {
            if let Kid::E(x, y) = k {
                sx::check((*x <= *y && *y <= n) || (*x == usize::MAX && *y == usize::MAX), 179);
            }
        }
    }
}

// ---------------------------------------------------------------- C16

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_abort(arg: u64) {
    let a = Arg::new(arg);
    let g = match grammar(a) {
        Some(g) => g,
        None => return,
    };
    let auto = g.auto();
    let l = log();
    let (p, w) = make(&g, &Num::plain(&g), &l, false);
    let (n, kinds, toks) = tokens(&g, a.len);
    if !w.is_empty() && run(&g, &auto, n, &columns(&g, &kinds), steps(n, &g)).out == Out::Endless {
        return;
    }
    // what happens without a failure
    let all = go(&p, &l, &toks);
    let k = sx::pick(all.calls.len() + 1);
    l.borrow_mut().fail = Some(k);
    l.borrow_mut().calls.clear();
    let at = l.borrow().pulled.clone();
    at.set(0);
    let r = Source { toks: toks.clone(), at: at.clone() }.parse(&p);
    let log = l.borrow();
    sx::obs(log.calls.len() as u64);
    if k < all.calls.len() {
        sx::cover(160);
        sx::check(log.calls.len() == k + 1, 161);
        sx::check(log.calls[..] == all.calls[..k + 1], 162);
        sx::check(at.get() == log.pulled_at_fail, 163);
        match &r {
            Err(e) => {
                sx::check(matches!(e, ParseError::ErrorInReducer(x) if x.0 == k + 40), 164);
                sx::check(e.to_string() == Er(k + 40).to_string(), 165);
                let s = std::error::Error::source(e);
                sx::check(s.is_some() && s.unwrap().downcast_ref::<Er>() == Some(&Er(k + 40)), 166);
            }
            Ok(_) => sx::check(false, 164),
        }
    } else {
        match &r {
            Ok(x) => sx::check(all.out == Out::Ok(x.call), 167),
            Err(e) => {
                sx::check(all.out == Out::NotFound && matches!(e, ParseError::RecoveryRuleNotFound), 167);
                sx::check(std::error::Error::source(e).is_none(), 168);
            }
        }
        sx::check(log.calls == all.calls && at.get() == all.pulled, 169);
    }
}

// ---------------------------------------------------------------- C18, C19

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_valid(arg: u64) {
    let a = Arg::new(arg);
    let g = match grammar(a) {
        Some(g) => g,
        None => return,
    };
    let h = g.without_errors();
    if !g.has_error() || !h.defined() {
        return;
    }
    let l = log();
    let (p, w) = make(&g, &Num::plain(&g), &l, false);
    if !w.is_empty() {
        return;
    }
    let m = log();
    let (q, w) = make(&h, &Num::plain(&g), &m, false);
    // fewer rules cannot conflict more
    sx::check(w.is_empty(), 180);
    let (n, kinds, toks) = tokens(&g, a.len);
    let want = go(&q, &m, &toks);
    if !matches!(want.out, Out::Ok(_)) {
        return;
    }
    let r = go(&p, &l, &toks);
    observe(&r);
    // the same rules, by their place among those without error symbol
    let names: Vec<usize> = (0..g.rules.len()).filter(|i| !g.rules[*i].1.contains(&S::E)).collect();
    sx::check(r.out == want.out, 181);
    sx::check(r.calls.len() == want.calls.len(), 182);
    for (x, y) in r.calls.iter().zip(&want.calls) {
        sx::check(x.rule == names[y.rule] && x.kids == y.kids, 183);
    }
    // and that parse is the sentence's
    let kinds = settle(&kinds, n);
    sx::check(sentence(&g, &kinds, n), 184);
    sx::cover(185);
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_total(arg: u64) {
    let a = Arg::new(arg);
    let g = match grammar(a) {
        Some(g) => g,
        None => return,
    };
    let l = log();
    let (p, w) = make(&g, &Num::plain(&g), &l, false);
    if !w.is_empty() {
        return;
    }
    let (n, _, toks) = tokens(&g, a.len);
    let r = go(&p, &l, &toks);
    observe(&r);
    sx::check(!matches!(r.out, Out::Reducer(_)), 190);
    sx::check(r.pulled <= n, 191);
    if let Out::Ok(c) = r.out {
        sx::check(c < r.calls.len(), 192);
        sx::cover(193);
        if r.calls.iter().any(|c| c.kids.iter().any(|k| matches!(k, Kid::E(..)))) {
            sx::cover(194);
        }
    } else {
        sx::cover(195);
    }
}

// ---------------------------------------------------------------- C21

/// One of a few numberings, or any at all.
fn numbering(g: &G, i: usize) -> Num {
    let big = usize::MAX;
    match i {
        0 => Num::plain(g),
        1 => Num::line(g, (1, 1), (1, 1)),
        2 => Num::line(g, (3, 2), (7, 5)),
        3 => Num::line(g, (big, 9), (big, 9)),
        4 => Num::line(g, (10, 4), (1, 0)),
        5 => Num::line(g, (big, big >> 1), (big, big)),
        6 => Num::any(g, true, false),
        _ => Num::any(g, false, true),
    }
}
fn summary(w: &[String]) -> Vec<(bool, Vec<usize>)> {
    let mut v: Vec<(bool, Vec<usize>)> = w
        .iter()
        .filter_map(|s| {
            let sr = s.starts_with("ShiftReduce");
            let n = crate::tok::numbers(s);
            let k = n.len().checked_sub(if sr { 1 } else { 2 })?;
            Some((sr, n[k..].to_vec()))
        })
        .collect();
    v.sort();
    v
}
/// Two builds of one grammar, differently numbered, on the same tokens.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_renumber(arg: u64) {
    let a = Arg::new(arg);
    let g = match grammar(a) {
        Some(g) => g,
        None => return,
    };
    let auto = g.auto();
    let (l, k) = (log(), log());
    // prop 21: fixed numberings (any hash order); prop 22: every numbering
    let m = numbering(&g, if a.prop == 21 { sx::pick(6) } else { 6 + sx::pick(2) });
    let (p, w) = make(&g, &Num::plain(&g), &l, a.prop == 21);
    let (q, v) = make(&g, &m, &k, a.prop == 21);
    sx::obs(w.len() as u64);
    sx::check(w.len() == v.len(), 209);
    if a.prop == 21 {
        sx::check(summary(&w) == summary(&v), 210);
    }
    let (n, kinds, toks) = tokens(&g, a.len);
    if !w.is_empty() && run(&g, &auto, n, &columns(&g, &kinds), steps(n, &g)).out == Out::Endless {
        return;
    }
    let r = go(&p, &l, &toks);
    observe(&r);
    let kinds = settle(&kinds, n);
    let renum: Vec<Tok> = kinds.iter().enumerate().map(|(id, k)| Tok { kind: m.tm(*k), id }).collect();
    let s = go(&q, &k, &renum);
    same(&s, &r, 211);
    sx::cover(if matches!(r.out, Out::Ok(_)) { 216 } else { 217 });
}

// ---------------------------------------------------------------- C22

/// Which way of writing each rule: three ways, with the start by value or by number.
fn written(g: &G, l: &L, mut ways: usize, raw: bool) -> Syntax<Nt, Tok, Er> {
    let mut b = Syntax::builder();
    for (i, (lhs, rhs)) in g.rules.iter().enumerate() {
        b = b.rule(rule_as(ways % 3, *lhs, rhs, reducer(l.clone(), i, *lhs)));
        ways /= 3;
    }
    if raw {
        b.build_raw(0)
    } else {
        b.build(Nt { n: 0, call: 7 })
    }
}
fn nt(n: usize) -> Nt {
    Nt { n, call: 7 }
}
fn tk(kind: usize) -> Tok {
    Tok { kind, id: 77 }
}
fn rule_as(way: usize, lhs: usize, rhs: &[S], f: impl Fn(&mut [Symbol<&mut Nt, &Tok, &[Tok]>]) -> Result<Nt, Er> + 'static) -> Rule<Nt, Tok, Er> {
    match way {
        0 => {
            let s: Vec<_> = rhs
                .iter()
                .map(|s| match s {
                    S::N(n) => Symbol::NonTerminal(*n),
                    S::T(t) => Symbol::Terminal(*t),
                    S::E => Symbol::Error(()),
                })
                .collect();
            Rule::new_raw(lhs, &s, f)
        }
        1 => {
            let s: Vec<Symbol<Nt, Tok, ()>> = rhs
                .iter()
                .map(|s| match s {
                    S::N(n) => Symbol::NonTerminal(nt(*n)),
                    S::T(t) => Symbol::Terminal(tk(*t)),
                    S::E => Symbol::Error(()),
                })
                .collect();
            Rule::new(nt(lhs), &s, f)
        }
        _ => {
            let mut b = Rule::<Nt, Tok, Er>::builder(nt(lhs));
            for s in rhs {
                b = match s {
                    S::N(n) => b.non_terminal(nt(*n)),
                    S::T(t) => b.terminal(tk(*t)),
                    S::E => b.error(),
                };
            }
            b.build(f)
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_forms(arg: u64) {
    let a = Arg::new(arg);
    if a.fam == 255 {
        return rules_equal(a);
    }
    let g = match grammar(a) {
        Some(g) => g,
        None => return,
    };
    let auto = g.auto();
    let ways = sx::pick(3usize.pow(g.rules.len().min(3) as u32)) * 41 % 243;
    let raw = sx::pick(2) == 1;
    let (l, m) = (log(), log());
    let (p, w) = make(&g, &Num::plain(&g), &l, false);
    let (q, v) = LR1Parser::new(written(&g, &m, ways, raw));
    sx::check(w.len() == v.len(), 220);
    sx::check(p.rules == q.rules, 221);
    let (n, kinds, toks) = tokens(&g, a.len);
    if !w.is_empty() && run(&g, &auto, n, &columns(&g, &kinds), steps(n, &g)).out == Out::Endless {
        return;
    }
    let r = go(&p, &l, &toks);
    observe(&r);
    let s = go(&q, &m, &toks);
    same(&s, &r, 222);
    sx::cover(227);
}
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
/// Two rules of any symbols: equality, order and hash follow the two sides.
fn rules_equal(a: Arg) {
    let mut side = |way: usize, len: usize| {
        let lhs = sx::val(0, u64::MAX) as usize;
        let mut rhs = Vec::new();
        for _ in 0..len {
            rhs.push(match sx::pick(3) {
                0 => S::N(sx::val(0, u64::MAX) as usize),
                1 => S::T(sx::val(0, u64::MAX) as usize),
                _ => S::E,
            });
        }
        let r = rule_as(way, lhs, &rhs, |_| Err(Er(0)));
        (lhs, rhs, r)
    };
    let (w1, w2) = (a.lo % 3, a.lo / 3 % 3);
    let x = side(w1, sx::pick(a.len + 1));
    let y = side(w2, sx::pick(a.len + 1));
    let equal = x.0 == y.0 && x.1 == y.1;
    sx::obs(equal as u64);
    sx::check((x.2 == y.2) == equal, 230);
    sx::check((y.2 == x.2) == equal, 231);
    let o = x.2.cmp(&y.2);
    sx::check((o == std::cmp::Ordering::Equal) == equal, 232);
    sx::check(y.2.cmp(&x.2) == o.reverse() && x.2.partial_cmp(&y.2) == Some(o), 233);
    if equal {
        use std::hash::Hash;
        let (mut h, mut k) = (Rec(Vec::new()), Rec(Vec::new()));
        x.2.hash(&mut h);
        y.2.hash(&mut k);
        sx::check(h.0 == k.0, 234);
        sx::cover(235);
    }
}
