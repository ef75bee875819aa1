//! The meaning of regexes, written independently of the code under test: position sets.
//!
//! A regex is an expression tree over character classes. `ends` maps a set of start positions
//! to the set of positions where a match may end; `pre` gives
//! the positions k such that the text up to k is a prefix of some match. Everything is bit
//! arithmetic on the (symbolic) characters.

/// A set of positions 0..=n of the input.
pub type Pos = Vec<bool>;
pub fn at(p: usize, n: usize) -> Pos {
    let mut v = vec![false; n + 1];
    v[p] = true;
    v
}
pub fn or(mut a: Pos, b: &Pos) -> Pos {
    for (x, y) in a.iter_mut().zip(b) {
        *x |= *y;
    }
    a
}

#[derive(Clone)]
pub enum Re {
    /// The code point, rendered as itself (or escaped where the syntax needs it).
    Lit(u32),
    /// `[lo-hi]`, rendered literally.
    Range(u32, u32),
    /// A class with an explicit rendering.
    Cls(&'static [(u32, u32)], &'static str),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    /// inner, minimum, maximum, rendering of the operator
    Rep(Box<Re>, u32, Option<u32>, &'static str),
}

pub const OPS: &[(u32, Option<u32>, &str)] = &[
    (0, Some(1), "?"),
    (0, None, "*"),
    (1, None, "+"),
    (2, Some(2), "{2}"),
    (0, Some(2), "{0,2}"),
    (1, None, "{1,}"),
    (0, None, "{0,}"),
    (2, None, "{2,}"),
    (1, Some(2), "{1,2}"),
    (1, Some(3), "{1,3}"),
    (2, Some(3), "{2,3}"),
    (0, Some(1), "{0,1}"),
    (0, Some(3), "{0,3}"),
    (2, Some(2), "{2,2}"),
    (1, Some(1), "{1}"),
    (1, Some(1), "{1,1}"),
    (0, Some(0), "{0}"),
    (0, Some(0), "{0,0}"),
    (3, Some(3), "{3}"),
    (3, None, "{3,}"),
    (2, Some(4), "{2,4}"),
    (0, None, "*?"),
    (1, None, "+?"),
    (0, Some(1), "??"),
];

impl Re {
    fn put(c: u32, out: &mut String) {
        out.push(unsafe { char::from_u32_unchecked(c) });
    }
    pub fn render(&self, out: &mut String) {
        match self {
            Re::Lit(c) => Self::put(*c, out),
            Re::Range(a, b) => {
                out.push('[');
                Self::put(*a, out);
                out.push('-');
                Self::put(*b, out);
                out.push(']');
            }
            Re::Cls(_, s) => out.push_str(s),
            Re::Cat(v) => {
                for r in v {
                    if matches!(r, Re::Alt(_)) {
                        out.push('(');
                        r.render(out);
                        out.push(')');
                    } else {
                        r.render(out);
                    }
                }
            }
            Re::Alt(v) => {
                for (i, r) in v.iter().enumerate() {
                    if i > 0 {
                        out.push('|');
                    }
                    r.render(out);
                }
            }
            Re::Rep(r, _, _, op) => {
                if matches!(**r, Re::Cat(_) | Re::Alt(_) | Re::Rep(..)) {
                    out.push('(');
                    r.render(out);
                    out.push(')');
                } else {
                    r.render(out);
                }
                out.push_str(op);
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.render(&mut s);
        s
    }
    /// Whether the class contains c, computed without branching.
    fn has(ranges: &[(u32, u32)], c: u32) -> bool {
        let mut r = false;
        for (a, b) in ranges {
            r |= (*a <= c) & (c <= *b);
        }
        r
    }
    fn step(ranges: &[(u32, u32)], inp: &[u32], starts: &Pos) -> Pos {
        let mut out = vec![false; inp.len() + 1];
        for (i, c) in inp.iter().enumerate() {
            out[i + 1] = starts[i] & Self::has(ranges, *c);
        }
        out
    }
    pub fn ends(&self, inp: &[u32], starts: &Pos) -> Pos {
        match self {
            Re::Lit(c) => Self::step(&[(*c, *c)], inp, starts),
            Re::Range(a, b) => Self::step(&[(*a, *b)], inp, starts),
            Re::Cls(r, _) => Self::step(r, inp, starts),
            Re::Cat(v) => v.iter().fold(starts.clone(), |s, r| r.ends(inp, &s)),
            Re::Alt(v) => v.iter().fold(vec![false; inp.len() + 1], |a, r| or(a, &r.ends(inp, starts))),
            Re::Rep(r, min, max, _) => {
                let mut cur = starts.clone();
                for _ in 0..*min {
                    cur = r.ends(inp, &cur);
                }
                let mut acc = cur.clone();
                for _ in 0..Self::extra(*min, *max, inp) {
                    cur = r.ends(inp, &cur);
                    acc = or(acc, &cur);
                }
                acc
            }
        }
    }
    fn extra(min: u32, max: Option<u32>, inp: &[u32]) -> usize {
        match max {
            None => inp.len(),
            Some(m) => ((m - min) as usize).min(inp.len()),
        }
    }
    /// Positions k such that the text from a start to k is a prefix of a match (all classes are
    /// non-empty, so every partial match can be completed).
    pub fn pre(&self, inp: &[u32], starts: &Pos) -> Pos {
        match self {
            Re::Lit(_) | Re::Range(..) | Re::Cls(..) => or(self.ends(inp, starts), starts),
            Re::Cat(v) => {
                let mut cur = starts.clone();
                let mut acc = starts.clone();
                for r in v {
                    acc = or(acc, &r.pre(inp, &cur));
                    cur = r.ends(inp, &cur);
                }
                acc
            }
            Re::Alt(v) => v.iter().fold(vec![false; inp.len() + 1], |a, r| or(a, &r.pre(inp, starts))),
            Re::Rep(r, min, max, _) => {
                let mut cur = starts.clone();
                let mut acc = starts.clone();
                let total = *min as usize + Self::extra(*min, *max, inp);
                for _ in 0..total {
                    acc = or(acc, &r.pre(inp, &cur));
                    cur = r.ends(inp, &cur);
                }
                acc
            }
        }
    }
    /// Does the regex match the empty string?
    pub fn nullable(&self) -> bool {
        match self {
            Re::Lit(_) | Re::Range(..) | Re::Cls(..) => false,
            Re::Cat(v) => v.iter().all(|r| r.nullable()),
            Re::Alt(v) => v.iter().any(|r| r.nullable()),
            Re::Rep(r, min, _, _) => *min == 0 || r.nullable(),
        }
    }
}

/// A parser for the few regexes of the corpora (so that a corpus entry is one string): literals,
/// escapes of punctuation, `.`, classes with ranges and negation, groups, alternation and
/// repetition operators. Written for this harness; the code under test uses regex-syntax.
pub struct Rd<'a> {
    s: &'a [char],
    i: usize,
}
fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}
pub fn read(p: &str) -> Re {
    let cs: Vec<char> = p.chars().collect();
    let mut r = Rd { s: &cs, i: 0 };
    let e = r.alt();
    assert!(r.i == cs.len(), "harness regex reader");
    e
}
impl<'a> Rd<'a> {
    fn pk(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn alt(&mut self) -> Re {
        let mut v = vec![self.cat()];
        while self.pk() == Some('|') {
            self.i += 1;
            v.push(self.cat());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Re::Alt(v)
        }
    }
    fn cat(&mut self) -> Re {
        let mut v = Vec::new();
        while let Some(c) = self.pk() {
            if c == '|' || c == ')' {
                break;
            }
            v.push(self.rep());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Re::Cat(v)
        }
    }
    fn num(&mut self) -> u32 {
        let mut n = 0;
        while let Some(c) = self.pk() {
            if let Some(d) = c.to_digit(10) {
                n = n * 10 + d;
                self.i += 1;
            } else {
                break;
            }
        }
        n
    }
    fn rep(&mut self) -> Re {
        let mut a = self.atom();
        loop {
            let (min, max) = match self.pk() {
                Some('?') => (0, Some(1)),
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('{') => {
                    self.i += 1;
                    let min = self.num();
                    let max = if self.pk() == Some(',') {
                        self.i += 1;
                        if self.pk() == Some('}') {
                            None
                        } else {
                            Some(self.num())
                        }
                    } else {
                        Some(min)
                    };
                    (min, max)
                }
                _ => return a,
            };
            self.i += 1;
            if self.pk() == Some('?') {
                self.i += 1; // lazy: same language
            }
            a = Re::Rep(Box::new(a), min, max, "");
        }
    }
    fn esc(&mut self) -> char {
        let c = self.pk().unwrap();
        self.i += 1;
        match c {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            'x' | 'u' => {
                let mut v = 0;
                assert!(self.pk() == Some('{'));
                self.i += 1;
                while self.pk() != Some('}') {
                    v = v * 16 + self.pk().unwrap().to_digit(16).unwrap();
                    self.i += 1;
                }
                self.i += 1;
                char::from_u32(v).unwrap()
            }
            c => {
                assert!(c.is_ascii_punctuation(), "harness regex reader: escape");
                c
            }
        }
    }
    fn atom(&mut self) -> Re {
        let c = self.pk().unwrap();
        self.i += 1;
        match c {
            '(' => {
                if self.pk() == Some('?') {
                    // (?:...) and (?P<name>...)
                    self.i += 1;
                    while !matches!(self.pk(), Some(':') | Some('>')) {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                let e = self.alt();
                assert!(self.pk() == Some(')'));
                self.i += 1;
                // keep a group a unit of its own
                e
            }
            '.' => Re::Cls(&[(0, 9), (11, 0xD7FF), (0xE000, 0x10FFFF)], ""),
            '[' => {
                let neg = self.pk() == Some('^');
                if neg {
                    self.i += 1;
                }
                let mut v: Vec<(u32, u32)> = Vec::new();
                while self.pk() != Some(']') {
                    let mut a = self.pk().unwrap();
                    self.i += 1;
                    if a == '\\' {
                        a = self.esc();
                    }
                    if self.pk() == Some('-') && self.s.get(self.i + 1) != Some(&']') {
                        self.i += 1;
                        let mut b = self.pk().unwrap();
                        self.i += 1;
                        if b == '\\' {
                            b = self.esc();
                        }
                        v.push((a as u32, b as u32));
                    } else {
                        v.push((a as u32, a as u32));
                    }
                }
                self.i += 1;
                if neg {
                    v.sort();
                    let mut out = Vec::new();
                    let mut at = 0u32;
                    for (a, b) in v {
                        if a > at {
                            out.push((at, a - 1));
                        }
                        at = at.max(b + 1);
                    }
                    if at <= 0x10FFFF {
                        out.push((at, 0x10FFFF));
                    }
                    v = out;
                }
                Re::Cls(leak(v), "")
            }
            '\\' => Re::Lit(self.esc() as u32),
            c => Re::Lit(c as u32),
        }
    }
}

/// The meaning of a regex-syntax expression as a position automaton; None when it uses anchors,
/// word boundaries or bytes. The flag tells whether it has an empty sub-expression.
pub fn from_hir(h: &regex_syntax::hir::Hir, empty: &mut bool) -> Option<Re> {
    use regex_syntax::hir::*;
    Some(match h.kind() {
        HirKind::Empty => {
            *empty = true;
            Re::Cat(vec![])
        }
        HirKind::Literal(Literal::Unicode(c)) => Re::Lit(*c as u32),
        HirKind::Literal(Literal::Byte(_)) => return None,
        HirKind::Class(Class::Unicode(c)) => {
            let v: Vec<(u32, u32)> = c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect();
            if v.is_empty() {
                *empty = true;
            }
            Re::Cls(leak(v), "")
        }
        HirKind::Class(Class::Bytes(_)) => return None,
        HirKind::Anchor(_) | HirKind::WordBoundary(_) => return None,
        HirKind::Repetition(r) => {
            let i = Box::new(from_hir(&r.hir, empty)?);
            let (a, b) = match &r.kind {
                RepetitionKind::ZeroOrOne => (0, Some(1)),
                RepetitionKind::ZeroOrMore => (0, None),
                RepetitionKind::OneOrMore => (1, None),
                RepetitionKind::Range(RepetitionRange::Exactly(n)) => (*n, Some(*n)),
                RepetitionKind::Range(RepetitionRange::AtLeast(n)) => (*n, None),
                RepetitionKind::Range(RepetitionRange::Bounded(n, m)) => (*n, Some(*m)),
            };
            Re::Rep(i, a, b, "")
        }
        HirKind::Group(g) => from_hir(&g.hir, empty)?,
        HirKind::Concat(v) => {
            let mut o = Vec::new();
            for h in v {
                o.push(from_hir(h, empty)?);
            }
            Re::Cat(o)
        }
        HirKind::Alternation(v) => {
            let mut o = Vec::new();
            for h in v {
                o.push(from_hir(h, empty)?);
            }
            Re::Alt(o)
        }
    })
}

/// The position automaton (Glushkov) of a regex: for deciding whether two regexes share a string.
pub struct Nfa {
    pub cls: Vec<Vec<(u32, u32)>>,
    pub first: Vec<bool>,
    pub last: Vec<bool>,
    pub follow: Vec<Vec<bool>>,
    pub null: bool,
}
struct Frag {
    first: Vec<usize>,
    last: Vec<usize>,
    null: bool,
}
pub fn glushkov(r: &Re) -> Nfa {
    let mut cls = Vec::new();
    let mut follow: Vec<Vec<usize>> = Vec::new();
    let f = frag(r, &mut cls, &mut follow);
    let n = cls.len();
    let bits = |v: &[usize]| {
        let mut b = vec![false; n];
        for i in v {
            b[*i] = true;
        }
        b
    };
    Nfa { first: bits(&f.first), last: bits(&f.last), follow: follow.iter().map(|v| bits(v)).collect(), null: f.null, cls }
}
fn cat(a: Frag, b: Frag, follow: &mut [Vec<usize>]) -> Frag {
    for l in &a.last {
        follow[*l].extend(b.first.iter());
    }
    let mut first = a.first;
    if a.null {
        first.extend(b.first.iter());
    }
    let mut last = b.last;
    if b.null {
        last.extend(a.last.iter());
    }
    Frag { first, last, null: a.null && b.null }
}
fn frag(r: &Re, cls: &mut Vec<Vec<(u32, u32)>>, follow: &mut Vec<Vec<usize>>) -> Frag {
    let mut leaf = |v: Vec<(u32, u32)>| {
        cls.push(v);
        follow.push(Vec::new());
        Frag { first: vec![cls.len() - 1], last: vec![cls.len() - 1], null: false }
    };
    match r {
        Re::Lit(c) => leaf(vec![(*c, *c)]),
        Re::Range(a, b) => leaf(vec![(*a, *b)]),
        Re::Cls(v, _) => leaf(v.to_vec()),
        Re::Cat(v) => {
            let mut acc = Frag { first: vec![], last: vec![], null: true };
            for r in v {
                let f = frag(r, cls, follow);
                acc = cat(acc, f, follow);
            }
            acc
        }
        Re::Alt(v) => {
            let mut acc = Frag { first: vec![], last: vec![], null: false };
            for r in v {
                let f = frag(r, cls, follow);
                acc.first.extend(f.first);
                acc.last.extend(f.last);
                acc.null |= f.null;
            }
            acc
        }
        Re::Rep(r, min, max, _) => {
            let mut acc = Frag { first: vec![], last: vec![], null: true };
            let n = max.unwrap_or((*min).max(1));
            for i in 0..n {
                let mut f = frag(r, cls, follow);
                if i >= *min {
                    f.null = true;
                }
                if max.is_none() && i + 1 == n {
                    for l in f.last.clone() {
                        follow[l].extend(f.first.iter());
                    }
                }
                acc = cat(acc, f, follow);
            }
            acc
        }
    }
}
fn meet(a: &[(u32, u32)], b: &[(u32, u32)]) -> bool {
    let mut r = false;
    for x in a {
        for y in b {
            r |= (x.0 <= y.1) & (y.0 <= x.1);
        }
    }
    r
}
/// Is there a string (possibly empty) that both match in full?
pub fn share(a: &Nfa, b: &Nfa) -> bool {
    if a.null && b.null {
        return true;
    }
    let (n, m) = (a.cls.len(), b.cls.len());
    let mut seen = vec![false; n * m];
    let mut q = Vec::new();
    for i in 0..n {
        for j in 0..m {
            if a.first[i] && b.first[j] && meet(&a.cls[i], &b.cls[j]) {
                seen[i * m + j] = true;
                q.push((i, j));
            }
        }
    }
    while let Some((i, j)) = q.pop() {
        if a.last[i] && b.last[j] {
            return true;
        }
        for k in 0..n {
            if !a.follow[i][k] {
                continue;
            }
            for l in 0..m {
                if b.follow[j][l] && !seen[k * m + l] && meet(&a.cls[k], &b.cls[l]) {
                    seen[k * m + l] = true;
                    q.push((k, l));
                }
            }
        }
    }
    false
}
