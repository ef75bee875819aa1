//! Tokenizer harnesses (C01-C07, C09, C10, C21).
use crate::re::{at, or, read, Pos, Re, OPS};
use crate::sx;
use std::cell::Cell;
use std::rc::Rc;
use tokenizer::{DFATokenizer, Tokenize};

pub struct Tk {
    pub pat: usize,
    pub text: String,
    pub items: Vec<(u32, usize)>,
}

/// What a job asks for.
#[derive(Clone, Copy)]
pub struct Arg {
    pub prop: u32,
    pub fam: u32,
    pub len: usize,
    pub lo: usize,
    pub cnt: usize,
}
impl Arg {
    pub fn new(a: u64) -> Arg {
        Arg { prop: (a & 0xff) as u32, fam: ((a >> 8) & 0xff) as u32, len: ((a >> 16) & 0xff) as usize, lo: ((a >> 24) & 0xffff) as usize, cnt: ((a >> 40) & 0xffff) as usize }
    }
}

// ---------------------------------------------------------------- pattern families

thread_local! {
    /// Leaves are fixed letters, numbered from here, instead of symbolic ones.
    static FIXED: Cell<Option<u32>> = const { Cell::new(None) };
}
fn fixed() -> Option<u32> {
    FIXED.with(|f| {
        let k = f.get()?;
        f.set(Some(k + 1));
        Some(k)
    })
}
fn lit() -> Re {
    if let Some(k) = fixed() {
        return Re::Lit('b' as u32 + k * k % 3);
    }
    Re::Lit(sx::val('b' as u64, 'y' as u64) as u32)
}
fn cls() -> Re {
    if let Some(k) = fixed() {
        let a = 'b' as u32 + k % 2;
        return Re::Range(a, a + 1 + k % 3);
    }
    let a = sx::val('b' as u64, 'y' as u64) as u32;
    let b = sx::val('b' as u64, 'y' as u64) as u32;
    sx::assume(a <= b);
    Re::Range(a, b)
}
fn un(o: usize, r: Re) -> Re {
    let (a, b, s) = OPS[o];
    Re::Rep(Box::new(r), a, b, s)
}
fn bi(o: usize, a: Re, b: Re) -> Re {
    if o == 0 {
        Re::Cat(vec![a, b])
    } else {
        Re::Alt(vec![a, b])
    }
}
/// Regex skeletons with symbolic characters at the leaves, by number; None past the end.
pub fn skel(mut n: usize) -> Option<Re> {
    let k = OPS.len();
    macro_rules! group {
        ($size:expr, $e:expr) => {
            let size = $size;
            if n < size {
                #[allow(clippy::redundant_closure_call)]
                return Some($e(n));
            }
            n -= size;
        };
    }
    group!(2, |n| if n == 0 { lit() } else { cls() });
    group!(k * 2, |n: usize| un(n / 2, if n % 2 == 0 { lit() } else { cls() }));
    group!(8, |n: usize| bi(n & 1, if n & 2 == 0 { lit() } else { cls() }, if n & 4 == 0 { lit() } else { cls() }));
    group!(k * 2, |n: usize| un(n / 2, bi(n % 2, lit(), lit())));
    group!(k * 4, |n: usize| {
        let o = n / 4;
        if n & 1 == 0 {
            bi((n >> 1) & 1, un(o, lit()), lit())
        } else {
            bi((n >> 1) & 1, lit(), un(o, lit()))
        }
    });
    group!(k * k, |n: usize| un(n / k, un(n % k, lit())));
    group!(k * k * 4, |n: usize| {
        let m = n / 4;
        let b = (n >> 1) & 1;
        let i = if n & 1 == 0 { bi(b, un(m % k, lit()), lit()) } else { bi(b, lit(), un(m % k, lit())) };
        un(m / k, i)
    });
    group!(k * k * 2, |n: usize| {
        let m = n / 2;
        bi(n % 2, un(m / k, lit()), un(m % k, lit()))
    });
    // a compound with something after or before it, representative operators
    let q = 12;
    group!(q * q * 8, |n: usize| {
        let m = n / 8;
        let b = (n >> 1) & 1;
        let i = if n & 1 == 0 { bi(b, un(m % q, lit()), lit()) } else { bi(b, lit(), un(m % q, lit())) };
        let u = un(m / q, i);
        if n & 4 == 0 {
            bi(0, u, lit())
        } else {
            bi(0, lit(), u)
        }
    });
    let q = 10;
    group!(q * q * q * 2, |n: usize| {
        let m = n / 2;
        un(m / q / q, bi(n % 2, un(m / q % q, lit()), un(m % q, lit())))
    });
    group!(q * q * q, |n: usize| un(n / q / q, un(n / q % q, un(n % q, lit()))));
    group!(4, |n: usize| bi(n & 1, bi(n >> 1, lit(), lit()), lit()));
    let _ = n;
    None
}

/// Simple patterns combined in pairs and triples.
pub const SIMPLE: &[&str] = &[
    "a", "b", "ab", "aa", "ba", "a*", "a+", "b+", "[ab]", "[a-c]", "[b-d]+", ".", "a|b", "a|bc", "abc", "ab?", "ab*", "(ab)+", "(ab)*c", "[^a]", "[^b]*", "a.", ".b", "a{2}", "a{1,2}", "a{2,}", "b?a", "c", "(a|b)*c", "ca*",
];

/// Realistic and adversarial token sets. Each entry: patterns, domain of the input characters.
pub struct Set {
    pub pats: &'static [&'static str],
    pub dom: &'static [(u32, u32)],
    pub prefixes: &'static [&'static str],
}
const ASCII: &[(u32, u32)] = &[(0, 0x7f)];
const UNI: &[(u32, u32)] = &[(0, 0x10FFFF)];
const ABC: &[(u32, u32)] = &[('a' as u32, 'd' as u32)];
pub const SETS: &[Set] = &[
    Set { pats: &["[a-zA-Z_][a-zA-Z0-9_]*", "0([xX][0-9a-fA-F]+|[dD][0-9]+|[oO][0-7]+|[bB][01]+)|[1-9][0-9]*|0", ".|\n"], dom: ASCII, prefixes: &["", "0", "0x", "0b1", "a_"] },
    Set { pats: &["if", "int", "[a-z]+", "[0-9]+", "==", "=", " +"], dom: ASCII, prefixes: &["", "i", "in", "int", "="] },
    Set { pats: &["[a-z]+", "if", "else"], dom: ASCII, prefixes: &["", "els"] },
    Set { pats: &["\"([^\"\\\\]|\\\\.)*\"", "[^\"]", "\""], dom: ASCII, prefixes: &["", "\"", "\"\\"] },
    Set { pats: &["/\\*([^*]|\\*+[^*/])*\\*+/", "/", "\\*", "[a-z]+"], dom: ASCII, prefixes: &["", "/*", "/**", "/* *"] },
    Set { pats: &["([0-9]+|[0-9]+\\.[0-9]*|[0-9]*\\.[0-9]+)([eE][\\+\\-]?[0-9]+)?", "\\+", "\\-", "\\.", "[a-z]"], dom: ASCII, prefixes: &["", "1", "1.", "1e", "1e+", "."] },
    Set { pats: &["<", "<=", "<<", "<<=", ">", ">=", "=", "=="], dom: &[('<' as u32, '>' as u32)], prefixes: &["", "<<"] },
    Set { pats: &["a", "ab*c", "b", "bb"], dom: ABC, prefixes: &["", "abb"] },
    Set { pats: &["a(bcd)*", "[a-d]", "bcda"], dom: ABC, prefixes: &["", "abcdbc"] },
    Set { pats: &["a[0-5]|b[0-9]", "[a-b]", "[0-9]"], dom: &[('0' as u32, '9' as u32), ('a' as u32, 'c' as u32)], prefixes: &[""] },
    Set { pats: &["[α-ωa-z]+", "[あ-ん]+", "[\\x{4E00}-\\x{9FFF}]", ".|\n"], dom: UNI, prefixes: &[""] },
    Set { pats: &["\\x{10FFFF}", "[\\x{10000}-\\x{10FFFF}]", "[\\x{E000}-\\x{FFFF}]", "\\x{0}"], dom: UNI, prefixes: &[""] },
    Set { pats: &["[^a-z]", "[^0-9]+x"], dom: UNI, prefixes: &[""] },
    Set { pats: &["é", "[à-ü]", "\\x{7F}|\\x{80}", "[\\x{7FF}-\\x{800}]+"], dom: UNI, prefixes: &[""] },
    Set { pats: &["a{3}", "a{5,}", "a", "b{2,4}"], dom: ABC, prefixes: &["", "aaa", "bb"] },
    Set { pats: &["(a|b)*abb", "a", "b"], dom: &[('a' as u32, 'c' as u32)], prefixes: &["", "ab"] },
    Set { pats: &["(a?b?)*c", "a+b", "."], dom: ABC, prefixes: &["", "abab"] },
    Set { pats: &["((a|bc)+d){2}", "[a-d]"], dom: ABC, prefixes: &["", "abcd", "ad"] },
    Set { pats: &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "[a-p]", "[m-z]+"], dom: &[('a' as u32, 'z' as u32)], prefixes: &[""] },
    Set { pats: &["for", "foreach", "fore", "[a-z]"], dom: &[('a' as u32, 'z' as u32)], prefixes: &["", "fo", "forea"] },
    Set { pats: &["--", "-->", "-", "<!--"], dom: &[('!' as u32, '!' as u32), ('-' as u32, '-' as u32), ('<' as u32, '>' as u32)], prefixes: &["", "<!-"] },
    Set { pats: &["(a{2}){2}b?", "(ab?){1,3}", "b{0,2}c"], dom: ABC, prefixes: &["", "aa"] },
    Set { pats: &["x*", "y?z", "(xy)*"], dom: &[('w' as u32, 'z' as u32)], prefixes: &["", "xy"] },
    Set { pats: &["(?:ab|a)(?P<n>c|bcd)", "d", "b"], dom: ABC, prefixes: &["", "ab"] },
    Set { pats: &["[ab]", "a", "b", "c", "[c-d]"], dom: ABC, prefixes: &["", "c"] },
    Set { pats: &["[a-z]+", "if", "else", "while", "[0-9]+", "let", "x1"], dom: ASCII, prefixes: &["", "x", "if"] },
    Set { pats: &["\\+", "-", "\\*", "/", "=", "==", "!=", "<", ">", "<=", ">=", "&&", "\\|\\|", "!", "\\(", "\\)", ";", "&", "=>", "\\?"], dom: ASCII, prefixes: &["", "=", "&&|"] },
    Set { pats: &["abcabcabd", "abc", "[a-d]", "bcabca"], dom: ABC, prefixes: &["abcabc", "abcabcab", "abcabca"] },
    Set { pats: &["a{12}b|a{10}", "a{11}c", "a"], dom: ABC, prefixes: &["aaaaaaaaa", "aaaaaaaaaaa"] },
    Set { pats: &["[iI][fF]", "[a-z]+", "[A-Z]+", ".|é"], dom: ASCII, prefixes: &["", "i", "I"] },
    Set { pats: &["[0-9]+", "[+-]?[0-9]+\\.[0-9]*", "[ \t\n]+"], dom: ASCII, prefixes: &["", "1.", "+"] },
    Set { pats: &["[0-9]+(\\.[0-9]+){3}", "[0-9]+", "\\."], dom: ASCII, prefixes: &["1.2.", "1.2.3.", "1.2.3"] },
    Set { pats: &["--[^\n]*\n", "-+>?", "[^-\n]+", "\n"], dom: ASCII, prefixes: &["", "--", "--a"] },
];

/// Any pattern text of n printable characters, in one of a few surroundings.
pub fn free_pattern(n: usize, wrap: usize) -> String {
    let (a, b) = [("", ""), ("x", ""), ("(", ")*"), ("", "{2}y"), ("[", "]")][wrap];
    let mut s = String::from(a);
    for _ in 0..n {
        let c = sx::ch(' ', '~');
        if n > 2 {
            // escapes (with the large Unicode classes) are part of the two-character space
            sx::assume(c != '\\');
        }
        s.push(c);
    }
    s.push_str(b);
    s
}

pub struct Case {
    pub re: Vec<Re>,
    pub text: Vec<String>,
    pub input: Vec<u32>,
}

fn char_in(dom: &[(u32, u32)]) -> u32 {
    let lo = dom[0].0;
    let hi = dom[dom.len() - 1].1;
    let v = sx::val(lo as u64, hi as u64) as u32;
    if dom.len() > 1 {
        let mut ok = false;
        for (a, b) in dom {
            ok |= (*a <= v) & (v <= *b);
        }
        sx::assume(ok);
    }
    if lo < 0xD800 && hi > 0xDFFF {
        sx::assume((v < 0xD800) | (v > 0xDFFF));
    }
    v
}
fn inputs(n: usize, dom: &[(u32, u32)], out: &mut Vec<u32>) {
    for _ in 0..n {
        out.push(char_in(dom));
    }
}

/// The patterns (and input) of a job. Family 0: skeletons lo..lo+cnt; 1: pairs of SIMPLE;
/// 2: triples; 3: SETS (lo = set, cnt = prefix); 4: overlapping symbolic classes;
/// 5: any pattern text; 6: skeletons lo..lo+cnt with fixed letters.
pub fn case(a: Arg) -> Option<Case> {
    let mut input = Vec::new();
    match a.fam {
        0 => {
            let re = skel(a.lo + sx::pick(a.cnt))?;
            let text = vec![re.text()];
            let n = sx::pick(a.len + 1);
            inputs(n, &[('a' as u32, 'z' as u32)], &mut input);
            Some(Case { re: vec![re], text, input })
        }
        1 | 2 => {
            let k = SIMPLE.len();
            let i = a.lo + sx::pick(a.cnt);
            let ix = if a.fam == 1 { vec![i % k, i / k % k] } else { vec![i % k, i * 7 / k % k, (i * 31 + i / k) % k] };
            let n = sx::pick(a.len + 1);
            inputs(n, &[('a' as u32, 'e' as u32)], &mut input);
            Some(Case { re: ix.iter().map(|i| read(SIMPLE[*i])).collect(), text: ix.iter().map(|i| SIMPLE[*i].to_string()).collect(), input })
        }
        3 => {
            let s = SETS.get(a.lo)?;
            let p = s.prefixes.get(a.cnt)?;
            input.extend(p.chars().map(|c| c as u32));
            let n = sx::pick(a.len + 1);
            inputs(n, s.dom, &mut input);
            Some(Case { re: s.pats.iter().map(|p| read(p)).collect(), text: s.pats.iter().map(|p| p.to_string()).collect(), input })
        }
        6 => {
            let i = a.lo + sx::pick(a.cnt);
            FIXED.with(|f| f.set(Some(i as u32 % 5)));
            let re = skel(i);
            FIXED.with(|f| f.set(None));
            let re = re?;
            let text = vec![re.text()];
            let n = sx::pick(a.len + 1);
            inputs(n, &[('a' as u32, 'f' as u32)], &mut input);
            Some(Case { re: vec![re], text, input })
        }
        5 => {
            // lo: number of symbolic characters of the pattern text; cnt: a wrapping
            let text = free_pattern(a.lo, a.cnt);
            let hir = match regex_syntax::Parser::new().parse(&text) {
                Ok(h) => h,
                Err(_) => return None,
            };
            let mut empty = false;
            let re = crate::re::from_hir(&hir, &mut empty)?;
            if empty {
                return None;
            }
            let n = sx::pick(a.len + 1);
            inputs(n, ASCII, &mut input);
            Some(Case { re: vec![re], text: vec![text], input })
        }
        _ => {
            // lo: 0 = two patterns [a-b] [c-d]; 1 = three; 2 = [a-b][c-d] | [e-f] in one pattern with a star
            let re = match a.lo {
                0 => vec![cls(), cls()],
                1 => vec![cls(), cls(), cls()],
                2 => vec![Re::Alt(vec![Re::Cat(vec![cls(), cls()]), cls()])],
                3 => vec![Re::Cat(vec![cls(), un(1, cls())]), lit()],
                4 => vec![un(2, Re::Alt(vec![cls(), lit()])), Re::Cat(vec![lit(), cls()])],
                5 => vec![Re::Alt(vec![Re::Cat(vec![lit(), cls()]), Re::Cat(vec![lit(), cls()])])],
                6 => vec![cls(), cls(), cls(), cls()],
                _ => return None,
            };
            let text = re.iter().map(|r| r.text()).collect();
            let n = sx::pick(a.len + 1);
            inputs(n, &[('a' as u32, 'z' as u32)], &mut input);
            Some(Case { re, text, input })
        }
    }
}

// ---------------------------------------------------------------- driving the code

pub fn build(text: &[String]) -> Result<(DFATokenizer<Tk, (u32, usize)>, Vec<String>), ()> {
    build_w(text, false)
}
pub fn build_w(text: &[String], warn: bool) -> Result<(DFATokenizer<Tk, (u32, usize)>, Vec<String>), ()> {
    let mut b = DFATokenizer::<Tk, (u32, usize)>::builder();
    for (i, p) in text.iter().enumerate() {
        b = b.pattern(p, move |s, items| Tk { pat: i, text: s.to_string(), items });
    }
    match b.build() {
        Ok((t, w)) => Ok((t, if warn { w.iter().map(|w| format!("{:?}", w)).collect() } else { Vec::new() })),
        Err(_) => Err(()),
    }
}

pub struct Source<'a> {
    pub input: &'a [u32],
    pub at: Rc<Cell<usize>>,
}
impl<'a> Iterator for Source<'a> {
    type Item = (u32, usize);
    fn next(&mut self) -> Option<(u32, usize)> {
        let i = self.at.get();
        if i < self.input.len() {
            self.at.set(i + 1);
            Some((self.input[i] + 1, i))
        } else {
            None
        }
    }
}
/// The items carry the code point plus one: the mapping has to be applied.
pub fn unmap(x: &(u32, usize)) -> char {
    unsafe { char::from_u32_unchecked(x.0 - 1) }
}
pub fn same_text(s: &str, cs: &[u32]) -> bool {
    let mut n = 0;
    for c in s.chars() {
        if n >= cs.len() {
            return false;
        }
        if c as u32 != cs[n] {
            return false;
        }
        n += 1;
    }
    n == cs.len()
}

/// For each pattern, and for all together: the positions where a non-empty match from p ends.
pub fn expected(re: &[Re], inp: &[u32], p: usize) -> (Vec<Pos>, Pos) {
    let n = inp.len();
    let mut all = vec![false; n + 1];
    let m: Vec<Pos> = re
        .iter()
        .map(|r| {
            let mut e = r.ends(inp, &at(p, n));
            e[p] = false;
            for (x, y) in all.iter_mut().zip(&e) {
                *x |= *y;
            }
            e
        })
        .collect();
    (m, all)
}
fn none(v: &[bool]) -> bool {
    let mut r = true;
    for x in v {
        r &= !*x;
    }
    r
}

/// Tokenize one case and check what the property asks for.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_tok(arg: u64) {
    let a = Arg::new(arg);
    let c = match case(a) {
        Some(c) => c,
        None => return,
    };
    let (t, _) = match build(&c.text) {
        Ok(t) => t,
        Err(()) => {
            sx::check(false, 50);
            return;
        }
    };
    let n = c.input.len();
    let pos = Rc::new(Cell::new(0));
    let src = Source { input: &c.input, at: pos.clone() };
    let mut it = src.tokenize_with(&t, unmap);
    let mut p = 0usize;
    let mut count = 0;
    loop {
        let before = pos.get();
        let tk = it.next();
        let pulled = pos.get();
        let tk = match tk {
            None => {
                if a.prop == 4 || a.prop == 1 {
                    let (_, all) = expected(&c.re, &c.input, p);
                    sx::check(none(&all), 41);
                    if p < n {
                        sx::cover(41);
                    }
                }
                break;
            }
            Some(tk) => tk,
        };
        let l = tk.items.len();
        sx::obs(tk.pat as u64);
        sx::obs(l as u64);
        count += 1;
        if a.prop == 4 {
            sx::check(l > 0, 42);
            sx::check(count <= n, 43);
        }
        if count > n {
            break; // reported under C04 only
        }
        let e = p + l;
        if a.prop == 3 {
            sx::check(e <= n, 31);
            for (k, it) in tk.items.iter().enumerate() {
                sx::check(it.1 == p + k, 32);
                sx::check(it.0 == c.input[p + k] + 1, 33);
            }
            sx::check(same_text(&tk.text, &c.input[p..e]), 34);
            if pulled > e {
                sx::cover(35);
            }
        }
        if e > n {
            break;
        }
        if a.prop == 1 || a.prop == 2 {
            // the token is decided by its text: compare in characters
            let (m, all) = expected(&c.re, &c.input, p);
            if a.prop == 1 {
                sx::check(same_text(&tk.text, &c.input[p..e]), 11);
                sx::check(all[e] & none(&all[e + 1..]), 12);
            } else {
                let mut first = c.re.len();
                let mut others = 0;
                for (i, b) in m.iter().enumerate().rev() {
                    let here = b[e];
                    if here {
                        first = i;
                        others += 1;
                    }
                }
                sx::check(tk.pat < c.re.len() && m[tk.pat][e], 21);
                sx::check(tk.pat == first, 22);
                if others > 1 {
                    sx::cover(23);
                }
            }
        }
        if a.prop == 10 {
            let v = c.re.iter().fold(vec![false; n + 1], |a, r| or(a, &r.pre(&c.input, &at(p, n))));
            sx::check(pulled <= n, 101);
            sx::check(pulled == before || v[pulled - 1], 102);
            if pulled > before && pulled < n {
                sx::cover(103);
            }
        }
        p = e;
    }
    sx::cover(1);
}

// ---------------------------------------------------------------- C05: outcome of building

pub const BAD: &[&str] = &["^", "$", "\\b", "\\B", "\\A", "\\z", "(?m)^", "(?m)$", "(?-u:\\w)", "(?-u:[a-c])", "(?-u:\\b)"];
pub const BROKEN: &[&str] = &["(", ")", "[", "[a", "*", "+a", "?", "a{2,1}", "[z-a]", "\\", "(?P<n>a", "a{", "a{1", "\\q", "(?z)", "\\p{Foo}", "a{99999999999}", "(?P<n>a)(?P<n>b)", "\\xZZ", "\\u{110000}", "a|*", "(?", "(?-u:\\xFF)", "(?i", "[^", "a)", "(|", "\\8"];
const CTX: &[(&str, &str)] = &[("", ""), ("a", ""), ("", "a"), ("a|", ""), ("", "|a"), ("(", ")"), ("(a|", ")?"), ("(a", "){0}"), ("(", ")*"), ("((b", "){2,3}c)+"), ("(", "){0,2}"), ("(x(", "){2,}y){1,}"), ("(?:", "){3}"), ("a(b|(c", "|d))")];

/// Any pattern set: building gives a tokenizer or an error as the patterns deserve.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_outcome(arg: u64) {
    let a = Arg::new(arg);
    let mut pats: Vec<String> = Vec::new();
    let good: bool;
    match a.fam {
        // an unsupported construct in every context, at every place of the pattern list
        0 => {
            let b = BAD[a.lo];
            let (x, y) = CTX[sx::pick(CTX.len())];
            let at = sx::pick(3);
            for i in 0..3 {
                pats.push(if i == at { format!("{}{}{}", x, b, y) } else { SIMPLE[i * 5].to_string() });
            }
            good = false;
        }
        1 => {
            let b = BROKEN[a.lo];
            let at = sx::pick(3);
            for i in 0..3 {
                pats.push(if i == at { b.to_string() } else { SIMPLE[i * 5].to_string() });
            }
            good = false;
        }
        // the same contexts around supported constructs
        2 => {
            let b = SIMPLE[a.lo];
            let (x, y) = CTX[sx::pick(CTX.len())];
            pats.push(format!("{}{}{}", x, b, y));
            good = true;
        }
        3 => {
            pats = SETS[a.lo].pats.iter().map(|p| p.to_string()).collect();
            good = true;
        }
        4 => {
            good = true; // no pattern at all
        }
        // any text of lo printable characters
        5 => {
            let p = free_pattern(a.lo, a.cnt);
            good = match regex_syntax::Parser::new().parse(&p) {
                Ok(h) => crate::re::from_hir(&h, &mut false).is_some(),
                Err(_) => false,
            };
            pats.push(p);
        }
        // any non-ASCII character, alone and in a class
        6 => {
            let c = char_in(UNI);
            sx::assume(c > 0x7f);
            let d = char_in(UNI);
            sx::assume((d > 0x7f) & (c <= d));
            pats.push(if sx::pick(2) == 0 { Re::Lit(c).text() } else { Re::Range(c, d).text() });
            good = true;
        }
        // skeletons
        _ => {
            let re = match skel(a.lo + sx::pick(a.cnt)) {
                Some(r) => r,
                None => return,
            };
            pats.push(re.text());
            good = true;
        }
    }
    let r = build(&pats);
    sx::obs(r.is_ok() as u64);
    sx::check(r.is_ok() == good, 51);
    sx::cover(if good { 52 } else { 53 });
    if let Ok((t, _)) = r {
        // a built tokenizer is usable
        let it = "a".chars().map(|c| (c as u32 + 1, 0usize)).tokenize_with(&t, unmap).take(2).count();
        sx::check(it <= 1 || pats.len() > 9, 54);
    }
}

// ---------------------------------------------------------------- C06: overlap warnings

pub fn numbers(s: &str) -> Vec<usize> {
    let mut v = Vec::new();
    let mut cur: Option<usize> = None;
    for b in s.bytes() {
        if b.is_ascii_digit() {
            cur = Some(cur.unwrap_or(0) * 10 + (b - b'0') as usize);
        } else if let Some(n) = cur.take() {
            v.push(n);
        }
    }
    v.extend(cur);
    v
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_warn(arg: u64) {
    let a = Arg::new(arg);
    let c = match case(a) {
        Some(c) => c,
        None => return,
    };
    let (_t, w) = match build_w(&c.text, true) {
        Ok(t) => t,
        Err(()) => {
            sx::check(false, 60);
            return;
        }
    };
    let k = c.re.len();
    let nfa: Vec<_> = c.re.iter().map(crate::re::glushkov).collect();
    let mut named = vec![false; k];
    for s in &w {
        let v = numbers(s);
        sx::check(v.len() >= 2, 61);
        let (x, y) = (v[v.len() - 2], v[v.len() - 1]);
        sx::check(x < k && y < k && x != y, 62);
        sx::check(crate::re::share(&nfa[x], &nfa[y]), 63);
        named[x] = true;
        named[y] = true;
        sx::cover(64);
    }
    sx::obs(w.len() as u64);
    // every string both of two patterns match names the one that cannot win on it
    let n = c.input.len();
    let full: Vec<bool> = c.re.iter().map(|r| r.ends(&c.input, &at(0, n))[n]).collect();
    for j in 0..k {
        for i in 0..j {
            sx::check(!(full[i] & full[j]) | named[j], 65);
        }
    }
    // and with every pair that shares any string at all
    let mut any = false;
    for j in 0..k {
        for i in 0..j {
            if !named[j] {
                sx::check(!crate::re::share(&nfa[i], &nfa[j]), 66);
            }
            any |= named[j];
        }
    }
    if !any {
        sx::cover(67);
        sx::check(w.is_empty(), 68);
    }
}

// ---------------------------------------------------------------- C07: the table

/// Insert into a sorted list, by branches: the library's sort selects instead.
fn put(v: &mut Vec<u32>, x: u32) {
    let mut i = v.len();
    while i > 0 && v[i - 1] >= x {
        if v[i - 1] == x {
            return;
        }
        i -= 1;
    }
    v.insert(i, x);
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_table(arg: u64) {
    let a = Arg::new(arg);
    let c = match case(a) {
        Some(c) => c,
        None => return,
    };
    let (t, _) = match build(&c.text) {
        Ok(t) => t,
        Err(()) => {
            sx::check(false, 70);
            return;
        }
    };
    let n = t.goto.len();
    sx::obs(n as u64);
    sx::check(t.begin < n, 71);
    // every character has at most one transition out of every state: one symbolic character
    let x = sx::val(0, 0x10FFFF) as u32;
    let mut points: Vec<u32> = vec![0];
    for m in &t.goto {
        let mut hits = 0u32;
        let mut prev: Option<(u32, u32, usize)> = None;
        for (r, to) in m {
            let (s, e) = (r.range.start, r.range.end);
            sx::check(s < e, 72);
            sx::check(e <= 0x110000, 73);
            sx::check(*to < n, 74);
            if m.len() <= 8 {
                hits += ((s <= x) & (x < e)) as u32;
            }
            if let Some((_, pe, pt)) = prev {
                sx::check(pe <= s, 75);
                sx::check((pe < s) | (pt != *to), 76);
            }
            prev = Some((s, e, *to));
            put(&mut points, s);
            put(&mut points, e);
        }
        sx::check(hits <= 1, 77);
    }
    for (s, p) in &t.end {
        sx::check(*s < n && *p < c.re.len(), 78);
    }
    // states that accept nothing of their own are fine, but each must be reachable ...
    let mut seen = vec![false; n];
    let mut q = vec![t.begin];
    seen[t.begin] = true;
    while let Some(s) = q.pop() {
        for to in t.goto[s].values() {
            if !seen[*to] {
                seen[*to] = true;
                q.push(*to);
            }
        }
    }
    sx::check(seen.iter().all(|b| *b), 79);
    // ... and different from every other: refine on one representative per elementary interval
    let delta: Vec<Vec<usize>> = t
        .goto
        .iter()
        .map(|m| {
            let rs: Vec<(u32, u32, usize)> = m.iter().map(|(r, to)| (r.range.start, r.range.end, *to)).collect();
            let mut i = 0;
            points
                .iter()
                .map(|p| {
                    while i < rs.len() && rs[i].1 <= *p {
                        i += 1;
                    }
                    if i < rs.len() && rs[i].0 <= *p {
                        rs[i].2 + 1
                    } else {
                        0
                    }
                })
                .collect()
        })
        .collect();
    let mut class: Vec<usize> = (0..n).map(|s| t.end.get(&s).map_or(0, |p| p + 1)).collect();
    loop {
        let mut next: Vec<usize> = Vec::with_capacity(n);
        for s in 0..n {
            let mut k = s;
            for u in 0..s {
                if class[u] == class[s] && (0..points.len()).all(|p| (delta[u][p] == 0) == (delta[s][p] == 0) && (delta[u][p] == 0 || class[delta[u][p] - 1] == class[delta[s][p] - 1])) {
                    k = next[u];
                    break;
                }
            }
            next.push(k);
        }
        let mut a: Vec<usize> = class.clone();
        a.sort();
        a.dedup();
        let mut b = next.clone();
        b.sort();
        b.dedup();
        let done = a.len() == b.len();
        class = next;
        if done {
            sx::check(b.len() == n, 80);
            break;
        }
    }
    if n > 1 {
        sx::cover(81);
    }
    if n > 3 {
        sx::cover(82);
    }
}

// ---------------------------------------------------------------- C09: ways of driving it

type Out = Vec<(usize, String)>;
fn drive<T: Iterator<Item = (usize, String)>>(it: T, cap: usize) -> Out {
    it.take(cap).collect()
}
fn by_char(text: &[String]) -> Option<DFATokenizer<(usize, String), char>> {
    let mut b = DFATokenizer::<(usize, String), char>::builder();
    for (i, p) in text.iter().enumerate() {
        b = b.pattern(p, move |s, _| (i, s.to_string()));
    }
    b.build().ok().map(|x| x.0)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_drive(arg: u64) {
    let a = Arg::new(arg);
    let c = match case(a) {
        Some(c) => c,
        None => return,
    };
    let n = c.input.len();
    let chars: Vec<char> = c.input.iter().map(|c| unsafe { char::from_u32_unchecked(*c) }).collect();
    let cap = n + 1;
    // built before anything is known of the input: once for all inputs
    let t = by_char(&c.text).unwrap();
    let v = by_char(&c.text).unwrap();
    let (u, _) = match build(&c.text) {
        Ok(u) => u,
        Err(()) => return sx::check(false, 90),
    };
    // alone, by reference
    let one = drive(chars.iter().cloned().tokenize(&t), cap);
    for (p, s) in &one {
        sx::obs(*p as u64);
        sx::obs(s.len() as u64);
    }
    // again, by reference: the tokenizer is unchanged
    sx::check(drive(chars.iter().cloned().tokenize(&t), cap) == one, 91);
    // with a mapping, over items that are not characters
    let items: Vec<(u32, usize)> = c.input.iter().enumerate().map(|(i, c)| (*c + 1, i)).collect();
    sx::check(drive(items.iter().cloned().tokenize_with(&u, unmap).map(|t| (t.pat, t.text)), cap) == one, 92);
    // by value, with a stateful mapping
    let mut calls = 0usize;
    sx::check(
        drive(
            items.iter().cloned().tokenize_with(u, |x| {
                calls += 1;
                unmap(x)
            }).map(|t| (t.pat, t.text)),
            cap,
        ) == one,
        93,
    );
    sx::check(calls >= one.iter().map(|(_, s)| s.chars().count()).sum(), 94);
    // two runs over one tokenizer, interleaved in a chosen order
    let cut = sx::pick(n + 1);
    let other: Out = drive(chars[cut..].iter().cloned().tokenize(&t), cap);
    let mut x = chars.iter().cloned().tokenize(&t);
    let mut y = chars[cut..].iter().cloned().tokenize(&t);
    let (mut xs, mut ys): (Out, Out) = (Vec::new(), Vec::new());
    let order = sx::pick(4);
    for step in 0..2 * cap {
        let first = match order {
            0 => step % 2 == 0,
            1 => step % 2 == 1,
            2 => step % 3 == 0,
            _ => step < cap,
        };
        if first && xs.len() < one.len() {
            xs.extend(x.next());
        } else if !first && ys.len() < other.len() {
            ys.extend(y.next());
        }
    }
    xs.extend(drive(x, cap - xs.len()));
    ys.extend(drive(y, cap - ys.len()));
    sx::check(xs == one, 95);
    sx::check(ys == other, 96);
    // built separately, by value
    sx::check(drive(chars.iter().cloned().tokenize(v), cap) == one, 97);
    if one.len() > 1 {
        sx::cover(98);
    }
}
