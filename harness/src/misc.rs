//! Rebuilding (C21), character ranges (C23) and the recorded findings.
use crate::sx;
use crate::tok::{build_w, case, unmap, Arg, Source};
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use tokenizer::{CharRange, Tokenize};

// ---------------------------------------------------------------- C21: built twice

/// Two tokenizers from the same patterns; every map has its own hash keys.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_rebuild(arg: u64) {
    let a = Arg::new(arg);
    let c = match case(a) {
        Some(c) => c,
        None => return,
    };
    let (x, y) = (build_w(&c.text, true), build_w(&c.text, true));
    let ((t, mut w), (u, mut v)) = match (x, y) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(()), Err(())) => return,
        _ => return sx::check(false, 200),
    };
    w.sort();
    v.sort();
    sx::obs(w.len() as u64);
    sx::check(w == v, 201);
    let run = |t: &_| -> Vec<(usize, String, Vec<(u32, usize)>)> { Source { input: &c.input, at: Rc::new(Cell::new(0)) }.tokenize_with(t, unmap).take(c.input.len() + 2).map(|t: crate::tok::Tk| (t.pat, t.text, t.items)).collect() };
    let (p, q) = (run(&t), run(&u));
    for (k, s, _) in &p {
        sx::obs(*k as u64);
        sx::obs(s.len() as u64);
    }
    sx::check(p.len() == q.len(), 202);
    for (x, y) in p.iter().zip(&q) {
        sx::check(x.0 == y.0, 203);
        sx::check(x.1.len() == y.1.len() && x.2.len() == y.2.len(), 204);
        sx::check(x.1 == y.1, 205);
        sx::check(x.2 == y.2, 206);
    }
    if p.len() > 1 {
        sx::cover(207);
    }
    if !w.is_empty() {
        sx::cover(208);
    }
}

// ---------------------------------------------------------------- C23: character ranges

struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn fed<T: Hash + ?Sized>(x: &T) -> Vec<u8> {
    let mut h = Rec(Vec::new());
    x.hash(&mut h);
    h.0
}
fn any(valid: bool) -> CharRange {
    let start = sx::val(0, if valid { 0x10FFFF } else { u32::MAX as u64 }) as u32;
    let end = sx::val(0, if valid { 0x110000 } else { u32::MAX as u64 }) as u32;
    if valid {
        sx::assume(start < end);
    }
    CharRange { range: start..end }
}
fn point(c: &CharRange) -> u32 {
    *<CharRange as Borrow<u32>>::borrow(c)
}
/// `len` 0: laws over two or three ranges; 1: an ordered map; 2: a hashed map; 3: sets. `lo` 1: any bounds, not only those of characters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_ranges(arg: u64) {
    let a = Arg::new(arg);
    let valid = a.lo == 0;
    let (x, y, z) = (any(valid), any(valid), any(valid));
    match a.len {
        0 => {
            let (p, q) = (point(&x), point(&y));
            sx::check(p == x.range.start, 240);
            // equality, order and borrowing agree
            let eq = x == y;
            let o = x.cmp(&y);
            sx::obs(eq as u64);
            sx::check(eq == (p == q), 241);
            sx::check((x != y) == !eq, 242);
            sx::check((y == x) == eq, 243);
            sx::check(x == x && x == x.clone(), 244);
            sx::check((o == Ordering::Equal) == eq, 245);
            sx::check(x.partial_cmp(&y) == Some(o), 246);
            sx::check(o == p.cmp(&q), 247);
            sx::check(y.cmp(&x) == o.reverse(), 248);
            sx::check((x < y) == (o == Ordering::Less) && (x <= y) == (o != Ordering::Greater), 249);
            sx::check((x > y) == (o == Ordering::Greater) && (x >= y) == (o != Ordering::Less), 249);
            sx::check(std::cmp::max(&x, &y).range.start == std::cmp::max(p, q), 249);
            // a total order
            if o != Ordering::Greater && y.cmp(&z) != Ordering::Greater {
                sx::check(x.cmp(&z) != Ordering::Greater, 250);
                sx::check(!eq || y != z || x == z, 251);
            }
            // hashing
            let (hx, hy) = (fed(&x), fed(&y));
            if eq {
                sx::cover(252);
                sx::check(hx.len() == hy.len() && hx == hy, 253);
            }
            sx::check(hx.len() == fed(&p).len() && hx == fed(&p), 254);
            // a copy is the same range
            let c = x.clone();
            sx::check(c.range.start == x.range.start && c.range.end == x.range.end, 255);
        }
        1 => {
            let mut m: BTreeMap<CharRange, usize> = BTreeMap::new();
            let ks = [x.range.start, y.range.start, z.range.start];
            m.insert(x.clone(), 0);
            m.insert(y.clone(), 1);
            m.insert(z.clone(), 2);
            let c = sx::val(0, u32::MAX as u64) as u32;
            // by a code point: the entry whose range starts there, the last one inserted
            let last = |c: u32| if c == ks[2] { Some(2) } else if c == ks[1] { Some(1) } else if c == ks[0] { Some(0) } else { None };
            sx::check(m.get(&c).copied() == last(c), 256);
            sx::check(m.get(&CharRange { range: c..c.wrapping_add(1) }).copied() == last(c), 257);
            // the nearest at or before
            let near = ks.iter().copied().filter(|k| *k <= c).max();
            let got = m.range(..=c).next_back().map(|(k, v)| (k.range.start, *v));
            sx::check(got == near.map(|k| (k, last(k).unwrap())), 258);
            let mut prev: Option<u32> = None;
            for k in m.keys() {
                sx::check(prev.map_or(true, |p| p < k.range.start), 259);
                prev = Some(k.range.start);
            }
            if near.is_some() {
                sx::cover(252);
            }
        }
        2 => {
            let mut m: HashMap<CharRange, usize> = HashMap::new();
            let ks = [x.range.start, y.range.start, z.range.start];
            m.insert(x.clone(), 0);
            m.insert(y.clone(), 1);
            m.insert(z.clone(), 2);
            let c = sx::val(0, u32::MAX as u64) as u32;
            let last = |c: u32| if c == ks[2] { Some(2) } else if c == ks[1] { Some(1) } else if c == ks[0] { Some(0) } else { None };
            sx::check(m.get(&c).copied() == last(c), 256);
            sx::check(m.get(&CharRange { range: c..c.wrapping_add(1) }).copied() == last(c), 257);
            sx::check(m.get(&x).copied() == last(ks[0]), 257);
            if last(c).is_some() {
                sx::cover(252);
            }
        }
        _ => {
            let mut v = vec![x.clone(), y.clone(), z.clone()];
            v.sort();
            for i in 1..v.len() {
                sx::check(v[i - 1].range.start <= v[i].range.start, 259);
            }
            let s: BTreeSet<CharRange> = vec![x.clone(), y.clone(), z.clone()].into_iter().collect();
            let mut k = vec![x.range.start, y.range.start, z.range.start];
            k.sort();
            k.dedup();
            sx::check(s.len() == k.len(), 260);
            for (a, b) in s.iter().zip(&k) {
                sx::check(a.range.start == *b, 260);
            }
            let f = v.binary_search(&y);
            sx::check(f.map_or(false, |i| v[i].range.start == y.range.start), 261);
            if k.len() < 3 {
                sx::cover(252);
            }
        }
    }
}

// ---------------------------------------------------------------- recorded findings

/// The inputs of known-findings.jsonl; each fails an assertion while the finding stands.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_finding(arg: u64) {
    let (pat, input): (&str, &str) = match arg {
        0 => ("", "x"),
        1 => ("a|", "x"),
        _ => ("(|a)b", "xb"),
    };
    let (t, _) = tokenizer::DFATokenizer::<String, char>::builder().pattern(pat, |s, _| s.to_string()).build().unwrap();
    // none of these patterns matches a non-empty text that starts with x
    sx::check(input.chars().tokenize(&t).take(3).count() == 0, 9);
}
