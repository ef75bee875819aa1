//! The example program, run from its own main, with its standard input and output in our hands (C24).
use crate::sx;
use crate::tok::Arg;

mod program {
    include!("/repo/example/src/main.rs");
    pub fn go() {
        main()
    }
}

struct Io {
    on: bool,
    template: &'static str,
    /// digits are 2 and 3 only
    few: bool,
    line: Vec<u8>,
    /// lines given to the program so far
    given: usize,
    out: Vec<u8>,
}
static mut IO: Io = Io { on: false, template: "", few: true, line: Vec::new(), given: 0, out: Vec::new() };
fn io() -> &'static mut Io {
    unsafe { &mut *std::ptr::addr_of_mut!(IO) }
}

extern "C" {
    fn syscall(n: i64, a: i64, b: usize, c: usize) -> isize;
}

/// The program asks for its next line: what it printed for the one before is complete.
#[no_mangle]
pub extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if !io().on || fd != 0 {
        return unsafe { syscall(0, fd as i64, buf as usize, n) };
    }
    let out = std::mem::take(&mut io().out);
    let k = io().given;
    if k > 0 {
        io().on = false;
        verdict(&io().line, &out);
        io().on = true;
    }
    // values are chosen only now, when the tokenizer and the parser are built
    let part = match io().template.split('|').nth(k) {
        Some(p) => p,
        None => "",
    };
    if k > 0 && k == io().template.split('|').count() {
        io().on = false;
        sx::cover(280);
        sx::sx_end_();
    }
    io().line = fill(part, io().few);
    let l = &io().line;
    assert!(l.len() <= n);
    for (i, b) in l.iter().enumerate() {
        unsafe { *buf.add(i) = *b }
    }
    io().given += 1;
    l.len() as isize
}
#[no_mangle]
pub extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if !io().on || fd != 1 {
        return unsafe { syscall(1, fd as i64, buf as usize, n) };
    }
    let b = unsafe { std::slice::from_raw_parts(buf, n) };
    io().out.extend_from_slice(b);
    n as isize
}

// ---------------------------------------------------------------- what it should print

#[derive(Clone, Copy, PartialEq)]
enum T {
    Num(f64),
    Op(u8),
    Sqrt,
}
fn digits(l: &[u8], mut i: usize) -> usize {
    while i < l.len() && (b'0'..=b'9').contains(&l[i]) {
        i += 1;
    }
    i
}
/// The end of the number that starts at i, if one does.
fn number(l: &[u8], i: usize) -> Option<usize> {
    let mut j = digits(l, i);
    if j < l.len() && l[j] == b'.' {
        let k = digits(l, j + 1);
        if j > i || k > j + 1 {
            j = k;
        }
    }
    if j == i {
        return None;
    }
    if j < l.len() && (l[j] == b'e' || l[j] == b'E') {
        let s = if j + 1 < l.len() && (l[j + 1] == b'+' || l[j + 1] == b'-') { j + 2 } else { j + 1 };
        let k = digits(l, s);
        if k > s {
            j = k;
        }
    }
    Some(j)
}
fn scan(l: &[u8]) -> Vec<T> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < l.len() {
        if let Some(j) = number(l, i) {
            v.push(T::Num(std::str::from_utf8(&l[i..j]).unwrap().parse().unwrap()));
            i = j;
        } else if l[i..].len() >= 4 && l[i] == b's' && l[i + 1] == b'q' && l[i + 2] == b'r' && l[i + 3] == b't' {
            v.push(T::Sqrt);
            i += 4;
        } else {
            for o in b"+-*/()" {
                if l[i] == *o {
                    v.push(T::Op(*o));
                }
            }
            i += 1;
        }
    }
    v
}
struct Calc<'a> {
    t: &'a [T],
    at: usize,
}
impl<'a> Calc<'a> {
    fn op(&mut self, set: &[u8]) -> Option<u8> {
        if let Some(T::Op(o)) = self.t.get(self.at) {
            if set.contains(o) {
                self.at += 1;
                return Some(*o);
            }
        }
        None
    }
    fn num(&mut self) -> Option<f64> {
        if let Some(T::Num(n)) = self.t.get(self.at) {
            self.at += 1;
            return Some(*n);
        }
        None
    }
    fn sum(&mut self) -> Option<f64> {
        let mut v = self.product()?;
        while let Some(o) = self.op(b"+-") {
            let w = self.product()?;
            v = if o == b'+' { v + w } else { v - w };
        }
        Some(v)
    }
    fn product(&mut self) -> Option<f64> {
        let mut v = self.block()?;
        while let Some(o) = self.op(b"*/") {
            let w = self.block()?;
            v = if o == b'*' { v * w } else { v / w };
        }
        Some(v)
    }
    fn block(&mut self) -> Option<f64> {
        if let Some(n) = self.num() {
            return Some(n);
        }
        if let Some(o) = self.op(b"+-") {
            let n = self.num()?;
            return Some(if o == b'-' { -n } else { n });
        }
        if self.op(b"(").is_some() {
            let v = self.sum()?;
            self.op(b")")?;
            return Some(v);
        }
        if self.t.get(self.at) == Some(&T::Sqrt) {
            self.at += 1;
            return self.block().map(f64::sqrt);
        }
        None
    }
}
fn verdict(line: &[u8], out: &[u8]) {
    let t = scan(line);
    let mut c = Calc { t: &t, at: 0 };
    let v = c.sum().filter(|_| c.at == t.len());
    sx::obs(out.len() as u64);
    match v {
        Some(v) => {
            let want = format!("= {}\n", v);
            sx::check(out.len() == want.len(), 281);
            sx::check(out == want.as_bytes(), 282);
            sx::cover(285);
        }
        None => {
            // one line that is not a result
            sx::check(!out.is_empty() && out.iter().filter(|b| **b == b'\n').count() == 1 && out[out.len() - 1] == b'\n', 283);
            sx::check(out[0] != b'=', 284);
            sx::cover(286);
        }
    }
}

fn fill(t: &str, few: bool) -> Vec<u8> {
    let mut l: Vec<u8> = Vec::new();
    for c in t.bytes() {
        match c {
            b'~' => {
                let v = sx::val(b' ' as u64, b'~' as u64);
                // reading a number is arithmetic on its digits: one path each
                l.push(if (b'0' as u64..=b'9' as u64).contains(&v) { sx::conc(v) } else { v } as u8);
            }
            b'?' => {
                let v = sx::val(b'(' as u64, b'/' as u64) as u8;
                sx::assume((v != b',') & (v != b'.'));
                l.push(v);
            }
            b'#' => l.push(sx::conc(if few { sx::val(b'2' as u64, b'3' as u64) } else { sx::val(b'0' as u64, b'9' as u64) }) as u8),
            c => l.push(c),
        }
    }
    l.push(b'\n');
    l
}
/// `~` any printable character, `?` any operator or parenthesis, `#` a digit, `|` ends a line.
const LINES: &[&str] = &[
    "~~~", "?#?", "#?#?#", "(#?#)?#", "#?(#?#)", "sqrt?#?", "sqrt(#?#)", "#~#~", "#.~~#", "#e~#", "~.#~", "#?#?#?#", "-#?-#", "#~~#", "sqr~4", "sqrtsqrt~", "((#?#)?", "#?#|#?#", "~|#+#", "(1-2)?(3-4)", "2?3?4?5?6", "1-2-3?4", "8/4/2?~", "~~|~", "#?#|?|#?#", "1 + 2 ~ 3 ~ 4", "sqrt 16 ? sqrt(9)", "12?.5?1e1", "1.5e~2?3", "((((~))))", "#??#", "??#?",
];
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry_example(arg: u64) {
    let a = Arg::new(arg);
    let t = match LINES.get(a.lo) {
        Some(t) => *t,
        None => return,
    };
    let i = io();
    i.template = t;
    i.few = a.len == 0;
    i.given = 0;
    i.on = true;
    program::go();
    io().on = false;
    // the program never ends by itself
    sx::check(false, 287);
}
