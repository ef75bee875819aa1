//! The interface between a harness and the symbolic engine.
//!
//! Under the engine these functions are intercepted by name and their bodies are never executed.
//! Natively (replay) they read the values of a recorded model, in the order of the calls.
use std::cell::RefCell;

pub struct Replay {
    pub vals: Vec<u64>,
    pub pos: usize,
    pub obs: Vec<u64>,
    pub fail: Option<u32>,
}

thread_local! {
    pub static R: RefCell<Replay> = const { RefCell::new(Replay { vals: Vec::new(), pos: 0, obs: Vec::new(), fail: None }) };
}

/// How a native replay leaves the entry point early.
fn leave(code: i32) -> ! {
    R.with(|r| {
        let r = r.borrow();
        print!("OBS");
        for o in &r.obs {
            print!(" {}", o);
        }
        println!();
        if let Some(f) = r.fail {
            println!("FAIL {}", f);
        }
    });
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_val(lo: u64, hi: u64) -> u64 {
    R.with(|r| {
        let mut r = r.borrow_mut();
        let v = *r.vals.get(r.pos).unwrap_or(&lo);
        r.pos += 1;
        if v < lo || v > hi {
            println!("DIVERGED value {} outside {}..={}", v, lo, hi);
            std::process::exit(4);
        }
        v
    })
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_conc(v: u64) -> u64 {
    std::hint::black_box(v)
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_assume_(c: u32) {
    if c == 0 {
        println!("DIVERGED assumption false");
        std::process::exit(4);
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_assert_(c: u32, code: u32) {
    if c == 0 {
        R.with(|r| r.borrow_mut().fail = Some(code));
        leave(3)
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_cover_(code: u32) {
    std::hint::black_box(code);
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_obs_(v: u64) {
    R.with(|r| r.borrow_mut().obs.push(v));
}

/// The path ends here.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_end_() -> ! {
    leave(0)
}

/// A value the solver ranges over: every value in lo..=hi.
pub fn val(lo: u64, hi: u64) -> u64 {
    sx_val(lo, hi)
}
/// A choice that is decided (one path per value) at this point.
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    sx_conc(sx_val(0, n as u64 - 1)) as usize
}
pub fn conc(v: u64) -> u64 {
    sx_conc(v)
}
pub fn assume(c: bool) {
    sx_assume_(c as u32)
}
pub fn check(c: bool, code: u32) {
    sx_assert_(c as u32, code)
}
/// Marks that a path reached an interesting situation.
pub fn cover(code: u32) {
    sx_cover_(code)
}
/// An observation of the code's output, compared between engine and native replay.
pub fn obs(v: u64) {
    sx_obs_(v)
}
pub fn finish() -> ! {
    leave(0)
}
/// Any Unicode scalar value in lo..=hi.
pub fn ch(lo: char, hi: char) -> char {
    let v = sx_val(lo as u64, hi as u64) as u32;
    if (lo as u32) < 0xD800 && (hi as u32) > 0xDFFF {
        assume(v < 0xD800 || v > 0xDFFF);
    }
    unsafe { char::from_u32_unchecked(v) }
}
