//! Generated tokenizers and parsers against those built at run time (C08, C20).

#[cfg(feature = "mpar")]
#[path = "gen_par.rs"]
mod gen_par;
#[cfg(feature = "mtok")]
#[path = "gen_tok.rs"]
mod gen_tok;

#[cfg(feature = "mpar")]
pub mod par {
    use super::gen_par;
    use crate::gram::{run, Out, G};
    use crate::par::{columns, go, log, make, observe, reducer, same, settle, steps, tokens, Er, Nt, Num, Tok, L};
    use crate::sx;
    use crate::tok::Arg;
    use parser::Symbol;
    use std::cell::RefCell;

    thread_local! {
        static LOG: RefCell<Option<L>> = const { RefCell::new(None) };
    }
    pub fn reduce(rule: usize, n: usize, list: &mut [Symbol<&mut Nt, &Tok, &[Tok]>]) -> Result<Nt, Er> {
        let l = LOG.with(|l| l.borrow().clone().unwrap());
        reducer(l, rule, n)(list)
    }

    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sx_entry_mpar(arg: u64) {
        let a = Arg::new(arg);
        let (text, prefixes, n, t, create) = match gen_par::ALL.get(a.lo) {
            Some(x) => *x,
            None => return,
        };
        let mut g = G::read(text);
        g.prefix = prefixes.get(a.fam as usize).unwrap_or(&"").bytes().map(|c| (c - b'a') as usize).collect();
        let m = Num { n: n.to_vec(), t: t.to_vec() };
        let (l, k) = (log(), log());
        LOG.with(|x| *x.borrow_mut() = Some(k.clone()));
        let q = create();
        let (p, w) = make(&g, &m, &l, false);
        let auto = if w.is_empty() { None } else { Some(g.auto()) };
        let (n, kinds, _) = tokens(&g, a.len);
        if let Some(auto) = auto {
            if run(&g, &auto, n, &columns(&g, &kinds), steps(n, &g)).out == Out::Endless {
                return;
            }
        }
        let kinds = settle(&kinds, n);
        let toks: Vec<Tok> = kinds.iter().enumerate().map(|(id, k)| Tok { kind: m.tm(*k), id }).collect();
        // any call of the run may fail
        let fail = if a.cnt > 0 { Some(sx::pick(a.cnt)) } else { None };
        l.borrow_mut().fail = fail;
        k.borrow_mut().fail = fail;
        let r = go(&p, &l, &toks);
        observe(&r);
        let s = go(&q, &k, &toks);
        same(&s, &r, 262);
        sx::cover(match r.out {
            Out::Ok(_) => 268,
            _ => 269,
        });
    }
}

#[cfg(feature = "mtok")]
pub mod tok {
    use super::gen_tok;
    use crate::sx;
    use crate::tok::{build, case, unmap, Arg, Source, Tk};
    use std::cell::Cell;
    use std::rc::Rc;
    use tokenizer::Tokenize;

    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sx_entry_mtok(arg: u64) {
        let mut a = Arg::new(arg);
        let (fam, i, create) = match gen_tok::ALL.get(a.lo) {
            Some(x) => *x,
            None => return,
        };
        a.fam = fam;
        a.lo = i;
        if fam != 3 {
            a.cnt = 1;
        }
        let c = match case(a) {
            Some(c) => c,
            None => return,
        };
        let t = create();
        let (u, _) = match build(&c.text) {
            Ok(u) => u,
            Err(()) => return sx::check(false, 270),
        };
        let run = |t: &_| -> Vec<Tk> { Source { input: &c.input, at: Rc::new(Cell::new(0)) }.tokenize_with(t, unmap).take(c.input.len() + 2).collect() };
        let (p, q) = (run(&t), run(&u));
        for k in &q {
            sx::obs(k.pat as u64);
            sx::obs(k.text.len() as u64);
        }
        sx::check(p.len() == q.len(), 271);
        for (x, y) in p.iter().zip(&q) {
            sx::check(x.pat == y.pat, 272);
            sx::check(x.text.len() == y.text.len() && x.items.len() == y.items.len(), 273);
            sx::check(x.text == y.text, 274);
            sx::check(x.items == y.items, 275);
        }
        if p.len() > 1 {
            sx::cover(276);
        }
        if p.len() < c.input.len() {
            sx::cover(277);
        }
    }
}
