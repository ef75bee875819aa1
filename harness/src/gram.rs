//! Grammars, and what they mean: derivability, viable prefixes, the canonical LR(1) automaton and
//! its runs. Written from the definitions, sharing nothing with the code under test.

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum S {
    N(usize),
    T(usize),
    E,
}

#[derive(Clone)]
pub struct G {
    pub nts: usize,
    pub ts: usize,
    /// number 0 is the start symbol
    pub rules: Vec<(usize, Vec<S>)>,
    /// tokens that every input begins with
    pub prefix: Vec<usize>,
}

impl G {
    /// "S=aSb|;A=b": upper case non-terminals (the first is the start symbol), lower case terminals, ! the error symbol.
    pub fn read(text: &str) -> G {
        let mut names: Vec<u8> = Vec::new();
        let mut rules = Vec::new();
        let mut ts = 0;
        let mut id = |c: u8| match names.iter().position(|x| *x == c) {
            Some(i) => i,
            None => {
                names.push(c);
                names.len() - 1
            }
        };
        for part in text.split(';') {
            let b = part.as_bytes();
            let lhs = id(b[0]);
            for alt in part[2..].split('|') {
                let mut rhs = Vec::new();
                for c in alt.bytes() {
                    rhs.push(match c {
                        b'!' => S::E,
                        b'A'..=b'Z' => S::N(id(c)),
                        _ => {
                            let t = (c - b'a') as usize;
                            if t >= ts {
                                ts = t + 1;
                            }
                            S::T(t)
                        }
                    });
                }
                rules.push((lhs, rhs));
            }
        }
        let nts = names.len();
        G { nts, ts, rules, prefix: Vec::new() }
    }
    pub fn has_error(&self) -> bool {
        self.rules.iter().any(|r| r.1.iter().any(|s| *s == S::E))
    }
    /// Every non-terminal used has a rule.
    pub fn defined(&self) -> bool {
        let mut d = vec![false; self.nts];
        for r in &self.rules {
            d[r.0] = true;
        }
        d[0] && self.rules.iter().all(|r| r.1.iter().all(|s| if let S::N(n) = s { d[*n] } else { true }))
    }
    /// Non-terminals that derive some string of tokens (error counting as one).
    pub fn productive(&self) -> Vec<bool> {
        let mut p = vec![false; self.nts];
        loop {
            let mut more = false;
            for (l, r) in &self.rules {
                if !p[*l] && r.iter().all(|s| if let S::N(n) = s { p[*n] } else { true }) {
                    p[*l] = true;
                    more = true;
                }
            }
            if !more {
                return p;
            }
        }
    }
    pub fn without_errors(&self) -> G {
        G { nts: self.nts, ts: self.ts, rules: self.rules.iter().filter(|r| !r.1.contains(&S::E)).cloned().collect(), prefix: self.prefix.clone() }
    }

    /// Earley's recogniser: how many of the tokens begin a string that some sequence of rules can
    /// go on from (with every non-terminal productive: a sentence), and whether all of them are a sentence.
    pub fn recognise(&self, kinds: &[usize]) -> (usize, bool) {
        let mut null = vec![false; self.nts];
        for _ in 0..self.nts {
            for (l, r) in &self.rules {
                if r.iter().all(|s| if let S::N(n) = s { null[*n] } else { false }) {
                    null[*l] = true;
                }
            }
        }
        let n = kinds.len();
        // sets[i]: (rule, position, origin); seen is indexed by place in the rules, then origin
        let mut base = Vec::new();
        let mut places = 0;
        for (_, r) in &self.rules {
            base.push(places);
            places += r.len() + 1;
        }
        let mut sets: Vec<Vec<(usize, usize, usize)>> = Vec::new();
        let mut next: Vec<(usize, usize, usize)> = Vec::new();
        for (i, (l, _)) in self.rules.iter().enumerate() {
            if *l == 0 {
                next.push((i, 0, 0));
            }
        }
        let mut sentence = null[0] && n == 0;
        for i in 0..=n {
            let mut set = std::mem::take(&mut next);
            if set.is_empty() {
                return (i - 1, false);
            }
            let mut seen = vec![false; places * (i + 1)];
            let mut predicted = vec![false; self.nts];
            for x in &set {
                seen[(base[x.0] + x.1) * (i + 1) + x.2] = true;
            }
            let mut at = 0;
            while at < set.len() {
                let (rule, pos, origin) = set[at];
                at += 1;
                let (lhs, rhs) = &self.rules[rule];
                match rhs.get(pos) {
                    None => {
                        if i == n && origin == 0 && *lhs == 0 {
                            sentence = true;
                        }
                        if origin < i {
                            for k in 0..sets[origin].len() {
                                let (r, p, o) = sets[origin][k];
                                if self.rules[r].1.get(p) == Some(&S::N(*lhs)) {
                                    let b = &mut seen[(base[r] + p + 1) * (i + 1) + o];
                                    if !*b {
                                        *b = true;
                                        set.push((r, p + 1, o));
                                    }
                                }
                            }
                        }
                    }
                    Some(S::N(m)) => {
                        if !predicted[*m] {
                            predicted[*m] = true;
                            for (r, x) in self.rules.iter().enumerate() {
                                if x.0 == *m {
                                    let b = &mut seen[base[r] * (i + 1) + i];
                                    if !*b {
                                        *b = true;
                                        set.push((r, 0, i));
                                    }
                                }
                            }
                        }
                        if null[*m] {
                            let b = &mut seen[(base[rule] + pos + 1) * (i + 1) + origin];
                            if !*b {
                                *b = true;
                                set.push((rule, pos + 1, origin));
                            }
                        }
                    }
                    Some(S::T(t)) => {
                        if i < n && kinds[i] == *t {
                            next.push((rule, pos + 1, origin));
                        }
                    }
                    Some(S::E) => {}
                }
            }
            sets.push(set);
        }
        (n, sentence)
    }
}

// ---------------------------------------------------------------- canonical LR(1)

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    None,
    Shift(usize),
    Reduce(usize),
    Accept,
}

pub type Item = (usize, usize, usize); // rule, position, lookahead column

pub struct Auto {
    pub states: Vec<Vec<Item>>,
    /// columns: terminals, then error, then end of input
    pub act: Vec<Vec<Act>>,
    pub goto: Vec<Vec<usize>>,
    /// rules with the error symbol next, by state
    pub errs: Vec<Vec<usize>>,
    /// state, column, shift?, rules that could be reduced (the last rule number + 1 stands for accepting)
    pub conflicts: Vec<(usize, usize, bool, Vec<usize>)>,
    pub err: usize,
    pub eoi: usize,
}

impl G {
    fn col(&self, s: &S) -> Option<usize> {
        match s {
            S::T(t) => Some(*t),
            S::E => Some(self.ts),
            S::N(_) => None,
        }
    }
    /// (nullable, first) with first as a bit set of columns
    fn first(&self) -> (Vec<bool>, Vec<u32>) {
        let mut nul = vec![false; self.nts];
        let mut fst = vec![0u32; self.nts];
        loop {
            let mut more = false;
            for (l, r) in &self.rules {
                let mut all = true;
                let mut f = fst[*l];
                for s in r {
                    match s {
                        S::N(n) => {
                            f |= fst[*n];
                            if !nul[*n] {
                                all = false;
                            }
                        }
                        _ => {
                            f |= 1 << self.col(s).unwrap();
                            all = false;
                        }
                    }
                    if !all {
                        break;
                    }
                }
                if f != fst[*l] || (all && !nul[*l]) {
                    fst[*l] = f;
                    nul[*l] |= all;
                    more = true;
                }
            }
            if !more {
                return (nul, fst);
            }
        }
    }
    pub fn auto(&self) -> Auto {
        let (nul, fst) = self.first();
        let (err, eoi) = (self.ts, self.ts + 1);
        let cols = self.ts + 2;
        let start = self.rules.len();
        let root = vec![S::N(0)];
        let rhs = |r: usize| if r == start { &root[..] } else { &self.rules[r].1[..] };
        // la[rule][position] as bit sets, one table per kernel
        let close = |kernel: &[Item]| -> Vec<Item> {
            let mut las: Vec<u32> = vec![0; self.nts]; // lookaheads of the non-terminals to be begun
            let mut on = vec![false; self.nts];
            let mut todo: Vec<(usize, u32)> = Vec::new();
            let follow = |r: usize, p: usize, la: u32| {
                let mut f = 0;
                for s in &rhs(r)[p + 1..] {
                    match s {
                        S::N(n) => {
                            f |= fst[*n];
                            if !nul[*n] {
                                return f;
                            }
                        }
                        _ => return f | 1 << self.col(s).unwrap(),
                    }
                }
                f | la
            };
            for (r, p, la) in kernel {
                if let Some(S::N(n)) = rhs(*r).get(*p) {
                    todo.push((*n, follow(*r, *p, 1 << *la)));
                }
            }
            while let Some((n, la)) = todo.pop() {
                // no lookahead at all: no item (what follows derives nothing)
                if la == 0 || on[n] && las[n] | la == las[n] {
                    continue;
                }
                on[n] = true;
                las[n] |= la;
                let all = las[n];
                for (i, (l, r)) in self.rules.iter().enumerate() {
                    if *l == n {
                        if let Some(S::N(m)) = r.first() {
                            todo.push((*m, follow(i, 0, all)));
                        }
                    }
                }
            }
            let mut v: Vec<Item> = kernel.to_vec();
            for (i, (l, _)) in self.rules.iter().enumerate() {
                if on[*l] {
                    for c in 0..cols {
                        if las[*l] >> c & 1 == 1 {
                            v.push((i, 0, c));
                        }
                    }
                }
            }
            v.sort();
            v.dedup();
            v
        };
        let mut states: Vec<Vec<Item>> = vec![close(&[(start, 0, eoi)])];
        let mut act: Vec<Vec<Act>> = Vec::new();
        let mut goto: Vec<Vec<usize>> = Vec::new();
        let mut errs = Vec::new();
        let mut conflicts = Vec::new();
        let mut at = 0;
        while at < states.len() {
            let st = states[at].clone();
            let mut a = vec![Act::None; cols];
            let mut g = vec![usize::MAX; self.nts];
            let mut syms: Vec<S> = st.iter().filter_map(|(r, p, _)| rhs(*r).get(*p).copied()).collect();
            syms.sort();
            syms.dedup();
            for s in syms {
                let kernel: Vec<Item> = st.iter().filter(|(r, p, _)| rhs(*r).get(*p) == Some(&s)).map(|(r, p, l)| (*r, *p + 1, *l)).collect();
                let next = close(&kernel);
                let to = match states.iter().position(|x| *x == next) {
                    Some(i) => i,
                    None => {
                        states.push(next);
                        states.len() - 1
                    }
                };
                match s {
                    S::N(n) => g[n] = to,
                    _ => a[self.col(&s).unwrap()] = Act::Shift(to),
                }
            }
            let mut e: Vec<usize> = st.iter().filter(|(r, p, _)| rhs(*r).get(*p) == Some(&S::E)).map(|x| x.0).collect();
            e.sort();
            e.dedup();
            for c in 0..cols {
                let mut red: Vec<usize> = st.iter().filter(|(r, p, l)| rhs(*r).len() == *p && *l == c).map(|x| x.0).collect();
                red.sort();
                red.dedup();
                if red.is_empty() {
                    continue;
                }
                let shift = a[c] != Act::None;
                if red.len() + shift as usize > 1 {
                    conflicts.push((at, c, shift, red.clone()));
                }
                if !shift {
                    a[c] = if red.contains(&start) { Act::Accept } else { Act::Reduce(red[0]) };
                }
            }
            act.push(a);
            goto.push(g);
            errs.push(e);
            at += 1;
        }
        Auto { states, act, goto, errs, conflicts, err, eoi }
    }
}

// ---------------------------------------------------------------- runs

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Kid {
    N(usize),
    T(usize),
    E(usize, usize),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Call {
    pub rule: usize,
    pub kids: Vec<Kid>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Ok(usize),
    NotFound,
    Reducer(usize),
    /// the reference did not end within its step limit
    Endless,
}
pub struct Run {
    pub out: Out,
    pub calls: Vec<Call>,
    pub pulled: usize,
    /// recoveries made
    pub recovered: usize,
}

enum Entry {
    Node(usize, usize, usize), // call, where its text starts, its first token outside errors
    Tok(usize),
    Err(usize, usize),
}

/// The run of the automaton, error recovery included. `col(i)`: the column of token i (ts+2 for a kind unknown to the grammar).
pub fn run(g: &G, a: &Auto, n: usize, col: &dyn Fn(usize) -> usize, cap: usize) -> Run {
    let mut calls: Vec<Call> = Vec::new();
    let mut stack: Vec<(usize, Entry)> = Vec::new();
    let mut state = 0;
    let mut seen = 0usize; // tokens pulled
    let mut pos = 0usize; // the token ahead
    let mut active: Vec<usize> = Vec::new(); // error rules being tried
    let mut recovered = 0;
    let mut cols: Vec<usize> = Vec::new();
    for _ in 0..cap {
        while seen <= pos && seen < n {
            cols.push(col(seen));
            seen += 1;
        }
        let c = if pos < n { cols[pos] } else { a.eoi };
        let act = if c < a.act[state].len() { a.act[state][c] } else { Act::None };
        match act {
            Act::Shift(to) => {
                stack.push((state, Entry::Tok(pos)));
                state = to;
                pos += 1;
            }
            Act::Reduce(r) => {
                let k = g.rules[r].1.len();
                let parts: Vec<(usize, Entry)> = stack.drain(stack.len() - k..).collect();
                if let Some(p) = parts.first() {
                    state = p.0;
                }
                let mut first = pos;
                for (_, e) in parts.iter().rev() {
                    match e {
                        Entry::Node(_, _, f) => first = *f,
                        Entry::Tok(i) => first = *i,
                        Entry::Err(..) => {}
                    }
                }
                let from = match parts.first() {
                    Some((_, Entry::Node(_, s, _))) => *s,
                    Some((_, Entry::Err(s, _))) => *s,
                    _ => first,
                };
                let kids = parts
                    .iter()
                    .map(|(_, e)| match e {
                        Entry::Node(c, _, _) => Kid::N(*c),
                        Entry::Tok(i) => Kid::T(*i),
                        Entry::Err(s, e) => Kid::E(*s, *e),
                    })
                    .collect();
                calls.push(Call { rule: r, kids });
                stack.push((state, Entry::Node(calls.len() - 1, from, first)));
                state = a.goto[state][g.rules[r].0];
                if active.contains(&r) {
                    active.clear();
                }
            }
            Act::Accept => {
                let out = match stack.last() {
                    Some((_, Entry::Node(c, _, _))) => Out::Ok(*c),
                    _ => Out::Endless,
                };
                return Run { out, calls, pulled: seen, recovered };
            }
            Act::None => {
                recovered += 1;
                let end = pos >= n;
                // an error symbol shifted from this very state, with nothing since: do not repeat it
                let mut again = stack.iter().rev().take_while(|e| matches!(e.1, Entry::Err(..))).any(|e| e.0 == state);
                let mut head = pos; // first token to be taken back
                let mut from = pos; // first token covered
                let mut back = false;
                loop {
                    let fits = !again && !(end && back) && !a.errs[state].is_empty() && (active.is_empty() || a.errs[state].iter().any(|r| active.contains(r)));
                    if fits {
                        if active.is_empty() {
                            active = a.errs[state].clone();
                        } else {
                            active.retain(|r| a.errs[state].contains(r));
                        }
                        break;
                    }
                    again = false;
                    back = true;
                    match stack.pop() {
                        None => return Run { out: Out::NotFound, calls, pulled: seen, recovered },
                        Some((s, e)) => {
                            state = s;
                            match e {
                                Entry::Node(_, s, f) => {
                                    head = f;
                                    from = from.min(s);
                                }
                                Entry::Tok(i) => head = i,
                                Entry::Err(s, _) => from = from.min(s),
                            }
                        }
                    }
                }
                let to = if end { n } else { pos + 1 };
                stack.push((state, Entry::Err(from.min(head), to)));
                state = match a.act[state][a.err] {
                    Act::Shift(s) => s,
                    _ => return Run { out: Out::Endless, calls, pulled: seen, recovered },
                };
                if back {
                    pos = head + 1;
                }
            }
        }
    }
    Run { out: Out::Endless, calls, pulled: seen, recovered }
}
