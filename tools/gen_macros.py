#!/usr/bin/env python3
"""Writes harness/src/gen_par.rs and gen_tok.rs: invocations of parser! and tokenizer! for the
grammars of par.rs and the pattern sets of tok.rs, in varying styles. Run by hand; output committed."""
import os, random, re

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src')


def corpora():
    t = open(os.path.join(SRC, 'par.rs')).read()
    out = []
    for name in ('CLEAN', 'DIRTY', 'ERRS'):
        m = re.search(r'pub const %s: &\[&str\] = &\[(.*?)\n\];' % name, t, re.S)
        out += [(g, []) for g in re.findall(r'"([^"]*)"', m.group(1))]
    m = re.search(r'pub const LARGE: &\[\(&str, &\[&str\]\)\] = &\[(.*?)\n\];', t, re.S)
    for l in m.group(1).splitlines():
        s = re.findall(r'"([^"]*)"', l)
        if s:
            out.append((s[0], s[1:]))
    return out


def read(text):
    names, rules, ts = [], [], 0

    def nt(c):
        if c not in names:
            names.append(c)
        return names.index(c)
    for part in text.split(';'):
        lhs = nt(part[0])
        for alt in part[2:].split('|'):
            rhs = []
            for c in alt:
                if c == '!':
                    rhs.append(('E', 0))
                elif c.isupper():
                    rhs.append(('N', nt(c)))
                else:
                    ts = max(ts, ord(c) - 96)
                    rhs.append(('T', ord(c) - 97))
            rules.append((lhs, rhs))
    return len(names), ts, rules


LINES = [(1, 0), (1, 1), (3, 2), (7, 5), (-1, 40), (10, 4), (-3, 90)]


def invocation(k, text, prefixes, rng):
    nts, ts, rules = read(text)
    na, nb = LINES[k % 7]
    ta, tb = LINES[(k * 3 + 1) % 7]
    N = [na * i + nb for i in range(nts)]
    T = [ta * i + tb for i in range(ts + 1)]
    style = k % 5
    raw = ['+', 'x', '==', '"', 'Y', '\\', 'fn', '\u3042', ' ', 'z', '{', '->', 'ERROR']

    def tname(t):           # (as listed, as used)
        ident, lit = 'T%d' % t, '"%s"' % raw[t].replace('\\', '\\\\').replace('"', '\\"')
        if style == 0 or style == 3 and t % 2:
            return ident, '[%s]' % ident
        if style == 4:      # a named and a quoted token with the same letters, and a symbol of that name
            n = 'S%d' % (t // 2)
            return (n, '[%s]' % n) if t % 2 else ('"%s"' % n, '"%s"' % n)
        return lit, lit
    sname = lambda n: 'S%d' % n
    tl = ['%s = of(%d)' % (tname(t)[0], T[t]) for t in range(ts)]
    sl = ['%s = of(%d)' % (sname(n), N[n]) for n in range(nts)]
    if k % 2:
        rng.shuffle(tl)
        rng.shuffle(sl)
        if k % 4 == 3:
            tl.insert(rng.randrange(len(tl) + 1), 'unused = of(900)')
            sl.insert(rng.randrange(len(sl) + 1), 'unused = of(901)')
    elif k % 4 == 2:
        tl.reverse()
        sl.reverse()
    comma = ',' if k % 3 else ''
    tcomma = comma if tl else ''
    o = ['parser_generator::parser! {', '    %sfn g%d() -> LR1Parser {' % ('pub ' if k % 3 == 1 else '', k)]
    o += ['        token crate::par::Tok { %s%s }' % (', '.join(tl), tcomma), '        symbol crate::par::Nt { %s%s }' % (', '.join(sl), comma)]
    o += ['        errortype crate::par::Er;', '        start %s;' % sname(0)]
    prev = None
    for i, (lhs, rhs) in enumerate(rules):
        head = '|' if prev == lhs and (k + i) % 4 != 1 else '<%s>::=' % sname(lhs)
        prev = lhs
        body = ' '.join('<%s>' % sname(x) if s == 'N' else 'ERROR' if s == 'E' else tname(x)[1] for s, x in rhs)
        pat = 'x' if (k + i) % 2 else 'x @ [%s]' % ', '.join('_' for _ in rhs)
        gen = 'reduce(%d, %d, x)' % (i, N[lhs])
        o.append('        %s %s: %s => %s;' % (head, body, pat, gen if (k + i) % 3 else '{ let r = %s; r }' % gen))
    o += ['    }', '}']
    return '\n'.join(o), '(%s, &[%s], &%r, &%r, g%d),' % (rust(text), ', '.join(rust(p) for p in prefixes), N, T, k)


def rust(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def parsers():
    rng = random.Random(5)
    o = ['// generated by tools/gen_macros.py', 'use super::par::reduce;', '']
    rows = []
    for k, (g, prefixes) in enumerate(corpora()):
        a, b = invocation(k, g, prefixes, rng)
        o.append(a)
        rows.append('    ' + b)
    o += ['pub const ALL: &[(&str, &[&str], &[usize], &[usize], fn() -> crate::par::P)] = &['] + rows + ['];', '']
    open(os.path.join(SRC, 'gen_par.rs'), 'w').write('\n'.join(o))
    return len(rows)


def tokenizers():
    t = open(os.path.join(SRC, 'tok.rs')).read()
    body = re.search(r'pub const SETS: &\[Set\] = &\[(.*?)\n\];', t, re.S).group(1)
    sets = []
    for l in body.strip().splitlines():
        m = re.search(r'pats: &\[(.*?)\], dom:', l)
        sets.append(re.findall(r'"(?:[^"\\]|\\.)*"', m.group(1)))
    simple = re.findall(r'"((?:[^"\\]|\\.)*)"', re.search(r'pub const SIMPLE: &\[&str\] = &\[(.*?)\];', t, re.S).group(1))
    n = len(simple)
    o = ['// generated by tools/gen_macros.py', 'use crate::tok::Tk;', '']
    names = []

    def emit(name, pats, k):
        o.append('tokenizer_generator::tokenizer! {\n    %sfn %s() -> DFATokenizer {\n        character (u32, usize);\n        token crate::tok::Tk;' % ('pub ' if k % 2 else '', name))
        for i, p in enumerate(pats):
            gen = '|s, items| Tk { pat: %d, text: s.to_string(), items }' % i
            if (k + i) % 3 == 0:
                gen = '|s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: %d, text, items } }' % i
            if (k + i) % 5 == 1:
                gen = 'make::<%d>' % i
            o.append('        %s: %s%s' % (p, gen, ';' if i + 1 < len(pats) or k % 2 else ''))
        o.append('    }\n}')
        names.append(name)
    for k, s in enumerate(sets):
        emit('s%d' % k, s, k)
    # pairs and triples of the simple patterns, as tok::case numbers them
    pairs = [(i * 37 + 5) % 900 for i in range(30)]
    triples = [(i * 331 + 17) % 4000 for i in range(30)]
    for i in pairs:
        emit('p%d' % i, [rust(simple[j]) for j in (i % n, i // n % n)], i)
    for i in triples:
        emit('t%d' % i, [rust(simple[j]) for j in (i % n, i * 7 // n % n, (i * 31 + i // n) % n)], i)
    o.append('fn make<const N: usize>(s: &str, items: Vec<(u32, usize)>) -> Tk {\n    Tk { pat: N, text: s.to_string(), items }\n}')
    o.append('pub type T = tokenizer::DFATokenizer<Tk, (u32, usize)>;')
    o.append('/// family and number as in tok::case')
    o.append('pub const ALL: &[(u32, usize, fn() -> T)] = &[')
    fam = {'s': 3, 'p': 1, 't': 2}
    for x in names:
        o.append('    (%d, %s, %s),' % (fam[x[0]], x[1:], x))
    o += ['];', '']
    open(os.path.join(SRC, 'gen_tok.rs'), 'w').write('\n'.join(o))
    return len(names)


print(parsers(), 'parsers,', tokenizers(), 'tokenizers')
