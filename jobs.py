"""The jobs (entry points with bounds) that decide each property, and the texts that go with them."""
import json, os, random, re

ROOT = os.path.dirname(os.path.abspath(__file__))

ASSUMPTIONS = [
    'the code is executed symbolically at the level of the LLVM IR rustc emits for /repo plus the harness (opt-level 1, overflow checks on, panics as aborts); rustc up to the IR and the engine are trusted, and sampled paths are replayed natively and compared',
    'std hashing is modelled by choosing the value hash_one returns: constant (all keys collide) or keyed by a seed; other iteration orders of hash maps are outside the bounds',
    'allocation never fails; addresses are concrete; single thread',
]

CODES = {
    1: 'path finished',
    11: "a token's text is not the input text at its position", 12: 'a token is not the longest match of the patterns at its position',
    21: 'the generator called belongs to a pattern that does not match the token', 22: 'the generator called is not that of the first matching pattern', 23: 'several patterns match the same text',
    31: 'tokens extend past the input', 32: 'items lost, repeated or reordered', 33: 'an item handed to a generator is not the source item', 34: 'the text of a token is not the mapped characters of its items', 35: 'characters were read ahead and given back',
    41: 'tokenizing stopped although a pattern matches / stopped before the end', 42: 'empty token', 43: 'more tokens than characters',
    50: 'building a tokenizer', 51: 'building does not succeed exactly for supported patterns', 52: 'supported patterns', 53: 'unsupported patterns', 54: 'a built tokenizer is not usable',
    60: 'supported patterns do not build', 61: 'a warning names no two patterns', 62: 'a warning names patterns that do not exist', 63: 'a warning names patterns that share no string', 64: 'warning given', 65: 'two patterns match this input and no warning involves the loser', 66: 'two patterns share a string and no warning involves the loser', 67: 'no overlap', 68: 'warning without overlap',
    70: 'supported patterns do not build', 71: 'start state does not exist', 72: 'empty range', 73: 'range outside Unicode', 74: 'target state does not exist', 75: 'ranges overlap or are out of order', 76: 'mergeable ranges', 77: 'two transitions on one character', 78: 'accept label of no pattern', 79: 'unreachable state', 80: 'two states with the same behaviour', 81: 'several states', 82: 'more than three states',
    90: 'supported patterns do not build', 91: 'a second run by reference differs', 92: 'tokenize_with differs from tokenize', 93: 'tokenizing by value differs', 94: 'mapping not applied to each item', 95: 'interleaved runs differ', 96: 'interleaved runs differ', 97: 'separately built tokenizer differs', 98: 'several tokens',
    101: 'more items pulled than there are', 102: 'item pulled although no longer match was possible', 103: 'read ahead before the end',
}

CODES.update({
    110: 'a reducer error without a failing reducer', 111: 'acceptance does not match derivability', 112: 'sentence accepted', 113: 'non-sentence rejected', 115: 'more tokens pulled than there are',
    120: 'sentence parsed', 121: 'error slice not contiguous', 122: 'unknown rule', 123: 'wrong number of right-hand-side entries', 124: 'reducers not called bottom-up, left to right, once per node', 125: 'a reducer was given something other than its child', 126: 'the value returned is not the root', 127: 'the root is not the start symbol', 128: 'the tree does not span the tokens in order', 129: 'tree with several nodes',
    131: 'warnings although LR(1), or none although not LR(1)', 132: 'conflict-free grammar', 133: 'grammar with conflicts', 134: 'unreadable warning', 135: 'a warning names a state that is not in the canonical automaton', 136: 'a warning names a conflict that does not exist', 137: 'a rule that takes part in a conflict is not reported', 138: 'fewer warnings than conflicting lookaheads', 139: 'conflict between accepting and reducing',
    140: 'different result than the fixed policy gives', 141: 'different reductions than the fixed policy gives', 142: 'different reducer arguments', 143: 'different reducer arguments', 144: 'different number of tokens pulled', 146: 'input rejected', 147: 'input accepted',
    150: 'syntax error', 151: 'token pulled after the input could no longer be continued', 152: 'detected before the end', 153: 'rejected although the tokens seen begin a sentence', 154: 'a non-sentence did not yield the recovery error', 155: 'a sentence yields an error',
    160: 'failing reducer', 161: 'reducers called after the failure', 162: 'different calls before the failure', 163: 'tokens pulled after the failure', 164: 'not the failing error', 165: "text is not the error's", 166: "source is not the error", 167: 'different result without failure', 168: 'source of a syntax error', 169: 'different calls without failure',
    170: 'error slice not contiguous', 171: 'different result than the recovery rules give', 172: 'different reductions than the recovery rules give', 173: 'different number of reducer arguments', 174: 'different reducer arguments or error slice', 175: 'different number of tokens pulled', 176: 'recovery succeeded', 177: 'recovery failed', 178: 'several recoveries in one parse', 179: 'error slice outside the input',
    180: 'removing rules adds conflicts', 181: 'a valid sentence gives a different result with error rules', 182: 'a valid sentence gives different calls with error rules', 183: 'a valid sentence gives different calls with error rules', 184: 'accepted without being a sentence', 185: 'valid sentence under error rules',
    190: 'a reducer error without a failing reducer', 191: 'more tokens pulled than there are', 192: 'a value no reducer made', 193: 'parsed', 194: 'parsed with an error symbol', 195: 'rejected',
    209: 'different number of warnings', 210: 'different warnings', 211: 'different result', 212: 'different calls', 213: 'different calls', 214: 'different arguments', 215: 'different number of tokens pulled', 216: 'accepted', 217: 'rejected',
    220: 'different warnings by the way the rules are written', 221: 'rules differ by the way they are written', 222: 'different result', 223: 'different calls', 224: 'different calls', 225: 'different arguments', 226: 'different number of tokens pulled', 227: 'parsed by differently written grammars',
    230: 'rule equality does not follow its two sides', 231: 'rule equality is not symmetric', 232: 'rule order disagrees with equality', 233: 'rule order is not antisymmetric', 234: 'equal rules hash differently', 235: 'equal rules',
})

PROPS = {}
GEN = {}


def A(prop, fam, ln, lo, cnt):
    return prop | fam << 8 | ln << 16 | lo << 24 | cnt << 40


def job(entry, arg, hash='const'):
    return dict(entry=entry, arg=arg, hash=hash)


def prop(id, **kw):
    def deco(f):
        PROPS[id] = kw
        GEN[id] = f
        return f
    return deco


def jobs(id, tier, seed):
    return GEN[id](tier == 'quick', random.Random(seed))


def known():
    p = os.path.join(ROOT, 'known-findings.jsonl')
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []


# ------------------------------------------------------------------------- tokenizer

SK = [2, 48, 8, 48, 96, 576, 2304, 1152, 1152, 2000, 1000, 4]   # sizes of the skeleton groups
SKN = sum(SK)
SMALL = sum(SK[:5])                                             # all with at most one operator
MED = sum(SK[:6])


def source(name):
    return open(os.path.join(ROOT, 'harness', 'src', name)).read()


def table(name, const):
    """The lines of a constant of the harness."""
    return re.search(r'pub const %s: [^=]*= &\[(.*?)\n\];' % const, source(name), re.S).group(1).strip().splitlines()


def strings(s):
    return re.findall(r'"(?:[^"\\]|\\.)*"', s)


PREFIXES = [len(strings(l.split('prefixes:')[1])) for l in table('tok.rs', 'SETS')]
NSETS = len(PREFIXES)
SETS = [(s, p) for s, n in enumerate(PREFIXES) for p in range(n)]


def chunks(lo, hi, k):
    return [(i, min(k, hi - i)) for i in range(lo, hi, k)]


def sample(rng, lo, hi, k, share):
    """Chunks of k out of lo..hi, spread evenly with a random phase: `share` of them."""
    cs = chunks(lo, hi, k)
    n = max(1, int(len(cs) * share))
    step = len(cs) / n
    ph = rng.random() * step
    return [cs[min(len(cs) - 1, int(ph + i * step))] for i in range(n)]


def skeletons(entry, p, quick, rng, ln, share, hash='const'):
    out = [job(entry, A(p, 0, ln, lo, c), hash) for lo, c in chunks(0, SMALL, 4)]
    if quick:
        out += [job(entry, A(p, 0, ln, lo, c), hash) for lo, c in sample(rng, SMALL, SKN, 8, share)]
    else:
        out += [job(entry, A(p, 0, ln, lo, c), hash) for lo, c in chunks(SMALL, SKN, 8)]
    return out


def sets(entry, p, ln, hashes=('const',)):
    return [job(entry, A(p, 3, ln, s, x), h) for s, x in SETS for h in hashes]


TOKB = 'patterns: regex skeletons of up to three nested operators out of 24 (greedy, lazy, counted) with every leaf character or class bound symbolic in b..y (quick: all with at most one operator and a seed-chosen share of the rest; thorough: all 8390); pairs and triples of 30 simple patterns; 33 realistic token sets; overlapping symbolic classes; any pattern text of up to 2 printable characters (thorough 3). inputs: all texts of up to 3-4 symbolic characters, after concrete prefixes for the token sets. Longer inputs, larger patterns and patterns with an empty sub-expression (known finding) are outside.'


@prop('C01', bounds=TOKB, cover=[1], assumptions=['patterns with an empty sub-expression (as in "a|" or "()") are left out: see known-findings.jsonl'])
def _(quick, rng):
    out = [job('tok', A(1, 5, 3, 2, w)) for w in range(5)] + [job('tok', A(1, 5, 3, 1, w)) for w in range(5)]
    out += overlapping('tok', 1, quick)
    out += sets('tok', 1, 2 if quick else 3)
    out += pairs('tok', 1, quick, rng, 3, 0.3)
    out += triples('tok', 1, quick, rng, 3, 0.06)
    out += skeletons('tok', 1, quick, rng, 3, 0.025)
    out += [job('tok', A(1, 6, 3 if quick else 4, lo, c)) for lo, c in sample(rng, SMALL, SKN, 10, 0.25 if quick else 1)]
    if not quick:
        out += [job('tok', A(1, 5, 3, 3, w)) for w in range(5)]
    return out


def pairs(entry, p, quick, rng, ln, share):
    return [job(entry, A(p, 1, ln, lo, c)) for lo, c in (sample(rng, 0, 900, 15, share) if quick else chunks(0, 900, 15))]


def triples(entry, p, quick, rng, ln, share):
    return [job(entry, A(p, 2, ln, lo, c)) for lo, c in sample(rng, 0, 4000, 10, share if quick else 0.6)]


def overlapping(entry, p, quick):
    if quick:
        return [job(entry, A(p, 4, 2, x, 0)) for x in (0, 3, 5)]
    return [job(entry, A(p, 4, 3, x, 0)) for x in range(6)]


@prop('C02', bounds=TOKB, cover=[1, 23])
def _(quick, rng):
    out = overlapping('tok', 2, quick) + sets('tok', 2, 2 if quick else 3)
    out += pairs('tok', 2, quick, rng, 3, 1) + triples('tok', 2, quick, rng, 3, 0.25)
    return out


def plain(entry, p, quick, rng):
    out = overlapping(entry, p, quick) + sets(entry, p, 2 if quick else 3)
    out += pairs(entry, p, quick, rng, 3, 0.5) + triples(entry, p, quick, rng, 3, 0.06)
    out += skeletons(entry, p, quick, rng, 3, 0.02)
    return out


@prop('C03', bounds=TOKB, cover=[1, 35])
def _(quick, rng):
    return plain('tok', 3, quick, rng)


@prop('C04', bounds=TOKB, cover=[1, 41])
def _(quick, rng):
    return plain('tok', 4, quick, rng)


@prop('C10', bounds=TOKB, cover=[1, 103])
def _(quick, rng):
    return plain('tok', 10, quick, rng)


@prop('C05', bounds='11 unsupported constructs in 14 contexts at every place of a list of three patterns; 28 malformed patterns; 30 supported patterns in 14 contexts; 33 token sets; the empty list; any pattern text of up to 2 printable characters in 5 surroundings (thorough 3, backslash excluded); any non-ASCII literal or class; symbolic-leaf skeletons', cover=[52, 53])
def _(quick, rng):
    out = [job('outcome', A(5, 5, 0, n, w)) for n in ((2, 1) if quick else (3, 2, 1)) for w in range(5)]
    out += [job('outcome', A(5, 0, 0, x, 0)) for x in range(11)] + [job('outcome', A(5, 1, 0, x, 0)) for x in range(28)]
    out += [job('outcome', A(5, 2, 0, x, 0)) for x in range(30)] + [job('outcome', A(5, 3, 0, x, 0)) for x in range(NSETS)]
    out += [job('outcome', A(5, 4, 0, 0, 0)), job('outcome', A(5, 6, 0, 0, 0))]
    out += [job('outcome', A(5, 7, 0, lo, c)) for lo, c in sample(rng, 0, SKN, 8, 0.1 if quick else 1)]
    return out


@prop('C06', bounds=TOKB + ' The pattern named in warnings is compared with the exact intersection of the languages (product of position automata), and with every input of the bounded length.', cover=[64, 67])
def _(quick, rng):
    out = [job('warn', A(6, 4, 1, x, 0)) for x in ((0, 3) if quick else (0, 1, 3, 4))] + sets('warn', 6, 1 if quick else 2)
    out += pairs('warn', 6, quick, rng, 2, 1) + triples('warn', 6, quick, rng, 2, 0.15)
    return out


@prop('C07', bounds=TOKB + ' One symbolic code point stands for every character.', cover=[81, 82])
def _(quick, rng):
    out = [job('table', A(7, 4, 0, x, 0)) for x in ((0, 3) if quick else range(5))]
    out += [job('table', A(7, 5, 0, n, w)) for n in (1, 2) for w in range(5)]
    out += sets('table', 7, 0)
    out += pairs('table', 7, quick, rng, 0, 0.5) + triples('table', 7, quick, rng, 0, 0.08)
    out += skeletons('table', 7, quick, rng, 0, 0.1)
    return out


@prop('C09', bounds='33 token sets, pairs and triples of 30 simple patterns, symbolic-leaf skeletons; inputs of up to 2-3 symbolic characters; two interleaved runs over every suffix in four schedules; hash orders const and two seeds', cover=[98])
def _(quick, rng):
    out = sets('drive', 9, 1 if quick else 2)
    out += [job('drive', A(9, 3, 1, s, 0), 'seed%d' % k) for s in range(NSETS) for k in (1, 2)]
    out += [job('drive', A(9, 1, 3, lo, c)) for lo, c in sample(rng, 0, 900, 10, 0.1 if quick else 1)]
    out += [job('drive', A(9, 2, 2, lo, c)) for lo, c in sample(rng, 0, 4000, 10, 0.03 if quick else 0.4)]
    out += [job('drive', A(9, 0, 2, lo, c)) for lo, c in sample(rng, 0, SKN, 4, 0.007 if quick else 0.3)]
    return out


# ------------------------------------------------------------------------- parser

NCLEAN, NDIRTY, NERRS = (len(table('par.rs', c)) for c in ('CLEAN', 'DIRTY', 'ERRS'))
LPRE = [len(strings(l)) - 1 for l in table('par.rs', 'LARGE') if strings(l)]
LARGE = [(g, p) for g, n in enumerate(LPRE) for p in range(n)]
# grammars of each small shape; 0-3, 8, 10 without error symbol, 4-7, 9, 11 with
SHAPE = {0: 169, 1: 441, 2: 9261, 3: 9261, 4: 441, 5: 961, 6: 29791, 7: 29791, 8: 7225, 9: 24336, 10: 1600, 11: 7225}
PLAINS, ERRORS = (0, 1, 10, 2, 3, 8), (4, 5, 11, 6, 7, 9)


def corpus(entry, p, fams, ln, k=2, hash='const'):
    n = {0: NCLEAN, 1: NDIRTY, 2: NERRS}
    return [job(entry, A(p, f, ln, lo, c), hash) for f in fams for lo, c in chunks(0, n[f], k)]


def large(entry, p, ln, hash='const', first=False):
    return [job(entry, A(p, 3, ln, g, x), hash) for g, x in LARGE if not first or x == 0]


def smalls(entry, p, shapes, ln, share, rng, quick, hash='const', k=60):
    out = []
    for s in shapes:
        cs = chunks(0, SHAPE[s], k) if not quick or SHAPE[s] < 500 or share >= 1 else sample(rng, 0, SHAPE[s], k, share)
        out += [job(entry, A(p, 16 + s, ln, lo, c), hash) for lo, c in cs]
    return out


GRAMB = 'grammars: a corpus of 40 conflict-free grammars (empty, nullable, left/right/centre recursive, non-LALR, unreachable rules), 20 with conflicts, 29 with error rules, and all grammars of one or two non-terminals and two or three rules over two terminals with right-hand sides of up to two symbols (two rules: up to three), 64000 with the error symbol as a further symbol and 28000 without (quick: %s). token sequences: every sequence of up to %s tokens whose kinds are symbolic, one kind unknown to the grammar included. Larger grammars and longer inputs are outside.'


@prop('C11', bounds={'quick': GRAMB % ('60 % of those without', '4-5'), 'thorough': GRAMB % ('', '6-7')}, cover=[112, 113])
def _(quick, rng):
    out = corpus('parse', 11, (0,), 5 if quick else 7, 1) + large('parse', 11, 5 if quick else 6)
    return out + smalls('parse', 11, PLAINS, 4 if quick else 6, 1, rng, quick)


@prop('C12', bounds={'quick': GRAMB % ('60 % of those without', '4-5'), 'thorough': GRAMB % ('', '6-7')}, cover=[120, 129])
def _(quick, rng):
    out = corpus('parse', 12, (0,), 5 if quick else 7, 1) + large('parse', 12, 5 if quick else 6)
    return out + smalls('parse', 12, PLAINS, 4 if quick else 6, 1, rng, quick)


@prop('C13', bounds='the grammars of C11, C14 and C17: ' + GRAMB % ('all', '0'), cover=[132, 133, 139], assumptions=['the grammar is chosen symbolically; the automaton of each is compared with a canonical LR(1) construction of the harness, state by state'])
def _(quick, rng):
    return corpus('conflicts', 13, (0, 1, 2), 0, 4) + large('conflicts', 13, 0, first=True) + smalls('conflicts', 13, PLAINS + ERRORS, 0, 0.9, rng, quick, k=100)


@prop('C14', bounds={'quick': GRAMB % ('half', '4-5'), 'thorough': GRAMB % ('', '6')}, cover=[146, 147], assumptions=['grammars with a conflict between accepting and reducing, and inputs on which the policy itself never ends (empty rules in a loop), are left out'])
def _(quick, rng):
    out = corpus('policy', 14, (1, 2), 5 if quick else 7, 1) + large('policy', 14, 3 if quick else 5)
    return out + smalls('policy', 14, PLAINS + ERRORS, 4 if quick else 6, 0.3, rng, quick)


@prop('C15', bounds={'quick': GRAMB % ('60 % of those without', '4-5'), 'thorough': GRAMB % ('', '6-7')}, cover=[150, 152])
def _(quick, rng):
    out = corpus('parse', 15, (0,), 5 if quick else 7, 1) + large('parse', 15, 5 if quick else 6)
    return out + smalls('parse', 15, PLAINS, 4 if quick else 6, 1, rng, quick)


@prop('C16', bounds={'quick': GRAMB % ('a tenth', '3-4') + ' Every reducer call fails in turn.', 'thorough': GRAMB % ('', '4-5') + ' Every reducer call fails in turn.'}, cover=[160])
def _(quick, rng):
    out = corpus('abort', 16, (0, 1, 2), 4 if quick else 5, 2) + large('abort', 16, 2 if quick else 3)
    return out + smalls('abort', 16, PLAINS + ERRORS, 3 if quick else 4, 0.15, rng, quick)


@prop('C17', bounds={'quick': GRAMB % ('a quarter of those with', '4-5'), 'thorough': GRAMB % ('', '5-7')}, cover=[176, 177, 178])
def _(quick, rng):
    out = corpus('policy', 17, (2,), 5 if quick else 7, 1) + large('policy', 17, 3 if quick else 5)
    return out + smalls('policy', 17, ERRORS, 4 if quick else 5, 0.22, rng, quick)


@prop('C18', bounds={'quick': GRAMB % ('half of those with', '4-5'), 'thorough': GRAMB % ('', '6-7')}, cover=[185])
def _(quick, rng):
    out = corpus('valid', 18, (2,), 5 if quick else 7, 1) + large('valid', 18, 4 if quick else 5)
    return out + smalls('valid', 18, ERRORS, 4 if quick else 6, 1, rng, quick)


@prop('C19', bounds={'quick': GRAMB % ('a third', '5-6'), 'thorough': GRAMB % ('', '6-7')}, cover=[193, 194, 195], assumptions=['running longer than 150 million instructions on one path counts as not ending, and is confirmed natively'])
def _(quick, rng):
    out = corpus('total', 19, (0, 2), 6 if quick else 7, 1) + large('total', 19, 3 if quick else 5)
    return out + smalls('total', 19, ERRORS + PLAINS, 4 if quick else 6, 0.45, rng, quick)


@prop('C22', bounds='every grammar of the corpora written in every mix of the three ways (first three rules free, the rest derived), start symbol by value and by number, on every sequence of up to 2 (thorough 3) symbolic tokens; any two rules of up to 2 symbols with symbolic 64-bit numbers, in all nine combinations of ways', cover=[227, 235])
def _(quick, rng):
    out = [job('forms', A(22, 255, 2, w, 0)) for w in range(9)]
    out += corpus('forms', 22, (0, 1, 2), 1 if quick else 3, 1)
    return out + smalls('forms', 22, (1, 5), 1, 0.2, rng, quick)


@prop('C21', bounds='tokenizers: 33 token sets, pairs and triples of 30 simple patterns, each built twice in one run with different hash keys (2 seeds, thorough 12), inputs of up to 2 symbolic characters after the prefixes; parsers: every grammar of the corpora and a share of the small ones under five fixed numberings (dense, gaps, shared, huge, reversed) and 2 (12) hash seeds, on every sequence of up to 3 symbolic tokens; corpus grammars under any injective numbering with 64-bit symbolic numbers (order of the numbers is forked on) and sequences of up to 1 token', cover=[207, 208, 216, 217],
      assumptions=['hash seeds are drawn, not quantified over: iteration order of hash maps is a concrete function of the seed', 'texts of warnings are compared under fixed numberings, only their number under symbolic ones'])
def _(quick, rng):
    out = []
    seeds = range(1, 3) if quick else range(1, 13)
    for k in seeds:
        h = 'seed%d' % (k + 100 * rng.randrange(1000))
        out += [job('rebuild', A(21, 3, 1, s, rng.randrange(PREFIXES[s])), h) for s in range(NSETS)]
        out += [job('rebuild', A(21, 1, 2, lo, c), h) for lo, c in sample(rng, 0, 900, 15, 0.2)]
        out += [job('rebuild', A(21, 2, 2, lo, c), h) for lo, c in sample(rng, 0, 4000, 10, 0.03)]
        out += [job('rebuild', A(21, 6, 3, lo, c), h) for lo, c in sample(rng, 0, SKN, 10, 0.02)]
        out += corpus('renumber', 21, (0, 1, 2), 2 if quick else 4, 3, h) + large('renumber', 21, 1 if quick else 2, h, quick)
        out += smalls('renumber', 21, (2, 3, 6, 7, 9), 2, 0.012 if quick else 0.03, rng, True, h, 10)
    out += [job('renumber', A(22, f, 1, lo, 1)) for f, n in ((0, NCLEAN), (1, NDIRTY), (2, NERRS)) for lo in range(n) if not quick or (f, lo) not in ((0, 33), (0, 20))]
    return out


@prop('C23', bounds='any two or three ranges and any code point, all with symbolic 32-bit bounds (character ranges, and any bounds); ordered and hashed maps of three symbolic ranges', cover=[252])
def _(quick, rng):
    return [job('ranges', A(23, 0, l, v, 0)) for l in range(4) for v in range(2)]


# ------------------------------------------------------------------------- generators and example

NMTOK, NMPAR, NLINES = NSETS + 60, NCLEAN + NDIRTY + NERRS + len(LPRE), 32


@prop('C08', feature='mtok', expands=True, bounds='the expansion of 84 invocations of tokenizer! (33 token sets, 30 pairs and 30 triples of simple patterns, in several ways of writing them) beside the tokenizer built at run time, on every input of up to 3 symbolic characters (after concrete prefixes for the token sets; thorough 4)', cover=[276, 277],
      assumptions=['what the macro does with other pattern lists is outside; the macro itself runs concretely in the compiler, its output is what is encoded'])
def _(quick, rng):
    out = [job('mtok', A(8, 0, 2 if quick else 3, s, x)) for s, x in SETS]
    return out + [job('mtok', A(8, 0, 3 if quick else 4, i, 0)) for i in range(NSETS, NMTOK)]


@prop('C20', feature='mpar', expands=True, bounds='the expansion of 89 invocations of parser! (40 conflict-free grammars, 20 with conflicts, 29 with error rules; tokens named, quoted or both, listed in and out of enum order, with unused ones, alternatives with and without |) beside the parser built at run time, on every sequence of up to 5 (thorough 7) symbolic tokens, and up to 3 (4) with any one of the first eight reducer calls failing', cover=[268, 269],
      assumptions=['what the macro does with other grammars is outside; the macro itself runs concretely in the compiler, its output is what is encoded'])
def _(quick, rng):
    return [job('mpar', A(20, 0, 5 if quick else 7, i, 0)) for i in range(NMPAR - len(LPRE))] + [job('mpar', A(20, x, 3 if quick else 5, NMPAR - len(LPRE) + g, 0)) for g, x in LARGE] + [job('mpar', A(20, 0, 3 if quick else 4, i, 8)) for i in range(NMPAR - len(LPRE))]


@prop('C24', feature='example', bounds='the example program run from its main with standard input and output replaced, on 32 shapes of one to three lines of up to 17 characters in which operators and parentheses, digits (quick: 2 or 3; thorough: any) or up to three arbitrary printable characters are symbolic; other lines, longer lines and non-ASCII input are outside', cover=[280, 285, 286],
      assumptions=['floating-point parsing, arithmetic and printing run on concrete digits: one path per choice of digits'])
def _(quick, rng):
    return [job('example', A(24, 0, 0 if quick else 1, i, 0)) for i in range(NLINES)]


CODES.update({
    200: 'patterns build once and not again', 201: 'different warnings when built again', 202: 'different number of tokens when built again', 203: 'different pattern when built again', 204: 'different token length when built again', 205: 'different text when built again', 206: 'different items when built again', 207: 'several tokens', 208: 'patterns with warnings',
    240: 'borrowed as something other than its start', 241: 'equality is not that of the borrowed start', 242: '!= is not the opposite of ==', 243: 'equality is not symmetric', 244: 'equality is not reflexive', 245: 'order disagrees with equality', 246: 'partial order disagrees with order', 247: 'order is not that of the borrowed start', 248: 'order is not antisymmetric', 249: 'comparison operators disagree with order', 250: 'order is not transitive', 251: 'equality is not transitive', 252: 'equal ranges', 253: 'equal ranges hash differently', 254: 'hash differs from that of the borrowed start', 255: 'a clone differs', 256: 'lookup by code point in a map fails', 257: 'lookup by range in a map fails', 258: 'nearest range in an ordered map is wrong', 259: 'sorted ranges out of order', 260: 'set of ranges differs from the set of starts', 261: 'binary search misses',
    262: 'generated parser: different result', 263: 'generated parser: different calls', 264: 'generated parser: different calls', 265: 'generated parser: different arguments', 266: 'generated parser: different number of tokens pulled', 268: 'accepted', 269: 'rejected',
    270: 'patterns the macro accepts do not build at run time', 271: 'generated tokenizer: different number of tokens', 272: 'generated tokenizer: different pattern', 273: 'generated tokenizer: different token length', 274: 'generated tokenizer: different text', 275: 'generated tokenizer: different items', 276: 'several tokens', 277: 'stopped early',
    280: 'all lines answered', 281: 'the line printed is not the value', 282: 'the line printed is not the value', 283: 'no single line printed for a line that is no expression', 284: 'a value printed for a line that is no expression', 285: 'expression', 286: 'not an expression', 287: 'the program ended',
})
