#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

usage: check.py <property-id>        (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. builds the harness crate (path dependencies on /repo) to LLVM IR and to a native binary;
2. runs the symbolic engine on the property's jobs: every job is an entry point of the harness
   with symbolic inputs; branch feasibility and assertions are decided by Z3;
3. replays counterexamples on the native binary (only a reproduced one is a violation), and
   replays sampled passing paths to validate the engine against the real execution;
4. writes evidence/<id>.json.
Exit 0: held on everything explored; 1: violation; 2: the check could not decide.
"""
import json, os, subprocess, sys, time, fcntl, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import jobs as J

REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
CORES = os.cpu_count() or 4


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
             HOME=e.get('HOME', '/root'), CARGO_INCREMENTAL='0')
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


def fail(msg):
    print('CHECK-ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(2)


def run(cmd, cwd, target, extra=()):
    e = env()
    e['CARGO_TARGET_DIR'] = target
    e.update(extra)
    return subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_engine():
    t = os.path.join(BUILD, 'engine')
    r = run(['cargo', 'build', '--offline', '--release', '--locked'], os.path.join(ROOT, 'engine'), t)
    if r.returncode:
        fail('the engine does not build:\n' + r.stdout[-3000:])
    return os.path.join(t, 'release', 'sxengine')


# functions keep their names (hashing is recognised by name), whatever calls them
RUSTFLAGS = '-Cllvm-args=-inline-threshold=-20000'


class FeatureBroken(Exception):
    pass


def cargo(src, t, feature):
    return run(['cargo', 'rustc', '--offline', '--release', '--locked'] + (['--features', feature] if feature else []) + ['--', '--emit=llvm-ir,link'], src, t,
               {'RUSTFLAGS': RUSTFLAGS})


def build_harness(work, feature=None):
    """Harness + /repo's current tree -> (IR file, native binary)."""
    t = os.path.join(BUILD, 'harness')
    deps = os.path.join(t, 'release', 'deps')
    src = os.path.join(ROOT, 'harness')
    for attempt in range(2):
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith('sxharness-') and f.endswith('.ll'):
                    os.remove(os.path.join(deps, f))
        # cargo decides by file times whether /repo changed; a tree restored with old times must
        # be rebuilt all the same, so the fingerprints of /repo's own crates are dropped
        fp = os.path.join(t, 'release', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.split('-')[0] in ('sxharness', 'tokenizer', 'parser', 'tokenizer_generator', 'parser_generator', 'example'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = cargo(src, t, feature)
        if r.returncode == 0:
            break
    else:
        if feature and cargo(src, t, None).returncode == 0:
            raise FeatureBroken(r.stdout)
        fail('/repo (with the harness) does not build:\n' + r.stdout[-6000:])
    lls = [f for f in os.listdir(deps) if f.startswith('sxharness-') and f.endswith('.ll')]
    if len(lls) != 1:
        fail('expected one IR file, found %r' % lls)
    ll = os.path.join(work, 'h.ll')
    shutil.move(os.path.join(deps, lls[0]), ll)
    exe = os.path.join(work, 'h')
    shutil.copy(os.path.join(t, 'release', 'sxharness'), exe)
    return ll, exe


def native(exe, entry, arg, model, secs=10):
    """-> (outcome, failed assertion code, observations)"""
    try:
        r = subprocess.run([exe, entry, str(arg)] + [str(v) for v in model], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs,
                           preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return 'hang', None, None
    out = r.stdout.decode('utf8', 'replace')
    obs, code = None, None
    for l in out.splitlines():
        if l.startswith('OBS'):
            obs = [int(x) for x in l.split()[1:]]
        elif l.startswith('FAIL'):
            code = int(l.split()[1])
    if r.returncode == 3:
        return 'assert', code, obs
    if r.returncode == 4:
        return 'diverged', None, obs
    if r.returncode == 0:
        return 'ok', None, obs
    if r.returncode in (-6, -4, -11, 101, 134):
        return 'panic', None, r.stderr.decode('utf8', 'replace')[-600:]
    return 'exit %d' % r.returncode, None, r.stderr.decode('utf8', 'replace')[-600:]


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def reproduce(exe, v, pool):
    """Replay a counterexample until it fails: hash order differs from run to run."""
    first = native(exe, v['entry'], v['arg'], v['model'], 20)
    if first[0] in ('assert', 'panic', 'hang'):
        return first, 1
    if first[0] not in ('ok',):
        return first, 1
    n = 1
    for rnd in range(25):
        for r in pool.map(lambda _: native(exe, v['entry'], v['arg'], v['model']), range(64)):
            n += 1
            if r[0] in ('assert', 'panic', 'hang'):
                return r, n
    return first, n


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        work = tempfile.mkdtemp(prefix='sx-setup-')
        try:
            build_engine()
            for f in (None, 'mtok', 'mpar', 'example'):
                try:
                    build_harness(work, f)
                except FeatureBroken as e:
                    print(str(e)[-2000:])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print('built')
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='sx-%s-' % prop)
    try:
        with open(os.path.join(BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            engine = build_engine()
            try:
                ll, exe = build_harness(work, J.PROPS[prop].get('feature'))
            except FeatureBroken as e:
                # the library builds, what is generated from it does not
                if not J.PROPS[prop].get('expands'):
                    fail('the harness does not build with this part of /repo:\n' + str(e)[-6000:])
                p = os.path.join(ROOT, 'evidence', 'replay-%s-0.json' % prop)
                with open(p, 'w') as f:
                    json.dump(dict(property=prop, what='the code generated for a grammar or pattern list that the run-time builder accepts does not compile', log=str(e)[-20000:]), f, indent=1)
                with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
                    json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], explanation='the expansion of a macro invocation does not compile'), assumptions=J.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=1), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (prop, p))
                sys.exit(1)
            engine_copy = os.path.join(work, 'engine')
            shutil.copy(engine, engine_copy)
        sys.exit(check(prop, tier, seed, t0, work, ll, exe, engine_copy))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, t0, work, ll, exe, engine):
    spec = J.PROPS[prop]
    jobs = J.jobs(prop, tier, seed)
    pool = ThreadPoolExecutor(CORES)
    known = [k for k in J.known() if k['property'] == prop and k['status'] == 'known']
    # findings recorded rather than repaired: identified by entry, argument and input
    for k in known:
        hit = None
        for _ in range(20):
            r = native(exe, k['entry'], k['arg'], k['model'])
            if r[0] in ('assert', 'panic', 'hang'):
                hit = r
                break
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    jf = os.path.join(work, 'jobs')
    with open(jf, 'w') as f:
        for j in jobs:
            f.write('%s %d %s\n' % (j['entry'], j['arg'], j['hash']))
    out = os.path.join(work, 'out.json')
    budget = float(os.environ.get('SX_BUDGET', 300 if tier == 'quick' else 5400))
    build_s = time.time() - t0
    left = max(60.0, budget - build_s)
    cmd = [engine, '--ll', ll, '--jobs', jf, '--out', out, '--workers', str(CORES), '--deadline', str(left),
           '--job-secs', str(spec.get('job_secs', 90 if tier == 'quick' else 1500)), '--samples', '4', '--stop-after', '6',
           '--max-insts', str(spec.get('max_insts', 150000000))]
    r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        fail('the engine ended with %d:\n%s' % (r.returncode, r.stdout[-3000:]))
    module, rows = None, []
    for l in open(out):
        d = json.loads(l)
        if 'module' in d:
            module = d['module']
        else:
            rows.append(d)
    rows.sort(key=lambda d: d['job'])
    if os.environ.get('SX_KEEP'):
        shutil.copy(out, os.environ['SX_KEEP'])
    viols, errors, truncated, skipped = [], [], [], 0
    tot = dict(paths=0, forks=0, insts=0, asserts=0, sym_asserts=0, assumed_out=0, queries=0, sat=0, unsat=0, unknown=0, undecided=0, solver_s=0.0)
    covers, cov, samples, maxq, done = {}, {}, [], 0.0, 0
    for d in rows:
        if d.get('skipped'):
            skipped += 1
            continue
        if d.get('killed'):
            truncated.append('%s %d' % (d['entry'], d['arg']))
            continue
        for k in tot:
            tot[k] += d[k]
        maxq = max(maxq, d['max_query_s'])
        for c, n in d['covers'].items():
            covers[int(c)] = covers.get(int(c), 0) + n
        for fi, n, m in d['cov']:
            name = module['names'][str(fi)]
            cov[name] = (max(cov.get(name, (0, m))[0], n), m)
        for v in d['violations']:
            v.update(entry=d['entry'], arg=d['arg'], hash=d['hash'])
            viols.append(v)
        for s in d['samples']:
            samples.append(dict(entry=d['entry'], arg=d['arg'], hash=d['hash'], model=s['model'], obs=s['obs']))
        inc = d['incomplete']
        if inc is None:
            done += 1
        elif inc.startswith('job time limit'):
            truncated.append('%s %d' % (d['entry'], d['arg']))
        elif inc != 'stopped after violations':
            errors.append('%s %d %s: %s' % (d['entry'], d['arg'], d['hash'], inc))
    if module is None or module['bad_workers'] or len(rows) < len(jobs):
        errors.append('engine workers died: ' + r.stdout[-800:])

    # counterexamples: against the real code
    status, shown, unrepro = 0, [], []
    seen = set()
    for v in viols:
        key = (v['entry'], v['kind'], v['code'], tuple(v['trace'][:3]))
        if key in seen and shown:
            continue
        seen.add(key)
        got, n = reproduce(exe, v, pool)
        if got[0] in ('assert', 'panic', 'hang'):
            v['native'] = dict(outcome=got[0], code=got[1], detail=got[2] if isinstance(got[2], str) else None, runs=n)
            shown.append(v)
            if len(shown) >= 3:
                break
        else:
            v['native'] = dict(outcome=got[0], runs=n)
            unrepro.append(v)
            if len(unrepro) >= 4 and not shown:
                break
    if shown:
        status = 1
        for i, v in enumerate(shown):
            p = os.path.join(ROOT, 'evidence', 'replay-%s-%d.json' % (prop, i))
            what = J.CODES.get(v['code'], v['what'])
            with open(p, 'w') as f:
                json.dump(dict(property=prop, what=what, assertion=v['code'], kind=v['kind'], detail=v['what'], entry=v['entry'], arg=v['arg'], hash=v['hash'], input=v['model'],
                               where=v['trace'][:8], native=v['native'], how='build /verif/harness (cargo build --release), then: sxharness %s %d %s' % (v['entry'], v['arg'], ' '.join(map(str, v['model'])))), f, indent=1)
            print('  %s: %s; native replay: %s (run %d)' % (v['kind'], what, v['native']['outcome'], v['native']['runs']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
    elif unrepro:
        errors.append('counterexample not reproduced natively: %s' % json.dumps(unrepro[0])[:600])

    # passing paths: does the real code behave as the engine says?
    validated = 0
    if status == 0:
        pick = samples if len(samples) <= 240 else [samples[i * len(samples) // 240] for i in range(240)]
        for s, g in zip(pick, pool.map(lambda s: native(exe, s['entry'], s['arg'], s['model']), pick)):
            if g[0] == 'ok' and g[2] == s['obs']:
                validated += 1
            else:
                errors.append('engine and native execution differ: %s native %s' % (json.dumps(s)[:300], str(g)[:300]))
                break
    if status == 0:
        for c in spec.get('cover', []):
            if not covers.get(c):
                errors.append('vacuous: situation %d (%s) never reached' % (c, J.CODES.get(c, '')))
        if tot['asserts'] == 0 or done < max(1, len(jobs) * 2 // 5):
            errors.append('too little was explored: %d of %d jobs complete' % (done, len(jobs)))
        if module and module['hash_one'] == 0:
            errors.append('hashing was not found in the IR')
    for e in errors[:6]:
        print('CHECK-ERROR: ' + e)
    if status == 0 and errors:
        status = 2

    fns = sorted(cov)
    blocks = (sum(a for a, _ in cov.values()), sum(b for _, b in cov.values()))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['forks'], traces_validated_against_impl=validated,
            samples=[dict(entry=s['entry'], arg=s['arg'], hash=s['hash'], input=s['model'], observed=s['obs']) for s in samples[:6]],
            explanation='states = symbolic paths decided to their end, transitions = forks between them; each path stands for all inputs satisfying its path condition',
            jobs=len(jobs), jobs_complete=done, jobs_truncated_by_time=truncated[:20], jobs_not_started=skipped,
            exhaustive=(done == len(jobs)),
            instructions_executed=tot['insts'], assertions_decided=tot['asserts'], assertions_with_symbolic_condition=tot['sym_asserts'],
            paths_excluded_by_assumption=tot['assumed_out'],
            solver=dict(queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], paths_given_up=tot['undecided'], seconds=round(tot['solver_s'], 2), longest_query_s=round(maxq, 3), name='z3 (libz3 C API, bit-vectors)'),
            functions_encoded=len(fns), blocks_covered='%d of %d' % blocks, functions=fns[:400],
            situations_reached={('%d %s' % (c, J.CODES.get(c, ''))).strip(): n for c, n in sorted(covers.items())},
            bounds=spec['bounds'][tier] if isinstance(spec['bounds'], dict) else spec['bounds'],
            ir_hash=module['ir_hash'] if module else None, module_functions=module['functions'] if module else 0,
        ),
        assumptions=J.ASSUMPTIONS + spec.get('assumptions', []),
        wall_s=round(time.time() - t0, 1), violations=len(shown),
    )
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %s; %d jobs (%d complete), %d paths, %d queries (%.1f s solver), %d asserts (%d symbolic), %d natively validated, %.0f s' % (
        prop, tier, {0: 'held', 1: 'VIOLATED', 2: 'undecided'}[status], len(jobs), done, tot['paths'], tot['queries'], tot['solver_s'], tot['asserts'], tot['sym_asserts'], validated, time.time() - t0))
    return status


if __name__ == '__main__':
    main()
