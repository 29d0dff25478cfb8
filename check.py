#!/usr/bin/env python3
"""Decides one property of /repo's working tree by symbolic execution.

  check.py PROPERTY [quick|thorough]     decide, write evidence/PROPERTY.json
  check.py --replay FILE                 run a recorded counterexample natively
  check.py --regime MODULE HARNESS [..]  run single regimes, print a summary (development)

Steps: build the executor; compile harness + /repo to LLVM IR (from scratch, one module per feature
set); execute every regime of the property symbolically; replay every counterexample, and a sample of
the explored paths, against a native build of /repo; write the evidence.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from regimes import PROPERTIES, ASSUMPTIONS

REPO = '/repo'
TARGET = os.environ.get('SYMEX_TARGET', HERE + '/target')
TOOLCHAIN = 'stable'
RUSTFLAGS = ('-C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-inline-threshold=-1000000 '
             '--emit=llvm-ir -C symbol-mangling-version=v0')
JOBS = max(2, min(8, os.cpu_count() or 2))
SYMEX = TARGET + '/engine/release/symex'


class Broken(Exception):
    pass


def cargo(crate, target, args, flags=''):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=target, RUSTFLAGS=flags,
               CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    for k in ('CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    p = subprocess.run(['cargo', 'build', '--release', '--offline'] + args, cwd=HERE + '/' + crate, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken('build of %s failed:\n%s' % (crate, p.stdout[-3000:]))


def build_engine():
    cargo('engine', TARGET + '/engine', [])


def fresh(path):
    if os.path.isdir(path):
        shutil.rmtree(path)


def build_module(features):
    """LLVM IR of harness + library + std with the given features, and the native replay binary."""
    name = features or 'none'
    t = '%s/ir-%s' % (TARGET, name)
    fresh(t)
    cargo('harness', t, ['--features', features] if features else [], RUSTFLAGS)
    ll = t + '/release/deps/harness.ll'
    if not os.path.exists(ll):
        raise Broken('no IR for ' + name)
    r = '%s/native-%s' % (TARGET, name)
    fresh(r)
    cargo('replay', r, ['--features', features] if features else [])
    return ll, r + '/release/replay'


def symex(ll, regime, opts, seed):
    out = tempfile.NamedTemporaryFile(suffix='.json', delete=False).name
    cmd = [SYMEX, ll, regime['harness'], '--out', out, '--seed', str(seed)]
    for k, v in opts.items():
        cmd += ['--' + k, str(v)]
    limit = float(opts.get('deadline', 600)) * 1.5 + 60
    err = ''
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=limit)
        if p.returncode:
            err = 'executor exit %s: %s' % (p.returncode, p.stderr[-500:])
    except subprocess.TimeoutExpired:
        err = 'executor exceeded %ss' % limit
    try:
        with open(out) as f:
            d = json.load(f)
    except ValueError:
        d = None
    os.unlink(out)
    if d is None:
        d = {'harness': regime['harness'], 'complete': False, 'errors': [err or 'no output'], 'violations': [], 'samples': [],
             'covers': [], 'functions': [], 'summarised': [], 'cases': {}}
        for k in ('wall_s', 'paths', 'done', 'infeasible', 'forks', 'steps', 'asserts', 'asserts_by_solver', 'panic_checks', 'queries',
                  'sat', 'unsat', 'unknown', 'solver_s', 'max_query_s', 'cached'):
            d[k] = 0
    elif err:
        d['errors'].append(err)
        d['complete'] = False
    return d


def replay(binary, cases, timeout=300, stop=''):
    """Native run; returns stdout lines and the exit code."""
    text = ''.join('case %s\n%s\nend\n' % (h, '\n'.join(t)) for h, t in cases)
    scratch = tempfile.mkdtemp(prefix='symex-replay-')
    try:
        p = subprocess.run([binary, scratch + '/'], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           timeout=timeout, env=dict(os.environ, SYMEX_STOP=stop))
        return p.stdout.splitlines(), p.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ''
        return (out if isinstance(out, str) else out.decode()).splitlines() + ['timeout'], -1
    finally:
        shutil.rmtree(scratch)


def reproduces(binary, harness, v):
    kind = v['kind']
    if kind == 'hang':
        lines, rc = replay(binary, [(harness, v['trace'])], timeout=60)
        return lines[-1:] == ['timeout'], lines
    lines, rc = replay(binary, [(harness, v['trace'])], timeout=120, stop=v['detail'] if kind == 'assert' else '')
    if kind == 'assert':
        hit = any(l == 'fail ' + v['detail'] for l in lines)
        # a panic before the assertion is a violation of its own kind, found separately
        return hit, lines
    if kind == 'panic':
        return any(l.startswith('panic ') for l in lines) or rc < 0 and not any(l.startswith(('alloc', 'broken')) for l in lines), lines
    if kind == 'alloc':
        return any(l.startswith('alloc ') for l in lines), lines
    return False, lines


def validate(binary, harness, samples):
    """The reports of sampled paths agree with the native run."""
    if not samples:
        return 0, []
    lines, rc = replay(binary, [(harness, s['trace']) for s in samples])
    bad, ok = [], 0
    blocks, cur = [], []
    for l in lines:
        if l.startswith('done '):
            blocks.append(cur)
            cur = []
        else:
            cur.append(l)
    for i, s in enumerate(samples):
        if i >= len(blocks):
            bad.append('%s: path %d did not finish natively: %s' % (harness, i, cur[-3:]))
            break
        got = [tuple(l.split()[1:3]) for l in blocks[i] if l.startswith('report ')]
        want = [(n, v) for n, v in s['reports']]
        if got != want:
            bad.append('%s: path %d: executor %s, native %s, inputs %s' % (harness, i, want, got, s['trace']))
        else:
            ok += 1
    return ok, bad


def relevant(prop, r, v):
    p = dict(PROPERTIES[prop], **{k: r[k] for k in ('asserts', 'kinds') if k in r})
    if v['kind'] == 'assert':
        return v['detail'].startswith(tuple(p['asserts']))
    return v['kind'] == 'hang' or v['kind'] in p['kinds']


def known_findings():
    r = []
    path = HERE + '/known_findings'
    if os.path.exists(path):
        for l in open(path):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                r.append(l[len('known: '):])
    return r


def run_property(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPERTIES[prop]
    regimes = [r for r in P['regimes'] if tier == 'thorough' or not r.get('thorough')]
    build_engine()
    modules = sorted({r['module'] for r in regimes})
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        built = dict(zip(modules, ex.map(lambda m: build_module('' if m == 'none' else m), modules)))
    t_build = time.time() - t0

    # Wall-clock budget: the commands have 900 s.
    budget = 600.0 if tier == 'quick' else 3 * 3600.0
    total = {'t': time.time() + budget}

    def job(r):
        o = dict(r.get('opts', {}))
        left = total['t'] - time.time()
        cap = r.get('deadline', 150) if tier == 'quick' else 4 * r.get('deadline', 150)
        o['deadline'] = int(max(5, min(cap, left)))
        o.setdefault('solver-timeout', 30000 if tier == 'quick' else 120000)
        o.setdefault('samples', 12 if tier == 'quick' else 60)
        return symex(built[r['module']][0], r, o, seed)

    # longest first
    order = sorted(regimes, key=lambda r: -r.get('cost', 10))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(job, order))

    fatal, noted, undecided, spurious = [], [], [], []
    validated = 0
    reported = []
    findings = known_findings()
    for r, d in zip(order, res):
        h = r['harness']
        binary = built[r['module']][1]
        seen = set()
        for v in d['violations']:
            key = (v['kind'], v['detail'])
            if key in seen:
                continue
            ok, lines = reproduces(binary, h, v)
            if not ok and v['kind'] == 'hang':
                continue
            if not ok:
                spurious.append('%s: %s %s did not reproduce natively: %s; inputs %s' % (h, v['kind'], v['detail'], lines[-3:], v['trace']))
                continue
            seen.add(key)
            if relevant(prop, r, v):
                reported.append((r, v, lines))
            else:
                noted.append('%s: %s %s (another property)' % (h, v['kind'], v['detail']))
        n, bad = validate(binary, h, [s for s in d['samples'] if not d['violations']])
        validated += n
        fatal += bad
        for e in d['errors']:
            undecided.append('%s [%s]: %s' % (h, r['module'], e))
        if d['complete'] and not d['violations']:
            for c in r.get('covers', ['end']):
                if c not in d['covers']:
                    undecided.append('%s: never reaches %s (vacuous)' % (h, c))
    fatal += spurious

    rc = 0
    files = []
    for i, (r, v, lines) in enumerate(reported):
        ident = '%s %s %s' % (r['harness'], v['kind'], v['detail'])
        if any(f.startswith('property=%s %s' % (prop, ident)) for f in findings):
            print('KNOWN-FINDING: property=%s %s' % (prop, ident))
            continue
        path = '%s/evidence/%s-%d.replay.json' % (HERE, prop, i)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'features': r['module'], 'harness': r['harness'], 'kind': v['kind'], 'detail': v['detail'],
                       'trace': v['trace'], 'stack': v['stack'], 'native': lines[-6:]}, f, indent=1)
        files.append(path)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s %s; native run: %s' % (r['harness'], v['kind'], v['detail'], lines[-3:]))
        rc = 1

    tot = lambda k: sum(d[k] for d in res)
    fns = sorted({f for d in res for f in d['functions'] if 'file_format' in f})
    others = sorted({f for d in res for f in d['functions'] if 'file_format' not in f})
    samples = []
    for r, d in zip(order, res):
        for s in d['samples'][:1]:
            samples.append({'regime': r['harness'], 'inputs': [x[:300] for x in s['trace']][:12], 'reports': s['reports']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'),
        'coverage': {
            'states': tot('forks') + tot('done'), 'transitions': tot('steps'), 'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'paths_completed': tot('done'), 'paths_infeasible': tot('infeasible'),
            'assertions_decided': tot('asserts'), 'panic_sites_checked': tot('panic_checks'),
            'solver_queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
            'solver_seconds': round(tot('solver_s'), 2), 'solver': next((d.get('solver') for d in res if d.get('solver')), ''),
            'functions_encoded': fns, 'library_functions_encoded': len(others),
            'regimes': [{'module': r['module'], 'harness': r['harness'], 'bounds': r['bounds'], 'complete': d['complete'],
                         'paths': d['done'], 'answers': sum(k.startswith('got=') for k in d.get('outcomes', {})), 'queries': d['queries'], 'solver_s': round(d['solver_s'], 2), 'wall_s': round(d['wall_s'], 1)}
                        for r, d in zip(order, res)],
            'outside': P['outside'],
            'undecided': undecided[:40], 'noted': noted[:20], 'engine_mismatches': fatal[:10],
            'explanation': 'Every regime executes the compiled code of /repo symbolically; "complete" regimes have explored every path and '
                           'decided every assertion on it with the solver, for all inputs within the stated bounds.',
            'build_s': round(t_build, 1),
        },
        'assumptions': ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(files),
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (HERE, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    done = sum(1 for d in res if d['complete'])
    print('%s: %d/%d regimes complete, %d paths, %d queries (%.1fs), %d replayed, %.0fs' %
          (prop, done, len(res), tot('done'), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    for u in undecided[:12]:
        print('UNDECIDED', u[:400])
    for u in noted[:6]:
        print('NOTE', u[:400])
    for u in fatal[:6]:
        print('MISMATCH', u[:1500])
    if rc == 0 and fatal:
        return 3
    if rc == 0 and tot('done') == 0:
        return 3
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == '--setup':
            build_engine()
            return 0
        if a[0] == '--replay':
            d = json.load(open(a[1]))
            f = d['features']
            _, b = build_module('' if f == 'none' else f)
            lines, rc = replay(b, [(d['harness'], d['trace'])])
            print('\n'.join(lines))
            print('exit', rc)
            return 0
        return run_property(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except Broken as e:
        print('BROKEN', e)
        return 3


if __name__ == '__main__':
    sys.exit(main())
