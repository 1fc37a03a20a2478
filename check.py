#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]: decides one property on /repo's current working tree.

1. extracts every function of /repo's headers from clang's AST,
2. generates the proof obligations of every unit (contract) of the property and discharges them with z3/cvc5,
3. compiles the property's replay driver against /repo's real headers and executes the same contracts on concrete inputs
   (solver models first, then generated ones), which turns a failed obligation into a failing input,
4. writes evidence/<property>.json; exit 0 / exit 1 + VIOLATION line / exit 2 on an error of the check itself.
"""
import os, re, sys, json, time, subprocess, shutil, tempfile, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from hv import ast as A, runner

REPO = A.REPO
CXX = ['-std=c++17', '-w', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,float-cast-overflow,float-divide-by-zero,pointer-overflow,shift,signed-integer-overflow',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
       '-include', '/opt/vp/compat/msvc_compat.hpp', '-I%s/src' % REPO, '-I%s/src/ml' % REPO, '-I%s/src/lang/statements' % REPO, '-I/opt/vp/compat',
       '-I%s/drivers' % HERE]
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4000',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99', HOME='/nonexistent')


def known():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                d = l[len('known: '):]
                prop = d.split()[0].split('=')[1]
                key, _, what = d.partition(' what=')
                ident = key.split(' id=')[1]
                out.append((prop, ident, what))
    return out


def hints(results):
    lines = []
    for r in results:
        for o in r['obls']:
            if o['status'] != 'proved' and o.get('model'):
                vals = []
                for k, v in o['model'].items():
                    if isinstance(v, (int, float)) or (isinstance(v, str) and len(v) < 40):
                        vals.append('%s=%s' % (k.replace(' ', '_').replace('=', '_'), str(v).replace(' ', '_')))
                lines.append(' '.join(vals[:200]))
    return lines


def dictionary():
    """integer, float and string literals of the sources under test: extra inputs for the drivers"""
    ints, floats, strs = set(), set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        if d.startswith(os.path.join(REPO, 'src', 'test')) or d.startswith(os.path.join(REPO, 'src', 'example')):
            continue
        for f in fs:
            if not f.endswith(('.hpp', '.h')):
                continue
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
            for m in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
                if 0 < len(m) < 40 and '\\' not in m:
                    strs.add(m)
            t = re.sub(r'"(?:[^"\\\n]|\\.)*"', '', t)
            for m in re.findall(r'(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)', t):
                floats.add(float(m))
            for m in re.findall(r'(?<![\w.])(0x[0-9a-fA-F]+|0b[01]+|\d+)(?![\w.]*\.\d)', t):
                v = int(m, 0) if m[:2] in ('0x', '0b') else int(m)
                if v < 1 << 62:
                    ints.add(v)
    return ['i%d' % v for v in sorted(ints)] + ['f%r' % v for v in sorted(floats)] + ['s' + v for v in sorted(strs)]


def start_compile(prop, scratch):
    src = os.path.join(HERE, 'drivers', prop + '.cpp')
    if not os.path.exists(src):
        return None
    exe = os.path.join(scratch, 'driver')
    log = open(os.path.join(scratch, 'compile.log'), 'w')
    return exe, subprocess.Popen(['g++'] + CXX + [src, '-o', exe, '-ltbb', '-lpthread'], stdout=log, stderr=log)


def run_driver(exe, scratch, seed, budget, hintlines, tag):
    d = os.path.join(scratch, 'run_' + tag)
    os.makedirs(d, exist_ok=True)
    hf = os.path.join(d, 'hints.txt')
    with open(hf, 'w') as f:
        f.write('\n'.join(hintlines) + '\n')
    cur = os.path.join(d, 'current.txt')
    df = os.path.join(d, 'dict.txt')
    with open(df, 'w') as f:
        f.write('\n'.join(dictionary()) + '\n')
    env = dict(ENV, HV_CURRENT=cur, HV_DICT=df, HV_HINTS=hf, HV_SCRATCH=d, TMPDIR=d)
    t0 = time.time()
    try:
        p = subprocess.run([exe, str(seed), str(budget)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=budget + 120, stdin=subprocess.DEVNULL)
        rc, out, err = p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as ex:
        rc, out, err = 124, (ex.stdout or b'').decode(errors='replace'), 'driver still running after %d s' % (budget + 120)
    try:
        c = open(cur, errors='replace').read()
    except OSError:
        c = ''
    return dict(rc=rc, out=out, err=err, current=c, time=time.time() - t0)


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='hv_%s_' % prop)
    os.chmod(scratch, 0o755)
    try:
        return decide(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, t0, scratch):
    runner.load_specs()
    units = runner.units_of(prop)
    comp = start_compile(prop, scratch)
    if not units and comp is None:
        print('no units for ' + prop)
        return 2
    try:
        prog = A.load(workdir=os.path.join(scratch, 'ast')) if units else None
    except A.ExtractError as ex:
        print('ERROR extraction failed: %s' % ex)
        return 2
    t1 = time.time()
    limit = 330 if tier == 'quick' else 700
    results = runner.run_all(prog, units, unit_timeout=limit, deadline=t0 + limit + 60) if units else []
    t2 = time.time()

    nob = ndis = 0
    backends, failed, undecided, functions, trusted, assumptions, bounded = {}, [], [], set(), set(), set(), []
    vac = []
    solver_time = 0.0
    per_unit = []
    for r in results:
        k = sum(1 for o in r['obls'] if o['status'] == 'proved')
        if r['kind'] == 'bounded':
            bounded.append(dict(unit=r['unit'], bound=r['note'], obligations=len(r['obls']), discharged=k, status=r['status']))
        else:
            nob += len(r['obls'])
            ndis += k
        for o in r['obls']:
            solver_time += o['time']
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                failed.append((r, o))
        if r['status'] != 'ok' or not r['obls']:
            undecided.append(r)
        elif r.get('vacuity') in ('unsat', 'nopost', 'none'):
            vac.append(r['unit'])
        functions |= set(r['functions'])
        trusted |= set(r['trusted'])
        assumptions |= set(r['assumptions'])
        per_unit.append(dict(unit=r['unit'], kind=r['kind'], obligations=len(r['obls']), discharged=k, seconds=round(r['time'], 1),
                             loop_invariants=r.get('invs', 0), status=r['status'], vacuity=r.get('vacuity')))

    # replay / contract execution on the real code
    drv, fail = None, None
    if comp:
        exe, p = comp
        p.wait()
        if p.returncode != 0:
            drv = dict(status='driver does not compile', log=open(os.path.join(scratch, 'compile.log'), errors='replace').read()[:3000])
        else:
            budget = 20 if tier == 'quick' else 200
            if failed or undecided:
                budget = max(budget, 90)
            d = run_driver(exe, scratch, seed, budget, hints(results), 'a')
            n = ev = 0
            stats = {}
            samples = []
            for l in d['out'].splitlines():
                if l.startswith('CASES '):
                    w = l.split()
                    ev = int(w[1]); n = int(w[2])
                elif l.startswith('UNIT '):
                    w = l.split(' ', 2)
                    stats[w[2]] = int(w[1])
                elif l.startswith('SAMPLE '):
                    samples.append(l[7:])
            fl = [l for l in d['out'].splitlines() if l.startswith('FAIL ')]
            drv = dict(status='ran', evaluations=ev, distinct_nontrivial=n, per_contract=stats, samples=samples[:6], seconds=round(d['time'], 1))
            if fl or d['rc'] != 0:
                if fl:
                    kind = 'contract violated'
                elif d['rc'] == 124:
                    kind = 'does not terminate'
                else:
                    kind = 'crash (exit %d)' % d['rc']
                fail = dict(kind=kind, lines=fl[:20], current=d['current'], stderr=d['err'][-6000:], rc=d['rc'], n=len(fl))

    # known findings
    kf = [(i, w) for (pp, i, w) in known() if pp == prop]
    suppressed = set()

    def is_known(text):
        for i, w in kf:
            if i in text:
                suppressed.add(i)
                return True
        return False

    if fail and fail['lines']:
        rest = [l for l in fail['lines'] if not is_known(l)]
        if not rest and fail['rc'] in (0, 1):
            fail = None
        else:
            fail['lines'] = rest
    failed = [(r, o) for r, o in failed if not is_known('%s: %s' % (r['unit'], o['name']))]
    for i, w in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))

    explored_bounded = drv and drv.get('status') == 'ran'
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 1),
              violations=1 if (fail or failed) else 0,
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd='python3-vt /verif/check.py %s%s' % (prop, ' --thorough' if tier == 'thorough' else ''),
                  trusted_base=['clang 18 front end (AST of the real headers)', '/verif/hv engine (C++ semantics, obligation generator)',
                                'z3 / cvc5'] + sorted(trusted),
                  backends=backends, solver_seconds=round(solver_time, 1), extraction_seconds=round(t1 - t0, 1),
                  generate_and_discharge_seconds=round(t2 - t1, 1),
                  functions_under_contract=sorted(functions), units=per_unit,
                  undecided_units=[dict(unit=r['unit'], status=r['status'], reason=str(r['error'])[:400]) for r in undecided],
                  bounded_stand_ins=bounded,
                  replay=drv or 'no driver'),
              assumptions=sorted(assumptions) + ['machine floating point is IEEE binary32/64 round-to-nearest; library math functions are uninterpreted',
                                                 'std:: library calls follow the contracts in hv/lib.py',
                                                 'one thread; no allocation failure'])
    if drv and drv.get('status') == 'ran':
        ev['coverage']['evaluations'] = drv['evaluations']
        ev['coverage']['distinct_nontrivial'] = drv['distinct_nontrivial']
        ev['coverage']['rule'] = 'contracts executed on the real code; a case counts as non-trivial when its inputs differ from every earlier case and the contract evaluated at least one value'
        ev['coverage']['samples'] = drv['samples']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print('%s: %d units, %d/%d obligations discharged (%s), %d functions under contract, extraction %.0fs, solving %.0fs' % (
        prop, len(results), ndis, nob, ', '.join('%s %d' % x for x in sorted(backends.items())), len(functions), t1 - t0, t2 - t1))
    for r in undecided:
        print('UNDECIDED unit %s (%s): %s' % (r['unit'], r['status'], str(r['error'])[:300]))
    for v in vac:
        print('ERROR vacuous unit %s' % v)
    if drv:
        print('replay driver: %s' % json.dumps({k: v for k, v in drv.items() if k not in ('per_contract', 'samples')})[:600])
    for r, o in failed[:30]:
        print('FAILED OBLIGATION %s: %s [%s]%s' % (r['unit'], o['name'], o['status'], ' model %s' % json.dumps(o['model'])[:400] if o['model'] else ''))

    if fail or failed:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'evidence', 'replay', '%s.txt' % prop)
        with open(rp, 'w') as f:
            f.write('property %s violated on the current tree of %s (seed %d, tier %s)\n\n' % (prop, REPO, seed, tier))
            for r, o in failed:
                f.write('obligation: %s: %s\n  status %s, back end said: %s\n  model: %s\n  goal: %s\n\n' % (
                    r['unit'], o['name'], o['status'], o['reason'], json.dumps(o['model']), o['goal']))
            if fail:
                f.write('failing input on the real code (%s)\n' % fail['kind'])
                for l in fail['lines']:
                    f.write('  ' + l + '\n')
                f.write('last case started: %s\n\nstderr:\n%s\n' % (fail['current'], fail['stderr']))
                f.write('\nreplay: g++ %s %s/drivers/%s.cpp -o driver -ltbb && ./driver %d 60\n' % (' '.join(CXX), HERE, prop, seed))
        if fail:
            for l in fail['lines'][:5] or ['%s: %s' % (fail['kind'], fail['current'][:300])]:
                print(l[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fail else ' no-failing-input-found'))
        return 1
    if vac:
        return 2
    if undecided and not explored_bounded:
        print('ERROR no answer: undecided units and no bounded stand-in ran')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
