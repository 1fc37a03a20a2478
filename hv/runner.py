"""Runs every unit of a property in worker processes, discharges the obligations, and reports."""
import os, sys, time, json, signal, traceback, importlib, pkgutil, pickle
import z3
from . import unit as U, solve
from .values import Unsupported


def load_specs():
    from . import specs
    for m in sorted(x.name for x in pkgutil.iter_modules(specs.__path__)):
        importlib.import_module('hv.specs.' + m)


def units_of(prop):
    return [u for u in U.UNITS if prop in u.props]


def vacuity(E):
    """the path condition of the last post-obligation must not be contradictory"""
    posts = [o for o in E.obls if o.kind == 'post' and not z3.is_false(o.goal)]
    if not posts:
        return 'none' if not E.obls else 'nopost'
    seen_unsat = False
    for o in reversed(posts[-6:]):
        s = E.solver(o.pc, z3.BoolVal(False), 1500)
        r = s.check()
        if r != z3.unsat:
            return str(r)
        seen_unsat = True
    return 'unsat' if seen_unsat else 'unknown'


def work(prog, u, tier):
    t0 = time.time()
    res = dict(unit=u.name, status='ok', obls=[], functions=[], trusted=[], assumptions=[], error=None, kind=u.kw.get('kind', 'proof'),
               note=u.kw.get('note'))
    E = None
    try:
        E = U.run_unit(prog, u)
        res['gen'] = time.time() - t0
        solve.discharge(E)
        for o in E.obls:
            res['obls'].append(dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time or 0, 3),
                                    model=o.model, reason=o.reason, goal=None if o.status == 'proved' else str(o.goal)[:3000]))
        res['functions'] = sorted(E.functions)
        res['trusted'] = sorted(E.trusted)
        res['assumptions'] = sorted(E.assumptions)
        res['invs'] = E.inv_count
        if not u.kw.get('novac'):
            res['vacuity'] = vacuity(E)
    except Unsupported as ex:
        res['status'], res['error'] = 'unsupported', str(ex)
    except RecursionError as ex:
        res['status'], res['error'] = 'unsupported', 'recursion limit'
    except Exception as ex:
        res['status'], res['error'] = 'unsupported', 'internal: %r\n%s' % (ex, traceback.format_exc()[-1500:])
    res['time'] = time.time() - t0
    return res


def run_all(prog, units, jobs=8, unit_timeout=400, deadline=None):
    """one forked process per unit, at most `jobs` at a time"""
    todo = sorted(units, key=lambda u: -u.kw.get('cost', 1))
    running, out = {}, {}
    sys.setrecursionlimit(20000)
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    res = work(prog, u, None)
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            os.set_blocking(r, False)
            running[pid] = (u, r, time.time(), [])
        for pid in list(running):
            u, r, t0, buf = running[pid]
            done = False
            while True:
                try:
                    b = os.read(r, 1 << 16)
                except BlockingIOError:
                    break
                if not b:
                    done = True
                    break
                buf.append(b)
            lim = u.kw.get('timeout', unit_timeout)
            late = time.time() - t0 > lim or (deadline and time.time() > deadline)
            if done or late:
                if late and not done:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[pid]
                try:
                    out[u.name] = pickle.loads(b''.join(buf))
                except Exception:
                    out[u.name] = dict(unit=u.name, status='timeout' if late else 'crashed', obls=[], functions=[], trusted=[], assumptions=[],
                                       error='no result after %.0fs' % (time.time() - t0), time=time.time() - t0, kind=u.kw.get('kind', 'proof'),
                                       note=u.kw.get('note'))
        time.sleep(0.02)
    return [out[u.name] for u in units]
