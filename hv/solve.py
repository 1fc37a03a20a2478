"""Discharging proof obligations: z3 first, then other tactics / seeds, then cvc5 through SMT-LIB."""
import os, time
import z3
from .values import *

T1 = int(os.environ.get('HV_T1', '8000'))
T2 = int(os.environ.get('HV_T2', '20000'))


def smt_cvc5(E, o, timeout):
    try:
        import cvc5
    except ImportError:
        return None
    s = E.solver(o.pc, o.goal, timeout)
    txt = s.to_smt2()
    tm = cvc5.TermManager()
    sol = cvc5.Solver(tm)
    sol.setOption('tlimit-per', str(timeout))
    try:
        sol.setLogic('ALL')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'o')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(sol, sm)
            if r.strip() in ('sat', 'unsat', 'unknown'):
                res = r.strip()
        return res
    except Exception as ex:
        return None


def model_inputs(E, m):
    out = {}
    for n, t in E.input_terms.items():
        try:
            v = m.eval(t, model_completion=True)
            if z3.is_fp(v) or z3.is_rational_value(v) and not z3.is_int_value(v):
                out[n] = repr(fpconst(v))
            elif as_int_const(v) is not None:
                out[n] = as_int_const(v)
            else:
                out[n] = str(v)[:200]
        except Exception:
            pass
    return out


def prove(E, o, t1=None, t2=None, cvc=True):
    t0 = time.time()
    g = o.goal
    try:
        if z3.is_true(g) or z3.is_true(z3.simplify(g)):
            o.status, o.backend, o.time = 'proved', 'simplifier', time.time() - t0
            return o
        last = None
        for k, (to, fuel, opts) in enumerate(((t1 or T1, 2, {'smt.array.extensional': False}), (t1 or T1, 2, {}), (t2 or T2, 3, {'smt.random_seed': 7}), (t2 or T2, 2, {'smt.arith.nl.nra': False, 'smt.random_seed': 3}))):
            s = E.solver(o.pc, g, to, fuel)
            for a, b in opts.items():
                try:
                    s.set(a, b)
                except z3.Z3Exception:
                    pass
            r = s.check()
            if r == z3.unsat:
                o.status, o.backend = 'proved', 'z3'
                break
            if r == z3.sat and k:
                o.status, o.backend = 'refuted', 'z3'
                o.model = model_inputs(E, s.model())
                break
            last = s.reason_unknown()
            try:
                o.model = model_inputs(E, s.model())
            except z3.Z3Exception:
                pass
        else:
            r = smt_cvc5(E, o, t2 or T2) if cvc else None
            if r == 'unsat':
                o.status, o.backend = 'proved', 'cvc5'
            elif r == 'sat':
                o.status, o.backend = 'refuted', 'cvc5'
            else:
                o.status, o.reason = 'unknown', str(last)
    except z3.Z3Exception as ex:
        o.status, o.reason = 'unknown', 'solver error ' + str(ex)[:200]
    o.time = time.time() - t0
    return o


def discharge(E, **kw):
    bad = []
    seen = {}
    for o in E.obls:
        key = (tuple(p.get_id() for p in o.pc), o.goal.get_id())
        if key in seen and seen[key].status == 'proved':
            o.status, o.backend, o.time = 'proved', seen[key].backend, 0.0
            continue
        prove(E, o, **kw)
        seen[key] = o
        if o.status != 'proved':
            bad.append(o)
    return bad
