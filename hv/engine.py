"""Symbolic executor / verification-condition generator for the C++ subset /repo is written in.

Contract-based: every unit assumes a precondition, executes the real function body (extracted from clang's AST), cuts loops
with inductive invariants, replaces calls to contracted callees by their contracts, and emits named proof obligations.
"""
import time, itertools, subprocess, tempfile, os, traceback
import z3
from .types import *
from .values import *

FEAS_TIMEOUT = 150
QUICK_TIMEOUT = int(os.environ.get('HV_QUICK_MS', '4000'))


class State:
    __slots__ = ('store', 'heap', 'hmap', 'pc', 'ext')

    def __init__(self):
        self.store, self.heap, self.hmap, self.pc, self.ext = {}, {}, {}, [], {}

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.heap = {k: (c, dict(f)) for k, (c, f) in self.heap.items()}
        s.hmap = dict(self.hmap)
        s.pc = list(self.pc)
        s.ext = dict(self.ext)
        return s

    def assume(self, f):
        if not z3.is_true(f):
            self.pc.append(f)
        return self


class Frame:
    _uid = itertools.count(1)

    def __init__(self, fn=None, this=None, parent=None, cls=None, name=''):
        self.uid = next(Frame._uid)
        self.fn, self.this, self.parent, self.cls, self.name = fn, this, parent, cls, name
        self.decls = {}
        self.types = {}
        self.loops = []
        self.ret_ref = False
        self.ret_t = VOID
        self.depth = (parent.depth + 1) if parent else 0


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'status', 'backend', 'time', 'model', 'reason', 'kind')

    def __init__(self, name, pc, goal, kind='post'):
        self.name, self.pc, self.goal, self.kind = name, pc, goal, kind
        self.status, self.backend, self.time, self.model, self.reason = None, None, 0.0, None, ''


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


def select_ite(a, i):
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = select_ite(a.arg(1), i), select_ite(a.arg(2), i)
        return x if z3.eq(x, y) else z3.If(a.arg(0), x, y)
    return z3.simplify(z3.Select(a, i))


class Engine:
    MAXDEPTH = 40

    def __init__(self, prog, mode='int', invs=None, name='', unroll=0):
        self.prog = prog
        self.th = Theory(mode)
        self.ty = Types(prog)
        self.real = mode == 'real'
        self.mode = 'int' if self.real else mode
        self.name = name
        self.obls = []
        self.dry = 0
        self.thrown = [[]]
        self.write_logs = []
        self.objc = itertools.count(1000)
        self.contracts = {}     # (cls or None, name) -> handler(E, fr, st, this, args) -> [(st,val)] or None
        self.obj_contracts = {}  # object id -> contract object with .call(E, st, method, args)
        self.absclass = {}      # class name -> handler for abstract objects
        self.invs = invs or []
        self.axgens = {}        # function name -> fn(app) -> [formulas]
        self.recdefs = {}       # function name -> fn(*args) -> body term (definition)
        self.qaxioms = []       # quantified axioms (named)
        self.trusted = set()
        self.functions = set()
        self.assumptions = set()
        self.sp = {}
        self._apps = {}
        self._keep = []
        self.valid_cache = {}
        self.loop_cache = {}
        self.nq = 0
        self.light = 0      # >0: only discovering what a loop writes (no solver)
        self.hmemo = [self.hframe()]
        self.solver_time = 0.0
        self.unroll = unroll
        self.call_stack = []
        self.opts = {}
        self.inv_count = 0
        self.heapified = set()
        self.input_terms = {}
        self.mathlemmas = []
        from . import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------------ helpers
    def I(self, n, t=SIZE):
        return self.th.iv(n, t)

    def sym(self, name, t, st=None):
        """a named symbolic input"""
        v = self.th.from_z3(z3.Const(name, self.th.sort(t)), t)
        if isinstance(v, z3.ExprRef):
            self.input_terms[name] = v
        if st is not None:
            self.assume_type(st, v, t)
        return v

    def fresh(self, name, t, st=None):
        v = self.th.fresh(name, t)
        if st is not None:
            self.assume_type(st, v, t)
        return v

    def assume_type(self, st, v, t):
        for f in self.type_facts(v, t):
            st.assume(f)

    def type_facts(self, v, t):
        out = []
        k = t[0]
        if k == 'int' and self.mode == 'int':
            lo, hi = self.th.rng(t)
            out += [v >= lo, v <= hi]
        elif k in ('vec', 'list', 'arr'):
            out.append(v.len >= 0)
            if k == 'arr' and t[2] is not None:
                out.append(v.len == t[2])
            out.append(v.len <= (1 << 62))
            et = t[1]
            if et[0] in ('vec', 'list', 'str') or (et[0] == 'int' and self.mode == 'int'):
                out += self.elem_facts(v.arr, et, 1)
        elif k == 'str':
            i = z3.Int(self.th.fresh_name('q'))
            bits = t[1] if len(t) > 1 else 8
            lo, hi = (-128, 127) if bits == 8 else (0, 65535)
            out.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3.Length(v)), z3.And(v[i] >= lo, v[i] <= hi)),
                                 patterns=[v[i]]))
            out.append(z3.Length(v) <= (1 << 62))
        elif k in ('pair', 'tuple', 'rec'):
            for f, ft in self.th.recfields(t):
                out += self.type_facts(v.f[f], ft)
        return out

    def elem_facts(self, arr, et, depth):
        i = z3.Int(self.th.fresh_name('q'))
        sel = z3.Select(arr, i)
        if et[0] == 'int':
            lo, hi = self.th.rng(et)
            return [z3.ForAll([i], z3.And(sel >= lo, sel <= hi), patterns=[sel])]
        if et[0] in ('vec', 'list'):
            s = self.th.vecdt(et[1])
            ln = s.accessor(0, 0)(sel)
            out = [z3.ForAll([i], z3.And(ln >= 0, ln <= (1 << 62)), patterns=[sel])]
            if et[1][0] in ('vec', 'list'):
                j = z3.Int(self.th.fresh_name('q'))
                sel2 = z3.Select(s.accessor(0, 1)(sel), j)
                ln2 = self.th.vecdt(et[1][1]).accessor(0, 0)(sel2)
                out.append(z3.ForAll([i, j], z3.And(ln2 >= 0, ln2 <= (1 << 62)), patterns=[sel2]))
            return out
        return []

    # ------------------------------------------------------------------ solver interface
    def apps_of(self, f):
        """applications of interesting functions occurring in f (cached per term)"""
        key = f.get_id()
        r = self._apps.get(key)
        if r is not None:
            return r
        seen, out, stack = set(), {}, [f]
        watch = self.watch
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                # bound variables: do not collect inside, but patterns/body apps over ground terms are rare
                continue
            if z3.is_app(x):
                if x.num_args():
                    nm = x.decl().name()
                    if nm in watch:
                        out[i] = x
                    stack.extend(x.children())
        r = list(out.values())
        self._apps[key] = r
        self._keep.append(f)
        return r

    @property
    def watch(self):
        w = {'fadd32', 'fmul32', 'fsub32', 'fadd64', 'fmul64', 'fsub64', 'fdiv32', 'fdiv64', 'f32to64', 'i2f64', 'i2f32'}
        w.update(self.axgens)
        w.update(self.recdefs)
        return w

    def float_axioms(self, x):
        nm = x.decl().name()
        if nm in ('fadd32', 'fadd64', 'fmul32', 'fmul64'):
            w = 32 if nm.endswith('32') else 64
            a, b = x.arg(0), x.arg(1)
            out = []
            if not a.eq(b):
                y = x.decl()(b, a)
                out.append(x == y)
            if nm.startswith('fmul'):
                if z3.is_app_of(a, z3.Z3_OP_FPA_NEG):
                    out.append(x == z3.fpNeg(self.th.farith('*', w, a.arg(0), b)))
                if z3.is_app_of(b, z3.Z3_OP_FPA_NEG):
                    out.append(x == z3.fpNeg(self.th.farith('*', w, a, b.arg(0))))
                c = fpconst(b)
                if c == 2.0:
                    out.append(x == self.th.farith('+', w, a, a))
                c = fpconst(a)
                if c == 2.0:
                    out.append(x == self.th.farith('+', w, b, b))
            return out
        if nm in ('fsub32', 'fsub64'):
            w = 32 if nm.endswith('32') else 64
            return [x == self.th.farith('+', w, x.arg(0), self.th.fneg(x.arg(1)))]
        if nm in ('fdiv32', 'fdiv64'):
            w = 32 if nm.endswith('32') else 64
            a, b = x.arg(0), x.arg(1)
            out = []
            if z3.is_app_of(a, z3.Z3_OP_FPA_NEG):
                out.append(x == z3.fpNeg(self.th.farith('/', w, a.arg(0), b)))
            if z3.is_app_of(b, z3.Z3_OP_FPA_NEG):
                out.append(x == z3.fpNeg(self.th.farith('/', w, a, b.arg(0))))
            return out
        return []

    def ground_axioms(self, formulas, fuel=2):
        out, done = [], set()
        work = list(formulas)
        depth = {}
        rounds = 0
        while work and rounds < 6:
            rounds += 1
            nxt = []
            for f in work:
                for x in self.apps_of(f):
                    i = x.get_id()
                    if i in done:
                        continue
                    nm = x.decl().name()
                    new = []
                    if nm in self.recdefs:
                        if rounds > fuel:
                            continue
                        done.add(i)
                        new.append(x == self.recdefs[nm](*x.children()))
                    else:
                        done.add(i)
                        if nm in self.axgens:
                            new += self.axgens[nm](x)
                        elif rounds <= 3 and not self.real:
                            new += self.float_axioms(x)
                    nxt += new
            out += nxt
            work = nxt
        return out

    def solver(self, pc, goal, timeout, fuel=2):
        s = z3.Solver()
        # resource limit (about 1000 units per ms) so that the verdict does not depend on the load; wall time is only a backstop
        s.set('rlimit', timeout * 1000)
        s.set('timeout', timeout * 5)
        neg = z3.Not(goal) if goal is not None else None
        fs = list(pc) + ([neg] if neg is not None else [])
        for f in fs:
            s.add(f)
        for f in self.ground_axioms(fs, fuel):
            s.add(f)
        for q in self.qaxioms:
            s.add(q)
        return s

    def valid(self, pc, goal, timeout=None, retry=0):
        """quick internal validity query (does not count as an obligation)"""
        if z3.is_true(goal):
            return True
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) and not pc:
            return False
        if self.light:
            return False
        key = (tuple(p.get_id() for p in pc), goal.get_id())
        if key in self.valid_cache:
            return self.valid_cache[key]
        t0 = time.time()
        timeout = timeout or self.opts.get('quick') or QUICK_TIMEOUT
        r = z3.unknown
        gr = [p for p in pc if not has_quant(p)]
        if len(gr) < len(pc):
            # cheap first try without the quantified facts (dropping assumptions is sound)
            r = self.solver(gr, goal, min(timeout, 400)).check()
        if r != z3.unsat:
            # array extensionality explodes on nested vectors and is hardly ever needed
            s = self.solver(pc, goal, timeout)
            s.set('smt.array.extensional', False)
            r = s.check()
            for k in range(retry):
                # nonlinear arithmetic is sensitive to the order in which terms appear: other settings, same question
                if r == z3.unknown:
                    s = self.solver(pc, goal, timeout)
                    s.set('smt.random_seed', 3 + k)
                    s.set('smt.array.extensional', False)
                    if k % 2 == 0:
                        s.set('smt.arith.nl.nra', False)
                    r = s.check()
        self.nq += 1
        self.solver_time += time.time() - t0
        if os.environ.get('HV_SLOW') and time.time() - t0 > float(os.environ['HV_SLOW']):
            print('SLOW %.2f %s npc=%d %s %s' % (time.time() - t0, r, len(pc), traceback.extract_stack()[-2].name, str(goal)[:300].replace('\n', ' ')))
        res = r == z3.unsat
        self._keep.append((list(pc), goal))
        self.valid_cache[key] = res
        return res

    def feasible(self, pc):
        if not pc:
            return True
        last = z3.simplify(pc[-1])
        if z3.is_false(last):
            return False
        if self.light:
            return True
        key = ('f', tuple(p.get_id() for p in pc))
        if key in self.valid_cache:
            return self.valid_cache[key]
        t0 = time.time()
        s = self.solver(pc, None, FEAS_TIMEOUT, fuel=1)
        r = s.check() != z3.unsat
        self.nq += 1
        self.solver_time += time.time() - t0
        self._keep.append(list(pc))
        self.valid_cache[key] = r
        return r

    def oblige(self, st, name, goal, kind='safety'):
        if self.dry:
            return
        if z3.is_true(goal):
            goal = z3.BoolVal(True)
        fn = self.call_stack[-1] if self.call_stack else self.name
        self.obls.append(Obl('%s: %s' % (fn, name), list(st.pc), goal, kind))

    def check(self, st, name, goal):
        """top level contract clause"""
        self.obls.append(Obl('%s: %s' % (self.name, name), list(st.pc), goal, 'post'))

    # ------------------------------------------------------------------ int arithmetic
    def norm(self, st, raw, t):
        th = self.th
        if self.mode == 'bv':
            return raw
        c = as_int_const(raw)
        if c is None:
            raw2 = z3.simplify(raw)
            c = as_int_const(raw2)
        if c is not None:
            return z3.IntVal(th.wrap_const(c, t))
        lo, hi = th.rng(t)
        pc = st.pc
        if z3.is_const(raw):
            # facts about a plain variable are quantifier free
            pc = [p for p in pc if not has_quant(p)]
        if self.valid(pc, z3.And(raw >= lo, raw <= hi), 1500):
            return raw
        return th.wrap_term(raw, t)

    def arith(self, st, op, a, b, t):
        th = self.th
        if t[0] == 'float':
            if op in '+-*/':
                if op == '/' and th.real:
                    self.oblige(st, 'divisor is not zero', b != 0, 'div')
                return th.farith(op, t[1], a, b)
            raise Unsupported('float op ' + op)
        if t[0] == 'bool':
            a = z3.If(a, self.I(1, INT), self.I(0, INT))
            b = z3.If(b, self.I(1, INT), self.I(0, INT))
            t = INT
        if self.mode == 'bv':
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/': return a / b if t[2] else z3.UDiv(a, b)
            if op == '%': return z3.SRem(a, b) if t[2] else z3.URem(a, b)
            if op == '&': return a & b
            if op == '|': return a | b
            if op == '^': return a ^ b
            if op == '<<':
                self.oblige(st, 'shift amount in range', z3.ULT(b, z3.BitVecVal(t[1], b.size())))
                return a << self.bvfit(b, t[1])
            if op == '>>':
                self.oblige(st, 'shift amount in range', z3.ULT(b, z3.BitVecVal(t[1], b.size())))
                b = self.bvfit(b, t[1])
                return a >> b if t[2] else z3.LShR(a, b)
            raise Unsupported('int op ' + op)
        ca, cb = as_int_const(a), as_int_const(b)
        if op == '+': return self.norm(st, a + b, t)
        if op == '-': return self.norm(st, a - b, t)
        if op == '*':
            for x, y, c in ((a, b, cb), (b, a, ca)):
                # multiplication by a 0/1 conditional: keep it linear
                if z3.is_app_of(x, z3.Z3_OP_ITE) and as_int_const(x.arg(1)) == 1 and as_int_const(x.arg(2)) == 0:
                    return z3.If(x.arg(0), y, z3.IntVal(0))
            return self.norm(st, a * b, t)
        if op in '/%':
            self.oblige(st, 'division by zero', b != 0)
            q, r = self.divmod(st, a, b, t)
            return q if op == '/' else r
        if op == '<<' and cb is not None:
            return self.norm(st, a * (1 << cb), t)
        if op == '>>' and cb is not None:
            return a / (1 << cb)
        if op == '&':
            for x, c in ((a, cb), (b, ca)):
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return x % (c + 1)
        if op in '&|^' or op in ('<<', '>>'):
            n = t[1]
            A, B = z3.Int2BV(a, n), z3.Int2BV(b, n)
            r = {'&': lambda: A & B, '|': lambda: A | B, '^': lambda: A ^ B, '<<': lambda: A << B,
                 '>>': lambda: (A >> B if t[2] else z3.LShR(A, B))}[op]()
            return z3.BV2Int(r, t[2])
        raise Unsupported('int op ' + op)

    def bvfit(self, b, n):
        if b.size() < n:
            return z3.ZeroExt(n - b.size(), b)
        if b.size() > n:
            return z3.Extract(n - 1, 0, b)
        return b

    def divmod(self, st, a, b, t):
        ca, cb = as_int_const(a), as_int_const(b)
        if cb is not None and cb > 0 and not t[2]:
            if ca is not None:
                return z3.IntVal(ca // cb), z3.IntVal(ca % cb)
            return a / b, a % b
        if t[2]:
            if cb is not None and cb > 0 and self.valid(st.pc, a >= 0, 1000):
                return a / b, a % b
            if not (self.valid(st.pc, z3.And(a >= 0, b > 0), 1000)):
                q = z3.If(b == 0, 0, z3.If(z3.Or(a >= 0, a % b == 0), a / b, z3.If(b > 0, a / b + 1, a / b - 1)))
                return q, a - q * b
        # candidate quotient from the syntactic sum of products
        for q in self.quot_candidates(a, b):
            rem = z3.simplify(a - q * b, som=True)
            if self.valid(st.pc, z3.And(rem >= 0, rem < b, q >= 0), 2000):
                return q, rem
        key = ('divmod', a.get_id(), b.get_id())
        if key in self.sp:
            return self.sp[key]
        q, r = self.ufun_div(a, b)
        self.sp[key] = (q, r)
        self._keep.append((a, b))
        return q, r

    def ufun_div(self, a, b):
        Z = z3.IntSort()
        d = self.th.ufun('cdiv', Z, Z, Z)
        m = self.th.ufun('cmod', Z, Z, Z)
        if 'cdiv' not in self.axgens:
            def ax(x):
                a, b = x.arg(0), x.arg(1)
                q, r = d(a, b), m(a, b)
                return [z3.Implies(z3.And(a >= 0, b > 0), z3.And(a == q * b + r, r >= 0, r < b, q >= 0, q <= a))]
            self.axgens['cdiv'] = ax
            self.axgens['cmod'] = ax
            self._apps.clear()
        return d(a, b), m(a, b)

    def quot_candidates(self, a, b):
        cands = []
        terms = []
        def flat(x):
            if z3.is_app_of(x, z3.Z3_OP_ADD):
                for c in x.children():
                    flat(c)
            else:
                terms.append(x)
        flat(a)
        bb = z3.simplify(b, som=True)
        def factors(x):
            if z3.is_app_of(x, z3.Z3_OP_MUL):
                out = []
                for c in x.children():
                    out += factors(c)
                return out
            return [x]
        bf = sorted(f.get_id() for f in factors(bb))
        fl = {}
        for tm in terms:
            tf = factors(z3.simplify(tm, som=True)) if z3.is_app_of(tm, z3.Z3_OP_MUL) else [tm]
            tfl = list(tf)
            ids = [f.get_id() for f in tfl]
            ok = True
            for f in bf:
                if f in ids:
                    k = ids.index(f)
                    ids.pop(k)
                    tfl.pop(k)
                else:
                    ok = False
                    break
            if ok:
                r = z3.IntVal(1)
                for f in tfl:
                    r = f if as_int_const(r) == 1 else r * f
                cands.append(r)
            # direct factor
            if z3.is_app_of(tm, z3.Z3_OP_MUL) and tm.num_args() == 2:
                for u, v in ((0, 1), (1, 0)):
                    if not ok:
                        cands.append(tm.arg(u))
        tot = []
        if len(cands) > 1:
            s = cands[0]
            for c in cands[1:]:
                s = s + c
            tot = [s]
        return [z3.IntVal(0)] + cands[:4] + tot

    def compare(self, op, a, b, t):
        if t[0] == 'float':
            return fcmp(op, a, b)
        if t[0] == 'bool':
            if op == '==': return a == b
            if op == '!=': return a != b
        if self.mode == 'bv' and t[0] == 'int':
            if op == '==': return a == b
            if op == '!=': return a != b
            if t[2]:
                return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
            return {'<': z3.ULT, '>': z3.UGT, '<=': z3.ULE, '>=': z3.UGE}[op](a, b)
        if op == '==': return a == b
        if op == '!=': return a != b
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()

    def cast(self, st, v, ft, tt):
        """scalar conversion"""
        if ft == tt:
            return v
        fk, tk = ft[0], tt[0]
        if tk == 'bool':
            if fk == 'int':
                return v != self.I(0, ft)
            if fk == 'float':
                return fcmp('!=', v, fpval(0.0, ft[1]))
            if fk == 'ptr':
                return v != 0
        if fk == 'bool':
            b = z3.simplify(v)
            if tk == 'int':
                if z3.is_true(b): return self.I(1, tt)
                if z3.is_false(b): return self.I(0, tt)
                return z3.If(v, self.I(1, tt), self.I(0, tt))
            if tk == 'float':
                return z3.If(v, fpval(1.0, tt[1]), fpval(0.0, tt[1]))
        if fk == 'int' and tk == 'int':
            if self.mode == 'bv':
                if tt[1] < ft[1]:
                    return z3.Extract(tt[1] - 1, 0, v)
                if tt[1] > ft[1]:
                    return z3.SignExt(tt[1] - ft[1], v) if ft[2] else z3.ZeroExt(tt[1] - ft[1], v)
                return v
            lo, hi = self.th.rng(tt)
            flo, fhi = self.th.rng(ft)
            if lo <= flo and fhi <= hi:
                return v
            return self.norm(st, v, tt)
        if fk == 'int' and tk == 'float':
            return self.th.i2f(v, ft, tt[1])
        if fk == 'float' and tk == 'int':
            return self.th.f2i(v, ft[1], tt)
        if fk == 'float' and tk == 'float':
            return self.th.f2f(v, ft[1], tt[1])
        if fk == 'null' or tk == 'null':
            return z3.IntVal(0)
        if fk == 'ptr' and tk == 'ptr':
            return v
        raise Unsupported('cast %r -> %r' % (ft, tt))

    # ------------------------------------------------------------------ storage
    def log_write(self, root):
        for l in self.write_logs:
            l.add(root)

    def read_root(self, st, root):
        k = root[0]
        if k == 'c':
            if root[1] not in st.store:
                raise Unsupported('read of undeclared cell')
            return st.store[root[1]]
        if k == 'h':
            return st.heap[root[1]][1][root[2]]
        if k == 't':
            return root[1]
        if k == 'x':
            return st.ext[root[1]]
        if k == 'H':
            arr, t = self.harr(st, root[1], root[2])
            return self.th.from_z3(z3.Select(arr, root[3]), t)
        raise Unsupported('root ' + k)

    def harr(self, st, cls, field):
        key = (cls, field)
        t = self.field_type(cls, field)
        if key not in st.hmap:
            st.hmap[key] = z3.Const('heap_%s_%s' % key, z3.ArraySort(z3.IntSort(), self.th.sort(t)))
        return st.hmap[key], t

    def field_type(self, cls, field):
        for c in self.prog.mro(cls):
            for f in self.prog.cinfo[c]['fields']:
                if f.get('name') == field:
                    return self.ty.of(f)
        raise Unsupported('field %s.%s' % (cls, field))

    def write_root(self, st, root, v):
        k = root[0]
        if k == 'c':
            st.store[root[1]] = v
        elif k == 'h':
            st.heap[root[1]][1][root[2]] = v
        elif k == 'x':
            st.ext[root[1]] = v
        elif k == 'H':
            arr, t = self.harr(st, root[1], root[2])
            st.hmap[(root[1], root[2])] = z3.Store(arr, root[3], self.th.to_z3(v, t))
            self.log_write(('HA', root[1], root[2]))
            return
        elif k == 't':
            return
        else:
            raise Unsupported('write root ' + k)
        self.log_write(root)

    def deref_lv(self, st, lv):
        """follow reference cells at the root"""
        n = 0
        while not lv.path or True:
            if lv.root[0] in ('c', 'h'):
                v = self.read_root(st, lv.root)
                if isinstance(v, RefV):
                    lv = LV(v.lv.root, v.lv.path + lv.path, lv.t)
                    n += 1
                    if n > 50:
                        raise Unsupported('reference cycle')
                    continue
            return lv
        return lv

    def get_path(self, st, v, path):
        for acc in path:
            v = self.get_acc(st, v, acc)
        return v

    def get_acc(self, st, v, acc):
        k, x = acc
        if k == 'i':
            if isinstance(v, VecV):
                return self.sel(v, x)
            if z3.is_seq(v):
                return v[x]
        elif k == 'f':
            if isinstance(v, RecV):
                return v.f[x]
        elif k == 'k':
            if isinstance(v, MapV):
                return self.th.from_z3(z3.Select(v.val, self.th.to_z3(x)), v.t[2])
        elif k == 'v':
            return v
        raise Unsupported('access %r of %r' % (acc, type(v)))

    def sel(self, v, i):
        a = v.arr
        ci = as_int_const(i)
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            if a.arg(1).eq(i):
                return self.th.from_z3(a.arg(2), v.et)
            cj = as_int_const(a.arg(1))
            if ci is not None and cj is not None and ci != cj:
                a = a.arg(0)
                continue
            break
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
            return self.th.from_z3(a.arg(0), v.et)
        if v.et[0] == 'ptr' and z3.is_app_of(a, z3.Z3_OP_ITE) and as_int_const(i) is not None:
            # an element of one of two known arrays: one of two known pointers
            return self.th.from_z3(select_ite(a, i), v.et)
        return self.th.from_z3(z3.Select(a, i), v.et)

    def set_path(self, st, v, path, nv):
        if not path:
            return nv
        (k, x), rest = path[0], path[1:]
        if k == 'i':
            if isinstance(v, VecV):
                old = self.sel(v, x) if rest else None
                return VecV(v.et, v.len, z3.Store(v.arr, x, self.th.to_z3(self.set_path(st, old, rest, nv), v.et)))
            if z3.is_seq(v):
                n = z3.Length(v)
                return z3.Concat(z3.SubSeq(v, z3.IntVal(0), x), z3.Unit(nv), z3.SubSeq(v, x + 1, n - x - 1))
        elif k == 'f':
            if isinstance(v, RecV):
                f = dict(v.f)
                f[x] = self.set_path(st, v.f[x], rest, nv)
                return RecV(v.t, f)
        elif k == 'k':
            if isinstance(v, MapV):
                kz = self.th.to_z3(x)
                old = self.th.from_z3(z3.Select(v.val, kz), v.t[2]) if rest else None
                nw = self.set_path(st, old, rest, nv)
                return MapV(v.t, z3.Store(v.dom, kz, z3.BoolVal(True)), z3.Store(v.val, kz, self.th.to_z3(nw, v.t[2])),
                            z3.If(z3.Select(v.dom, kz), v.size, v.size + 1))
        raise Unsupported('update %r of %r' % (k, type(v)))

    def read(self, st, lv):
        lv = self.deref_lv(st, lv)
        v = self.get_path(st, self.read_root(st, lv.root), lv.path)
        if isinstance(v, RefV):
            return self.read(st, v.lv)
        return v

    def write(self, st, lv, v):
        lv = self.deref_lv(st, lv)
        if not lv.path:
            return self.write_root(st, lv.root, v)
        old = self.read_root(st, lv.root)
        self.write_root(st, lv.root, self.set_path(st, old, lv.path, v))

    # ------------------------------------------------------------------ merging
    def merge_val(self, conds, vals):
        v0 = vals[0]
        if all(_same(v0, v) for v in vals[1:]):
            return v0
        if all(isinstance(v, z3.ExprRef) for v in vals):
            if any(v.sort() != v0.sort() for v in vals):
                return None
            r = vals[-1]
            for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                r = v if v.eq(r) else z3.If(c, v, r)
            return r
        if all(isinstance(v, VecV) for v in vals):
            l = self.merge_val(conds, [v.len for v in vals])
            a = self.merge_val(conds, [v.arr for v in vals])
            return None if l is None or a is None else VecV(v0.et, l, a)
        if all(isinstance(v, MapV) for v in vals):
            d = [self.merge_val(conds, [getattr(v, k) for v in vals]) for k in ('dom', 'val', 'size')]
            return MapV(v0.t, *d)
        if all(isinstance(v, RecV) for v in vals):
            f = {}
            for k in v0.f:
                f[k] = self.merge_val(conds, [v.f[k] for v in vals])
                if f[k] is None:
                    return None
            return RecV(v0.t, f)
        if all(isinstance(v, Opaque) for v in vals):
            return v0
        if all(isinstance(v, RefV) for v in vals):
            return v0 if all(self.lv_eq(v0.lv, v.lv) for v in vals) else None
        if all(isinstance(v, FnV) for v in vals):
            return v0 if all(v.ident == v0.ident for v in vals) else None
        if all(isinstance(v, IterV) for v in vals):
            if all(v.lv is not None and self.lv_eq(v0.lv, v.lv) and v.rev == v0.rev for v in vals):
                i = self.merge_val(conds, [v.idx for v in vals])
                return IterV(v0.lv, i, v0.rev)
            return None
        return None

    def lv_eq(self, a, b):
        if a.root[0] != b.root[0] or len(a.path) != len(b.path):
            return False
        for x, y in zip(a.root[1:], b.root[1:]):
            if not (_same(x, y) or (not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y)):
                return False
        for (k1, x), (k2, y) in zip(a.path, b.path):
            if k1 != k2 or not (_same(x, y) or (isinstance(x, str) and x == y)):
                return False
        return True

    def merge(self, items):
        """items: [(st, val)] -> merged list"""
        if len(items) < 2:
            return items
        pcs = [s.pc for s, _ in items]
        n = 0
        m = min(len(p) for p in pcs)
        while n < m and all(p[n].eq(pcs[0][n]) for p in pcs[1:]):
            n += 1
        conds = [z3.And(*p[n:]) if len(p) - n > 1 else (p[n] if len(p) > n else z3.BoolVal(True)) for p in pcs]
        vals = [v for _, v in items]
        if all(v is None for v in vals):
            mv = None
        else:
            if any(v is None for v in vals):
                return items
            mv = self.merge_val(conds, vals)
            if mv is None:
                return items
        out = State()
        out.pc = list(pcs[0][:n])
        d = z3.Or(*conds)
        ds = z3.simplify(d)
        if not z3.is_true(ds):
            out.pc.append(d)
        sts = [s for s, _ in items]
        for k in sts[0].store:
            if not all(k in s.store for s in sts[1:]):
                continue
            mvv = self.merge_val(conds, [s.store[k] for s in sts])
            if mvv is None and not all(s.store[k] is None for s in sts):
                return items
            out.store[k] = mvv
        for k in set().union(*[s.ext.keys() for s in sts]):
            if not all(k in s.ext for s in sts):
                return items
            mvv = self.merge_val(conds, [s.ext[k] for s in sts])
            if mvv is None:
                return items
            out.ext[k] = mvv
        for k in set().union(*[s.heap.keys() for s in sts]):
            have = [s for s in sts if k in s.heap]
            if len(have) < len(sts):
                # allocated on one path only
                if len(have) == 1:
                    out.heap[k] = (have[0].heap[k][0], dict(have[0].heap[k][1]))
                    continue
                return items
            f = {}
            for fn in sts[0].heap[k][1]:
                if not all(fn in s.heap[k][1] for s in sts):
                    return items
                mvv = self.merge_val(conds, [s.heap[k][1][fn] for s in sts])
                if mvv is None:
                    return items
                f[fn] = mvv
            out.heap[k] = (sts[0].heap[k][0], f)
        for k in set().union(*[s.hmap.keys() for s in sts]):
            vs = []
            for s in sts:
                vs.append(self.harr(s, *k)[0])
            out.hmap[k] = self.merge_val(conds, vs)
        return [(out, mv)]

    # ------------------------------------------------------------------ expressions
    def ev(self, fr, st, e):
        """-> [(st, value)]"""
        m = getattr(self, 'e_' + e['kind'], None)
        if m is None:
            raise Unsupported('expression ' + e['kind'])
        return m(fr, st, e)

    def ev_list(self, fr, st, es):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(fr, s, e):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def kids(self, e):
        return [c for c in e.get('inner', ()) if isinstance(c, dict) and c.get('kind')]

    def is_lv(self, e):
        return e.get('valueCategory') in ('lvalue', 'xvalue')

    def lvof(self, fr, st, e):
        """-> [(st, LV)]"""
        k = e['kind']
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            return m(fr, st, e)
        # value materialised into a temporary
        return [(s, LV(('t', v))) for s, v in self.ev(fr, st, e)]

    def ev_arg(self, fr, st, e, ref):
        """argument: LV for reference parameters bound to lvalues, else a value"""
        if ref and self.is_lv(e):
            return [(s, lv) for s, lv in self.lvof(fr, st, e)]
        return self.ev(fr, st, e)

    def val(self, st, a):
        return self.read(st, a) if isinstance(a, LV) else a

    # -- wrappers
    def _first(self, fr, st, e):
        return self.ev(fr, st, self.kids(e)[0])

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_MaterializeTemporaryExpr = e_ConstantExpr = _first
    e_SubstNonTypeTemplateParmExpr = e_CXXRewrittenBinaryOperator = e_FullExpr = _first

    def e_CXXStdInitializerListExpr(self, fr, st, e):
        return self._first(fr, st, e)

    def _lfirst(self, fr, st, e):
        return self.lvof(fr, st, self.kids(e)[0])

    l_ParenExpr = l_ExprWithCleanups = l_CXXBindTemporaryExpr = _lfirst

    def l_MaterializeTemporaryExpr(self, fr, st, e):
        c = self.kids(e)[0]
        if self.is_lv(c):
            return self.lvof(fr, st, c)
        out = []
        for s, v in self.ev(fr, st, c):
            if isinstance(v, RefV):
                out.append((s, v.lv))
            else:
                out.append((s, self.temp(s, v)))
        return out

    def temp(self, st, v):
        cid = ('tmp', next(self.objc))
        st.store[cid] = v
        return LV(('c', cid))

    def e_IntegerLiteral(self, fr, st, e):
        t = self.ty.of(e)
        return [(st, self.I(self.th.wrap_const(int(e['value']), t) if self.mode == 'int' else int(e['value']), t))]

    def e_CharacterLiteral(self, fr, st, e):
        t = self.ty.of(e)
        return [(st, self.I(self.th.wrap_const(int(e['value']), t) if self.mode == 'int' else int(e['value']), t))]

    def e_FloatingLiteral(self, fr, st, e):
        t = self.ty.of(e)
        v = e['value']
        return [(st, fpval(float(v), t[1]))]

    def e_CXXBoolLiteralExpr(self, fr, st, e):
        return [(st, z3.BoolVal(bool(e['value'])))]

    def e_CXXNullPtrLiteralExpr(self, fr, st, e):
        return [(st, z3.IntVal(0))]

    def e_GNUNullExpr(self, fr, st, e):
        return [(st, z3.IntVal(0))]

    def e_StringLiteral(self, fr, st, e):
        return [(st, self.strlit(e))]

    def strlit(self, e):
        s = e.get('value', '""')
        wide = None
        if s.startswith('u8"'):
            s = s[2:]
        elif s[0] in 'uLU' and s[1] == '"':
            wide = s[0]
            s = s[1:]
        s = s[1:-1]
        codes = _unescape(s, wide)
        return self.strval(codes)

    def strval(self, codes):
        if isinstance(codes, str):
            codes = [b - 256 if b > 127 else b for b in codes.encode()]
        S = z3.SeqSort(z3.IntSort())
        if not codes:
            return z3.Empty(S)
        u = [z3.Unit(z3.IntVal(c)) for c in codes]
        return u[0] if len(u) == 1 else z3.Concat(*u)

    def e_CXXThisExpr(self, fr, st, e):
        f = fr
        while f is not None:
            if f.this is not None:
                return [(st, f.this)]
            f = f.parent
        raise Unsupported('no this')

    def e_CXXDefaultArgExpr(self, fr, st, e):
        raise Unsupported('default arg expr without callee')

    def e_CXXDefaultInitExpr(self, fr, st, e):
        raise Unsupported('default init expr')

    def e_ImplicitValueInitExpr(self, fr, st, e):
        return [(st, self.default_value(self.ty.of(e)))]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def default_value(self, t):
        if t[0] == 'cls':
            return self.default_rec(t[1])
        return self.th.default(self.vt(t))

    def vt(self, t):
        """value type: classes held by value become records"""
        k = t[0]
        if k == 'cls':
            return self.rec_type(t[1])
        if k in ('vec', 'list'):
            return (k, self.vt(t[1]))
        if k == 'arr':
            return (k, self.vt(t[1]), t[2])
        if k in ('pair', 'tuple'):
            return (k,) + tuple(self.vt(x) for x in t[1:])
        if k == 'map':
            return ('map', self.vt(t[1]), self.vt(t[2]), t[3])
        if k == 'set':
            return ('set', self.vt(t[1]), t[2])
        return t

    def rec_type(self, cls):
        key = ('rectype', cls)
        if key not in self.sp:
            fs = []
            for c in reversed(self.prog.mro(cls)):
                for f in self.prog.cinfo[c]['fields']:
                    fs.append((f['name'], self.vt(self.ty.of(f))))
            self.sp[key] = ('rec', cls, tuple(fs))
        return self.sp[key]

    def default_rec(self, cls):
        t = self.rec_type(cls)
        return RecV(t, {f: self.th.default(ft) for f, ft in t[2]})

    # -- declarations
    def find_cell(self, fr, did):
        f = fr
        while f is not None:
            if did in f.decls:
                return f.decls[did]
            f = f.parent
        return None

    def declare(self, fr, st, d, v, t=None):
        cid = (fr.uid, d['id'])
        fr.decls[d['id']] = cid
        fr.types[cid] = t or self.ty.of(d)
        self.cell_types = getattr(self, 'cell_types', {})
        self.cell_types[cid] = (t or self.ty.of(d), d.get('name'))
        st.store[cid] = v
        self.log_write(('c', cid))
        return cid

    def l_DeclRefExpr(self, fr, st, e):
        r = e['referencedDecl']
        cid = self.find_cell(fr, r['id'])
        if cid is not None:
            return [(st, LV(('c', cid)))]
        if r['kind'] == 'EnumConstantDecl':
            return [(st, LV(('t', self.I(self.prog.enum_const[r['id']], INT))))]
        if r['kind'] == 'VarDecl':
            d = self.prog.by_id.get(r['id'])
            key = ('gvar', r['id'])
            gcid = ('g', r['id'])
            if gcid in st.store:
                return [(st, LV(('c', gcid)))]
            if d is None:
                v = self.lib.global_var(self, r)
                if v is not None:
                    return [(st, LV(('t', v)))]
                raise Unsupported('variable ' + r['name'])
            init = self.kids(d)
            if init and 'const' in d['type']['qualType']:
                out = []
                for s, v in self.ev(Frame(name='global'), st, init[0]):
                    s.store[gcid] = v
                    out.append((s, LV(('c', gcid))))
                return out
            if (d['type'].get('qualType') or '').startswith(('ostream', 'std::ostream')):
                return [(st, LV(('t', Opaque('ostream'))))]
            raise Unsupported('global variable ' + r['name'])
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            fn = self.prog.by_id.get(r['id'])
            if fn is not None:
                return [(st, LV(('t', FnV(lambda E, s, a, fn=fn: E.call_fn(fr, s, fn, None, a), ('fn', fn['id'])))))]
            return [(st, LV(('t', FnV(lambda E, s, a: E.lib.call_std(E, fr, s, r['name'], a, None), ('std', r['name'])))))]
        if r['kind'] == 'BindingDecl':
            raise Unsupported('binding ' + r.get('name', ''))
        raise Unsupported('declref %s %s' % (r['kind'], r.get('name')))

    def e_DeclRefExpr(self, fr, st, e):
        return [(s, self.read(s, lv)) for s, lv in self.l_DeclRefExpr(fr, st, e)]

    def l_MemberExpr(self, fr, st, e):
        base = self.kids(e)[0]
        name = e.get('name')
        d = self.prog.by_id.get(e.get('referencedMemberDecl'))
        out = []
        if d is not None and d['kind'] == 'VarDecl':
            return self.l_DeclRefExpr(fr, st, {'referencedDecl': d, 'kind': 'DeclRefExpr'})
        if e.get('isArrow'):
            for s, p in self.ev(fr, st, base):
                out.append((s, self.field_lv(s, p, name, self.ty.of(base))))
        else:
            for s, lv in self.lvof(fr, st, base):
                out.append((s, self.member_of(s, lv, name)))
        return out

    def member_of(self, st, lv, name):
        lv = self.deref_lv(st, lv)
        return lv.sub(('f', name)) if lv.root[0] != 'obj' else self.field_lv(st, lv.root[1], name, lv.t)

    def field_lv(self, st, p, name, pt=None):
        if isinstance(p, AddrV):
            return self.deref_lv(st, p.lv).sub(('f', name))
        if isinstance(p, IterV):
            return p.lv.sub(('i', p.idx)).sub(('f', name))
        if isinstance(p, MapIterV):
            if name == 'second':
                return p.lv.sub(('k', p.key))
            return LV(('t', p.key))
        c = as_int_const(p)
        if c is not None and c in st.heap:
            return LV(('h', c, name))
        if pt is not None and pt[0] == 'ptr' and pt[1][0] == 'cls':
            cls = pt[1][1]
            if c == 0:
                self.oblige(st, 'null dereference', z3.BoolVal(False))
                raise Unsupported('null dereference')
            if cls in self.heapified:
                self.oblige(st, 'non-null dereference of %s' % cls, p != 0)
                return LV(('H', self.decl_class(cls, name), name, p))
        raise Unsupported('field %s of symbolic pointer %s (%r)' % (name, p, pt))

    def decl_class(self, cls, field):
        for c in self.prog.mro(cls):
            if any(f.get('name') == field for f in self.prog.cinfo[c]['fields']):
                return c
        return cls

    def e_MemberExpr(self, fr, st, e):
        return [(s, self.read(s, lv)) for s, lv in self.l_MemberExpr(fr, st, e)]

    def l_ArraySubscriptExpr(self, fr, st, e):
        b, i = self.kids(e)
        out = []
        for s, vb in (self.lvof(fr, st, self.strip_decay(b)) if self.strip_decay(b) is not b else self.ev(fr, st, b)):
            for s2, vi in self.ev(fr, s, i):
                if isinstance(vb, LV):
                    v = self.read(s2, vb)
                    self.bounds(s2, v, vi, 'array index in bounds')
                    out.append((s2, vb.sub(('i', vi))))
                else:
                    raise Unsupported('pointer subscript')
        return out

    def strip_decay(self, e):
        if e['kind'] == 'ImplicitCastExpr' and e.get('castKind') == 'ArrayToPointerDecay':
            return self.kids(e)[0]
        return e

    def e_ArraySubscriptExpr(self, fr, st, e):
        return [(s, self.read(s, lv)) for s, lv in self.l_ArraySubscriptExpr(fr, st, e)]

    def bounds(self, st, v, i, msg):
        n = v.len if isinstance(v, VecV) else z3.Length(v)
        self.oblige(st, msg, z3.And(i >= 0, i < n))

    # -- casts
    def e_ImplicitCastExpr(self, fr, st, e):
        k = e.get('castKind')
        c = self.kids(e)[0]
        if k == 'LValueToRValue':
            return [(s, self.read(s, lv)) for s, lv in self.lvof(fr, st, c)]
        if k in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'ConstructorConversion',
                 'UserDefinedConversion', 'ArrayToPointerDecay', 'BitCast', 'NonAtomicToAtomic', 'AtomicToNonAtomic', 'Dynamic'):
            out = []
            for s, v in self.ev(fr, st, c):
                if k == 'BitCast' and isinstance(v, AddrV):
                    t = self.ty.of(e)
                    v = AddrV(v.lv, t[1] if t[0] == 'ptr' else v.t, v.orig)
                if k == 'ConstructorConversion':
                    v = self.conv_ctor(s, v, self.ty.of(c), self.ty.of(e))
                out.append((s, v))
            return out
        if k == 'NullToPointer':
            return [(st, z3.IntVal(0))]
        if k == 'ToVoid':
            return [(s, None) for s, v in self.ev(fr, st, c)]
        if k in ('IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean',
                 'FloatingToBoolean', 'BooleanToSignedIntegral', 'PointerToBoolean'):
            ft, tt = self.ty.of(c), self.ty.of(e)
            return [(s, self.cast(s, v, ft, tt)) for s, v in self.ev(fr, st, c)]
        raise Unsupported('cast ' + str(k))

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXDynamicCastExpr = \
        lambda self, fr, st, e: self.e_ImplicitCastExpr(fr, st, e)

    def conv_ctor(self, st, v, ft, tt):
        return v

    def l_ImplicitCastExpr(self, fr, st, e):
        k = e.get('castKind')
        if k in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            return self.lvof(fr, st, self.kids(e)[0])
        return [(s, LV(('t', v))) for s, v in self.ev(fr, st, e)]

    l_CStyleCastExpr = l_CXXStaticCastExpr = l_CXXFunctionalCastExpr = l_ImplicitCastExpr

    # -- operators
    def l_UnaryOperator(self, fr, st, e):
        op = e['opcode']
        c = self.kids(e)[0]
        if op == '*':
            out = []
            for s, v in self.ev(fr, st, c):
                out.append((s, self.deref(s, v, self.ty.of(e))))
            return out
        if op in ('++', '--') and not e.get('isPostfix'):
            out = []
            for s, lv in self.lvof(fr, st, c):
                v = self.read(s, lv)
                self.write(s, lv, self.incdec(s, v, self.ty.of(c), op))
                out.append((s, lv))
            return out
        return [(s, LV(('t', v))) for s, v in self.ev(fr, st, e)]

    def deref(self, st, v, t):
        if isinstance(v, AddrV):
            lt = v.t
            cur = self.read(st, v.lv)
            # type punning through a reinterpreted pointer
            if isinstance(cur, z3.ExprRef):
                if is_fl(cur) and t[0] == 'int':
                    return LV(('t', self.float_bits(cur, t)))
                if t[0] == 'float' and not is_fl(cur):
                    return LV(('t', self.bits_float(cur, t)))
            return v.lv
        if isinstance(v, IterV):
            if v.val is not None:
                return LV(('t', v.val))
            return self.iter_lv(st, v)
        if isinstance(v, MapIterV):
            raise Unsupported('deref of map iterator')
        if isinstance(v, z3.ExprRef):
            return LV(('obj', v), (), ('ptr', t))
        raise Unsupported('deref of %r' % (type(v),))

    def iter_lv(self, st, it):
        idx = it.idx
        if it.rev:
            n = self.read(st, it.lv).len
            idx = n - 1 - idx
        v = self.read(st, it.lv)
        self.bounds(st, v, idx, 'iterator dereference in bounds')
        return it.lv.sub(('i', idx))

    def float_bits(self, v, t):
        w = t[1] if self.real else fl_width(v)
        if self.mode == 'bv':
            # bit pattern of the float object (NaN payloads: see bits_float)
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1:
                return v.arg(0)
            key = ('bits', v.get_id())
            if key not in self.sp:
                self.sp[key] = z3.BitVec(self.th.fresh_name('bits'), w)
                self._keep.append(v)
            raise Unsupported('bits of a computed float')
        f = self.th.ufun('f2bits%d' % w, self.th.fsort(w), z3.IntSort())
        g = self.th.ufun('bits2f%d' % w, z3.IntSort(), self.th.fsort(w))
        if 'f2bits%d' % w not in self.axgens:
            self.axgens['f2bits%d' % w] = lambda x: [g(x) == x.arg(0), x >= 0, x < (1 << w)]
            self._apps.clear()
        r = f(v)
        if t[2]:
            r = self.th.wrap_term(r, t)
        return r

    def bits_float(self, v, t):
        if self.mode == 'bv':
            return z3.fpBVToFP(v, FS[t[1]])
        g = self.th.ufun('bits2f%d' % t[1], z3.IntSort(), self.th.fsort(t[1]))
        if z3.is_app(v) and v.decl().name() == 'f2bits%d' % t[1]:
            return v.arg(0)
        return g(v)

    def incdec(self, st, v, t, op):
        if isinstance(v, IterV):
            return IterV(v.lv, v.idx + 1 if op == '++' else v.idx - 1, v.rev, v.val)
        if t[0] == 'float':
            return self.th.farith('+' if op == '++' else '-', t[1], v, fpval(1.0, t[1]))
        one = self.I(1, t)
        return self.arith(st, '+' if op == '++' else '-', v, one, t)

    def e_UnaryOperator(self, fr, st, e):
        op = e['opcode']
        c = self.kids(e)[0]
        t = self.ty.of(e)
        if op in ('++', '--'):
            out = []
            for s, lv in self.lvof(fr, st, c):
                v = self.read(s, lv)
                nv = self.incdec(s, v, self.ty.of(c), op)
                self.write(s, lv, nv)
                out.append((s, v if e.get('isPostfix') else nv))
            return out
        if op == '*':
            return [(s, self.read(s, lv)) for s, lv in self.l_UnaryOperator(fr, st, e)]
        if op == '&':
            if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return self.ev(fr, st, c)
            return [(s, self.addr(lv, self.ty.of(c))) for s, lv in self.lvof(fr, st, c)]
        out = []
        for s, v in self.ev(fr, st, c):
            if op == '-':
                if t[0] == 'float':
                    r = self.th.fneg(v)
                else:
                    r = -v if self.mode == 'bv' else self.norm(s, -v, t)
            elif op == '+':
                r = v
            elif op == '!':
                r = z3.Not(v)
                if z3.is_not(v):
                    r = v.arg(0)
            elif op == '~':
                r = ~v if self.mode == 'bv' else self.norm(s, -v - 1, t)
            else:
                raise Unsupported('unary ' + op)
            out.append((s, r))
        return out

    def addr(self, lv, t):
        if lv.root[0] == 'obj' and not lv.path:
            return lv.root[1]
        return AddrV(lv, t)

    def e_BinaryOperator(self, fr, st, e):
        op = e['opcode']
        a, b = self.kids(e)
        if op in ('&&', '||'):
            return self.shortcircuit(fr, st, e, op, a, b)
        if op == '=':
            return [(s, self.read(s, lv)) for s, lv in self.l_BinaryOperator(fr, st, e)]
        if op == ',':
            out = []
            for s, _ in self.ev(fr, st, a):
                out += self.ev(fr, s, b)
            return out
        out = []
        t = self.ty.of(a)
        for s, va in self.ev(fr, st, a):
            for s2, vb in self.ev(fr, s, b):
                out.append((s2, self.binop(s2, op, va, vb, t, self.ty.of(b))))
        return out

    def binop(self, st, op, va, vb, t, tb=None):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isinstance(va, IterV) or isinstance(vb, IterV):
                return self.lib.iter_cmp(self, st, op, va, vb)
            return self.compare(op, va, vb, t)
        if op in ('<<', '>>') and self.mode == 'bv' and t[0] == 'int':
            return self.arith(st, op, va, vb, t)
        if t[0] == 'ptr' and isinstance(va, IterV):
            return IterV(va.lv, va.idx + vb if op == '+' else va.idx - vb, va.rev)
        return self.arith(st, op, va, vb, t)

    def l_BinaryOperator(self, fr, st, e):
        op = e['opcode']
        a, b = self.kids(e)
        if op == '=':
            out = []
            for s, vb in self.ev(fr, st, b):
                for s2, lv in self.lvof(fr, s, a):
                    self.write(s2, lv, vb)
                    out.append((s2, lv))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(fr, st, a):
                out += self.lvof(fr, s, b)
            return out
        return [(s, LV(('t', v))) for s, v in self.e_BinaryOperator(fr, st, e)]

    def l_CompoundAssignOperator(self, fr, st, e):
        op = e['opcode'][:-1]
        a, b = self.kids(e)
        lt = self.ty.of(a)
        ct = self.ty.parse((e.get('computeResultType') or e.get('computeLHSType') or e['type']).get('desugaredQualType') or
                           (e.get('computeResultType') or e['type'])['qualType'])
        clt = self.ty.parse((e.get('computeLHSType') or e['type']).get('desugaredQualType') or (e.get('computeLHSType') or e['type'])['qualType'])
        out = []
        for s, vb in self.ev(fr, st, b):
            for s2, lv in self.lvof(fr, s, a):
                cur = self.read(s2, lv)
                if isinstance(cur, IterV):
                    r = IterV(cur.lv, cur.idx + vb if op == '+' else cur.idx - vb, cur.rev)
                else:
                    va = self.cast(s2, cur, lt, clt)
                    r = self.binop(s2, op, va, vb, clt)
                    r = self.cast(s2, r, ct, lt)
                self.write(s2, lv, r)
                out.append((s2, lv))
        return out

    def e_CompoundAssignOperator(self, fr, st, e):
        return [(s, self.read(s, lv)) for s, lv in self.l_CompoundAssignOperator(fr, st, e)]

    def snapshot(self, st):
        return (dict(st.store), {k: dict(f) for k, (c, f) in st.heap.items()}, dict(st.hmap), dict(st.ext))

    def unchanged(self, st, snap):
        a, b, c, d = snap
        for k, v in a.items():
            if k not in st.store or not _same(st.store[k], v):
                return False
        for k, f in b.items():
            if k not in st.heap:
                return False
            for n, v in f.items():
                if not _same(st.heap[k][1].get(n), v):
                    return False
        for k, v in c.items():
            if not _same(st.hmap.get(k), v):
                return False
        for k, v in d.items():
            if not _same(st.ext.get(k), v):
                return False
        return True

    def cond_eval(self, fr, st, c, cond_true, thunk_a, thunk_b):
        """evaluate thunk_a under cond, thunk_b under not cond; merge"""
        cs = z3.simplify(cond_true)
        if z3.is_true(cs):
            return thunk_a(st)
        if z3.is_false(cs):
            return thunk_b(st)
        s1 = st.copy().assume(cond_true)
        s2 = st.assume(z3.Not(cond_true))
        items = []
        f1 = self.feasible(s1.pc)
        if f1:
            items += thunk_a(s1)
        if not f1 or self.feasible(s2.pc):
            items += thunk_b(s2)
        return self.merge(items)

    def shortcircuit(self, fr, st, e, op, a, b):
        out = []
        for s, va in self.ev(fr, st, a):
            vs = z3.simplify(va)
            if op == '&&':
                if z3.is_false(vs):
                    out.append((s, z3.BoolVal(False)))
                    continue
                if z3.is_true(vs):
                    out += self.ev(fr, s, b)
                    continue
                out += self._sc(fr, s, va, b, z3.And)
            else:
                if z3.is_true(vs):
                    out.append((s, z3.BoolVal(True)))
                    continue
                if z3.is_false(vs):
                    out += self.ev(fr, s, b)
                    continue
                out += self._sc(fr, s, va, b, z3.Or)
        return out

    def _sc(self, fr, s, va, b, comb):
        g = va if comb is z3.And else z3.Not(va)
        n = len(s.pc)
        base = s.copy()
        s1 = s.copy().assume(g)
        snap = self.snapshot(s1)
        if not self.feasible(s1.pc):
            return [(base, z3.BoolVal(comb is not z3.And))]
        self.thrown.append([])
        res = self.ev(fr, s1, b)
        th = self.thrown.pop()
        self.thrown[-1].extend(th)
        if len(res) == 1 and not th and self.unchanged(res[0][0], snap) and len(res[0][0].pc) == n + 1:
            base.store.update({k: v for k, v in res[0][0].store.items() if k not in base.store})
            return [(base, comb(va, res[0][1]))]
        items = list(res)
        s2 = base.assume(z3.Not(g))
        if self.feasible(s2.pc):
            items.append((s2, z3.BoolVal(comb is not z3.And)))
        return self.merge(items)

    def e_ConditionalOperator(self, fr, st, e):
        c, a, b = self.kids(e)
        out = []
        for s, vc in self.ev(fr, st, c):
            out += self.cond_eval(fr, s, None, vc, lambda x: self.ev(fr, x, a), lambda x: self.ev(fr, x, b))
        return out

    def l_ConditionalOperator(self, fr, st, e):
        c, a, b = self.kids(e)
        out = []
        for s, vc in self.ev(fr, st, c):
            cs = z3.simplify(vc)
            if z3.is_true(cs):
                out += self.lvof(fr, s, a)
            elif z3.is_false(cs):
                out += self.lvof(fr, s, b)
            else:
                s1 = s.copy().assume(vc)
                s2 = s.assume(z3.Not(vc))
                if self.feasible(s1.pc):
                    out += self.lvof(fr, s1, a)
                if self.feasible(s2.pc):
                    out += self.lvof(fr, s2, b)
        return out

    def e_UnaryExprOrTypeTraitExpr(self, fr, st, e):
        ks = self.kids(e)
        if ks:
            t = self.ty.of(ks[0])
        else:
            a = e.get('argType', {})
            t = self.ty.parse(a.get('desugaredQualType') or a.get('qualType'))
        n = {'int': lambda: t[1] // 8, 'float': lambda: t[1] // 8, 'bool': lambda: 1, 'ptr': lambda: 8}.get(t[0])
        if n is None:
            raise Unsupported('sizeof %r' % (t,))
        return [(st, self.I(n(), SIZE))]

    # -- calls
    def callee_decl(self, e):
        while e['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            e = self.kids(e)[0]
        return e

    def param_refs(self, fn):
        return [self.ty.is_ref(p) for p in self.prog.params(fn)]

    def fix_args(self, fn, args):
        ps = self.prog.params(fn)
        out = []
        for i, p in enumerate(ps):
            if i < len(args) and args[i]['kind'] != 'CXXDefaultArgExpr':
                out.append(args[i])
            else:
                ks = self.kids(p)
                if not ks:
                    raise Unsupported('default argument of ' + str(p.get('name')))
                out.append(ks[-1])
        return out

    def ev_args(self, fr, st, args, refs):
        out = [(st, [])]
        for i, a in enumerate(args):
            ref = refs[i] if i < len(refs) else True
            nxt = []
            for s, vs in out:
                for s2, v in self.ev_arg(fr, s, a, ref):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def e_CallExpr(self, fr, st, e):
        r = self._call(fr, st, e)
        return [(s, self.read(s, v.lv) if isinstance(v, RefV) else v) for s, v in r]

    def l_CallExpr(self, fr, st, e):
        r = self._call(fr, st, e)
        return [(s, v.lv if isinstance(v, RefV) else self.temp(s, v)) for s, v in r]

    def _call(self, fr, st, e):
        ks = self.kids(e)
        cal, args = ks[0], ks[1:]
        d = self.callee_decl(cal)
        if d['kind'] == 'DeclRefExpr' and d['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            r = d['referencedDecl']
            fn = self.prog.by_id.get(r['id'])
            if fn is None:
                fn = self.find_global(r)
            if fn is not None:
                fn = self.defn(fn)
                out = []
                for s, vs in self.ev_args(fr, st, self.fix_args(fn, args), self.param_refs(fn)):
                    out += self.call_fn(fr, s, fn, None, vs)
                return out
            return self.lib.std_call(self, fr, st, e, r, args)
        # callable object
        out = []
        for s, f in self.ev(fr, st, cal):
            for s2, vs in self.ev_args(fr, s, args, []):
                out += self.call_value(s2, f, vs)
        return out

    def call_value(self, st, f, args):
        if isinstance(f, FnV):
            return f.fn(self, st, args)
        raise Unsupported('call of %r' % (type(f),))

    def find_global(self, r):
        for c in self.prog.functions.get(r['name'], ()):
            if c['type']['qualType'] == r.get('type', {}).get('qualType') and self.prog.body(c) is not None:
                return c
        return None

    def defn(self, fn):
        if self.prog.body(fn) is not None:
            return fn
        for c in self.prog.functions.get(fn.get('name'), ()):
            if self.prog.body(c) is not None and c['type']['qualType'] == fn['type']['qualType']:
                return c
        return fn

    def e_CXXMemberCallExpr(self, fr, st, e):
        return [(s, self.read(s, v.lv) if isinstance(v, RefV) else v) for s, v in self._mcall(fr, st, e)]

    def l_CXXMemberCallExpr(self, fr, st, e):
        return [(s, v.lv if isinstance(v, RefV) else self.temp(s, v)) for s, v in self._mcall(fr, st, e)]

    def _mcall(self, fr, st, e):
        ks = self.kids(e)
        me, args = ks[0], ks[1:]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = self.kids(me)[0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + me['kind'])
        obj = self.kids(me)[0]
        name = me['name']
        d = self.prog.by_id.get(me.get('referencedMemberDecl'))
        if d is None or d['id'] not in self.prog.parent_class:
            return self.lib.std_method(self, fr, st, e, me, obj, name, args)
        out = []
        explicit = False  # Base::method() qualified calls are not distinguished by the dump
        args = self.fix_args(d, args)
        refs = self.param_refs(d)
        if me.get('isArrow'):
            objs = self.ev(fr, st, obj)
        else:
            objs = []
            for s, lv in self.lvof(fr, st, obj):
                lv = self.deref_lv(s, lv)
                if lv.root[0] == 'obj' and not lv.path:
                    objs.append((s, lv.root[1]))
                else:
                    objs.append((s, AddrV(lv, self.ty.of(obj))))
        ot = self.ty.of(obj)
        scls = ot[1][1] if ot[0] == 'ptr' and ot[1][0] == 'cls' else (ot[1] if ot[0] == 'cls' else self.prog.parent_class[d['id']])
        for s, p in objs:
            for s2, vs in self.ev_args(fr, s, args, refs):
                out += self.call_method(fr, s2, p, scls, d, vs)
        return out

    def call_method(self, fr, st, p, scls, d, args):
        """virtual dispatch; p: object id term, AddrV of a value object"""
        name = d['name']
        if isinstance(p, AddrV):
            return self.call_on_value(fr, st, p, d, args)
        if isinstance(p, IterV):
            return self.call_on_value(fr, st, AddrV(self.iter_lv(st, p), None), d, args)
        c = as_int_const(p)
        if c is None and z3.is_app_of(p, z3.Z3_OP_SELECT):
            p = z3.simplify(p)
            c = as_int_const(p)
        if c is None and z3.is_app_of(p, z3.Z3_OP_ITE):
            items = []
            for g, q in ((p.arg(0), p.arg(1)), (z3.Not(p.arg(0)), p.arg(2))):
                s1 = st.copy().assume(g)
                if self.feasible(s1.pc):
                    items += self.call_method(fr, s1, q, scls, d, args)
            return self.merge(items)
        if c is not None and c in self.obj_contracts:
            return self.obj_contracts[c](self, fr, st, p, d, args)
        if c is not None and c in st.heap:
            cls = st.heap[c][0]
            fn = self.resolve(cls, d)
            h = self.contracts.get((self.prog.parent_class.get(fn['id']), name))
            if h is not None:
                r = h(self, fr, st, p, args)
                if r is not None:
                    return r
            return self.call_fn(fr, st, fn, p, args)
        # abstract object
        for cl in self.prog.mro(scls):
            h = self.absclass.get(cl)
            if h is not None:
                r = h(self, fr, st, p, d, args)
                if r is not None:
                    return r
        if scls in self.heapified:
            return self.call_fn(fr, st, self.resolve(scls, d), p, args)
        if c == 0:
            self.oblige(st, 'null dereference', z3.BoolVal(False))
            return []
        if d.get('virtual') or d.get('pure'):
            raise Unsupported('virtual call %s::%s on abstract object' % (scls, name))
        return self.call_fn(fr, st, d, p, args)

    def call_on_value(self, fr, st, p, d, args):
        """method call on an object held by value: box, run, unbox"""
        cls = self.prog.parent_class[d['id']]
        cur = self.read(st, p.lv)
        if isinstance(cur, Opaque):
            raise Unsupported('method %s on opaque value' % d['name'])
        if not isinstance(cur, RecV):
            raise Unsupported('method %s on %r' % (d['name'], type(cur)))
        oid = next(self.objc)
        if cur.t[0] == 'rec':
            cls = cur.t[1]
        st.heap[oid] = (cls, dict(cur.f))
        out = []
        fn = self.resolve(cls, d)
        for s, v in self.call_fn(fr, st, fn, z3.IntVal(oid), args):
            f = s.heap[oid][1]
            if any(not _same(f[k], cur.f[k]) for k in cur.f):
                self.write(s, p.lv, RecV(cur.t, {k: f[k] for k in cur.f}))
            # a reference into the boxed object becomes a reference into the original
            if isinstance(v, RefV) and v.lv.root[:2] == ('h', oid):
                v = RefV(LV(p.lv.root, p.lv.path + (('f', v.lv.root[2]),) + v.lv.path))
            out.append((s, v))
        return out

    def resolve(self, cls, d):
        """most derived override of d for dynamic class cls"""
        name = d['name']
        sig = _params_sig(d)
        for c in self.prog.mro(cls):
            for m in self.prog.cinfo[c]['methods'].get(name, ()):
                if _params_sig(m) == sig and (self.prog.body(m) is not None):
                    return m
        return d

    def call_fn(self, fr, st, fn, this, args):
        """inline a repository function (or use its registered contract)"""
        name = fn.get('name')
        cls = self.prog.parent_class.get(fn['id'])
        key = (cls, name)
        h = self.contracts.get(key)
        if h is not None and this is None or (h is not None and cls is not None):
            self.cur_fn = fn
            r = h(self, fr, st, this, args)
            if r is not None:
                return r
        body = self.prog.body(fn)
        if body is None:
            raise Unsupported('no body for %s' % name)
        depth = sum(1 for x in self.call_stack if x == self.qn(fn))
        if depth > 10 or len(self.call_stack) > self.MAXDEPTH:
            raise Unsupported('recursion in %s without a contract' % name)
        self.functions.add(self.qn(fn))
        nf = Frame(fn, this, None, cls, name)
        nf.ret_ref = (fn['type']['qualType'].split('(')[0].strip().endswith('&'))
        for p, a in zip(self.prog.params(fn), args):
            self.bind(nf, st, p, a)
        self.call_stack.append(self.qn(fn))
        try:
            outs = self.ex(nf, st, body)
        finally:
            self.call_stack.pop()
        return self.finish_call(outs)

    def finish_call(self, outs):
        res = []
        for kind, s, v in outs:
            if kind == 't':
                self.thrown[-1].append((s, v))
            else:
                res.append((s, v if kind == 'r' else None))
        return self.merge(res)

    def bind(self, nf, st, p, a):
        ref = self.ty.is_ref(p)
        if isinstance(a, LV):
            if ref:
                a = self.deref_lv(st, a)
                v = RefV(a) if a.root[0] != 't' else (self.read(st, a))
            else:
                v = self.read(st, a)
        else:
            v = a
        self.declare(nf, st, p, v)

    def qn(self, fn):
        c = self.prog.parent_class.get(fn['id'])
        return (c + '::' if c else '') + str(fn.get('name'))

    def e_CXXOperatorCallExpr(self, fr, st, e):
        return [(s, self.read(s, v.lv) if isinstance(v, RefV) else v) for s, v in self._opcall(fr, st, e)]

    def l_CXXOperatorCallExpr(self, fr, st, e):
        return [(s, v.lv if isinstance(v, RefV) else self.temp(s, v)) for s, v in self._opcall(fr, st, e)]

    def _opcall(self, fr, st, e):
        ks = self.kids(e)
        d = self.callee_decl(ks[0])
        r = d['referencedDecl']
        fn = self.prog.by_id.get(r['id'])
        args = ks[1:]
        if fn is not None and fn['id'] in self.prog.parent_class and self.is_lambda_op(fn):
            out = []
            for s, f in self.ev(fr, st, args[0]):
                for s2, vs in self.ev_args(fr, s, args[1:], self.param_refs(fn)):
                    out += self.call_value(s2, f, vs)
            return out
        if fn is not None and fn.get('isImplicit') and r['name'] == 'operator=':
            out = []
            for s, vb in self.ev(fr, st, args[1]):
                for s2, lv in self.lvof(fr, s, args[0]):
                    self.write(s2, lv, vb)
                    out.append((s2, RefV(lv)))
            return out
        if fn is not None and (self.prog.body(fn) is not None or fn['id'] in self.prog.parent_class):
            if fn['id'] in self.prog.parent_class:
                out = []
                for s, lv in self.lvof(fr, st, args[0]):
                    lv = self.deref_lv(s, lv)
                    p = lv.root[1] if lv.root[0] == 'obj' and not lv.path else AddrV(lv, self.ty.of(args[0]))
                    for s2, vs in self.ev_args(fr, s, args[1:], self.param_refs(fn)):
                        out += self.call_method(fr, s2, p, self.prog.parent_class[fn['id']], fn, vs)
                return out
            out = []
            for s, vs in self.ev_args(fr, st, args, self.param_refs(fn)):
                out += self.call_fn(fr, s, fn, None, vs)
            return out
        return self.lib.std_operator(self, fr, st, e, r['name'], args)

    def is_lambda_op(self, fn):
        c = self.prog.parent_class.get(fn['id'])
        return fn.get('name') == 'operator()' and (c is None or c.startswith('0x') or c not in self.prog.cinfo or c in ('',))

    # -- construction
    def ctor_type_of(self, e):
        return e.get('ctorType', {}).get('qualType', '')

    def e_CXXConstructExpr(self, fr, st, e):
        t = self.ty.of(e)
        args = self.kids(e)
        return self.construct_expr(fr, st, t, args, self.ctor_type_of(e), e)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_expr(self, fr, st, t, args, ctype, e=None):
        if t[0] == 'cls':
            cls = t[1]
            # copy / move of a value or of an opaque object
            if len(args) == 1 and self.ty.of(args[0]) == t:
                return self.ev(fr, st, args[0])
            ctor = self.find_ctor(cls, args, ctype)
            refs = self.param_refs(ctor) if ctor is not None else []
            if ctor is not None:
                args = self.fix_args(ctor, args)
            out = []
            for s, vs in self.ev_args(fr, st, args, refs):
                for s2, oid in self.construct(fr, s, cls, vs, ctor):
                    c, f = s2.heap[oid]
                    rt = self.rec_type(cls)
                    out.append((s2, RecV(rt, dict(f))))
            return out
        return self.lib.std_construct(self, fr, st, t, args, ctype, e)

    def find_ctor(self, cls, args, ctype):
        ctors = self.prog.cinfo[cls]['ctors']
        if ctype:
            for c in ctors:
                if c['type']['qualType'].replace(' noexcept', '') == ctype.replace(' noexcept', ''):
                    return c
        return self.pick_ctor(cls, [self.ty.of(a) for a in args], args)

    def pick_ctor(self, cls, ats, argexprs=None):
        best, bs = None, None
        for c in self.prog.cinfo[cls]['ctors']:
            ps = self.prog.params(c)
            need = sum(1 for p in ps if not self.kids(p))
            if not (need <= len(ats) <= len(ps)):
                continue
            if c.get('isImplicit') and len(ps) == 1:
                continue
            score = 0
            ok = True
            for p, a in zip(ps, ats):
                pt = self.ty.of(p)
                if pt == a:
                    score += 10
                elif pt[0] == a[0] and pt[0] in ('vec', 'ptr', 'fn', 'map', 'list'):
                    if pt[0] == 'ptr' and pt[1][0] == 'cls' and a[1][0] == 'cls' and not self.prog.is_a(a[1][1], pt[1][1]):
                        ok = False
                    if pt[0] == 'vec' and pt[1] != a[1] and not (pt[1][0] == a[1][0] == 'int'):
                        ok = False
                    score += 8
                elif pt[0] in ('int', 'float', 'bool') and a[0] in ('int', 'float', 'bool'):
                    score += 5 if pt[0] == a[0] else 3
                elif pt[0] == 'fn' or a[0] in ('opaque', 'null'):
                    score += 1
                elif pt[0] == 'str' and a[0] in ('str', 'ptr', 'arr'):
                    score += 4
                elif pt[0] == 'opaque':
                    score += 1
                else:
                    ok = False
            if ok and (bs is None or score > bs):
                best, bs = c, score
        return best

    def construct(self, fr, st, cls, args, ctor, oid=None):
        """-> [(st, oid)]; allocates and runs the constructor"""
        if oid is None:
            oid = next(self.objc)
        st.heap[oid] = (cls, {})
        for c in reversed(self.prog.mro(cls)):
            for f in self.prog.cinfo[c]['fields']:
                ft = self.ty.of(f)
                try:
                    if ft[0] in ('int', 'float', 'bool', 'ptr'):
                        v = self.fresh('uninit_%s' % f['name'], ft, st)
                    else:
                        v = self.default_value(ft)
                except Unsupported:
                    v = Opaque('field')
                st.heap[oid][1][f['name']] = v
        return [(s, oid) for s in self.run_ctor(fr, st, oid, cls, args, ctor)]

    def run_ctor(self, fr, st, oid, cls, args, ctor):
        """-> [st]"""
        nf = Frame(ctor, z3.IntVal(oid), None, cls, cls)
        info = self.prog.cinfo[cls]
        self.functions.add(cls + '::' + cls)
        self.call_stack.append(cls + '::' + cls)
        try:
            if ctor is not None:
                for p, a in zip(self.prog.params(ctor), args):
                    self.bind(nf, st, p, a)
            inits = [c for c in (ctor or {}).get('inner', ()) if c.get('kind') == 'CXXCtorInitializer']
            states = [st]
            done = set()
            base_done = set()
            for ini in inits:
                if 'anyInit' in ini:
                    done.add(ini['anyInit']['name'])
                elif 'baseInit' in ini:
                    base_done.add((ini['baseInit'].get('desugaredQualType') or ini['baseInit']['qualType']).split('::')[-1])
            # implicit default base construction and default member initialisers
            for b in info['bases']:
                if b in self.prog.cinfo and b not in base_done:
                    nxt = []
                    for s in states:
                        bc = self.pick_ctor(b, [])
                        nxt += self.run_ctor(nf, s, oid, b, [], bc)
                    states = nxt
            for f in info['fields']:
                if f['name'] not in done and f.get('hasInClassInitializer'):
                    ks = self.kids(f)
                    if ks:
                        nxt = []
                        for s in states:
                            for s2, v in self.ev(nf, s, ks[-1]):
                                s2.heap[oid][1][f['name']] = v
                                self.log_write(('h', oid, f['name']))
                                nxt.append(s2)
                        states = nxt
            for ini in inits:
                ks = self.kids(ini)
                nxt = []
                for s in states:
                    if 'anyInit' in ini:
                        fname = ini['anyInit']['name']
                        e = ks[0]
                        if e['kind'] == 'CXXDefaultInitExpr':
                            fd = [f for f in info['fields'] if f['name'] == fname][0]
                            e = self.kids(fd)[-1]
                        ft = self.field_type(cls, fname)
                        fdn = [f for f in info['fields'] if f['name'] == fname]
                        if fdn and self.ty.is_ref(fdn[0]):
                            for s2, lv in self.lvof(nf, s, e):
                                s2.heap[oid][1][fname] = RefV(self.deref_lv(s2, lv))
                                nxt.append(s2)
                            continue
                        try:
                            rs = self.ev(nf, s, e)
                        except Unsupported:
                            if ft[0] == 'opaque':
                                rs = [(s, Opaque(fname))]
                            else:
                                raise
                        for s2, v in rs:
                            s2.heap[oid][1][fname] = v
                            self.log_write(('h', oid, fname))
                            nxt.append(s2)
                    elif 'baseInit' in ini:
                        b = (ini['baseInit'].get('desugaredQualType') or ini['baseInit']['qualType'])
                        bt = self.ty.parse(b)
                        if bt[0] != 'cls':
                            nxt.append(s)
                            continue
                        ce = ks[0]
                        while ce['kind'] in ('ExprWithCleanups',):
                            ce = self.kids(ce)[0]
                        cargs = self.kids(ce)
                        bc = self.find_ctor(bt[1], cargs, self.ctor_type_of(ce))
                        if bc is not None:
                            cargs = self.fix_args(bc, cargs)
                        for s2, vs in self.ev_args(nf, s, cargs, self.param_refs(bc) if bc else []):
                            nxt += self.run_ctor(nf, s2, oid, bt[1], vs, bc)
                    else:
                        # delegating constructor
                        ce = ks[0]
                        while ce['kind'] in ('ExprWithCleanups',):
                            ce = self.kids(ce)[0]
                        cargs = self.kids(ce)
                        dc = self.find_ctor(cls, cargs, self.ctor_type_of(ce))
                        cargs = self.fix_args(dc, cargs)
                        for s2, vs in self.ev_args(nf, s, cargs, self.param_refs(dc)):
                            nxt += self.run_ctor(nf, s2, oid, cls, vs, dc)
                states = nxt
            body = self.prog.body(ctor) if ctor is not None else None
            if body is None:
                return states
            out = []
            for s in states:
                res = []
                for kind, s2, v in self.ex(nf, s, body):
                    if kind == 't':
                        self.thrown[-1].append((s2, v))
                    else:
                        res.append((s2, None))
                out += [s2 for s2, _ in self.merge(res)]
            return out
        finally:
            self.call_stack.pop()

    def e_InitListExpr(self, fr, st, e):
        t = self.ty.of(e)
        ks = self.kids(e)
        out = []
        for s, vs in self.ev_list(fr, st, ks):
            out.append((s, self.init_list(s, t, vs)))
        return out

    def init_list(self, st, t, vs):
        if t[0] in ('int', 'float', 'bool', 'ptr') and len(vs) <= 1:
            return vs[0] if vs else self.default_value(t)
        if t[0] in ('vec', 'arr'):
            et = self.vt(t[1])
            n = t[2] if t[0] == 'arr' and t[2] is not None else len(vs)
            arr = self.th.karr(et)
            for i, v in enumerate(vs):
                if isinstance(v, (FnV, Opaque)):
                    return Opaque('vec of functions')
                arr = z3.Store(arr, z3.IntVal(i), self.th.to_z3(v, et))
            return VecV(et, z3.IntVal(n), arr)
        if t[0] == 'cls':
            rt = self.rec_type(t[1])
            return RecV(rt, {f: (vs[i] if i < len(vs) else self.th.default(ft)) for i, (f, ft) in enumerate(rt[2])})
        if t[0] in ('pair', 'tuple'):
            rt = self.vt(t)
            return RecV(rt, {f: vs[i] for i, (f, ft) in enumerate(self.th.recfields(rt))})
        raise Unsupported('init list of %r' % (t,))

    def e_CXXThrowExpr(self, fr, st, e):
        ks = self.kids(e)
        what = 'rethrow'
        if ks:
            t = ks[0].get('type', {})
            what = (t.get('desugaredQualType') or t.get('qualType', '')).replace('std::', '')
        # the message is evaluated only for its (absent) effects
        self.thrown[-1].append((st, what))
        return []

    def e_LambdaExpr(self, fr, st, e):
        ks = self.kids(e)
        rec = ks[0]
        op = None
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        body = [k for k in ks[1:] if k['kind'] == 'CompoundStmt'][-1]
        caps = ks[1:-1]
        lf = Frame(op, None, fr, None, 'lambda')
        for f, c in zip(fields, caps):
            if not self.ty.is_ref(f):
                x = c
                while x['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and self.kids(x):
                    x = self.kids(x)[0]
                if x['kind'] == 'DeclRefExpr':
                    r = x['referencedDecl']
                    cid = self.find_cell(fr, r['id'])
                    if cid is not None:
                        v = self.read(st, LV(('c', cid)))
                        ncid = (lf.uid, r['id'])
                        lf.decls[r['id']] = ncid
                        st.store[ncid] = v
        params = [c for c in op.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

        def run(E, s, args, lf=lf):
            cf = Frame(op, None, lf, None, 'lambda')
            cf.ret_ref = False
            for p, a in zip(params, args):
                E.bind(cf, s, p, a)
            E.call_stack.append((E.call_stack[-1] if E.call_stack else '') + '::lambda')
            try:
                outs = E.ex(cf, s, body)
            finally:
                E.call_stack.pop()
            return E.finish_call(outs)
        return [(st, FnV(run, ('lambda', e.get('id'), fr.uid)))]

    def e_CXXNewExpr(self, fr, st, e):
        t = self.ty.of(e)
        ks = self.kids(e)
        if t[0] == 'ptr' and t[1][0] == 'cls':
            ce = ks[-1] if ks else None
            args = self.kids(ce) if ce else []
            cls = t[1][1]
            ctor = self.find_ctor(cls, args, self.ctor_type_of(ce) if ce else '')
            out = []
            for s, vs in self.ev_args(fr, st, self.fix_args(ctor, args) if ctor else args, self.param_refs(ctor) if ctor else []):
                out += [(s2, z3.IntVal(o)) for s2, o in self.construct(fr, s, cls, vs, ctor)]
            return out
        raise Unsupported('new')

    # ------------------------------------------------------------------ statements
    def ex(self, fr, st, s):
        """-> [(kind, st, val)], kind n/r/b/c/t"""
        m = getattr(self, 's_' + s['kind'], None)
        self.thrown.append([])
        if m is not None:
            outs = m(fr, st, s)
        else:
            outs = [('n', x, None) for x, _ in self.ev(fr, st, s)]
        outs = outs + [('t', x, w) for x, w in self.thrown.pop()]
        return outs

    def s_NullStmt(self, fr, st, s):
        return [('n', st, None)]

    def s_CompoundStmt(self, fr, st, s):
        cur = [st]
        outs = []
        for c in self.kids(s):
            nxt = []
            for x in cur:
                for kind, s2, v in self.ex(fr, x, c):
                    if kind == 'n':
                        nxt.append((s2, None))
                    else:
                        outs.append((kind, s2, v))
            cur = [x for x, _ in self.merge(nxt)]
            if len(cur) > 64:
                raise Unsupported('path explosion')
        return outs + [('n', x, None) for x in cur]

    def s_DeclStmt(self, fr, st, s):
        cur = [st]
        for d in self.kids(s):
            if d['kind'] == 'VarDecl':
                nxt = []
                for x in cur:
                    nxt += self.decl_var(fr, x, d)
                cur = nxt
            elif d['kind'] == 'DecompositionDecl':
                nxt = []
                for x in cur:
                    nxt += self.decl_decomp(fr, x, d)
                cur = nxt
            elif d['kind'] in ('StaticAssertDecl', 'UsingDecl', 'TypedefDecl', 'CXXRecordDecl', 'TypeAliasDecl', 'UsingDirectiveDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])
        return [('n', x, None) for x in cur]

    def decl_var(self, fr, st, d):
        ks = [k for k in self.kids(d) if not k['kind'].endswith('Attr')]
        t = self.ty.of(d)
        if not ks:
            if t[0] in ('int', 'float', 'bool', 'ptr'):
                v = self.fresh('uninit_' + d['name'], t, st)
            else:
                v = self.default_value(t)
            self.declare(fr, st, d, v)
            return [st]
        if self.ty.is_ref(d):
            out = []
            for s, lv in self.lvof(fr, st, ks[-1]):
                lv = self.deref_lv(s, lv)
                if lv.root[0] == 't':
                    self.declare(fr, s, d, self.read(s, lv))
                else:
                    self.declare(fr, s, d, RefV(lv))
                out.append(s)
            return out
        out = []
        for s, v in self.ev(fr, st, ks[-1]):
            if isinstance(v, RefV):
                v = self.read(s, v.lv)
            self.declare(fr, s, d, v)
            out.append(s)
        return out

    def decl_decomp(self, fr, st, d):
        ks = self.kids(d)
        init = [k for k in ks if k['kind'] != 'BindingDecl'][-1]
        binds = [k for k in ks if k['kind'] == 'BindingDecl']
        out = []
        if self.ty.is_ref(d):
            rs = self.lvof(fr, st, init)
        else:
            rs = [(s, self.temp(s, v)) for s, v in self.ev(fr, st, init)]
        for s, lv in rs:
            self.bind_decomp(fr, s, binds, lv)
            out.append(s)
        return out

    def bind_decomp(self, fr, st, binds, lv):
        v = self.read(st, lv)
        if not isinstance(v, RecV):
            raise Unsupported('decomposition of %r' % (type(v),))
        names = [f for f, _ in self.th.recfields(v.t)]
        for b, n in zip(binds, names):
            fl = lv.sub(('f', n))
            self.declare(fr, st, b, RefV(fl), t=VOID)

    def s_ReturnStmt(self, fr, st, s):
        ks = self.kids(s)
        if not ks:
            return [('r', st, None)]
        if fr.ret_ref:
            return [('r', x, RefV(self.deref_lv(x, lv))) for x, lv in self.lvof(fr, st, ks[0])]
        return [('r', x, v) for x, v in self.ev(fr, st, ks[0])]

    def s_BreakStmt(self, fr, st, s):
        return [('b', st, None)]

    def s_ContinueStmt(self, fr, st, s):
        return [('c', st, None)]

    def s_IfStmt(self, fr, st, s):
        ks = self.kids(s)
        states = [st]
        if s.get('hasInit'):
            states = [x for _, x, _ in self.ex(fr, st, ks[0])]
            ks = ks[1:]
        if s.get('hasVar'):
            nxt = []
            for x in states:
                nxt += [y for _, y, _ in self.ex(fr, x, ks[0])]
            states = nxt
            ks = ks[1:]
        c, a = ks[0], ks[1]
        b = ks[2] if len(ks) > 2 else None
        outs = []
        for x in states:
            for x2, vc in self.ev(fr, x, c):
                cs = z3.simplify(vc)
                if z3.is_true(cs):
                    outs += self.ex(fr, x2, a)
                    continue
                if z3.is_false(cs):
                    outs += self.ex(fr, x2, b) if b else [('n', x2, None)]
                    continue
                s1 = x2.copy().assume(vc)
                s2 = x2.assume(z3.Not(vc))
                f1 = self.feasible(s1.pc)
                if f1:
                    outs += self.ex(fr, s1, a)
                if not f1 or self.feasible(s2.pc):
                    outs += self.ex(fr, s2, b) if b else [('n', s2, None)]
        return self.merge_outs(outs)

    def merge_outs(self, outs):
        normal = [(x, None) for k, x, _ in outs if k == 'n']
        rest = [o for o in outs if o[0] != 'n']
        return [('n', x, None) for x, _ in self.merge(normal)] + rest

    def s_SwitchStmt(self, fr, st, s):
        ks = self.kids(s)
        c, body = ks[-2], ks[-1]
        items = []
        # flatten case labels
        def flat(n):
            for x in self.kids(n) if n['kind'] == 'CompoundStmt' else [n]:
                labels = []
                while x['kind'] in ('CaseStmt', 'DefaultStmt'):
                    kk = self.kids(x)
                    if x['kind'] == 'CaseStmt':
                        labels.append(kk[0])
                        x = kk[-1]
                    else:
                        labels.append(None)
                        x = kk[-1]
                items.append((labels, x))
        flat(body)
        outs = []
        for x, v in self.ev(fr, st, c):
            rest = x
            notmatched = []
            starts = []
            dflt = None
            for i, (labels, stm) in enumerate(items):
                for l in labels:
                    if l is None:
                        dflt = i
                    else:
                        (xx, lv), = self.ev(fr, rest.copy(), l)
                        starts.append((i, v == lv))
            conds = [g for _, g in starts]
            runs = [(i, g) for i, g in starts]
            if conds:
                runs.append((dflt, z3.Not(z3.Or(*conds))))
            else:
                runs.append((dflt, z3.BoolVal(True)))
            for i, g in runs:
                s1 = x.copy().assume(g)
                if not self.feasible(s1.pc):
                    continue
                if i is None:
                    outs.append(('n', s1, None))
                    continue
                cur = [s1]
                for _, stm in items[i:]:
                    nxt = []
                    for y in cur:
                        for kind, y2, vv in self.ex(fr, y, stm):
                            if kind == 'n':
                                nxt.append(y2)
                            elif kind == 'b':
                                outs.append(('n', y2, None))
                            else:
                                outs.append((kind, y2, vv))
                    cur = nxt
                outs += [('n', y, None) for y in cur]
        return self.merge_outs(outs)

    def s_CXXTryStmt(self, fr, st, s):
        ks = self.kids(s)
        outs = []
        for kind, x, v in self.ex(fr, st, ks[0]):
            if kind != 't':
                outs.append((kind, x, v))
                continue
            handled = False
            for h in ks[1:]:
                hk = [c for c in h.get('inner', ()) if isinstance(c, dict)]
                var = hk[0] if hk and hk[0].get('kind') == 'VarDecl' else None
                tn = '...' if var is None else (var['type'].get('desugaredQualType') or var['type']['qualType']).replace('const ', '').replace('&', '').replace('std::', '').strip()
                if tn == '...' or tn == 'exception' or tn == v or _exc_is(v, tn):
                    if var is not None:
                        self.declare(fr, x, var, Opaque('exception'))
                    outs += self.ex(fr, x, hk[-1])
                    handled = True
                    break
            if not handled:
                outs.append((kind, x, v))
        return outs

    # ------------------------------------------------------------------ loops
    def s_ForStmt(self, fr, st, s):
        inner = s['inner']
        init, _, cond, inc, body = inner
        states = [st]
        outs = []
        if init.get('kind'):
            states = []
            for kind, x, v in self.ex(fr, st, init):
                (states.append(x) if kind == 'n' else outs.append((kind, x, v)))
        for x in states:
            outs += self.loop(fr, x, s, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)
        return outs

    def s_WhileStmt(self, fr, st, s):
        ks = self.kids(s)
        return self.loop(fr, st, s, ks[-2], ks[-1], None)

    def s_DoStmt(self, fr, st, s):
        ks = self.kids(s)
        # do B while(C)  ==  first iteration, then while
        outs = []
        for kind, x, v in self.ex(fr, st, ks[0]):
            if kind in ('n', 'c'):
                outs += self.loop(fr, x, s, ks[1], ks[0], None)
            elif kind == 'b':
                outs.append(('n', x, None))
            else:
                outs.append((kind, x, v))
        return self.merge_outs(outs)

    def s_CXXForRangeStmt(self, fr, st, s):
        inner = [c for c in s['inner'] if isinstance(c, dict)]
        rng = [c for c in inner if c.get('kind') == 'DeclStmt' and self.kids(c)[0].get('name', '').startswith('__range')][0]
        var = self.kids([c for c in inner if c.get('kind') == 'DeclStmt'][-1])[0]
        body = inner[-1]
        rd = self.kids(rng)[0]
        rinit = self.kids(rd)[-1]
        outs = []
        for x, lv in self.lvof(fr, st, rinit):
            lv = self.deref_lv(x, lv)
            coll = self.read(x, lv)
            if lv.root[0] == 't':
                lv = self.temp(x, coll)
            if isinstance(coll, MapV):
                keys, n = self.lib.map_order(self, x, coll)
                self.lib.iter_facts(self, x, coll, keys, n)
                elem = lambda y, i, lv=lv, keys=keys, coll=coll: self.lib.map_elem(self, y, lv, coll, keys, i)
                length = lambda y, n=n: n
            elif isinstance(coll, VecV) or z3.is_seq(coll):
                elem = lambda y, i, lv=lv: RefV(lv.sub(('i', i)))
                length = lambda y, lv=lv: (lambda c: c.len if isinstance(c, VecV) else z3.Length(c))(self.read(y, lv))
            else:
                raise Unsupported('range-for over %r' % (type(coll),))
            idxd = {'id': ('idx', s['id']), 'name': '__idx', 'type': {'qualType': 'unsigned long'}}
            cid = self.declare(fr, x, idxd, z3.IntVal(0), SIZE)
            isref = self.ty.is_ref(var)

            def cond(y, cid=cid, length=length):
                return [(y, y.store[cid] < length(y))]

            def pre(y, cid=cid, elem=elem, isref=isref):
                r = elem(y, y.store[cid])
                if var['kind'] == 'DecompositionDecl':
                    binds = [k for k in self.kids(var) if k['kind'] == 'BindingDecl']
                    if isinstance(r, RefV):
                        self.bind_decomp(fr, y, binds, r.lv)
                    else:
                        self.bind_decomp(fr, y, binds, self.temp(y, r))
                elif isref and isinstance(r, RefV):
                    self.declare(fr, y, var, r)
                else:
                    self.declare(fr, y, var, self.read(y, r.lv) if isinstance(r, RefV) else r)

            def inc(y, cid=cid):
                y.store[cid] = z3.simplify(y.store[cid] + 1) if as_int_const(y.store[cid]) is not None else y.store[cid] + 1
                self.log_write(('c', cid))
                return [y]
            outs += self.loop(fr, x, s, cond, body, inc, pre=pre, idx=[cid])
        return self.merge_outs(outs)

    def loop(self, fr, st, node, cond, body, inc, pre=None, idx=None):
        def ev_cond(y):
            if cond is None:
                return [(y, z3.BoolVal(True))]
            if callable(cond):
                return cond(y)
            return self.ev(fr, y, cond)

        def do_inc(y):
            if inc is None:
                return [y]
            if callable(inc):
                return inc(y)
            return [z for z, _ in self.ev(fr, y, inc)]

        def iteration(y):
            """one body+inc execution from y (cond already assumed) -> (backs, outs)"""
            if pre is not None:
                pre(y)
            backs, outs = [], []
            for kind, z, v in self.ex(fr, y, body):
                if kind in ('n', 'c'):
                    backs.append((z, None))
                else:
                    outs.append((kind, z, v))
            backs = [z for z, _ in self.merge(backs)]
            nb = []
            for z in backs:
                nb += do_inc(z)
            return nb, outs

        # concrete unrolling when every test is decided
        if self.literal_true(cond):
            unroll = 0
        else:
            unroll = 400
        cur, outs, k = [st.copy()], [], 0
        nob = len(self.obls)
        ok = unroll > 0
        n_unr = 0
        while cur and ok:
            nxt = []
            for y in cur:
                for y2, c in ev_cond(y):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        b, o = iteration(y2)
                        nxt += b
                        outs += [(('n' if kk == 'b' else kk), z, v) for kk, z, v in o]
                    elif z3.is_false(c):
                        outs.append(('n', y2, None))
                    elif self.unroll and n_unr < self.unroll:
                        s1 = y2.copy().assume(c)
                        if self.feasible(s1.pc):
                            b, o = iteration(s1)
                            nxt += b
                            outs += [(('n' if kk == 'b' else kk), z, v) for kk, z, v in o]
                        s2 = y2.assume(z3.Not(c))
                        if self.feasible(s2.pc):
                            outs.append(('n', s2, None))
                    else:
                        ok = False
            n_unr += 1
            if n_unr > unroll or len(nxt) > 60:
                ok = False
            cur = nxt
        if ok:
            return self.merge_outs(outs)
        del self.obls[nob:]
        return self.inv_loop(fr, st, node, cond, ev_cond, iteration, idx)

    def literal_true(self, cond):
        return cond is None or (isinstance(cond, dict) and cond.get('kind') == 'CXXBoolLiteralExpr')

    def havoc(self, st, roots):
        for r in sorted(roots, key=str):
            if r[0] == 'HA':
                key = (r[1], r[2])
                t = self.field_type(*key)
                st.hmap[key] = z3.Const(self.th.fresh_name('heap_%s_%s' % key), z3.ArraySort(z3.IntSort(), self.th.sort(t)))
                continue
            v = self.read_root(st, r)
            nv = self.havoc_val(st, v, self.root_type(r, v), str(self.root_name(r)))
            if r[0] == 'c':
                st.store[r[1]] = nv
            elif r[0] == 'h':
                st.heap[r[1]][1][r[2]] = nv
            elif r[0] == 'x':
                st.ext[r[1]] = nv

    def root_type(self, r, v):
        if r[0] == 'c':
            x = getattr(self, 'cell_types', {}).get(r[1])
            return x[0] if x else None
        if r[0] == 'h':
            return None
        return None

    def root_name(self, r):
        if r[0] == 'c':
            x = getattr(self, 'cell_types', {}).get(r[1])
            return x[1] if x else 'tmp'
        return r[-1]

    def havoc_val(self, st, v, t, name):
        if isinstance(v, VecV):
            tt = ('vec', v.et)
            nv = self.th.fresh(name, tt)
            self.assume_type(st, nv, tt)
            return nv
        if isinstance(v, RecV):
            f = {}
            for k, ft in self.th.recfields(v.t):
                f[k] = self.havoc_val(st, v.f[k], ft, name + '_' + k)
            return RecV(v.t, f)
        if isinstance(v, MapV):
            nv = self.th.fresh(name, v.t)
            st.assume(nv.size >= 0)
            return nv
        if isinstance(v, IterV):
            nv = z3.Int(self.th.fresh_name(name))
            return IterV(v.lv, nv, v.rev)
        if isinstance(v, z3.ExprRef):
            if v.sort() == z3.IntSort() and t is not None and t[0] == 'int':
                nv = z3.Const(self.th.fresh_name(name), v.sort())
                self.assume_type(st, nv, t)
                return nv
            nv = z3.Const(self.th.fresh_name(name), v.sort())
            if z3.is_seq(nv):
                self.assume_type(st, nv, STR)
            return nv
        if isinstance(v, (Opaque, FnV)):
            return v
        if v is None:
            return None
        raise Unsupported('havoc of %r' % (type(v),))

    def inv_loop(self, fr, st, node, cond, ev_cond, iteration, idx):
        entry = st
        ctx = LoopCtx(self, fr, node, entry)
        # ---- discover what the loop modifies
        roots = set(self.loop_cache.get((node['id'], 'roots'), ()))
        roots = {r for r in roots if self.has_root(entry, r)}
        if self.light:
            roots = self.discover(fr, entry, ctx, roots, ev_cond, iteration, idx)
        else:
            self.light += 1
            try:
                roots = self.discover(fr, entry, ctx, set(roots), ev_cond, iteration, idx)
            except Unsupported:
                self.light -= 1
                try:
                    roots = self.discover(fr, entry, ctx, set(roots), ev_cond, iteration, idx)
                finally:
                    self.light += 1
            finally:
                self.light -= 1
        self.loop_cache[(node['id'], 'roots')] = set(roots)
        for r in roots:
            self.log_write(r)
        ctx.roots = sorted(roots, key=str)
        ctx.idx_roots = [('c', i) for i in idx] if idx else self.cond_roots(fr, entry, cond, roots)
        fr.loops.append(ctx)
        try:
            return self._inv_loop(fr, entry, node, cond, ev_cond, iteration, ctx, roots)
        finally:
            fr.loops.pop()

    def discover(self, fr, entry, ctx, roots, ev_cond, iteration, idx):
        self.dry += 1
        try:
            for _ in range(5):
                h = entry.copy()
                self.havoc(h, roots)
                log = set()
                self.write_logs.append(log)
                self.thrown.append([])
                fr.loops.append(ctx)
                ctx.idx_roots = idx and [('c', i) for i in idx] or []
                try:
                    for y, c in ev_cond(h):
                        y2 = y.copy().assume(c)
                        iteration(y2)
                finally:
                    fr.loops.pop()
                    self.thrown.pop()
                    self.write_logs.pop()
                new = {r for r in log if self.has_root(entry, r)} - roots
                if not new:
                    break
                roots |= new
        finally:
            self.dry -= 1
        return roots

    @staticmethod
    def hframe():
        """invariant candidates already refuted for the loops nested in one loop: kept while the assumptions only get weaker"""
        return {'kids': {}, 'cnt': {}}

    def has_root(self, st, r):
        if r[0] == 'c':
            return r[1] in st.store and not isinstance(st.store[r[1]], RefV)
        if r[0] == 'h':
            return r[1] in st.heap and r[2] in st.heap[r[1]][1]
        if r[0] == 'x':
            return r[1] in st.ext
        return r[0] == 'HA'

    def cond_roots(self, fr, st, cond, roots):
        out = []
        def walk(e):
            if e.get('kind') == 'DeclRefExpr':
                cid = self.find_cell(fr, e['referencedDecl']['id'])
                if cid is not None:
                    r = self.deref_lv(st, LV(('c', cid))).root if cid in st.store else ('c', cid)
                    if r in roots and r not in out:
                        out.append(r)
            elif e.get('kind') == 'MemberExpr':
                for r in roots:
                    if r[0] == 'h' and r[2] == e.get('name') and r not in out:
                        out.append(r)
            for c in e.get('inner', ()):
                if isinstance(c, dict):
                    walk(c)
        if isinstance(cond, dict):
            walk(cond)
        if not out:
            for r in sorted(roots, key=str):
                v = self.read_root(st, r) if r[0] != 'HA' else None
                if isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort():
                    out.append(r)
        return out

    def _inv_loop(self, fr, entry, node, cond, ev_cond, iteration, ctx, roots):
        if self.light:
            h = entry.copy()
            self.havoc(h, roots)
            outs = []
            for y, c in ev_cond(h):
                _, os_ = iteration(y.copy().assume(c))
                outs += [(('n' if k == 'b' else k), z, v) for k, z, v in os_]
                outs.append(('n', y.assume(z3.Not(c)), None))
            return self.merge_outs(outs)
        up = self.hmemo[-1]
        key = (node['id'], tuple(self.call_stack))
        k = up['cnt'][key] = up['cnt'].get(key, -1) + 1
        dropped, memo = up['kids'].setdefault((key, k), (set(), self.hframe()))
        cands = ctx.candidates(cond, ev_cond)
        good = []
        for name, f in cands:
            if name in dropped:
                continue
            try:
                g = f(entry)
            except (Unsupported, KeyError, AttributeError, IndexError, z3.Z3Exception, TypeError) as ex:
                if os.environ.get('HV_DEBUG'):
                    print('cand', name, 'raised', repr(ex)[:300])
                continue
            if g is None:
                continue
            if self.valid(entry.pc, g):
                good.append((name, f))
            else:
                dropped.add(name)
                if os.environ.get('HV_DEBUG'):
                    print('  '*self.dry, self.call_stack[-1:], 'init fails:', name, str(g)[:200] if os.environ['HV_DEBUG'] != '1' else '')
        # ---- Houdini
        self.dry += 1
        self.hmemo.append(memo)
        rounds = 0
        try:
            while True:
                rounds += 1
                memo['cnt'] = {}
                h = entry.copy()
                self.havoc(h, roots)
                for name, f in good:
                    h.assume(f(h))
                backs = []
                self.thrown.append([])
                try:
                    for y, c in ev_cond(h):
                        y2 = y.copy().assume(c)
                        if self.feasible(y2.pc):
                            b, _ = iteration(y2)
                            backs += b
                finally:
                    self.thrown.pop()
                bad = set()
                for b in backs:
                    for name, f in good:
                        if name in bad:
                            continue
                        try:
                            ok = self.valid(b.pc, f(b), retry=self.opts.get('retry', 2) if name in ctx.spec_names else 0)
                        except (Unsupported, KeyError, z3.Z3Exception):
                            ok = False
                        if not ok:
                            bad.add(name)
                            if os.environ.get('HV_DEBUG'):
                                print('  '*self.dry, self.call_stack[-1:], 'not preserved:', name, 'round', rounds)
                if not bad:
                    break
                dropped |= bad
                good = [(n, f) for n, f in good if n not in bad]
                if rounds > 25:
                    raise Unsupported('no inductive invariant set found')
        finally:
            self.dry -= 1
            self.hmemo.pop()
        self.hmemo.append(memo)
        memo['cnt'] = {}
        try:
            return self.final_pass(fr, entry, node, cond, ev_cond, iteration, ctx, roots, good)
        finally:
            self.hmemo.pop()

    def final_pass(self, fr, entry, node, cond, ev_cond, iteration, ctx, roots, good):
        # ---- final pass with obligations
        for name, f in good:
            if not self.dry:
                self.obls.append(Obl('%s: loop invariant established: %s' % (self.call_stack[-1] if self.call_stack else self.name, name), list(entry.pc), f(entry), 'inv'))
        h = entry.copy()
        self.havoc(h, roots)
        for name, f in good:
            h.assume(f(h))
        outs = []
        hstore = h.copy()
        for y, c in ev_cond(h):
            y1 = y.copy().assume(c)
            m0 = ctx.measures(hstore, cond)
            if self.feasible(y1.pc):
                backs, os_ = iteration(y1)
                for b in backs:
                    if not self.dry:
                        for name, f in good:
                            self.obls.append(Obl('%s: loop invariant preserved: %s' % (self.call_stack[-1] if self.call_stack else self.name, name), list(b.pc), f(b), 'inv'))
                        self.termination(ctx, b, y1, m0, cond)
                outs += [(('n' if k == 'b' else k), z, v) for k, z, v in os_]
            y0 = y.assume(z3.Not(c))
            if self.feasible(y0.pc):
                outs.append(('n', y0, None))
        if ctx.closed_idx is not None:
            pass
        return self.merge_outs(outs)

    def termination(self, ctx, back, start, m0, cond):
        if not m0:
            self.assumptions.add('termination of a loop in %s is not proved' % (self.call_stack[-1] if self.call_stack else self.name))
            return
        m1 = ctx.measures(back, cond)
        for (n, a), (_, b) in zip(m0, m1):
            if self.valid(back.pc, z3.And(b < a, a >= 0)):
                self.obls.append(Obl('%s: loop variant decreases: %s' % (self.call_stack[-1] if self.call_stack else self.name, n), list(back.pc), z3.And(b < a, a >= 0), 'variant'))
                return
        if self.opts.get('no_termination'):
            self.assumptions.add('termination of a loop in %s is not proved' % (self.call_stack[-1] if self.call_stack else self.name))
            return
        n, a = m0[0]
        self.obls.append(Obl('%s: loop variant decreases: %s' % (self.call_stack[-1] if self.call_stack else self.name, n), list(back.pc), z3.And(m1[0][1] < a, a >= 0), 'variant'))


_HQ = {}


def has_quant(e):
    """does the formula contain a quantifier?"""
    i = e.get_id()
    if i in _HQ and _HQ[i][0].eq(e):
        return _HQ[i][1]
    if z3.is_quantifier(e):
        r = not e.is_lambda()
    else:
        r = False
        seen, todo = set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                r = True
                break
            todo += x.children()
    _HQ[i] = (e, r)
    return r


class LoopCtx:
    """what an invariant template can see"""

    def __init__(self, E, fr, node, entry):
        self.E, self.fr, self.node, self.entry = E, fr, node, entry
        self.roots, self.idx_roots = [], []
        self.closed_idx = None
        self.fn = E.call_stack[-1] if E.call_stack else E.name

    def rd(self, st, r):
        return self.E.read_root(st, r)

    @property
    def depth(self):
        return len(self.fr.loops)

    def outer(self):
        """contexts from outermost to this one (this frame only)"""
        out = []
        for c in self.fr.loops:
            out.append(c)
            if c is self:
                break
        return out

    def all_outer(self):
        return self.outer()

    def ints(self):
        return [r for r in self.roots if r[0] != 'HA' and isinstance(self.rd(self.entry, r), z3.ExprRef) and self.rd(self.entry, r).sort() == z3.IntSort()
                and self.rtype(r)[0] == 'int']

    def rtype(self, r):
        t = self.E.root_type(r, None)
        if t is None and r[0] == 'h':
            try:
                t = self.E.field_type(self.entry.heap[r[1]][0], r[2])
            except Unsupported:
                t = None
        return t or ('int', 64, False)

    def ptrs(self):
        return [r for r in self.roots if r[0] != 'HA' and isinstance(self.rd(self.entry, r), z3.ExprRef) and self.rd(self.entry, r).sort() == z3.IntSort()
                and self.rtype(r)[0] == 'ptr']

    def floats(self):
        return [r for r in self.roots if r[0] != 'HA' and is_fl(self.rd(self.entry, r)) ] if True else []

    def bools(self):
        return [r for r in self.roots if r[0] != 'HA' and isinstance(self.rd(self.entry, r), z3.BoolRef)]

    def vecs(self):
        return [r for r in self.roots if r[0] != 'HA' and isinstance(self.rd(self.entry, r), VecV)]

    def seqs(self):
        return [r for r in self.roots if r[0] != 'HA' and z3.is_seq(self.rd(self.entry, r))]

    def name(self, r):
        return str(self.E.root_name(r))

    def idx(self, st, k=0):
        r = self.idx_roots[k]
        v = self.rd(st, r)
        return v.idx if isinstance(v, IterV) else v

    def idxs(self, st):
        """values of the induction variables of all enclosing loops of this frame, outermost first"""
        out = []
        for c in self.outer():
            if c.idx_roots:
                out.append(c.idx(st))
        return out

    def var(self, st, name):
        """value of a local variable by name (fallback addressing)"""
        f = self.fr
        while f is not None:
            for did, cid in f.decls.items():
                t = self.E.cell_types.get(cid)
                if t and t[1] == name and cid in st.store:
                    return self.E.read(st, LV(('c', cid)))
            f = f.parent
        raise KeyError(name)

    def bound_terms(self, st, cond):
        """(lhs, op, rhs) comparisons of the loop condition evaluated in st"""
        out = []
        E = self.E
        if not isinstance(cond, dict):
            if callable(cond):
                y = st.copy()
                for _, c in cond(y):
                    out.append((c.arg(0), '<', c.arg(1)))
            return out

        def walk(e):
            while e.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') and e.get('castKind', '') not in ('IntegralCast', 'IntegralToFloating'):
                e = E.kids(e)[0]
            if e.get('kind') == 'BinaryOperator':
                if e['opcode'] in ('&&', '||'):
                    for k in E.kids(e):
                        walk(k)
                elif e['opcode'] in ('<', '<=', '>', '>=', '!='):
                    a, b = E.kids(e)
                    E.dry += 1
                    E.thrown.append([])
                    try:
                        r = E.ev(self.fr, st.copy(), a)
                        q = E.ev(self.fr, st.copy(), b)
                        if len(r) == 1 and len(q) == 1:
                            u, v = r[0][1], q[0][1]
                            if isinstance(u, z3.ArithRef) and isinstance(v, z3.ArithRef) and u.sort() == z3.IntSort() and v.sort() == z3.IntSort():
                                out.append((u, e['opcode'], v))
                            elif is_fl(u) and is_fl(v):
                                u2, v2 = _unfloat(u), _unfloat(v)
                                if u2 is not None and v2 is not None:
                                    out.append((u2, e['opcode'], v2))
                    except (Unsupported, KeyError):
                        pass
                    finally:
                        E.thrown.pop()
                        E.dry -= 1
            elif e.get('kind') == 'CXXOperatorCallExpr':
                ks = E.kids(e)
                op = E.callee_decl(ks[0])['referencedDecl']['name']
                if op in ('operator!=', 'operator<') and len(ks) == 3:
                    E.dry += 1
                    E.thrown.append([])
                    try:
                        r = E.ev(self.fr, st.copy(), ks[1])
                        q = E.ev(self.fr, st.copy(), ks[2])
                        u, v = r[0][1], q[0][1]
                        if isinstance(u, IterV) and isinstance(v, IterV):
                            out.append((u.idx, '<', v.idx))
                    except Unsupported:
                        pass
                    finally:
                        E.thrown.pop()
                        E.dry -= 1
        walk(cond)
        return out

    def measures(self, st, cond):
        out = []
        for a, op, b in self.bound_terms(st, cond):
            if op in ('<', '<='):
                out.append(('%s bound minus index' % op, b - a + (1 if op == '<=' else 0)))
            elif op in ('>', '>='):
                out.append(('%s index minus bound' % op, a - b + (1 if op == '>=' else 0)))
            else:
                out.append(('!= bound minus index', b - a))
                out.append(('!= index minus bound', a - b))
        for f in self.E.invs:
            g = getattr(f, 'measure', None)
            if g:
                try:
                    out += g(self, st)
                except (KeyError, Unsupported, IndexError):
                    pass
        return out

    def candidates(self, cond, ev_cond):
        E = self.E
        out = []
        # user supplied templates
        for f in E.invs:
            try:
                out += list(f(self))
            except (KeyError, IndexError, Unsupported):
                continue
        self.spec_names = {n for n, _ in out}
        # automatic templates
        bt = self.bound_terms(self.entry, cond)
        for k, (a, op, b) in enumerate(bt):
            def fb(st, k=k):
                x = self.bound_terms(st, cond)[k]
                if x[1] == '<': return x[0] <= x[2]
                if x[1] == '<=': return x[0] <= x[2] + 1
                if x[1] == '>': return x[0] >= x[2]
                if x[1] == '>=': return x[0] >= x[2] - 1
                return x[0] <= x[2]
            out.append(('bound %d' % k, fb))
            if op == '!=':
                out.append(('bound ge %d' % k, lambda st, k=k: (lambda x: x[0] >= x[2])(self.bound_terms(st, cond)[k])))
        ints = [r for r in self.roots if r[0] != 'HA' and (lambda v: isinstance(v, z3.ArithRef) and v.sort() == z3.IntSort())(self.rd(self.entry, r))]
        iters = [r for r in self.roots if r[0] != 'HA' and isinstance(self.rd(self.entry, r), IterV)]
        for r in ints:
            v0 = self.rd(self.entry, r)
            n = self.name(r)
            out.append(('%s >= initial' % n, lambda st, r=r, v0=v0: self.rd(st, r) >= v0))
            out.append(('%s <= initial' % n, lambda st, r=r, v0=v0: self.rd(st, r) <= v0))
            for c in (0,):
                if as_int_const(v0) != 0:
                    out.append(('%s >= 0' % n, lambda st, r=r: self.rd(st, r) >= 0))
        for r in iters:
            v0 = self.rd(self.entry, r).idx
            out.append(('iter %s >= initial' % self.name(r), lambda st, r=r, v0=v0: self.rd(st, r).idx >= v0))
        # lockstep counters
        cnt = []
        for r in ints:
            cnt.append((self.name(r), lambda st, r=r: self.rd(st, r), self.rd(self.entry, r)))
        for r in self.vecs():
            cnt.append(('len(%s)' % self.name(r), lambda st, r=r: self.rd(st, r).len, self.rd(self.entry, r).len))
            out.append(('len(%s) unchanged' % self.name(r), lambda st, r=r: self.rd(st, r).len == self.rd(self.entry, r).len))
            out.append(('len(%s) grows' % self.name(r), lambda st, r=r: self.rd(st, r).len >= self.rd(self.entry, r).len))
        for r in iters:
            cnt.append(('it ' + self.name(r), lambda st, r=r: self.rd(st, r).idx, self.rd(self.entry, r).idx))
        ir = list(self.idx_roots)
        for r in ir:
            v = self.rd(self.entry, r)
            if isinstance(v, IterV):
                iv0, g = v.idx, (lambda st, r=r: self.rd(st, r).idx)
            elif isinstance(v, z3.ArithRef):
                iv0, g = v, (lambda st, r=r: self.rd(st, r))
            else:
                continue
            nm = self.name(r)
            for n2, f2, v20 in cnt:
                if n2 == nm:
                    continue
                out.append(('%s - %s in lockstep' % (n2, nm), lambda st, f2=f2, v20=v20, g=g, iv0=iv0: f2(st) - v20 == g(st) - iv0))
        # an index declared from an outer loop keeps its enclosing facts automatically (not modified here)
        # nested vector shapes
        for r in self.vecs():
            v = self.rd(self.entry, r)
            if v.et[0] in ('vec', 'list') and not E.opts.get('noshape'):
                def shp(st, r=r, v=v):
                    k = z3.Int('k!shape')
                    w = self.rd(st, r)
                    s = E.th.vecdt(v.et[1])
                    a = s.accessor(0, 0)(z3.Select(w.arr, k))
                    b = s.accessor(0, 0)(z3.Select(self.rd(self.entry, r).arr, k))
                    return forall([k], a == b, z3.Select(w.arr, k))
                out.append(('row lengths of %s unchanged' % self.name(r), shp))
                if v.et[1][0] in ('vec', 'list'):
                    def shp2(st, r=r, v=v):
                        k, j = z3.Ints('k!shape j!shape')
                        w = self.rd(st, r)
                        s = E.th.vecdt(v.et[1])
                        s2 = E.th.vecdt(v.et[1][1])
                        p = z3.Select(s.accessor(0, 1)(z3.Select(w.arr, k)), j)
                        q = z3.Select(s.accessor(0, 1)(z3.Select(self.rd(self.entry, r).arr, k)), j)
                        return forall([k, j], s2.accessor(0, 0)(p) == s2.accessor(0, 0)(q), p)
                    out.append(('inner lengths of %s unchanged' % self.name(r), shp2))
        return out


def _unfloat(u):
    if z3.is_app(u) and u.decl().name() in ('i2f64', 'i2f32'):
        return u.arg(0)
    c = fpconst(u)
    if c is not None and c == int(c):
        return z3.IntVal(int(c))
    return None


def _params_sig(d):
    q = d['type']['qualType']
    # parameter list text, without the return type
    i = q.index('(')
    s = q[i:].replace(' noexcept', '').replace(' override', '')
    return s


_EXC = {'runtime_error': ['exception'], 'invalid_argument': ['logic_error', 'exception'], 'out_of_range': ['logic_error', 'exception'],
        'ofstream::failure': ['exception'], 'logic_error': ['exception'], 'vp_message_exception': ['exception']}


def _exc_is(v, tn):
    v = (v or '').split('::')[-1]
    tn = tn.split('::')[-1]
    return v == tn or tn in _EXC.get(v, ())


def _unescape(s, wide):
    out = []
    i = 0
    data = s
    while i < len(data):
        ch = data[i]
        if ch == '\\':
            i += 1
            c = data[i]
            m = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
            if c == 'x':
                j = i + 1
                while j < len(data) and data[j] in '0123456789abcdefABCDEF':
                    j += 1
                out.append(int(data[i + 1:j], 16))
                i = j
                continue
            if c in '01234567':
                j = i
                while j < len(data) and j < i + 3 and data[j] in '01234567':
                    j += 1
                out.append(int(data[i:j], 8))
                i = j
                continue
            if c in 'uU':
                n = 4 if c == 'u' else 8
                cp = int(data[i + 1:i + 1 + n], 16)
                if wide:
                    out.append(cp)
                else:
                    out += list(chr(cp).encode())
                i += n + 1
                continue
            out.append(m.get(c, ord(c)))
            i += 1
            continue
        if wide:
            out.append(ord(ch))
        else:
            out += list(ch.encode('utf-8', errors='surrogateescape'))
        i += 1
    if not wide:
        out = [c - 256 if c > 127 else c for c in out]
    return out
