"""Verification units: a unit puts one or more /repo functions under contract and collects the proof obligations."""
import os, time, traceback
import z3
from .types import *
from .values import *
from .engine import Engine, State, Frame, Obl

Z = z3.IntSort()
F32S = FS[32]
MAXSIZE = 1 << 62
UNITS = []


class Unit:
    def __init__(self, name, props, fn, mode='int', **kw):
        self.name, self.props, self.fn, self.mode, self.kw = name, props, fn, mode, kw


def unit(name, *props, mode='int', **kw):
    def deco(fn):
        UNITS.append(Unit(name, props, fn, mode, **kw))
        return fn
    return deco


class Tensors:
    """Contract of an arbitrary BaseTensor: a shape that does not change and a pure value function of in-bounds
    coordinates.  This is what every concrete view/tensor is verified to implement."""

    def __init__(self, E):
        self.E = E
        self.rows = z3.Function('rows', Z, Z)
        self.cols = z3.Function('cols', Z, Z)
        self.chans = z3.Function('chans', Z, Z)
        self.val = z3.Function('val', Z, Z, Z, Z, E.th.fsort(32))
        self.mat = z3.Function('materialized', Z, z3.BoolSort())
        self.par = z3.Function('rowsparallel', Z, z3.BoolSort())
        self.contains = z3.Function('containsobj', Z, Z, z3.BoolSort())
        E.absclass['BaseTensor'] = self.call
        E.T = self

    def new(self, name, st, nonempty=False):
        p = z3.Int(name)
        st.assume(p > 0)
        st.assume(p < 1000)
        self.wf(st, p, nonempty)
        self.E.input_terms[name + '.rows'] = self.rows(p)
        self.E.input_terms[name + '.cols'] = self.cols(p)
        self.E.input_terms[name + '.chans'] = self.chans(p)
        return p

    def wf(self, st, p, nonempty=False):
        lo = 1 if nonempty else 0
        r, c, k = self.rows(p), self.cols(p), self.chans(p)
        for d in (r, c, k):
            st.assume(d >= lo)
            st.assume(d <= MAXSIZE)
        st.assume(r * c <= MAXSIZE)
        st.assume(c * r <= MAXSIZE)
        st.assume(r * c * k <= MAXSIZE)
        st.assume(r * c >= 0)

    def inb(self, p, r, c, k):
        return z3.And(r >= 0, r < self.rows(p), c >= 0, c < self.cols(p), k >= 0, k < self.chans(p))

    def getter(self, st, p, r, c, k):
        return self.val(p, r, c, k)

    def call(self, E, fr, st, p, d, args):
        name = d['name']
        if name == 'rowCount':
            return [(st, self.rows(p))]
        if name == 'columnCount':
            return [(st, self.cols(p))]
        if name == 'channelCount':
            return [(st, self.chans(p))]
        if name == 'getValue' and len(args) == 3:
            a = [E.val(st, x) for x in args]
            E.oblige(st, 'child tensor read in bounds', self.inb(p, *a), 'bounds')
            return [(st, self.val(p, *a))]
        if name == 'getShape':
            v = E.th.karr(SIZE)
            for i, x in enumerate((self.rows(p), self.cols(p), self.chans(p))):
                v = z3.Store(v, z3.IntVal(i), x)
            return [(st, VecV(SIZE, z3.IntVal(3), v))]
        if name == 'isMaterialized':
            return [(st, self.mat(p))]
        if name == 'readRowsInParallel':
            return [(st, self.par(p))]
        if name == 'contains':
            return [(st, self.contains(p, E.val(st, args[0])))]
        if name in ('printMaterializationPlan', 'printMaterializationPlanLine'):
            return [(st, None)]
        if name in ('setValue',):
            raise Unsupported('setValue on abstract tensor')
        return None   # non-virtual members of BaseTensor: inline their real body


class H:
    """harness helper around an engine"""

    def __init__(self, E):
        self.E = E
        self.st = State()
        self.fr = Frame(name=E.name)
        self.T = Tensors(E)

    def tensor(self, name, **kw):
        return self.T.new(name, self.st, **kw)

    def size(self, name, lo=0, hi=MAXSIZE):
        v = z3.Int(name)
        self.E.input_terms[name] = v
        self.st.assume(v >= lo)
        self.st.assume(v <= hi)
        return v

    def integer(self, name, t=INT):
        return self.E.sym(name, t, self.st)

    def flt(self, name, w=32):
        v = z3.Const(name, self.E.th.fsort(w))
        self.E.input_terms[name] = v
        return v

    def var(self, name, t):
        v = self.E.sym(name, t)
        self.E.assume_type(self.st, v, t)
        return v

    def box(self, st, v):
        return self.E.temp(st, v)

    def ctor(self, cls, types):
        """constructor of cls whose parameter types match the given engine types"""
        E = self.E
        c = E.pick_ctor(cls, types)
        if c is None:
            raise Unsupported('no constructor of %s for %r' % (cls, types))
        return c

    def new(self, cls, args, types, st=None):
        """run the real constructor; returns (states that completed [(st, obj)], states that threw)"""
        E = self.E
        st = st or self.st
        c = self.ctor(cls, types)
        full = []
        ps = E.prog.params(c)
        E.thrown.append([])
        try:
            vs = []
            for i, p in enumerate(ps):
                if i < len(args):
                    vs.append(E.lib.convert(E, st, args[i], types[i], E.ty.of(p)))
                else:
                    (st, v), = E.ev(Frame(name='default'), st, E.kids(p)[-1])
                    vs.append(v)
            res = E.construct(self.fr, st, cls, vs, c)
        finally:
            th = E.thrown.pop()
        return [(s, z3.IntVal(o)) for s, o in res], th

    def new1(self, cls, args, types, st=None):
        """construction that may throw; continues in the single non-throwing state"""
        res, th = self.new(cls, args, types, st)
        res = [(s, o) for s, o in res if self.E.feasible(s.pc)]
        if len(res) != 1:
            o = {as_int_const(x) for _, x in res}
            if len(o) == 1:
                m = self.E.merge([(s, x) for s, x in res])
                if len(m) == 1:
                    res = m
        if len(res) != 1:
            raise Unsupported('constructor of %s has %d outcomes' % (cls, len(res)))
        return res[0][0], res[0][1], th

    def method(self, obj_cls, name, nargs):
        E = self.E
        for c in E.prog.mro(obj_cls):
            for m in E.prog.cinfo[c]['methods'].get(name, ()):
                if len(E.prog.params(m)) == nargs:
                    return m
        # defaulted parameters
        for c in E.prog.mro(obj_cls):
            for m in E.prog.cinfo[c]['methods'].get(name, ()):
                ps = E.prog.params(m)
                if len(ps) >= nargs and all(E.kids(p) for p in ps[nargs:]):
                    return m
        raise Unsupported('no method %s::%s/%d' % (obj_cls, name, nargs))

    def call(self, st, obj, cls, name, *args):
        """virtual call on obj (dynamic class from the heap) -> (outcomes, thrown)"""
        E = self.E
        m = self.method(cls, name, len(args))
        args = list(args)
        ps = E.prog.params(m)
        E.thrown.append([])
        try:
            for p in ps[len(args):]:
                (st, v), = E.ev(Frame(name='default'), st, E.kids(p)[-1])
                args.append(v)
            res = E.call_method(self.fr, st, obj, cls, m, args)
        finally:
            th = E.thrown.pop()
        out = []
        for s, v in res:
            if isinstance(v, RefV):
                v = E.read(s, v.lv)
            out.append((s, v))
        return out, th

    def call1(self, st, obj, cls, name, *args):
        res, th = self.call(st, obj, cls, name, *args)
        if th:
            th = [x for x in th if self.E.feasible(x[0].pc)]
        for s, w in th:
            self.E.check(s, '%s does not throw' % name, z3.BoolVal(False))
        if len(res) > 1:
            m = self.E.merge(res)
            if len(m) == 1:
                return m[0]
            res = [(s, v) for s, v in res if self.E.feasible(s.pc)]
        if len(res) != 1:
            raise Unsupported('%s::%s: %d outcomes' % (cls, name, len(res)))
        return res[0]

    def fn(self, name, nargs=None, sig=None):
        E = self.E
        c = [f for f in E.prog.functions.get(name, ()) if E.prog.body(f) is not None and (nargs is None or len(E.prog.params(f)) == nargs)]
        if sig:
            c = [f for f in c if sig in f['type']['qualType']]
        ids, out = set(), []
        for f in c:
            if f['type']['qualType'] not in ids:
                ids.add(f['type']['qualType'])
                out.append(f)
        if len(out) != 1:
            raise Unsupported('function %s/%s: %d candidates' % (name, nargs, len(out)))
        return out[0]

    def callf(self, st, name, *args, nargs=None, sig=None):
        E = self.E
        f = name if isinstance(name, dict) else self.fn(name, nargs if nargs is not None else len(args), sig)
        args = list(args)
        E.thrown.append([])
        try:
            for p in E.prog.params(f)[len(args):]:
                (st, v), = E.ev(Frame(name='default'), st, E.kids(p)[-1])
                args.append(v)
            res = E.call_fn(self.fr, st, f, None, args)
        finally:
            th = E.thrown.pop()
        out = []
        for s, v in res:
            if isinstance(v, RefV):
                v = E.read(s, v.lv)
            out.append((s, v))
        return out, th

    def callf1(self, st, name, *args, **kw):
        res, th = self.callf(st, name, *args, **kw)
        for s, w in th:
            if self.E.feasible(s.pc):
                self.E.check(s, '%s does not throw' % name, z3.BoolVal(False))
        if len(res) > 1:
            res = self.E.merge(res)
        if len(res) != 1:
            raise Unsupported('%s: %d outcomes' % (name, len(res)))
        return res[0]

    def check(self, st, name, goal):
        self.E.check(st, name, goal)

    def bits(self, f):
        """bit pattern of a float produced from one (bv mode)"""
        return bits_of_fp(f)


def bits_of_fp(f):
    f = z3.simplify(f) if not z3.is_app_of(f, z3.Z3_OP_ITE) else f
    if z3.is_app_of(f, z3.Z3_OP_ITE):
        return z3.If(f.arg(0), bits_of_fp(f.arg(1)), bits_of_fp(f.arg(2)))
    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_FPA_TO_FP and f.num_args() == 1:
        return f.arg(0)
    return z3.fpToIEEEBV(f)


def run_unit(prog, u):
    """-> Engine with obligations (unsolved)"""
    E = Engine(prog, mode=u.mode, name=u.name)
    E.opts.update(u.kw.get('opts', {}))
    u.fn(H(E))
    return E


def exact(t):
    """the same term with the uninterpreted float operations of 'int' mode replaced by IEEE-754 (integers in it become bit-vectors)"""
    import re as _re
    memo = {}
    OPS = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        n = e.decl().name()
        m = _re.match(r'(fadd|fsub|fmul|fdiv)(32|64)$', n)
        if m:
            r = OPS[m.group(1)](z3.RNE(), go(e.arg(0)), go(e.arg(1)))
        elif _re.match(r'i2f(32|64)$', n):
            a = e.arg(0)
            m = _re.match(r'f(32|64)toi_(\d+)([su])$', a.decl().name())
            if not m:
                raise Unsupported('exact: integer operand ' + str(a)[:80])
            bits, S = int(m.group(2)), z3.BitVecSort(int(m.group(2)))
            x = go(a.arg(0))
            fs = e.sort()
            r = z3.fpSignedToFP(z3.RNE(), z3.fpToSBV(z3.RTZ(), x, S), fs) if m.group(3) == 's' else z3.fpUnsignedToFP(z3.RNE(), z3.fpToUBV(z3.RTZ(), x, S), fs)
        elif e.num_args() == 0:
            r = e
        elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            raise Unsupported('exact: ' + n)
        else:
            r = e.decl()(*[go(c) for c in e.children()])
        memo[k] = r
        return r
    return go(t)
