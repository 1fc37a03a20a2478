"""Symbolic values, SMT sorts, and the machine-arithmetic / IEEE theories used by the engine."""
import struct, math, fractions
import z3
from .types import *

z3.set_param('model.compact', False)


class Unsupported(Exception):
    """The extracted code uses a construct the engine has no semantics for."""


FS = {32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53)}
RNE = z3.RNE()


class VecV:
    __slots__ = ('et', 'len', 'arr')

    def __init__(self, et, ln, arr):
        self.et, self.len, self.arr = et, ln, arr


class RecV:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f


class MapV:
    """unordered_map/map/set: dom K->Bool, val K->V, size"""
    __slots__ = ('t', 'dom', 'val', 'size')

    def __init__(self, t, dom, val, size):
        self.t, self.dom, self.val, self.size = t, dom, val, size


class FnV:
    """callable: fn(engine, st, args) -> [(st, val)]; ident used for merging"""
    __slots__ = ('fn', 'ident')

    def __init__(self, fn, ident=None):
        self.fn, self.ident = fn, ident or id(fn)


class AddrV:
    """address of an lvalue, possibly reinterpreted as another pointee type"""
    __slots__ = ('lv', 't', 'orig')

    def __init__(self, lv, t, orig=None):
        self.lv, self.t, self.orig = lv, t, orig or t


class IterV:
    __slots__ = ('lv', 'idx', 'rev', 'val')

    def __init__(self, lv, idx, rev=False, val=None):
        self.lv, self.idx, self.rev, self.val = lv, idx, rev, val


class MapIterV:
    """result of find()/end() on a map"""
    __slots__ = ('lv', 'key', 'valid')

    def __init__(self, lv, key, valid):
        self.lv, self.key, self.valid = lv, key, valid


class RefV:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what='opaque'):
        self.what = what


class LV:
    __slots__ = ('root', 'path', 't')

    def __init__(self, root, path=(), t=None):
        self.root, self.path, self.t = root, tuple(path), t

    def sub(self, acc, t=None):
        return LV(self.root, self.path + (acc,), t)

    def __repr__(self):
        return 'LV(%s,%s)' % (self.root, self.path)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def as_int_const(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_long()
    return None


def f32_of(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


REAL = [False]   # 'real' mode: floating point treated as mathematical reals
INF = z3.Real('infinity')


def is_fl(x):
    return z3.is_fp(x) or (REAL[0] and isinstance(x, z3.ArithRef) and x.sort() == z3.RealSort())


def fl_width(x):
    return x.sort().ebits() + x.sort().sbits() if z3.is_fp(x) else 64


def fcmp(op, a, b):
    if z3.is_fp(a):
        return {'<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ, '==': z3.fpEQ, '!=': z3.fpNEQ}[op](a, b)
    return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()


def fl_abs(x):
    return z3.fpAbs(x) if z3.is_fp(x) else z3.If(x >= 0, x, -x)


def fl_neg(x):
    return z3.fpNeg(x) if z3.is_fp(x) else -x


def fl_isnan(x):
    return z3.fpIsNaN(x) if z3.is_fp(x) else z3.BoolVal(False)


def fl_isinf(x):
    return z3.fpIsInf(x) if z3.is_fp(x) else z3.Or(x == INF, x == -INF)


def fl_isneg(x):
    return z3.fpIsNegative(x) if z3.is_fp(x) else x < 0


def fpval(x, w):
    if REAL[0]:
        if w == 32 and math.isfinite(x):
            try:
                x = f32_of(x)
            except OverflowError:
                x = math.inf if x > 0 else -math.inf
        if math.isinf(x):
            return INF if x > 0 else -INF
        if math.isnan(x):
            return z3.Real('nan')
        n, d = float(x).as_integer_ratio()
        return z3.RealVal('%d/%d' % (n, d))
    if w == 32:
        try:
            x = f32_of(x)
        except OverflowError:
            x = math.inf if x > 0 else -math.inf
        bits = struct.unpack('<I', struct.pack('<f', x))[0]
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 32), FS[32]))
    bits = struct.unpack('<Q', struct.pack('<d', x))[0]
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), FS[64]))


def fpconst(v):
    """python float of an FP numeral, or None"""
    if REAL[0] and z3.is_rational_value(v):
        return float(v.as_fraction())
    if not z3.is_fp_value(v):
        return None
    if v.isNaN():
        return math.nan
    if v.isInf():
        return -math.inf if v.isNegative() else math.inf
    w = v.sort().ebits() + v.sort().sbits()
    b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


class Theory:
    """mode 'int': mathematical integers with exact wrap-around, uninterpreted IEEE +,-,*,/ (comparisons, negation, abs,
    conversions of constants interpreted).  mode 'bv': bit-vectors and fully interpreted IEEE-754."""

    def __init__(self, mode='int'):
        self.real = mode == 'real'
        REAL[0] = self.real
        self.mode = mode = 'int' if self.real else mode
        self.uf = {}
        self._dt = {}
        self._n = 0

    def fresh_name(self, base):
        self._n += 1
        return '%s!%d' % (base, self._n)

    # ---- sorts
    def fsort(self, w):
        return z3.RealSort() if self.real else FS[w]

    def sort(self, t):
        k = t[0]
        if k == 'int':
            return z3.IntSort() if self.mode == 'int' else z3.BitVecSort(t[1])
        if k == 'bool':
            return z3.BoolSort()
        if k == 'float':
            return self.fsort(t[1])
        if k == 'str':
            return z3.SeqSort(z3.IntSort())
        if k == 'ptr':
            return z3.IntSort()
        if k in ('vec', 'list', 'arr'):
            return self.vecdt(t[1])
        if k in ('pair', 'tuple', 'rec'):
            return self.recdt(t)
        if k == 'map':
            return self.mapdt(t)
        if k == 'set':
            return self.mapdt(('map', t[1], BOOL, t[2]))
        if k == 'fn':
            return z3.IntSort()
        raise Unsupported('no sort for type %r' % (t,))

    def tname(self, t):
        s = str(t)
        return ''.join(ch if ch.isalnum() else '_' for ch in s)

    def vecdt(self, et):
        key = ('vec', et)
        if key not in self._dt:
            n = 'Vec' + self.tname(et)
            d = z3.Datatype(n)
            d.declare('mk' + n, ('len' + n, z3.IntSort()), ('arr' + n, z3.ArraySort(z3.IntSort(), self.sort(et))))
            self._dt[key] = d.create()
        return self._dt[key]

    def recfields(self, t):
        if t[0] == 'pair':
            return [('first', t[1]), ('second', t[2])]
        if t[0] == 'tuple':
            return [(str(i), x) for i, x in enumerate(t[1:])]
        if t[0] == 'rec':
            return list(t[2])
        raise Unsupported('record fields of %r' % (t,))

    def recdt(self, t):
        if t not in self._dt:
            n = 'Rec%d_' % len(self._dt) + self.tname(t)[:20]
            d = z3.Datatype(n)
            d.declare('mk' + n, *[('%s_%s' % (f, n), self.sort(ft)) for f, ft in self.recfields(t)])
            self._dt[t] = d.create()
        return self._dt[t]

    def mapdt(self, t):
        key = ('map', t[1], t[2])
        if key not in self._dt:
            n = 'Map%d' % len(self._dt)
            d = z3.Datatype(n)
            d.declare('mk' + n, ('dom' + n, z3.ArraySort(self.sort(t[1]), z3.BoolSort())),
                      ('val' + n, z3.ArraySort(self.sort(t[1]), self.sort(t[2]))), ('size' + n, z3.IntSort()))
            self._dt[key] = d.create()
        return self._dt[key]

    def lenint(self, v):
        return v

    # ---- conversion between engine values and SMT terms
    def to_z3(self, v, t=None):
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, VecV):
            s = self.vecdt(v.et)
            return s.constructor(0)(v.len, v.arr)
        if isinstance(v, RecV):
            s = self.recdt(v.t)
            return s.constructor(0)(*[self.to_z3(v.f[f], ft) for f, ft in self.recfields(v.t)])
        if isinstance(v, MapV):
            s = self.mapdt(v.t)
            return s.constructor(0)(v.dom, v.val, v.size)
        raise Unsupported('value %r has no SMT form' % (v,))

    def acc(self, s, i, e):
        if z3.is_app(e) and e.decl().eq(s.constructor(0)):
            return e.arg(i)
        return s.accessor(0, i)(e)

    def from_z3(self, e, t):
        k = t[0]
        if k in ('vec', 'list', 'arr'):
            s = self.vecdt(t[1])
            return VecV(t[1], self.acc(s, 0, e), self.acc(s, 1, e))
        if k in ('pair', 'tuple', 'rec'):
            s = self.recdt(t)
            return RecV(t, {f: self.from_z3(self.acc(s, i, e), ft) for i, (f, ft) in enumerate(self.recfields(t))})
        if k == 'map':
            s = self.mapdt(t)
            return MapV(t, self.acc(s, 0, e), self.acc(s, 1, e), self.acc(s, 2, e))
        if k == 'set':
            return self.from_z3(e, ('map', t[1], BOOL, t[2]))
        return e

    def fresh(self, name, t):
        return self.from_z3(z3.Const(self.fresh_name(name), self.sort(t)), t)

    def default(self, t):
        k = t[0]
        if k == 'int':
            return self.iv(0, t)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'float':
            return fpval(0.0, t[1])
        if k == 'str':
            return z3.Empty(z3.SeqSort(z3.IntSort()))
        if k == 'ptr':
            return z3.IntVal(0)
        if k in ('vec', 'list'):
            return VecV(t[1], z3.IntVal(0), self.karr(t[1]))
        if k == 'arr':
            return VecV(t[1], z3.IntVal(t[2] or 0), z3.K(z3.IntSort(), self.to_z3(self.default(t[1]), t[1])))
        if k in ('pair', 'tuple', 'rec'):
            return RecV(t, {f: self.default(ft) for f, ft in self.recfields(t)})
        if k in ('map', 'set'):
            if k == 'set':
                t = ('map', t[1], BOOL, t[2])
            return MapV(t, z3.K(self.sort(t[1]), z3.BoolVal(False)),
                        z3.K(self.sort(t[1]), self.to_z3(self.default(t[2]), t[2])), z3.IntVal(0))
        return Opaque('default %r' % (t,))

    def karr(self, et):
        return z3.K(z3.IntSort(), self.to_z3(self.default(et), et))

    # ---- integers
    def iv(self, n, t):
        if self.mode == 'int':
            return z3.IntVal(n)
        return z3.BitVecVal(n, t[1])

    def rng(self, t):
        if t[2]:
            return -(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1
        return 0, (1 << t[1]) - 1

    def wrap_const(self, n, t):
        n &= (1 << t[1]) - 1
        if t[2] and n >> (t[1] - 1):
            n -= 1 << t[1]
        return n

    def wrap_term(self, x, t):
        m = 1 << t[1]
        if not t[2]:
            return x % m
        h = 1 << (t[1] - 1)
        return (x + h) % m - h

    # ---- uninterpreted functions
    def ufun(self, name, *sorts):
        if name not in self.uf:
            self.uf[name] = z3.Function(name, *sorts)
        return self.uf[name]

    # ---- floats
    def farith(self, op, w, a, b):
        if self.real:
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            return a / b
        ca, cb = fpconst(a), fpconst(b)
        if self.mode == 'bv' or (ca is not None and cb is not None):
            f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
            r = f(RNE, a, b)
            return z3.simplify(r) if ca is not None and cb is not None else r
        n = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op] + str(w)
        if op == '*':
            for x, c, y in ((a, ca, b), (b, cb, a)):
                if c is not None and c == 1.0:
                    return y
                if c is not None and c == -1.0:
                    return z3.fpNeg(y)
        if op == '/' and cb == 1.0:
            return a
        if op == '/' and cb == -1.0:
            return z3.fpNeg(a)
        return self.ufun(n, FS[w], FS[w], FS[w])(a, b)

    def fneg(self, a):
        if self.real:
            return -a
        c = fpconst(a)
        if c is not None:
            return z3.simplify(z3.fpNeg(a))
        return z3.fpNeg(a)

    def f2f(self, a, w1, w2):
        if self.real and w2 < w1 and z3.is_rational_value(a):
            x = a.as_fraction()
            try:
                return z3.RealVal(fractions.Fraction(struct.unpack('f', struct.pack('f', x))[0]))
            except OverflowError:
                # out of the range of the smaller type: arbitrary
                return z3.Real(self.fresh_name('out_of_range'))
        if w1 == w2 or self.real:
            return a
        if fpconst(a) is not None or self.mode == 'bv':
            r = z3.fpFPToFP(RNE, a, FS[w2])
            return z3.simplify(r) if fpconst(a) is not None else r
        if w1 == 64 and z3.is_app(a) and a.decl().name() == 'f32to64':
            return a.arg(0)
        return self.ufun('f%dto%d' % (w1, w2), FS[w1], FS[w2])(a)

    def i2f(self, a, t, w):
        c = as_int_const(a)
        if self.real:
            return z3.RealVal(c) if c is not None else z3.ToReal(a)
        if c is not None:
            if self.mode == 'bv' and t[2] and c >> (t[1] - 1):
                c -= 1 << t[1]
            return z3.simplify(z3.fpRealToFP(RNE, z3.RealVal(c), FS[w]))
        if self.mode == 'bv':
            return z3.fpSignedToFP(RNE, a, FS[w]) if t[2] else z3.fpUnsignedToFP(RNE, a, FS[w])
        return self.ufun('i2f%d' % w, z3.IntSort(), FS[w])(a)

    def f2i(self, a, w, t):
        if self.mode == 'bv':
            return z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(t[1])) if t[2] else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(t[1]))
        c = fpconst(a)
        if c is not None and math.isfinite(c):
            return z3.IntVal(self.wrap_const(int(c), t))
        if self.real:
            return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        if z3.is_app(a) and a.decl().name() == 'i2f64' and False:
            return a.arg(0)
        return self.ufun('f%dtoi_%d%s' % (w, t[1], 's' if t[2] else 'u'), FS[w], z3.IntSort())(a)

    def fmath(self, name, w, *args):
        if self.real:
            w = 64
        if name == 'pow' and self.real:
            c = fpconst(args[1])
            if c is not None and c == int(c) and 1 <= c <= 4:
                r = args[0]
                for _ in range(int(c) - 1):
                    r = r * args[0]
                return r
        return self.ufun('m_%s%d' % (name, w), *([self.fsort(w)] * (len(args) + 1)))(*args)


def forall(vs, body, *pats):
    """quantifier with the given patterns (dropped where z3 would refuse them)"""
    pats = [p for p in pats if not _has_ite(p)]
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


def _has_ite(e, seen=None):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                return True
            todo += x.children()
        elif z3.is_quantifier(x):
            return True
    return False
