"""C07 whole-tensor and per-row reductions: extremes, arg-extremes, sums, means, spread."""
import itertools
from ..unit import *
from ..engine import has_quant
from .views import PT, rec

ORDERS = list(itertools.permutations((0, 1, 2)))
COORD = ('row', 'column', 'channel')


def visited(ix, g, perm):
    """was coordinate g handled before the loop nest (or its outer part) reached ix, if its loops run over coordinates perm?"""
    out = z3.BoolVal(False)
    for i, p in reversed(list(zip(ix, perm))):
        out = z3.Or(g[p] < i, z3.And(g[p] == i, out))
    return out


def plausible(h, ctx, dims, n):
    """coordinate orders for n nested loops in which each enclosing index is known to stay below its dimension"""
    ix = ctx.idxs(ctx.entry)
    pc = [p for p in ctx.entry.pc if not has_quant(p)]
    ok = {}
    for i in range(n - 1):
        for p in range(3):
            ok[i, p] = len(ix) <= i or h.E.valid(pc, ix[i] < dims[p], 300)
    seen, out = set(), []
    for perm in ORDERS:
        if n <= 3 and perm[:n] not in seen and all(ok[i, perm[i]] for i in range(n - 1)):
            seen.add(perm[:n])
            out.append(perm[:n])
    return out


def regions(h, ctx, g):
    """candidate notions of 'g was visited' for this loop: the coordinate orders, and a single flat offset"""
    T, a = h.T, h.a
    n = len(ctx.outer())
    out = []
    for perm in plausible(h, ctx, (T.rows(a), T.cols(a), T.chans(a)), n):
        out.append(('in order ' + '/'.join(COORD[p] for p in perm), lambda st, perm=perm: visited(ctx.idxs(st), g, perm)))
    if n == 1:
        off = (g[2] * (T.cols(a) * T.rows(a)) + g[0] * T.cols(a)) + g[1]
        out.append(('by offset', lambda st: off < ctx.idx(st)))
    return out


def ghost(h, st, name='g'):
    T, a = h.T, h.a
    g = tuple(h.size(name + '_' + x) for x in COORD)
    st.assume(T.inb(a, *g))
    # lemma about the flat offset of an in-bounds coordinate
    off = offset_of(T, a, g)
    # products of non-negative factors: they make off < size() linear
    st.assume((T.chans(a) - 1 - g[2]) * (T.cols(a) * T.rows(a)) >= 0)
    st.assume((T.rows(a) - 1 - g[0]) * T.cols(a) >= 0)
    st.assume(g[2] * (T.cols(a) * T.rows(a)) >= 0)
    st.assume(g[0] * T.cols(a) >= 0)
    return g


def operand(h):
    """a tensor of arbitrary shape without NaN; isElem marks its values"""
    T = h.T
    h.a = h.tensor('a')
    f = h.E.th.fsort(32)
    h.isElem = z3.Function('isElem', f, z3.BoolSort())
    h.isAbs = z3.Function('isAbsElem', f, z3.BoolSort())

    def ax(x):
        p, r, c, k = x.children()
        inb = z3.And(p == h.a, T.inb(h.a, r, c, k))
        return [z3.Not(fl_isnan(x)), z3.Implies(inb, z3.And(h.isElem(x), h.isAbs(fl_abs(x))))]
    h.E.axgens['val'] = ax
    return h.a


def extreme_invs(h, g, fn=lambda x: x):
    T, a = h.T, h.a
    v = fn(T.val(a, *g))

    def tmpl(ctx):
        out = []
        for r in ctx.floats():
            init = ctx.rd(ctx.entry, r)
            for nm, reg in regions(h, ctx, g):
                for o in ('>=', '<='):
                    out.append(('%s %s elements visited %s' % (ctx.name(r), o, nm),
                                lambda st, r=r, reg=reg, o=o: z3.Implies(reg(st), fcmp(o, ctx.rd(st, r), v))))
            out.append(('%s is not NaN' % ctx.name(r), lambda st, r=r: z3.Not(fl_isnan(ctx.rd(st, r)))))
            for nm, pred in (('an element', h.isElem), ('an absolute element', h.isAbs)):
                out.append(('%s is %s' % (ctx.name(r), nm), lambda st, r=r, pred=pred: pred(ctx.rd(st, r))))
                for cn, c in (('initial', init), ('0', fpval(0.0, 32)), ('inf', None), ('-inf', None)):
                    if cn in ('inf', '-inf'):
                        c = z3.FPVal(float(cn), FS[32])
                    out.append(('%s is %s or %s' % (ctx.name(r), cn, nm), lambda st, r=r, pred=pred, c=c: z3.Or(ctx.rd(st, r) == c, pred(ctx.rd(st, r)))))
            out.append(('%s >= +0' % ctx.name(r), lambda st, r=r: z3.And(fcmp('>=', ctx.rd(st, r), fpval(0.0, 32)), z3.Not(z3.fpIsNegative(ctx.rd(st, r))))))
        return out
    h.E.invs.append(tmpl)


def extreme(name, ops, absolute=False):
    @unit(name, 'C07')
    def u(h):
        a = operand(h)
        g = ghost(h, h.st)
        fn = fl_abs if absolute else (lambda x: x)
        extreme_invs(h, g, fn)
        st, m = h.call1(h.st, a, 'BaseTensor', name)
        rs = [m] if len(ops) == 1 else [m.f['first'], m.f['second']]
        v = fn(h.T.val(a, *g))
        for r, o in zip(rs, ops):
            w = {'>=': 'largest', '<=': 'smallest'}[o]
            h.check(st, 'no element beyond the %s' % w, fcmp(o, r, v))
            h.check(st, 'the %s is an element' % w, (h.isAbs if absolute else h.isElem)(r))


extreme('max', ['>='])
extreme('min', ['<='])
extreme('range', ['<=', '>='])
extreme('max_abs', ['>='], True)


def argx(name, o, bycol):
    @unit(name, 'C07')
    def u(h):
        T = h.T
        a = operand(h)
        k, x = h.size('channel'), h.size('fixed')
        g = h.size('g')
        n = T.rows(a) if bycol else T.cols(a)
        val = (lambda i: T.val(a, i, x, k)) if bycol else (lambda i: T.val(a, x, i, k))
        st = h.st
        st.assume(z3.And(k < T.chans(a), x < (T.cols(a) if bycol else T.rows(a)), g < n))
        strict = {'>=': '>', '<=': '<'}[o]

        def tmpl(ctx):
            out = []
            for r in ctx.ints():
                if r in ctx.idx_roots:
                    continue
                R = lambda st, r=r: ctx.rd(st, r)
                out.append(('%s is a visited index' % ctx.name(r), lambda st, R=R: z3.Or(R(st) == 0, R(st) < ctx.idx(st))))
                out.append(('value at %s is extreme' % ctx.name(r), lambda st, R=R: z3.Implies(g < ctx.idx(st), fcmp(o, val(R(st)), val(g)))))
                out.append(('%s is the first' % ctx.name(r), lambda st, R=R: z3.Implies(g < R(st), fcmp(strict, val(R(st)), val(g)))))
                for f in ctx.floats():
                    M = lambda st, f=f: ctx.rd(st, f)
                    init = z3.FPVal(float('-inf' if o == '>=' else 'inf'), FS[32])
                    out.append(('%s is the value at %s' % (ctx.name(f), ctx.name(r)),
                                lambda st, M=M, R=R: z3.Or(z3.And(M(st) == init, R(st) == 0, z3.Implies(g < ctx.idx(st), val(g) == init)),
                                                           z3.And(R(st) < ctx.idx(st), M(st) == val(R(st))))))
                    out.append(('%s is extreme' % ctx.name(f), lambda st, M=M: z3.Implies(g < ctx.idx(st), fcmp(o, M(st), val(g)))))
                    out.append(('%s beats everything before %s' % (ctx.name(f), ctx.name(r)), lambda st, M=M, R=R: z3.Implies(g < R(st), fcmp(strict, M(st), val(g)))))
            return out
        h.E.invs.append(tmpl)
        st, r = h.call1(st, a, 'BaseTensor', name, k, x)
        h.check(st, 'index in range', z3.And(r >= 0, r < n))
        h.check(st, 'its value is extreme', fcmp(o, val(r), val(g)))
        h.check(st, 'first of the equal ones', z3.Implies(g < r, fcmp(strict, val(r), val(g))))


argx('maxIndexByRow', '>=', False)
argx('maxIndexByCol', '>=', True)
argx('minIndex', '<=', False)


def args_all(name, o):
    @unit(name, 'C07')
    def u(h):
        T = h.T
        a = operand(h)
        k, x = h.size('channel'), h.size('row')
        g = h.size('g')
        j = h.size('j')
        n = T.cols(a)
        val = lambda i: T.val(a, x, i, k)
        st = h.st
        st.assume(z3.And(k < T.chans(a), x < T.rows(a), g < n))
        init = z3.FPVal(float('-inf' if o == '>=' else 'inf'), FS[32])
        q = z3.Int('q!idx')

        def has(v, e):
            return z3.Exists([q], z3.And(q >= 0, q < v.len, z3.Select(v.arr, q) == e))

        def tmpl(ctx):
            out = []
            for f in ctx.floats():
                M = lambda st, f=f: ctx.rd(st, f)
                out.append(('%s is extreme' % ctx.name(f), lambda st, M=M: z3.Implies(g < ctx.idx(st), fcmp(o, M(st), val(g)))))
                out.append(('%s not NaN' % ctx.name(f), lambda st, M=M: z3.Not(fl_isnan(M(st)))))
                for v in ctx.vecs():
                    V = lambda st, v=v: ctx.rd(st, v)
                    out.append(('entries are visited indices', lambda st, V=V: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < V(st).len), z3.And(
                        z3.Select(V(st).arr, q) >= 0, z3.Select(V(st).arr, q) < ctx.idx(st))))))
                    out.append(('entries have the extreme value', lambda st, V=V, M=M: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < V(st).len),
                        z3.fpEQ(val(z3.Select(V(st).arr, q)), M(st))))))
                    out.append(('every extreme index is an entry', lambda st, V=V, M=M: z3.Implies(z3.And(g < ctx.idx(st), z3.fpEQ(val(g), M(st))), has(V(st), g))))
                    out.append(('entries ascend', lambda st, V=V: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q + 1 < V(st).len),
                        z3.Select(V(st).arr, q) < z3.Select(V(st).arr, q + 1)))))
            return out
        h.E.invs.append(tmpl)
        st, r = h.call1(st, a, 'BaseTensor', name, k, x)
        st.assume(j < r.len)
        e = z3.Select(r.arr, j)
        h.check(st, 'entries are indices', z3.And(e >= 0, e < n))
        h.check(st, 'entries are extreme', fcmp(o, val(e), val(g)))
        h.check(st, 'entries ascend', z3.Implies(j + 1 < r.len, e < z3.Select(r.arr, j + 1)))
        st.assume(z3.fpEQ(val(g), val(e)))
        h.check(st, 'every index with the extreme value is listed', has(r, g))


args_all('maxIndices', '>=')
args_all('minIndices', '<=')


# ---- sums: floats as reals; the partial sums are recursive functions over the coordinates in each possible loop order


def sums(h, name, step, unit_value, op):
    """recursive function S(i0,i1,i2) per coordinate order: accumulation over everything before that position"""
    T, a = h.T, h.a
    dims = (T.rows(a), T.cols(a), T.chans(a))
    out = []
    for perm in ORDERS:
        d = [dims[p] for p in perm]

        def body(f, i, j, l, perm=perm, d=d):
            def at(*ix):
                g = [None] * 3
                for p, x in zip(perm, ix):
                    g[p] = x
                return step(T.val(a, *g))
            return z3.If(l > 0, op(f(i, j, l - 1), at(i, j, l - 1)), z3.If(j > 0, f(i, j - 1, d[2]), z3.If(i > 0, f(i - 1, d[1], z3.IntVal(0)), unit_value)))
        fn = z3.Function('%s_%s' % (name, ''.join('rck'[p] for p in perm)), *([Z] * 3 + [h.E.th.fsort(64)]))
        h.E.recdefs[fn.name()] = lambda *x, fn=fn, body=body: body(fn, *x)
        out.append((perm, fn))
    return out


def partial(ctx, st, fn):
    ix = list(ctx.idxs(st))[:3]
    return fn(*(ix + [z3.IntVal(0)] * (3 - len(ix))))


def fold(name, step, one, op, post):
    @unit(name, 'C07', mode='real')
    def u(h):
        T = h.T
        a = h.tensor('a')
        h.a = a
        fs = sums(h, 'total', step, one, op)

        def tmpl(ctx):
            out = []
            for r in ctx.floats():
                for perm, f in fs:
                    out.append(('%s accumulates in order %s' % (ctx.name(r), ''.join('rck'[p] for p in perm)), lambda st, r=r, f=f: ctx.rd(st, r) == partial(ctx, st, f)))
            return out
        h.E.invs.append(tmpl)
        st, r = h.call1(h.st, a, 'BaseTensor', name)
        # canonical order: channels, rows, columns
        f = dict(fs)[(2, 0, 1)]
        h.check(st, 'value', r == post(f(T.chans(a), z3.IntVal(0), z3.IntVal(0))))


R0, R1 = z3.RealVal(0), z3.RealVal(1)
fold('sum', lambda x: x, R0, lambda s, x: s + x, lambda s: s)
fold('product', lambda x: x, R1, lambda s, x: s * x, lambda s: s)


def log_(h, x):
    return h.E.th.fmath('log', 64, x)


MEAN_ORDERS = ((2, 0, 1), (2, 1, 0), (0, 1, 2))


def count_and(h, specs, scale=None, gh=None):
    """counter and running-average invariants: counter == number visited, average * counter == sum visited, acc * scale == sum visited"""
    cnt = sums(h, 'count', lambda x: R1, R0, lambda s, x: s + x)
    alls = [sums(h, n, step, R0, lambda s, x: s + x) for n, step in specs]

    def tmpl(ctx):
        out = []
        fl = ctx.floats()
        for i, r in enumerate(fl):
            out.append(('%s >= 0' % ctx.name(r), lambda st, r=r: ctx.rd(st, r) >= 0))
            if gh is not None:
                for nm, reg in regions(h, ctx, gh):
                    out.append(('%s >= 1 once a cell was visited %s' % (ctx.name(r), nm), lambda st, r=r, reg=reg: z3.Implies(reg(st), ctx.rd(st, r) >= 1)))
            for perm, f in cnt:
                if perm in MEAN_ORDERS:
                    out.append(('%s counts %s' % (ctx.name(r), f.name()), lambda st, r=r, f=f: ctx.rd(st, r) == partial(ctx, st, f)))
            for fs in alls:
                for perm, f in fs:
                    if perm not in MEAN_ORDERS:
                        continue
                    k = scale if scale is not None else R1
                    out.append(('%s accumulates %s' % (ctx.name(r), f.name()), lambda st, r=r, f=f: ctx.rd(st, r) * k == partial(ctx, st, f)))
                    for q in fl[:i]:
                        out.append(('%s * %s accumulates %s' % (ctx.name(r), ctx.name(q), f.name()), lambda st, r=r, q=q, f=f: ctx.rd(st, r) * ctx.rd(st, q) == partial(ctx, st, f)))
        return out
    h.E.invs.append(tmpl)
    z = z3.IntVal(0)
    end = lambda fs: dict(fs)[(2, 0, 1)](h.T.chans(h.a), z, z)
    return end(cnt), [end(f) for f in alls]


def assume_result(h, name, make):
    """use another member of the tensor through its contract"""
    def c(E, fr, st, this, args):
        r = z3.Const(E.th.fresh_name(name), E.th.fsort(32))
        for g in make(r):
            st.assume(g)
        return [(st, r)]
    h.E.contracts[('BaseTensor', name)] = c


def sqrt_axiom(h):
    h.E.axgens['m_sqrt64'] = lambda x: [z3.Implies(x.arg(0) >= 0, z3.And(x >= 0, x * x == x.arg(0)))]


@unit('arithmeticMean', 'C07', mode='real')
def amean(h):
    h.a = h.tensor('a')
    n, (s,) = count_and(h, [('sum', lambda x: x)])
    st, r = h.call1(h.st, h.a, 'BaseTensor', 'arithmeticMean')
    h.check(st, 'mean * number of elements == sum', r * n == s)


@unit('standardDeviation', 'C07', mode='real')
def sdev(h):
    h.a = h.tensor('a', nonempty=True)
    mean = z3.Real('mean')
    assume_result(h, 'arithmeticMean', lambda r: [r == mean])
    sqrt_axiom(h)
    n, (s,) = count_and(h, [('squares', lambda x: (x - mean) * (x - mean))])
    st, r = h.call1(h.st, h.a, 'BaseTensor', 'standardDeviation')
    h.check(st, 'not negative', r >= 0)
    h.check(st, 'its square * number of elements == sum of squared distances from the mean', r * r * n == s)


@unit('euclidean_norm', 'C07', mode='real')
def enorm(h):
    h.a = h.tensor('a')
    m = z3.Real('max_abs')
    sqrt_axiom(h)
    n, (s,) = count_and(h, [('squares', lambda x: x * x)], scale=m * m)
    g = ghost(h, h.st)
    v = h.T.val(h.a, *g)
    # contract of max_abs (proved above): an upper bound of every |element|
    h.E.axgens['val'] = lambda x: [z3.Implies(z3.And(x.arg(0) == h.a, h.T.inb(h.a, x.arg(1), x.arg(2), x.arg(3))), z3.And(x <= m, -x <= m))]
    assume_result(h, 'max_abs', lambda r: [r == m, r >= 0])
    h.E.invs.append(lambda ctx: [('all squares zero %s' % f.name(), lambda st, f=f: z3.Implies(m == 0, partial(ctx, st, f) == 0)) for _, f in []])
    st, r = h.call1(h.st, h.a, 'BaseTensor', 'euclidean_norm')
    h.check(st, 'not negative', r >= 0)
    h.check(st, 'its square == sum of squares', z3.Implies(m > 0, r * r == s))
    h.check(st, 'zero for the zero tensor', z3.Implies(m == 0, r == 0))


@unit('geometricMean', 'C07', mode='real')
def gmean(h):
    h.a = h.tensor('a')
    h.E.axgens['val'] = lambda x: [x > 0]
    g = ghost(h, h.st)
    n, (s,) = count_and(h, [('logs', lambda x: log_(h, x))], gh=g)
    st, r = h.call1(h.st, h.a, 'BaseTensor', 'geometricMean')
    h.check(st, 'exp of the mean logarithm', r == h.E.th.fmath('exp', 64, s / n))


@unit('geometricMean of a non-positive element', 'C07', mode='real')
def gmean0(h):
    h.a = h.tensor('a')
    g = ghost(h, h.st)
    h.st.assume(h.T.val(h.a, *g) <= 0)
    h.E.invs.append(lambda ctx: [('the offending element is still ahead ' + nm, lambda st, reg=reg: z3.Not(reg(st))) for nm, reg in regions(h, ctx, g)])
    st, r = h.call1(h.st, h.a, 'BaseTensor', 'geometricMean')
    h.check(st, 'is NaN', r == z3.Real('nan'))


@unit('variance_point', 'C07', mode='real')
def vpoint(h):
    h.a = h.tensor('a', nonempty=True)
    T, a = h.T, h.a
    p = h.flt('point')
    cols, rows = T.cols(a), T.rows(a)
    # contract of getValue(offset) (proved in its own unit): offsets enumerate the coordinates one to one
    at = z3.Function('atOffset', Z, z3.RealSort())

    def off(E, fr, st, this, args):
        if len(args) != 1:
            return None
        i = E.val(st, args[0])
        E.oblige(st, 'offset in bounds', z3.And(i >= 0, i < rows * cols * T.chans(a)), 'bounds')
        return [(st, at(i))]
    h.E.contracts[('BaseTensor', 'getValue')] = off
    f = z3.Function('squares', Z, z3.RealSort())
    h.E.recdefs['squares'] = lambda i: z3.If(i <= 0, R0, f(i - 1) + (at(i - 1) - p) * (at(i - 1) - p))
    h.E.invs.append(lambda ctx: [('%s accumulates' % ctx.name(r), lambda st, r=r: ctx.rd(st, r) == f(ctx.idx(st))) for r in ctx.floats()])
    st, r = h.call1(h.st, a, 'BaseTensor', 'variance_point', p)
    n = rows * cols * T.chans(a)
    h.check(st, 'mean squared distance', r * z3.ToReal(n) == f(n))


@unit('variance', 'C07', mode='real')
def var(h):
    h.a = h.tensor('a', nonempty=True)
    m = z3.Real('mean')
    assume_result(h, 'arithmeticMean', lambda r: [r == m])
    seen = []

    def vp(E, fr, st, this, args):
        E.check(st, 'taken around the mean', E.val(st, args[0]) == m)
        return [(st, z3.Real('variance_around_mean'))]
    h.E.contracts[('BaseTensor', 'variance_point')] = vp
    st, r = h.call1(h.st, h.a, 'BaseTensor', 'variance')
    h.check(st, 'variance around the mean', r == z3.Real('variance_around_mean'))


# ---- element access by offset, rows, validity scans
def offset_of(T, a, g):
    return (g[2] * (T.cols(a) * T.rows(a)) + g[0] * T.cols(a)) + g[1]


@unit('getValue(offset)', 'C07')
def getoff(h):
    T = h.T
    a = h.a = h.tensor('a')
    g = ghost(h, h.st)
    st, r = h.call1(h.st, a, 'BaseTensor', 'getValue', offset_of(T, a, g))
    h.check(st, 'element at the offset', r == T.val(a, *g))


@unit('getRowValues', 'C07')
def growvals(h):
    T = h.T
    a = h.tensor('a')
    r, k, j = h.size('row'), h.size('channel'), h.size('j')
    st = h.st
    st.assume(z3.And(r < T.rows(a), k < T.chans(a), j < T.cols(a)))

    def tmpl(ctx):
        q = z3.Int('q!rv')
        return [('row copied so far', lambda st, v=v: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ctx.rd(st, v).len),
                 z3.Select(ctx.rd(st, v).arr, q) == T.val(a, r, q, k)), patterns=[z3.Select(ctx.rd(st, v).arr, q)])) for v in ctx.vecs()]
    h.E.invs.append(tmpl)
    st, v = h.call1(st, a, 'BaseTensor', 'getRowValues', r, k)
    h.check(st, 'one value per column', v.len == T.cols(a))
    h.check(st, 'value of each column', z3.Select(v.arr, j) == T.val(a, r, j, k))


def unique_offset(h, a, g):
    """lemma: the offset of the ghost element decomposes in one way only, so dividing by rows*columns and columns recovers it"""
    E, T, st = h.E, h.T, h.st
    R, C = T.rows(a), T.cols(a)
    n, q, m, M, k, b = z3.Ints('l_n l_q l_m l_M l_k l_b')
    pre = st.copy()
    for p in (M > 0, k >= 0, b >= 0, b < M, q >= 0, m >= 0, m < M, k * M + b == q * M + m):
        pre.assume(p)
    one = pre.copy().assume(q > k)
    one.assume((q - k - 1) * M >= 0)
    E.check(one, 'lemma: quotient not too large', z3.BoolVal(False))
    two = pre.copy().assume(k > q)
    two.assume((k - q - 1) * M >= 0)
    E.check(two, 'lemma: quotient not too small', z3.BoolVal(False))
    E.ufun_div(n, M)
    base = E.axgens['cdiv']

    def ax(x):
        a, b = x.arg(0), x.arg(1)
        q, r = E.ufun_div(a, b)
        out = list(base(x))
        inner = g[0] * C + g[1]
        for num, den, qq, rr in ((g[2] * (C * R) + inner, C * R, g[2], inner), (inner, C, g[0], g[1])):
            out.append(z3.Implies(z3.And(a == num, b == den, qq >= 0, rr >= 0, rr < den), z3.And(q == qq, r == rr)))
        return out
    E.axgens['cdiv'] = E.axgens['cmod'] = ax
    E._apps.clear()


def scan(name, run):
    @unit(name, 'C07')
    def u(h):
        T = h.T
        a = h.a = h.tensor('a')
        g = ghost(h, h.st)
        bad = lambda x: z3.Or(fl_isnan(x), fl_isinf(x))
        some = z3.Bool('someBad')
        h.E.axgens['val'] = lambda x: [z3.Implies(z3.And(x.arg(0) == a, T.inb(a, x.arg(1), x.arg(2), x.arg(3)), bad(x)), some)]
        unique_offset(h, a, g)
        h.E.invs.append(lambda ctx: [('elements visited %s are valid' % nm, lambda st, reg=reg: z3.Implies(reg(st), z3.Not(bad(T.val(a, *g))))) for nm, reg in regions(h, ctx, g)])
        st, r = run(h, a)
        h.check(st, 'finds an invalid element', z3.Implies(bad(T.val(a, *g)), r))
        h.check(st, 'reports only existing ones', z3.Implies(r, some))


scan('hasNaNOrInf', lambda h, a: h.call1(h.st, a, 'BaseTensor', 'hasNaNOrInf'))
scan('hasInvalidValues', lambda h, a: h.callf1(h.st, 'hasInvalidValues', h.var_ptr(a) if hasattr(h, 'var_ptr') else a))
