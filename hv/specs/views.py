"""C04 element-wise views, C05 index-rearranging views, C06 products: shape, value and in-bounds reads of every view."""
from ..unit import *

PT = ('ptr', ('cls', 'BaseTensor'))
FN1 = ('fn', F32, '')


class FP:
    def __init__(self, E, w=32):
        self.E, self.w = E, w

    def op(self, o, a, b):
        return self.E.th.farith(o, self.w, a, b)

    def c(self, x):
        return fpval(x, self.w)


def shape_of(h, st, v):
    out = []
    for m in ('rowCount', 'columnCount', 'channelCount'):
        st, x = h.call1(st, v, 'BaseTensor', m)
        out.append(x)
    return st, out


def view(name, prop, build, shape, value, reject=None, pre=None, extra=None):
    """build(h)->(cls, args, types, env); shape(h,env)->(rows,cols,chans); value(h,env,r,c,k)->float term;
    reject(h,env)->condition under which construction must throw (and only then); pre(h,env)->[assumptions]"""
    @unit(name, prop)
    def u(h):
        cls, args, types, env = build(h)
        for p in (pre(h, env) if pre else []):
            h.st.assume(p)
        st, v, th = h.new1(cls, args, types)
        rej = reject(h, env) if reject else z3.BoolVal(False)
        h.check(st, 'construction succeeds only on acceptable operands', z3.Not(rej))
        for s, w in th:
            h.check(s, 'construction is rejected only for unacceptable operands', rej)
        st.assume(z3.Not(rej))
        rows, cols, chans = shape(h, env)
        st, (n, m, q) = shape_of(h, st, v)
        h.check(st, 'rowCount', n == rows)
        h.check(st, 'columnCount', m == cols)
        h.check(st, 'channelCount', q == chans)
        r, c, k = h.size('row'), h.size('column'), h.size('channel')
        st.assume(z3.And(r >= 0, r < rows, c >= 0, c < cols, k >= 0, k < chans))
        st, x = h.call1(st, v, 'BaseTensor', 'getValue', r, c, k)
        h.check(st, 'getValue', x == value(h, env, r, c, k))
        if extra:
            extra(h, env, st, v)
    return u


def same_shape(h, e):
    T = h.T
    return T.rows(e.a), T.cols(e.a), T.chans(e.a)


class Env:
    pass


def unary(cls, *extra):
    """operands: one tensor and named float scalars"""
    def build(h):
        e = Env()
        e.a = h.tensor('a')
        args, types = [e.a], [PT]
        for x in extra:
            setattr(e, x, h.flt(x))
            args.append(getattr(e, x))
            types.append(F32)
        return cls, args, types, e
    return build


def scalar_first(cls):
    def build(h):
        e = Env()
        e.a, e.s = h.tensor('a'), h.flt('s')
        return cls, [e.s, e.a], [F32, PT], e
    return build


def binary(cls):
    def build(h):
        e = Env()
        e.a, e.b = h.tensor('a'), h.tensor('b')
        return cls, [e.a, e.b], [PT, PT], e
    return build


def differ(h, e):
    T = h.T
    return z3.Not(z3.And(T.rows(e.a) == T.rows(e.b), T.cols(e.a) == T.cols(e.b), T.chans(e.a) == T.chans(e.b)))


def A(h, e, r, c, k):
    return h.T.val(e.a, r, c, k)


def B(h, e, r, c, k):
    return h.T.val(e.b, r, c, k)


def op(o, f, g, w=32):
    return lambda h, e, r, c, k: h.E.th.farith(o, w, f(h, e, r, c, k), g(h, e, r, c, k))


def S(name):
    return lambda h, e, r, c, k: getattr(e, name)


def K(x):
    return lambda h, e, r, c, k: fpval(x, 32)


def nonzero(f):
    def g(*a):
        x = f(*a)
        return z3.If(z3.fpIsZero(x), fpval(1, 32), x)
    return g


def math1(fn):
    return lambda h, e, r, c, k: h.E.th.fmath(fn, 32, A(h, e, r, c, k))


# ---- element-wise, two operands
view('AddTensorView', 'C04', binary('AddTensorView'), same_shape, op('+', A, B), differ)
view('SubtractTensorView', 'C04', binary('SubtractTensorView'), same_shape, op('-', A, B), differ)
view('ElementWiseMultiplyTensorView', 'C04', binary('ElementWiseMultiplyTensorView'), same_shape, op('*', A, B), differ)
view('ElementWiseDivideTensorView', 'C04', binary('ElementWiseDivideTensorView'), same_shape,
     op('/', A, lambda h, e, r, c, k: z3.If(z3.fpEQ(B(h, e, r, c, k), fpval(0.0, 32)), fpval(1e-8, 32), B(h, e, r, c, k))), differ)

# ---- element-wise, scalar operand
view('ScalarAddTensorView', 'C04', unary('ScalarAddTensorView', 's'), same_shape, op('+', A, S('s')))
view('ScalarMultiplyTensorView', 'C04', unary('ScalarMultiplyTensorView', 's'), same_shape, op('*', S('s'), A))
view('ScalarMultiplyTensorView(scalar first)', 'C04', scalar_first('ScalarMultiplyTensorView'), same_shape, op('*', S('s'), A))
view('ScalarSubtractTensorView', 'C04', unary('ScalarSubtractTensorView', 's'), same_shape, op('-', A, S('s')))
view('ScalarSubtractTensorView(scalar first)', 'C04', scalar_first('ScalarSubtractTensorView'), same_shape, op('-', S('s'), A))
view('ScalarDivideTensorView', 'C04', unary('ScalarDivideTensorView', 's'), same_shape, op('/', A, S('s')))
view('ScalarDivideTensorView(scalar first)', 'C04', scalar_first('ScalarDivideTensorView'), same_shape, op('/', S('s'), A))
view('PowerTensorView', 'C04', unary('PowerTensorView', 's'), same_shape, lambda h, e, r, c, k: h.E.th.fmath('pow', 32, A(h, e, r, c, k), e.s))
view('LessThanScalarTensorView', 'C04', unary('LessThanScalarTensorView', 's'), same_shape,
     lambda h, e, r, c, k: z3.If(z3.fpLT(A(h, e, r, c, k), e.s), fpval(1.0, 32), fpval(0.0, 32)))
view('ElementWiseInverseTensorView', 'C04', unary('ElementWiseInverseTensorView', 's'), same_shape, op('/', K(1.0), op('+', A, S('s'))))
view('ClipTensorView', 'C04', unary('ClipTensorView', 'lo', 'hi'), same_shape,
     lambda h, e, r, c, k: z3.If(z3.fpLT(A(h, e, r, c, k), e.lo), e.lo, z3.If(z3.fpLT(e.hi, A(h, e, r, c, k)), e.hi, A(h, e, r, c, k))))
view('DenormalizeTensorView', 'C04', unary('DenormalizeTensorView', 'lo', 'hi'), same_shape, op('+', op('*', A, op('-', S('hi'), S('lo'))), S('lo')))
view('NormalizeTensorView(min,max)', 'C04', unary('NormalizeTensorView', 'lo', 'hi'), same_shape, op('/', op('-', A, S('lo')), nonzero(op('-', S('hi'), S('lo')))))
view('StandardizeTensorView(mean,std)', 'C04', unary('StandardizeTensorView', 'mean', 'std'), same_shape, op('/', op('-', A, S('mean')), S('std')))
view('UnstandardizeTensorView', 'C04', unary('UnstandardizeTensorView', 'mean', 'std'), same_shape, op('+', op('*', A, S('std')), S('mean')))

# ---- element-wise, no operand
view('AbsoluteTensorView', 'C04', unary('AbsoluteTensorView'), same_shape, lambda h, e, r, c, k: z3.fpAbs(A(h, e, r, c, k)))
view('ExponentialTensorView', 'C04', unary('ExponentialTensorView'), same_shape, math1('exp'))
view('Log2TensorView', 'C04', unary('Log2TensorView'), same_shape, math1('log2'))
view('LogTensorView', 'C04', unary('LogTensorView'), same_shape, lambda h, e, r, c, k: h.E.th.fmath('log', 32, z3.If(
    z3.fpLT(A(h, e, r, c, k), fpval(1e-8, 32)), fpval(1e-8, 32), z3.If(z3.fpLT(fpval(1.0, 32), A(h, e, r, c, k)), fpval(1.0, 32), A(h, e, r, c, k)))))
view('SqrtTensorView', 'C04', unary('SqrtTensorView'), same_shape, math1('sqrt'))
view('RoundTensorView', 'C04', unary('RoundTensorView'), same_shape, math1('round'))
view('TensorNoOpView', 'C04', unary('TensorNoOpView'), same_shape, A)


def build_fn(h):
    e = Env()
    e.a = h.tensor('a')
    e.g = z3.Function('transform', F32S, F32S)
    f = FnV(lambda E, st, args: [(st, e.g(E.val(st, args[0])))])
    return 'ValueTransformTensorView', [e.a, f], [PT, FN1], e


def build_fn2(h):
    e = Env()
    e.a = h.tensor('a')
    e.d = h.flt('constant', 64)
    e.g = z3.Function('transform2', F32S, FS[64], F32S)
    f = FnV(lambda E, st, args: [(st, e.g(E.val(st, args[0]), E.val(st, args[1])))])
    return 'ValueTransformWithDoubleTensorView', [e.a, f, e.d], [PT, FN1, F64], e


view('ValueTransformTensorView', 'C04', build_fn, same_shape, lambda h, e, r, c, k: e.g(A(h, e, r, c, k)))
view('ValueTransformWithDoubleTensorView', 'C04', build_fn2, same_shape, lambda h, e, r, c, k: e.g(A(h, e, r, c, k), e.d))


def build_masked(h):
    e = Env()
    e.a, e.b, e.x, e.s = h.tensor('a'), h.tensor('b'), h.tensor('x'), h.flt('s')
    return 'MaskedSelectTensorView', [e.a, e.b, e.x, e.s], [PT, PT, PT, F32], e


def masked_pre(h, e):
    T = h.T
    return [f(e.a) == f(o) for f in (T.rows, T.cols, T.chans) for o in (e.b, e.x)]


view('MaskedSelectTensorView', 'C04', build_masked, same_shape,
     lambda h, e, r, c, k: z3.If(z3.fpGT(A(h, e, r, c, k), e.s), B(h, e, r, c, k), h.T.val(e.x, r, c, k)), pre=masked_pre)

# ---- generated tensors


def build_sizes(cls, with_value=False, fn=False):
    def build(h):
        e = Env()
        e.r, e.c, e.k = h.size('rows'), h.size('cols'), h.size('chans')
        args, types = [e.r, e.c, e.k], [SIZE] * 3
        if with_value:
            e.s = h.flt('s')
            args.append(e.s)
            types.append(F32)
        if fn:
            e.g = z3.Function('tfun', Z, Z, Z, F32S)
            args = [FnV(lambda E, st, a: [(st, e.g(*[E.val(st, x) for x in a]))])] + args
            types = [FN1] + types
        return cls, args, types, e
    return build


def own_shape(h, e):
    return e.r, e.c, e.k


view('UniformTensor', 'C04', build_sizes('UniformTensor', True), own_shape, S('s'))
view('IdentityTensor', 'C04', build_sizes('IdentityTensor'), own_shape,
     lambda h, e, r, c, k: z3.If(r == c, fpval(1.0, 32), fpval(0.0, 32)))
view('TensorFromFunction', 'C04', build_sizes('TensorFromFunction', fn=True), own_shape, lambda h, e, r, c, k: e.g(r, c, k))

# ---- index rearranging
view('TransposeTensorView', 'C05', unary('TransposeTensorView'), lambda h, e: (h.T.cols(e.a), h.T.rows(e.a), h.T.chans(e.a)),
     lambda h, e, r, c, k: h.T.val(e.a, c, r, k))
view('Rotate180TensorView', 'C05', unary('Rotate180TensorView'), same_shape,
     lambda h, e, r, c, k: h.T.val(e.a, h.T.rows(e.a) - 1 - r, h.T.cols(e.a) - 1 - c, k))


def flat(h, e, n):
    """element n of the channel-major, row-major sequence: n = (k*rows + r)*cols + c; stated through its decomposition"""
    T = h.T
    q = z3.Ints('fr fc fk')
    return q


def flatten_unit(name, cls, column):
    @unit(name, 'C05')
    def u(h):
        T = h.T
        a = h.tensor('a')
        st, v, th = h.new1(cls, [a], [PT])
        n = T.rows(a) * T.cols(a) * T.chans(a)
        st, (x, y, q) = shape_of(h, st, v)
        h.check(st, 'row/column count', z3.And(x == n, y == 1) if column else z3.And(x == 1, y == n))
        h.check(st, 'channelCount', q == 1)
        r, c, k = h.size('row'), h.size('column'), h.size('channel')
        st.assume(T.inb(a, r, c, k))
        off = (k * T.rows(a) + r) * T.cols(a) + c
        off = k * (T.cols(a) * T.rows(a)) + r * T.cols(a) + c
        z = z3.IntVal(0)
        # lemma: the offset of an in-bounds coordinate is below size()
        st.assume(off >= 0)
        st.assume(off < n)
        st, w = h.call1(st, v, 'BaseTensor', 'getValue', *((off, z, z) if column else (z, off, z)))
        h.check(st, 'element at the offset of (row, column, channel)', w == T.val(a, r, c, k))


flatten_unit('RowFlattenTensorView', 'RowFlattenTensorView', False)
flatten_unit('ColumnFlattenTensorView', 'ColumnFlattenTensorView', True)


def flatten_reject(name, cls, column):
    @unit(name + ' rejects other rows/columns/channels', 'C05')
    def u(h):
        a = h.tensor('a')
        st, v, th = h.new1(cls, [a], [PT])
        r, c, k = h.size('row'), h.size('column'), h.size('channel')
        st.assume(z3.Or(k != 0, (c if column else r) != 0))
        res, th = h.call(st, v, 'BaseTensor', 'getValue', r, c, k)
        for s, _ in res:
            h.check(s, 'no value outside the single row/column', z3.BoolVal(False))
        for s, _ in th:
            h.check(s, 'rejected with an exception', z3.BoolVal(True))


flatten_reject('RowFlattenTensorView', 'RowFlattenTensorView', False)
flatten_reject('ColumnFlattenTensorView', 'ColumnFlattenTensorView', True)


@unit('ReshapeTensorView', 'C05')
def reshape(h):
    reshape_(h, False)


@unit('ReshapeTensorView(channels)', 'C05')
def reshape4(h):
    reshape_(h, True)


def reshape_(h, chans):
    T = h.T
    a = h.tensor('a')
    R, C = h.size('rows'), h.size('columns')
    st = h.st
    st.assume(R * C <= MAXSIZE)
    args, types = [a, R, C], [PT, SIZE, SIZE]
    bad = R * C != T.rows(a) * T.cols(a)
    Kc = T.chans(a)
    if chans:
        Kc = h.size('channels')
        args.append(Kc)
        types.append(SIZE)
        st.assume(R * C * Kc <= MAXSIZE)
        bad = (R * C) * Kc != T.cols(a) * T.rows(a) * T.chans(a)
    st, v, th = h.new1('ReshapeTensorView', args, types)
    h.check(st, 'accepted only with the same number of elements', z3.Not(bad))
    for s, w in th:
        h.check(s, 'rejected only when the element counts differ', bad)
    st.assume(z3.Not(bad))
    st, (x, y, q) = shape_of(h, st, v)
    h.check(st, 'rowCount', x == R)
    h.check(st, 'columnCount', y == C)
    h.check(st, 'channelCount', q == Kc)
    # element (row, column, channel) of the view is the element (r, c, k) of the child with the same offset
    row, col, vk = h.size('row'), h.size('column'), h.size('view_channel')
    r, c, k = h.size('r'), h.size('c'), h.size('k')
    st.assume(z3.And(row < R, col < C, vk < Kc))
    st.assume(T.inb(a, r, c, k))
    off = k * (T.cols(a) * T.rows(a)) + r * T.cols(a) + c
    st.assume(row * C + col + vk * (R * C) == off)
    # products of non-negative factors
    st.assume((T.chans(a) - 1 - k) * (T.cols(a) * T.rows(a)) >= 0)
    st.assume((T.rows(a) - 1 - r) * T.cols(a) >= 0)
    st.assume(k * (T.cols(a) * T.rows(a)) >= 0)
    st.assume(r * T.cols(a) >= 0)
    st.assume(z3.And((R - 1 - row) * C >= 0, row * C >= 0, (Kc - 1 - vk) * (R * C) >= 0, vk * (R * C) >= 0))
    M = T.cols(a) * T.rows(a)
    for num, den, quo in ((off, M, k), (r * T.cols(a) + c, T.cols(a), r)):
        q = num / den
        st.assume(z3.Implies(q >= quo + 1, (q - quo - 1) * den >= 0))
        st.assume(z3.Implies(q <= quo - 1, (quo - 1 - q) * den >= 0))
    st, w = h.call1(st, v, 'BaseTensor', 'getValue', row, col, vk)
    h.check(st, 'element with the same offset', w == T.val(a, r, c, k))


def build_chan(h):
    e = Env()
    e.a, e.o = h.tensor('a'), h.size('channel_offset')
    h.st.assume(e.o < h.T.chans(e.a))
    return 'ChannelToTensorView', [e.a, e.o], [PT, SIZE], e


view('ChannelToTensorView', 'C05', build_chan, lambda h, e: (h.T.rows(e.a), h.T.cols(e.a), z3.IntVal(1)),
     lambda h, e, r, c, k: h.T.val(e.a, r, c, e.o))


def build_window(h):
    e = Env()
    e.a, e.s, e.t = h.tensor('a'), h.size('start_column'), h.size('end_column')
    return 'WindowTensorView', [e.a, e.s, e.t], [PT, SIZE, SIZE], e


view('WindowTensorView', 'C05', build_window, lambda h, e: (h.T.rows(e.a), e.t - e.s, h.T.chans(e.a)),
     lambda h, e, r, c, k: h.T.val(e.a, r, c + e.s, k), reject=lambda h, e: z3.Or(e.s >= e.t, e.t > h.T.cols(e.a)))


def build_pad(h):
    e = Env()
    e.a = h.tensor('a')
    e.p = [h.size('pad%d' % i, 0, 1 << 60) for i in range(4)]
    return 'ZeroPadTensorView', [e.a] + e.p, [PT] + [SIZE] * 4, e


def pad_value(h, e, r, c, k):
    T = h.T
    t, b, l, rt = e.p
    inside = z3.And(r >= t, r < t + T.rows(e.a), c >= l, c < l + T.cols(e.a))
    return z3.If(inside, T.val(e.a, r - t, c - l, k), fpval(0.0, 32))


view('ZeroPadTensorView', 'C05', build_pad, lambda h, e: (h.T.rows(e.a) + e.p[0] + e.p[1], h.T.cols(e.a) + e.p[2] + e.p[3], h.T.chans(e.a)),
     pad_value)


def diag_value(h, e, r, c, k):
    T = h.T
    return z3.If(z3.And(r == c, r < T.rows(e.a), c < T.cols(e.a)), T.val(e.a, r, c, k), fpval(0.0, 32))


view('DiagonalTensorView', 'C05', unary('DiagonalTensorView'),
     lambda h, e: (h.T.rows(e.a) * h.T.cols(e.a), h.T.rows(e.a) * h.T.cols(e.a), h.T.chans(e.a)), diag_value)

view('ConcatWideTensorView', 'C05', binary('ConcatWideTensorView'),
     lambda h, e: (h.T.rows(e.a), h.T.cols(e.a) + h.T.cols(e.b), h.T.chans(e.a)),
     lambda h, e, r, c, k: z3.If(c < h.T.cols(e.a), h.T.val(e.a, r, c, k), h.T.val(e.b, r, c - h.T.cols(e.a), k)),
     reject=lambda h, e: h.T.rows(e.a) != h.T.rows(e.b), pre=lambda h, e: [h.T.chans(e.a) == h.T.chans(e.b)])

# ---- products (sums over loops are recursive specification functions; loop invariants tie the accumulator to them)


def float_acc(spec):
    """invariant template: a float the loop accumulates equals the partial specification sum at the loop indices"""
    def tmpl(ctx):
        out = []
        for r in ctx.floats():
            out.append(('%s is the partial sum' % ctx.name(r), lambda st, r=r: ctx.rd(st, r) == spec(ctx, st)))
        return out
    return tmpl


def rec(h, name, body, n):
    """recursive float-valued specification function of n integer arguments"""
    f = z3.Function(name, *([Z] * n + [F32S]))
    h.E.recdefs[name] = lambda *a: body(f, *a)
    return f


def dot_build(cls):
    return binary(cls)


def dot_value(h, e, r, c, k):
    return e.f(h.T.cols(e.a))


def dot_pre(h, e):
    T = h.T
    th = h.E.th
    e.f = rec(h, 'dot', lambda f, i: z3.If(i <= 0, fpval(0.0, 32), th.farith('+', 32, f(i - 1), th.farith(
        '*', 32, T.val(e.a, z3.IntVal(0), i - 1, z3.IntVal(0)), T.val(e.b, z3.IntVal(0), i - 1, z3.IntVal(0))))), 1)
    h.E.invs.append(float_acc(lambda ctx, st: e.f(ctx.idx(st))))
    return []


view('DotProductTensorView', 'C06', binary('DotProductTensorView'), lambda h, e: (z3.IntVal(1),) * 3, dot_value, pre=dot_pre,
     reject=lambda h, e: z3.Not(z3.And(h.T.rows(e.a) == 1, h.T.rows(e.b) == 1, h.T.chans(e.a) == 1, h.T.chans(e.b) == 1, h.T.cols(e.a) == h.T.cols(e.b))))


def mm_pre(h, e):
    T, th = h.T, h.E.th
    e.f = rec(h, 'mm', lambda f, r, c, k, i: z3.If(i <= 0, fpval(0.0, 32), th.farith('+', 32, f(r, c, k, i - 1), th.farith(
        '*', 32, T.val(e.a, r, i - 1, k), T.val(e.b, i - 1, c, k)))), 4)
    h.E.invs.append(float_acc(lambda ctx, st: e.f(z3.Int('row'), z3.Int('column'), z3.Int('channel'), ctx.idx(st))))
    return []


view('MatrixMultiplyTensorView', 'C06', binary('MatrixMultiplyTensorView'), lambda h, e: (h.T.rows(e.a), h.T.cols(e.b), h.T.chans(e.a)),
     lambda h, e, r, c, k: e.f(r, c, k, h.T.cols(e.a)), pre=mm_pre,
     reject=lambda h, e: z3.Or(h.T.cols(e.a) != h.T.rows(e.b), h.T.chans(e.a) != h.T.chans(e.b)))

view('OuterProductTensorView', 'C06', binary('OuterProductTensorView'), lambda h, e: (h.T.rows(e.a), h.T.cols(e.b), h.T.chans(e.a)),
     lambda h, e, r, c, k: h.E.th.farith('*', 32, h.T.val(e.a, r, z3.IntVal(0), k), h.T.val(e.b, z3.IntVal(0), c, k)),
     pre=lambda h, e: [h.T.cols(e.a) == 1, h.T.rows(e.b) == 1, h.T.chans(e.a) == h.T.chans(e.b)])


def stc_build(cls, sized):
    def build(h):
        e = Env()
        e.a = h.tensor('a')
        if sized:
            e.i, e.n = h.size('data_channel'), h.size('number_of_channels')
            return cls, [e.a, e.i, e.n], [PT, SIZE, SIZE], e
        e.i, e.n = z3.IntVal(0), z3.IntVal(1)
        return cls, [e.a], [PT], e
    return build


def stc_pre(h, e):
    T, th = h.T, h.E.th
    e.f = rec(h, 'chansum', lambda f, r, c, i: z3.If(i <= 0, fpval(0.0, 32), th.farith('+', 32, f(r, c, i - 1), T.val(e.a, r, c, i - 1))), 3)
    h.E.invs.append(float_acc(lambda ctx, st: e.f(z3.Int('row'), z3.Int('column'), ctx.idx(st))))
    return []


for cls, sized in (('SumToChannelTensorView', True), ('SumChannelsTensorView', False)):
    view(cls, 'C06', stc_build(cls, sized), lambda h, e: (h.T.rows(e.a), h.T.cols(e.a), e.n),
         lambda h, e, r, c, k: z3.If(k == e.i, e.f(r, c, h.T.chans(e.a)), fpval(0.0, 32)), pre=stc_pre)


def xcorr_spec(h, kern, tens):
    """sum over kernel rows, then columns, of kern(i,j,k) * tens(r+i, c+j, k), in loop order"""
    th = h.E.th
    def body(f, r, c, k, i, j, rows, cols):
        step = th.farith('+', 32, f(r, c, k, i, j - 1, rows, cols), th.farith('*', 32, kern(i, j - 1, k), tens(r + i, c + j - 1, k)))
        return z3.If(j > 0, step, z3.If(i > 0, f(r, c, k, i - 1, cols, rows, cols), fpval(0.0, 32)))
    return rec(h, 'xcorr', body, 7)


def nest2(ctx, st):
    ix = ctx.idxs(st)
    return (ix[0], ix[1] if len(ix) > 1 else z3.IntVal(0))


def valid_pre(h, e):
    T = h.T
    e.f = xcorr_spec(h, lambda i, j, k: T.val(e.b, i, j, k), lambda i, j, k: T.val(e.a, i, j, k))
    h.E.invs.append(float_acc(lambda ctx, st: e.f(z3.Int('row'), z3.Int('column'), z3.Int('channel'), *nest2(ctx, st), T.rows(e.b), T.cols(e.b))))
    return [T.rows(e.b) <= T.rows(e.a), T.cols(e.b) <= T.cols(e.a), T.chans(e.b) >= T.chans(e.a)]


view('Valid2DCrossCorrelationTensorView', 'C06', binary('Valid2DCrossCorrelationTensorView'),
     lambda h, e: (h.T.rows(e.a) - h.T.rows(e.b) + 1, h.T.cols(e.a) - h.T.cols(e.b) + 1, h.T.chans(e.a)),
     lambda h, e, r, c, k: e.f(r, c, k, h.T.rows(e.b), z3.IntVal(0), h.T.rows(e.b), h.T.cols(e.b)), pre=valid_pre)


# full correlation: the output covers every overlap; out-of-range elements count as zero
def full_tens(h, e, kr, kc):
    T = h.T

    def tens(i, j, k):
        r, c = i - (kr - 1), j - (kc - 1)
        return z3.If(z3.And(r >= 0, r < T.rows(e.a), c >= 0, c < T.cols(e.a)), T.val(e.a, r, c, k), fpval(0.0, 32))
    return tens


def full_pre(rotated):
    def pre(h, e):
        T = h.T
        R, C = T.rows(e.b), T.cols(e.b)
        kern = (lambda i, j, k: T.val(e.b, R - 1 - i, C - 1 - j, k)) if rotated else (lambda i, j, k: T.val(e.b, i, j, k))
        e.f = xcorr_spec(h, kern, full_tens(h, e, R, C))
        h.E.invs.append(float_acc(lambda ctx, st: e.f(z3.Int('row'), z3.Int('column'), z3.Int('channel'), *nest2(ctx, st), R, C)))
        return [T.chans(e.b) >= T.chans(e.a), R >= 1, C >= 1, T.rows(e.a) >= 1, T.cols(e.a) >= 1, R <= 1 << 60, C <= 1 << 60, T.rows(e.a) <= 1 << 60, T.cols(e.a) <= 1 << 60]
    return pre


for cls, rot in (('Full2DCrossCorrelationTensorView', False), ('Full2DConvolveTensorView', True)):
    view(cls, 'C06', binary(cls),
         lambda h, e: (h.T.rows(e.a) + h.T.rows(e.b) - 1, h.T.cols(e.a) + h.T.cols(e.b) - 1, h.T.chans(e.a)),
         lambda h, e, r, c, k: e.f(r, c, k, h.T.rows(e.b), z3.IntVal(0), h.T.rows(e.b), h.T.cols(e.b)), pre=full_pre(rot))


def div_build(h):
    e = Env()
    e.a, e.b = h.tensor('a'), h.tensor('b')
    e.inv = h.T.new('inverse_of_b', h.st)
    T = h.T
    h.st.assume(z3.And(T.rows(e.inv) == T.rows(e.b), T.cols(e.inv) == T.rows(e.b), T.chans(e.inv) == T.chans(e.b)))
    h.st.assume(T.rows(e.b) == T.cols(e.b))
    # contract assumed for inverse_tensor: a tensor of the same square shape (its values are checked by the bounded stand-in)
    def inv(E, fr, st, this, args):
        E.assumptions.add('inverse_tensor is assumed to return a square tensor of the same shape; its values are covered by the bounded stand-in only')
        E.check(st, 'the inverse taken is that of the right operand', E.val(st, args[0]) == e.b)
        return [(st, e.inv)]
    h.E.contracts[(None, 'inverse_tensor')] = inv
    return 'MatrixDivideTensorView', [e.a, e.b], [PT, PT], e


def div_pre(h, e):
    T, th = h.T, h.E.th
    e.f = rec(h, 'mdiv', lambda f, r, c, k, i: z3.If(i <= 0, fpval(0.0, 32), th.farith('+', 32, f(r, c, k, i - 1), th.farith(
        '*', 32, T.val(e.a, r, i - 1, k), T.val(e.inv, i - 1, c, k)))), 4)
    h.E.invs.append(float_acc(lambda ctx, st: e.f(z3.Int('row'), z3.Int('column'), z3.Int('channel'), ctx.idx(st))))
    return []


view('MatrixDivideTensorView', 'C06', div_build, same_shape, lambda h, e, r, c, k: e.f(r, c, k, h.T.cols(e.a)), pre=div_pre, reject=differ)
