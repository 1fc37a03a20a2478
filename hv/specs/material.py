"""C08 materialization: tensors copied to 32/16/8 bit storage keep shape and every (encoded) element."""
from ..unit import *
from .views import PT
from .reduce import visited, plausible, ghost, ORDERS

F32 = ('float', 32)
V1, V2, V3 = ('vec', F32), ('vec', ('vec', F32)), ('vec', ('vec', ('vec', F32)))
CODECS = {'FullTensor': None, 'HalfTensor': ('floatToHalf', 'halfToFloat', 16), 'QuarterTensor': ('floatToQuarter', 'quarterToFloat', 8), 'PixelTensor': 'pixel'}


def codec(h, cls):
    """the scalar codec of a storage class as an (uninterpreted) function; the codecs themselves are decided by C02, C03"""
    E = h.E
    f = E.th.fsort(32)
    c = CODECS[cls]
    if c is None:
        return lambda x, b=None: x
    if c == 'pixel':
        enc = z3.Function('toByte', f, Z)

        def P(x, b=None):
            return h.pixel(x)
        return P
    encn, decn, bits = c
    extra = [Z] if bits == 8 else []
    enc = z3.Function(encn, *([f] + extra + [Z]))
    dec = z3.Function(decn, *([Z] + extra + [f]))
    E.contracts[(None, encn)] = lambda E, fr, st, this, args: [(st, enc(*[E.val(st, a) for a in args]))]
    E.contracts[(None, decn)] = lambda E, fr, st, this, args: [(st, dec(*[E.val(st, a) for a in args]))]
    E.axgens[encn] = lambda x: [z3.And(x >= 0, x < (1 << bits))]
    if bits == 8:
        return lambda x, b=None: dec(enc(x, b), b)
    return lambda x, b=None: dec(enc(x))


def shape_tmpl(h, K, R, C, grow=True):
    """candidates: the 3-level vectors a loop writes have the wanted shape, fully or up to the current indices"""
    k, r = z3.Ints('k!s r!s')

    def L(v, path):
        for i in path:
            v = h.E.th.from_z3(z3.Select(v.arr, i), v.et)
        return v

    def tmpl(ctx):
        out = []
        for root in ctx.vecs():
            v0 = ctx.rd(ctx.entry, root)
            if not (v0.et[0] == 'vec' and v0.et[1][0] == 'vec'):
                continue
            D = lambda st, root=root: ctx.rd(st, root)

            def rows(st, lim, D=D):
                x = L(D(st), [k])
                return forall([k], z3.Implies(z3.And(k >= 0, k < lim(st)), x.len == R), z3.Select(D(st).arr, k))

            def cols(st, lim, D=D):
                x = L(D(st), [k, r])
                return forall([k, r], z3.Implies(z3.And(k >= 0, k < lim(st), r >= 0, r < R), x.len == C), z3.Select(L(D(st), [k]).arr, r))
            i0 = lambda st: ctx.idxs(st)[0]
            nm = ctx.name(root)
            out.append(('%s has the channels' % nm, lambda st, D=D: D(st).len == K))
            for ln, lim in (('all', lambda st: K), ('visited', i0))[:2 if grow else 1]:
                out.append(('%s rows of %s channels' % (nm, ln), lambda st, lim=lim, rows=rows: rows(st, lim)))
                out.append(('%s columns of %s channels' % (nm, ln), lambda st, lim=lim, cols=cols: cols(st, lim)))
            if grow and len(ctx.outer()) >= 2:
                out.append(('%s rows of this channel' % nm, lambda st, D=D: L(D(st), [i0(st)]).len == R))
                if len(ctx.outer()) == 3:
                    out.append(('%s columns of this row' % nm, lambda st, D=D: L(D(st), ctx.idxs(st)[:2]).len == C))
                out.append(('%s columns of visited rows' % nm, lambda st, D=D: forall([r], z3.Implies(z3.And(r >= 0, r < ctx.idxs(st)[1]), L(D(st), [i0(st), r]).len == C), z3.Select(L(D(st), [i0(st)]).arr, r))))
        return out
    h.E.invs.append(tmpl)


ELEM = {'FullTensor': F32, 'HalfTensor': ('int', 16, False), 'QuarterTensor': ('int', 8, False), 'PixelTensor': ('int', 8, False)}


def shape_facts(h, v, R, C, K):
    k, r = z3.Ints('k!a r!a')
    one, two = cell(h, v, k), cell(h, v, k, r)
    return [v.len == K,
            forall([k], z3.Implies(z3.And(k >= 0, k < K), one.len == R), z3.Select(v.arr, k)),
            forall([k, r], z3.Implies(z3.And(k >= 0, k < K, r >= 0, r < R), two.len == C), z3.Select(one.arr, r))]


def alloc_contract(h):
    """allocateTensorVector on an empty vector: afterwards it has the requested shape (decided by the allocateTensorVector units)"""
    def c(E, fr, st, this, args):
        if len(args) != 4:
            return None
        v0 = E.val(st, args[0])
        R, C, K = [E.val(st, a) for a in args[1:]]
        if not E.valid(st.pc, v0.len == 0):
            return None
        v = E.fresh('data', ('vec', v0.et), st)
        for f in shape_facts(h, v, R, C, K):
            st.assume(f)
        E.write(st, args[0], v)
        return [(st, None)]
    h.E.contracts[(None, 'allocateTensorVector')] = c


def allocator(cls):
    @unit('allocateTensorVector for %s' % cls, 'C08', opts=dict(noshape=True))
    def u(h):
        E = h.E
        t = ELEM[cls]
        R, C, K = (h.size(n, 0, 1 << 20) for n in ('rows', 'columns', 'channels'))
        g = [h.size('g_' + n) for n in ('channel', 'row')]
        shape_tmpl(h, K, R, C)
        v = VecV(('vec', ('vec', t)), z3.IntVal(0), E.th.fresh('none', ('vec', ('vec', ('vec', t)))).arr)
        lv = E.temp(h.st, v)
        st, _ = h.callf1(h.st, 'allocateTensorVector', lv, R, C, K, nargs=4, sig={'FullTensor': 'float', 'HalfTensor': 'uint16_t', 'QuarterTensor': 'quarter', 'PixelTensor': 'uint8_t'}[cls] if False else {'FullTensor': 'vector<float', 'HalfTensor': 'unsigned short', 'QuarterTensor': 'unsigned char', 'PixelTensor': 'unsigned char'}[cls])
        v = E.read(st, lv)
        h.check(st, 'channels', v.len == K)
        st.assume(z3.And(g[0] < K, g[1] < R))
        h.check(st, 'rows of every channel', cell(h, v, g[0]).len == R)
        h.check(st, 'columns of every row', cell(h, v, *g).len == C)
    return u


def cell(h, v, *path):
    for i in path:
        v = h.E.th.from_z3(z3.Select(v.arr, i), v.et)
    return v


def cell_tmpl(h, g, raw, dims, perms=ORDERS):
    """candidates: the ghost cell already holds the encoded source element once its coordinate was handled"""
    def tmpl(ctx):
        out = []
        n = len(ctx.outer())
        for root in ctx.vecs():
            v0 = ctx.rd(ctx.entry, root)
            if not (v0.et[0] == 'vec' and v0.et[1][0] == 'vec'):
                continue
            if n <= 3:
                for perm in (plausible(h, ctx, dims, n) if len(perms) == 6 else sorted({p[:n] for p in perms})):
                    out.append(('%s holds the ghost element, order %r' % (ctx.name(root), perm[:n]),
                                lambda st, perm=perm, root=root: z3.Implies(visited(ctx.idxs(st), g, perm), cell(h, ctx.rd(st, root), g[2], g[0], g[1]) == raw)))
        return out
    h.E.invs.append(tmpl)


def pixel_fn(h):
    """what one pixel stores and returns for x: the real setVal/getValue on a 1x1x1 pixel tensor"""
    E = h.E
    h.pix = {}


def material(cls, kind):
    @unit('%s from %s' % (cls, kind), 'C08', opts=dict(quick=600, noshape=True, retry=0))
    def u(h):
        E, T = h.E, h.T
        P = codec(h, cls)
        bias = h.integer('bias') if cls == 'QuarterTensor' else None
        bt = [INT] if bias is not None else []
        ba = [bias] if bias is not None else []
        encoded = {}
        if cls == 'PixelTensor':
            f = E.th.fsort(32)
            enc = z3.Function('toByte', f, Z)
            raw = lambda x: enc(x)
            E.axgens['toByte'] = lambda x: [z3.And(x >= 0, x < 256)]
            # contract of the scalar conversion (decided bit by bit by the unit "pixel codec"): a function of the value alone
            real = E.prog.cinfo['PixelTensor']['methods'].get('setVal')
            f2i = 'f32toi_8u'
        else:
            real = None
        if kind == 'tensor':
            a = h.a = h.tensor('a', nonempty=True)
            K, R, C = T.chans(a), T.rows(a), T.cols(a)
            args, types = [a], [PT]
            g = ghost(h, h.st)
            x = T.val(a, *g)
        else:
            K, R, C = (h.size(n, 1, 1 << 20) for n in ('channels', 'rows', 'columns'))
            g = tuple(h.size('g_' + n) for n in ('row', 'column', 'channel'))
            depth = {'vector': 1, 'matrix': 2, 'cube': 3}[kind]
            if depth < 3:
                K = z3.IntVal(1)
            if depth < 2:
                R = z3.IntVal(1)
            t = F32
            for _ in range(depth):
                t = ('vec', t)
            v = h.var('values', t)
            i, j = z3.Ints('i!v j!v')
            h.st.assume(v.len == (C, R, K)[depth - 1])
            if depth >= 2:
                w = cell(h, v, i)
                h.st.assume(forall([i], z3.Implies(z3.And(i >= 0, i < v.len), w.len == (C, R)[depth - 2]), z3.Select(v.arr, i)))
            if depth == 3:
                w2 = cell(h, v, i, j)
                h.st.assume(forall([i, j], z3.Implies(z3.And(i >= 0, i < v.len, j >= 0, j < R), w2.len == C), z3.Select(w.arr, j)))
            h.st.assume(z3.And(g[0] < R, g[1] < C, g[2] < K))
            x = cell(h, v, *([g[2], g[0], g[1]][3 - depth:]))
            args, types = [v], [t]
        alloc_contract(h)
        shape_tmpl(h, K, R, C, grow=False)
        if cls == 'PixelTensor':
            one = VecV(F32, z3.IntVal(1), z3.K(Z, x))
            st1, p, _ = h.new1(cls, [one], [V1])
            st1, want = h.call1(st1, p, cls, 'getValue', z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
            d = st1.heap[as_int_const(p)][1]['data'] if False else None
            h.st = st1
            want = z3.simplify(want)
            rawx = want
        else:
            want = P(x, bias)
        if cls == 'FullTensor':
            rawx = x
        elif cls in ('HalfTensor', 'QuarterTensor'):
            rawx = want.arg(0)
        elif cls == 'PixelTensor':
            rawx = None
            # the stored byte is the argument of the int->float conversion in the decoded value
            todo = [want]
            while todo:
                e = todo.pop()
                if z3.is_app(e) and e.decl().name() == 'i2f32':
                    rawx = e.arg(0)
                todo += e.children() if z3.is_app(e) else []
            if rawx is None:
                raise Unsupported('pixel codec shape')
        if kind == 'tensor' or kind == 'cube' or kind == 'matrix':
            cell_tmpl(h, g, rawx, (R, C, K), [(2, 0, 1), (2, 1, 0), (0, 1, 2), (0, 2, 1), (1, 0, 2)] if kind == 'cube' else ORDERS)
        else:
            cell_tmpl(h, g, rawx, (R, C, K), [(1, 0, 2)])
        st, o, _ = h.new1(cls, args + ba, types + bt, st=h.st)
        for name, want_n, m in (('rows', R, 'rowCount'), ('columns', C, 'columnCount'), ('channels', K, 'channelCount')):
            st, n = h.call1(st, o, cls, m)
            h.check(st, 'number of %s' % name, n == want_n)
        st, y = h.call1(st, o, cls, 'getValue', *g)
        h.check(st, 'every element is the stored form of the source element', y == want)
    return u


for _c in ('FullTensor', 'HalfTensor', 'QuarterTensor'):
    allocator(_c)
for _c in CODECS:
    material(_c, 'tensor')
    material(_c, 'vector')
for _c in ('HalfTensor', 'QuarterTensor'):
    material(_c, 'matrix')
for _c in ('FullTensor', 'PixelTensor'):
    material(_c, 'cube')


@unit('pixel codec', 'C08')
def pixel_codec(h):
    """one value through PixelTensor's setVal/getValue: the term the real code computes, with IEEE-754 semantics"""
    E = h.E
    S = FS[32]
    x = h.flt('x')
    h.st.assume(z3.Not(z3.fpIsNaN(x)))
    one = VecV(F32, z3.IntVal(1), z3.K(Z, x))
    st, p, _ = h.new1('PixelTensor', [one], [V1])
    st, want = h.call1(st, p, 'PixelTensor', 'getValue', z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
    y = exact(z3.simplify(want))
    lo, hi = z3.FPVal(0.0, S), z3.FPVal(1.0, S)
    c = z3.If(z3.fpLT(x, lo), lo, z3.If(z3.fpLT(hi, x), hi, x))
    st = State().assume(z3.Not(z3.fpIsNaN(x)))
    h.check(st, 'result between 0 and 1', z3.And(z3.fpLEQ(lo, y), z3.fpLEQ(y, hi)))
    h.check(st, 'zero and below stores 0', z3.Implies(z3.fpLEQ(x, lo), z3.fpEQ(y, lo)))
    h.check(st, 'one and above stores 1', z3.Implies(z3.fpLEQ(hi, x), z3.fpEQ(y, hi)))
    d = z3.fpAbs(z3.fpSub(z3.RNE(), c, y))
    h.check(st, 'within one 255th of the clamped value', z3.fpLEQ(d, z3.FPVal(1.0 / 255, S)))
    for k in range(256):
        v = z3.FPVal(k, S)
        b = z3.simplify(z3.fpDiv(z3.RNE(), v, z3.FPVal(255.0, S)))
        h.check(st, 'grey level %d is kept exactly' % k, z3.simplify(z3.substitute(y, (x, b))) == b)


def record_new(h, cls, log):
    def mk(E, fr, st, args):
        p = z3.IntVal(900000 + len(log))
        log.append((cls, [E.val(st, a) for a in args], p))
        return [(st, p)]
    h.E.contracts[(cls, '<new>')] = mk


def materialize(bits, name):
    @unit(name, 'C08', note='the constructors are used by contract (decided by the units "<class> from tensor"), range by its contract (C07)')
    def u(h):
        E = h.E
        a = h.tensor('a')
        log = []
        for c in CODECS:
            record_new(h, c, log)
        mn, mx = h.flt('smallest'), h.flt('largest')
        E.contracts[('BaseTensor', 'range')] = lambda E, fr, st, this, args: [(st, RecV(('pair', F32, F32), {'first': mn, 'second': mx}))]
        est = z3.Function('estimateBias', Z, Z, E.th.fsort(32), E.th.fsort(32), Z)
        E.contracts[(None, 'estimateBias')] = lambda E, fr, st, this, args: [(st, est(*[E.val(st, x) for x in args]))]
        if bits is None:
            res, th = h.callf(h.st, 'materializeTensor', a, nargs=1)
        else:
            b = h.integer('bits', ('int', 8, False))
            h.st.assume(z3.And(b != 32, b != 16) if bits == 8 else b == bits)
            res, th = h.callf(h.st, 'materializeTensor', a, b, nargs=2)
        for st, _ in th:
            h.check(st, 'does not throw', z3.BoolVal(False))
        for st, r in res:
            mat = h.T.mat(a)
            made = {c: [x for x in log if x[0] == c] for c in CODECS}
            if bits in (None, 32):
                ok = [z3.And(r == a, mat)] + [z3.And(r == p, args[0] == a, z3.Not(mat)) for _, args, p in made['FullTensor']]
                h.check(st, 'a materialized tensor is returned as it is, any other is copied to 32 bit', z3.Or(*ok))
            elif bits == 16:
                h.check(st, 'the operand is copied to 16 bit', z3.Or(*[z3.And(r == p, args[0] == a) for _, args, p in made['HalfTensor']]))
            else:
                h.check(st, 'the operand is copied to 8 bit with the estimated bias', z3.Or(*[z3.And(r == p, args[0] == a, args[1] == est(z3.IntVal(4), z3.IntVal(15), mn, mx)) for _, args, p in made['QuarterTensor']]))
    return u


materialize(None, 'materializeTensor')
materialize(32, 'materializeTensor to 32 bit')
materialize(16, 'materializeTensor to 16 bit')
materialize(8, 'materializeTensor to 8 bit')


@unit('estimateBias', 'C08')
def estimate_bias(h):
    E = h.E
    lo, hi, mn, mx = h.integer('estimate_min'), h.integer('estimate_max'), h.flt('adj_min'), h.flt('adj_max')
    h.st.assume(z3.And(lo >= 1, hi <= 100, lo <= hi))
    dec = z3.Function('quarterToFloat', Z, Z, E.th.fsort(32))
    E.contracts[(None, 'quarterToFloat')] = lambda E, fr, st, this, args: [(st, dec(*[E.val(st, a) for a in args]))]
    g = h.integer('g_bias')
    top = z3.Int('QUARTER_MAX')

    def fits(b):
        m = dec(z3.IntVal(0x77), b)
        return z3.And(z3.fpGT(mn, z3.fpNeg(m)), z3.fpLT(mx, m))
    E.invs.append(lambda ctx: [('larger biases do not hold the range (%s)' % ctx.name(i), lambda st, i=i: z3.Implies(z3.And(g > ctx.rd(st, i), g <= hi), z3.Not(fits(g)))) for i in ctx.ints()])
    st, r = h.callf1(h.st, 'estimateBias', lo, hi, mn, mx)
    h.check(st, 'within the allowed biases', z3.And(r >= lo, r <= hi))
    h.check(st, 'no larger bias holds the range', z3.Implies(z3.And(g > r, g <= hi), z3.Not(fits(g))))
    h.check(st, 'holds the range unless it is the smallest allowed', z3.Or(r == lo, fits(r)))
