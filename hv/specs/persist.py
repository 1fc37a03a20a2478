"""C13 persistence: what is saved loads back."""
from ..unit import *
from ..types import STREAM
from .views import PT
from .reduce import visited, plausible, ORDERS
from .material import shape_tmpl, cell, codec
from .training import fields, set_field

STREAMREF = STREAM


def swaps(h):
    """portableBytes by its contract (C01): an involution on the unsigned integers of its width"""
    E = h.E
    for w in (16, 32, 64):
        f = z3.Function('portable%d' % w, Z, Z)
        E.axgens['portable%d' % w] = lambda x, f=f, w=w: [f(x) == x.arg(0), x >= 0, x < (1 << w)]

    def c(E, fr, st, this, args):
        t = E.ty.of(E.prog.params(E.cur_fn)[0])
        return [(st, z3.Function('portable%d' % t[1], Z, Z)(E.val(st, args[0])))]
    E.contracts[(None, 'portableBytes')] = c


def stream(h, name):
    """an open stream in good state with arbitrary content, at an arbitrary position"""
    E = h.E
    s = E.th.fresh(name, STREAM)
    s.f['ok'] = s.f['open'] = z3.BoolVal(True)
    h.st.assume(z3.And(s.f['pos'] >= 0, s.f['pos'] <= s.f['size'], s.f['size'] < 1 << 62))
    return s


def lin(ix, dims, perm):
    """how many elements precede coordinate ix when loops run over the coordinates perm, outermost first"""
    n = z3.IntVal(0)
    for k, p in enumerate(perm):
        n = n * dims[p] + (ix[k] if k < len(ix) else 0)
    return n


def stream_tmpl(h, dims, g, want=None, perms=None, writes=True):
    """candidates for loops that write or read a stream: how far it advanced, what lies behind it, and where the ghost element is"""
    x = z3.Int('x!st')

    def tmpl(ctx):
        out = []
        n = len(ctx.outer())
        if n > 3 or not all(c.idx_roots for c in ctx.outer()):
            return out
        for root in ctx.roots:
            if root[0] == 'HA':
                continue
            v0 = ctx.rd(ctx.entry, root)
            if not (isinstance(v0, RecV) and v0.t[1] == 'stream'):
                continue
            first = ctx.rd(ctx.outer()[0].entry, root)
            base = first.f['pos']
            nm = ctx.name(root)
            S = lambda st, root=root: ctx.rd(st, root).f
            out.append(('%s stays good' % nm, lambda st, S=S, f=first: z3.And(S(st)['ok'] == f.f['ok'], S(st)['open'] == f.f['open'])))
            if not writes:
                out.append(('%s keeps its size' % nm, lambda st, S=S, f=first: S(st)['size'] == f.f['size']))
            if writes:
                out.append(('%s ends where it is' % nm, lambda st, S=S, f=first: S(st)['size'] == S(st)['pos']))
            out.append(('%s only moves forward' % nm, lambda st, S=S, v0=v0: S(st)['pos'] >= v0.f['pos']))
            for w in ('b1', 'b4', 'b8', 'bs'):
                out.append(('%s keeps its %s' % (nm, w), lambda st, S=S, w=w, f=first: S(st)[w].arr == f.f[w].arr))
                if writes:
                    out.append(('%s keeps what lies behind, %s' % (nm, w), lambda st, S=S, w=w, f=first, base=base:
                                forall([x], z3.Implies(x < base, z3.Select(S(st)[w].arr, x) == z3.Select(f.f[w].arr, x)), z3.Select(S(st)[w].arr, x))))
            for perm in perms or [(2, 0, 1), (2, 1, 0)]:
                o = base + 4 * lin([g[p] for p in perm], dims, perm)
                out.append(('%s advances in order %r' % (nm, perm), lambda st, S=S, perm=perm, base=base: S(st)['pos'] == base + 4 * lin(ctx.idxs(st), dims, perm)))
                if want is not None:
                    out.append(('%s has the ghost element, order %r' % (nm, perm), lambda st, S=S, perm=perm, o=o:
                                z3.Implies(visited(ctx.idxs(st), g, perm), z3.And(o < S(st)['pos'], z3.Select(S(st)['b4'].arr, o) == want))))
        return out
    h.E.invs.append(tmpl)


def ghost(h, st, dims):
    g = tuple(h.size('g_' + x) for x in ('row', 'column', 'channel'))
    st.assume(z3.And(*[x < d for x, d in zip(g, dims)]))
    return g


def disk(h):
    """one file: what was in the stream when it was closed is what opening it again for reading finds"""
    E = h.E
    D = {}

    def for_writing(E, st, put, v):
        put(pos=z3.IntVal(0), size=z3.IntVal(0), ok=z3.BoolVal(True), open=z3.BoolVal(True))
        D['path'] = v[0]

    def for_reading(E, st, put, v):
        E.check(st, 'the same file is opened', v[0] == D['path'])
        put(**dict(D['file'].f, pos=z3.IntVal(0), ok=z3.BoolVal(True), open=z3.BoolVal(True)))

    def close(E, st, s):
        D['file'] = s
    D['w'], D['r'] = for_writing, for_reading
    E.opts['close_file'] = close
    return D


def scalar(h, cls, x, bias=None):
    """-> (what the class stores for x, what it returns for it); the codecs themselves are C02, C03 and C08's pixel codec"""
    P = codec(h, cls) if cls != 'PixelTensor' else None
    if cls == 'FullTensor':
        return x, x
    if P is not None:
        want = P(x, bias)
        return want.arg(0), want
    one = VecV(F32, z3.IntVal(1), z3.K(Z, x))
    h.st, p, _ = h.new1(cls, [one], [('vec', F32)])
    h.st, want = h.call1(h.st, p, cls, 'getValue', z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
    todo = [z3.simplify(want)]
    while todo:
        e = todo.pop()
        if z3.is_app(e) and e.decl().name() == 'i2f32':
            return e.arg(0), want
        todo += e.children() if z3.is_app(e) else []
    raise Unsupported('pixel codec shape')


def saved(cls, how):
    @unit('%s %s' % (cls, {'file': 'saved to a file and loaded', 'stream': 'written to a stream and read', 'body': 'written without its shape and read'}[how]), 'C13',
          opts=dict(noshape=True, quick=600), cost=60)
    def u(h):
        E, T = h.E, h.T
        swaps(h)
        a = h.tensor('a', nonempty=True)
        dims = (T.rows(a), T.cols(a), T.chans(a))
        g = ghost(h, h.st, dims)
        bias = [h.integer('bias')] if cls == 'QuarterTensor' else []
        bt = [INT] * len(bias)
        raw, back = scalar(h, cls, T.val(a, *g), *bias)
        P32 = z3.Function('portable32', Z, Z)
        n_invs = len(E.invs)
        stream_tmpl(h, dims, g, P32(E.float_bits(T.val(a, *g), ('int', 32, False))))
        if how == 'file':
            D = disk(h)
            E.opts['open_file'] = D['w']
            path = h.var('path', STR)
            st, ok = h.callf1(h.st, h.method('BaseTensor', 'save', 1), path) if False else h.call1(h.st, a, 'BaseTensor', 'save', path)
            h.check(st, 'saving succeeds', ok)
            s1, p0 = D['file'], z3.IntVal(0)
        else:
            s0 = stream(h, 'out')
            h.st.assume(s0.f['pos'] == s0.f['size'])
            p0 = s0.f['pos']
            lv = E.temp(h.st, s0)
            st, _ = h.call1(h.st, a, 'BaseTensor', 'save', lv, z3.BoolVal(how == 'stream'))
            s1 = E.read(st, lv)
        h.check(st, 'the file grows by exactly one tensor', z3.And(s1.f['pos'] == s1.f['size'], s1.f['pos'] == p0 + (0 if how == 'body' else 24) + 4 * (dims[2] * dims[0] * dims[1])))
        # ---- load it again from where it was written
        del E.invs[n_invs:]
        stream_tmpl(h, dims, g, writes=False)
        shape_tmpl(h, dims[2], dims[0], dims[1])
        load_tmpl(h, dims, g, raw)
        if how == 'file':
            E.opts['open_file'] = D['r']
            st, o, th = h.new1(cls, [path] + bias, [STR] + bt, st=st)
        else:
            f = dict(s1.f)
            f['pos'] = p0
            lv = E.temp(st, RecV(s1.t, f))
            ba = [] if how == 'stream' else list(dims)
            st, o, th = h.new1(cls, [lv] + bias + ba, [STREAM] + bt + [SIZE] * len(ba), st=st)
            h.check(st, 'loading consumes exactly one tensor', E.read(st, lv).f['pos'] == s1.f['pos'])
        h.check(st, 'loading does not throw', z3.BoolVal(not [x for x in th if E.feasible(x[0].pc)]))
        for name, want_n, m in (('rows', dims[0], 'rowCount'), ('columns', dims[1], 'columnCount'), ('channels', dims[2], 'channelCount')):
            st, n = h.call1(st, o, cls, m)
            h.check(st, 'number of %s' % name, n == want_n)
        st, y = h.call1(st, o, cls, 'getValue', *g)
        h.check(st, 'every element comes back', y == back)
    return u


def load_tmpl(h, dims, g, raw):
    def tmpl(ctx):
        out = []
        n = len(ctx.outer())
        for root in ctx.vecs():
            v0 = ctx.rd(ctx.entry, root)
            if n <= 3 and v0.et[0] == 'vec' and v0.et[1][0] == 'vec' and all(c.idx_roots for c in ctx.outer()):
                for perm in [(2, 0, 1), (2, 1, 0)]:
                    out.append(('%s holds the ghost element, order %r' % (ctx.name(root), perm),
                                lambda st, perm=perm, root=root: z3.Implies(visited(ctx.idxs(st), g, perm), cell(h, ctx.rd(st, root), g[2], g[0], g[1]) == raw)))
        return out
    h.E.invs.append(tmpl)


for _c in ('FullTensor', 'HalfTensor', 'QuarterTensor', 'PixelTensor'):
    saved(_c, 'file')
for _c in ('FullTensor', 'QuarterTensor', 'PixelTensor'):
    saved(_c, 'body')


def tensor_files(h):
    """save(path) and FullTensor(path) by their contract (units above): a file holds the tensor last saved to it; nothing else touches it"""
    E, T = h.E, h.T
    D = []
    L = z3.Function('loaded', Z, Z)
    A = z3.Function('asString', Z, z3.SeqSort(Z))
    E.contracts[(None, 'asString')] = lambda E, fr, st, this, args: [(st, A(E.val(st, args[0])))] if z3.is_int(E.val(st, args[0])) else None

    def save(E, fr, st, this, args):
        if len(args) != 1:
            return None
        D.append((z3.simplify(E.val(st, args[0])), z3.simplify(this)))
        return [(st, z3.BoolVal(True))]
    E.contracts[('BaseTensor', 'save')] = save

    def load(E, fr, st, args):
        if len(args) != 1 or not z3.is_seq(E.val(st, args[0])):
            return None
        p = z3.simplify(E.val(st, args[0]))
        for q, t in reversed(D):
            if z3.eq(q, p):
                r = L(t)
                st.assume(z3.And(r > 0, T.rows(r) == T.rows(t), T.cols(r) == T.cols(t), T.chans(r) == T.chans(t)))
                return [(st, r)]
        E.check(st, 'a file that is loaded was saved before', z3.BoolVal(False))
        return []
    E.contracts[('FullTensor', '<new>')] = load
    return L, D


def layer_files(h, st, o, cls, params):
    """params: state -> the layer's parameter tensors"""
    L, D = tensor_files(h)
    path = h.var('path', STR)
    before = params(st)
    st, _ = h.call1(st, o, cls, 'saveKnowledge', path)
    h.check(st, 'saving leaves the parameters alone', z3.And(*[x == y for x, y in zip(params(st), before)]))
    h.check(st, 'one file per parameter tensor', z3.BoolVal(len(D) == len(before)))
    # trained further, or a new layer of the same label
    st, _ = h.call1(st, o, cls, 'loadKnowledge', path)
    after = params(st)
    h.check(st, 'as many parameter tensors', z3.BoolVal(len(after) == len(before)))
    for i, (x, y) in enumerate(zip(after, before)):
        h.check(st, 'parameter tensor %d is what was saved' % i, x == L(y))


@unit('FullyConnectedLayer saves and loads', 'C13', mode='real')
def fc_files(h):
    from .layers import fc_layer
    st, o, w, _, _, _ = fc_layer(h, False)
    layer_files(h, st, o, 'FullyConnectedLayer', lambda st: [fields(st, o)['weights']])


@unit('BiasLayer saves and loads', 'C13', mode='real')
def bias_files(h):
    from .layers import VS, shape_vec, U8
    b = h.tensor('bias', nonempty=True)
    sh = shape_vec(h.T.rows(b), h.T.cols(b), h.T.chans(b))
    st, o, _ = h.new1('BiasLayer', [h.var('label', STR), sh, sh, h.var('bits', U8), h.integer('registration_id')], [STR, VS, VS, U8, INT])
    set_field(st, o, bias=b)
    layer_files(h, st, o, 'BiasLayer', lambda st: [fields(st, o)['bias']])


def conv_files(n):
    @unit('Convolution2dValidFunction saves and loads (%d filter%s)' % (n, 's' * (n > 1)), 'C13', mode='real', kind='bounded', note='the number of filters is enumerated')
    def u(h):
        from .layers import conv_layer, select
        st, o, ws, K, shape, _, _, _ = conv_layer(h, n, 2, False)

        def params(st):
            v = fields(st, o)['weights']
            k = as_int_const(z3.simplify(v.len))
            return [select(z3.simplify(v.arr), i) for i in range(k)]
        layer_files(h, st, o, 'Convolution2dValidFunction', params)


for _n in (1, 2, 3):
    conv_files(_n)
