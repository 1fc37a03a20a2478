"""C12 neural network layers (floats as reals)."""
from ..unit import *
from .views import shape_of, PT
from .training import f32, cell, same_as, at, frozen, fields, set_field, R0, R1


def value_of(h, st, p, g):
    """element g of the tensor p points to: the contract's value function, or for a concrete object what its real getValue computes"""
    E = h.E
    p = z3.simplify(p)
    if z3.is_app_of(p, z3.Z3_OP_ITE):
        return z3.If(p.arg(0), value_of(h, st, p.arg(1), g), value_of(h, st, p.arg(2), g))
    c = as_int_const(p)
    if c is None or c not in st.heap:
        return h.T.val(p, *g)
    E.dry += 1
    try:
        return h.call1(st.copy(), p, 'BaseTensor', 'getValue', *g)[1]
    finally:
        E.dry -= 1


def dims_of(h, st, p):
    E = h.E
    p = z3.simplify(p)
    if z3.is_app_of(p, z3.Z3_OP_ITE):
        return tuple(z3.If(p.arg(0), x, y) for x, y in zip(dims_of(h, st, p.arg(1)), dims_of(h, st, p.arg(2))))
    c = as_int_const(p)
    if c is None or c not in st.heap:
        return h.T.rows(p), h.T.cols(p), h.T.chans(p)
    E.dry += 1
    try:
        return tuple(h.call1(st.copy(), p, 'BaseTensor', m)[1] for m in ('rowCount', 'columnCount', 'channelCount'))
    finally:
        E.dry -= 1


class Queue:
    """an arbitrary non-empty queue of tensors of one shape; total(n) = sum of fn(element) at g over its first n entries"""

    def __init__(self, h, st, name, cur, shape, g, fn=None, nonempty=True):
        T = h.T
        self.h, self.g, self.shape = h, g, shape
        self.n = h.size(name + '_length', 1 if nonempty else 0, 1 << 20)
        self.arr = z3.Const(name, z3.ArraySort(Z, Z))
        self.vec = VecV(cur.et, self.n, self.arr)
        self.fn = fn or (lambda p: T.val(p, *g))
        self.sum = z3.Function('sum_' + name, Z, z3.RealSort())
        h.E.recdefs['sum_' + name] = lambda i: z3.If(i <= 0, R0, self.sum(i - 1) + self.fn(z3.Select(self.arr, i - 1)))

        def tmpl(ctx):
            out = []
            qs = [q for q in ctx.vecs() if ctx.rd(ctx.entry, q).et[0] == 'ptr']
            for q in qs:
                j = z3.Int('j!q')

                def rest(st, q=q):
                    v = ctx.rd(st, q)
                    d = self.n - v.len
                    return z3.And(forall([j], z3.Implies(z3.And(j >= d, j < self.n), z3.Select(v.arr, j - d) == z3.Select(self.arr, j)), z3.Select(self.arr, j)),
                                  forall([j], z3.Implies(z3.And(j >= 0, j < v.len), z3.Select(v.arr, j) == z3.Select(self.arr, j + d)), z3.Select(v.arr, j)))
                out.append(('%s holds the last entries' % ctx.name(q), rest))
                out.append(('%s shrinks' % ctx.name(q), lambda st, q=q: ctx.rd(st, q).len <= self.n - 1))
                taken = lambda st, q=q: self.n - ctx.rd(st, q).len
                for p in ctx.ptrs():
                    out += self.sums(ctx, p, taken)
            for p in ctx.ptrs():
                for i, what in enumerate(('rows', 'columns', 'channels')):
                    out.append(('%s of %s' % (what, ctx.name(p)), lambda st, p=p, i=i: dims_of(h, st, ctx.rd(st, p))[i] == shape[i]))
                if ctx.idx_roots:
                    out += self.sums(ctx, p, lambda st: ctx.idx(st))
            return out
        h.E.invs.append(tmpl)

    def sums(self, ctx, p, taken):
        h = self.h
        return [('%s adds up the entries taken' % ctx.name(p), lambda st: value_of(h, st, ctx.rd(st, p), self.g) == self.sum(taken(st)))]

    def put(self, st, o, field):
        set_field(st, o, **{field: self.vec})
        T, j = self.h.T, z3.Int('j!m')
        e = z3.Select(self.arr, j)
        st.assume(forall([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(T.rows(e) == self.shape[0], T.cols(e) == self.shape[1], T.chans(e) == self.shape[2])), e))
        return self


def with_shape(h, st, p, shape):
    st.assume(z3.And(h.T.rows(p) == shape[0], h.T.cols(p) == shape[1], h.T.chans(p) == shape[2]))


def vec1(*ps):
    a = z3.K(Z, z3.IntVal(0))
    for i, p in enumerate(ps):
        a = z3.Store(a, i, p)
    return VecV(PT, z3.IntVal(len(ps)), a)


def only(h, st, v, what='one result'):
    h.check(st, what, v.len == 1)
    return select(v.arr, 0)


def select(arr, i):
    if z3.is_app_of(arr, z3.Z3_OP_ITE):
        return z3.If(arr.arg(0), select(arr.arg(1), i), select(arr.arg(2), i))
    return z3.simplify(z3.Select(arr, i))


AF = ('ptr', ('cls', 'ActivationFunction'))


def activation(h):
    """an arbitrary activation function: its two methods return tensors of the input's shape (C09)"""
    f = z3.Int('activation_function')
    h.st.assume(z3.And(f > 2000, f < 3000))
    D, A = z3.Function('derivative', Z, Z), z3.Function('activate', Z, Z)

    def call(E, fr, st, p, d, args):
        if d['name'] not in ('activate', 'derivative'):
            return None
        x = E.val(st, args[0])
        r = (A if d['name'] == 'activate' else D)(x)
        with_shape(h, st, r, (h.T.rows(x), h.T.cols(x), h.T.chans(x)))
        return [(st, r)]
    h.E.absclass['ActivationFunction'] = call
    return f, A, D


def layer(cls, args, types):
    def make(h):
        st, o, _ = h.new1(cls, args, types)
        return st, o
    return make


@unit('ActivationLayer::forward', 'C12', mode='real')
def act_fwd(h):
    f, A, D = activation(h)
    a = h.tensor('a')
    st, o, _ = h.new1('ActivationLayer', [f], [AF])
    n = h.size('queued', 0, 1 << 20)
    arr = z3.Const('lastInputs', z3.ArraySort(Z, Z))
    for train in (True, False):
        s = st.copy()
        set_field(s, o, lastInputs=VecV(fields(s, o)['lastInputs'].et, n, arr))
        s, v = h.call1(s, o, 'ActivationLayer', 'forward', h.box(s, vec1(a)), z3.BoolVal(train))
        h.check(s, 'the activation of the input', v == A(a))
        q = fields(s, o)['lastInputs']
        if train:
            h.check(s, 'the input is remembered last', z3.And(q.len == n + 1, z3.Select(q.arr, n) == a))
        else:
            h.check(s, 'nothing is remembered', q.len == n)


@unit('ActivationLayer::backward', 'C12', mode='real')
def act_back(h):
    T = h.T
    frozen(h)
    f, A, D = activation(h)
    e = h.tensor('error')
    g = cell(h, h.st, e)
    st, o, _ = h.new1('ActivationLayer', [f], [AF])
    shape = (T.rows(e), T.cols(e), T.chans(e))
    q = Queue(h, st, 'lastInputs', fields(st, o)['lastInputs'], shape, g, lambda p: T.val(D(p), *g)).put(st, o, 'lastInputs')
    st, v = h.call1(st, o, 'ActivationLayer', 'backward', e)
    r = only(h, st, v)
    st = same_as(h, st, r, e)
    st, x = at(h, st, r, g)
    h.check(st, 'error times the mean derivative', x * z3.ToReal(q.n) == q.sum(q.n) * T.val(e, *g))
    h.check(st, 'all inputs of the batch are consumed', fields(st, o)['lastInputs'].len == 0)


# ---- trainable layers
OPT = ('ptr', ('cls', 'BaseOptimizer'))
U8 = ('int', 8, False)


def stored(h):
    """materializeTensor by its contract (C08): the same tensor at 32 bit, otherwise a copy of the same shape at that precision"""
    M = z3.Function('stored_at', Z, Z, Z)

    def c(E, fr, st, this, args):
        x = E.val(st, args[0])
        if len(args) < 2:
            return [(st, x)]
        b = E.val(st, args[1])
        r = M(x, b)
        with_shape(h, st, r, dims_of(h, st, x))
        return [(st, r)]
    h.E.contracts[(None, 'materializeTensor')] = c
    return M


def optimizer(h, want, reg, current, check):
    """an arbitrary optimizer: returns some tensor of the parameters' shape; its arguments are checked"""
    p = z3.Int('optimizer')
    h.st.assume(z3.And(p > 2000, p < 3000))
    new = z3.Int('adjusted')
    calls = []

    def call(E, fr, st, this, d, args):
        if d['name'] not in ('calculateWeightsChange', 'calculateBiasChange'):
            return None
        if not E.dry:
            calls.append(d['name'])
        i, w, gr = [E.val(st, x) for x in args]
        h.check(st, 'asks for the right kind of change', z3.BoolVal(d['name'] == want))
        h.check(st, 'under its registration', i == reg)
        h.check(st, 'for its current parameters', w == current)
        check(E, st, gr)
        with_shape(h, st, new, (h.T.rows(current), h.T.cols(current), h.T.chans(current)))
        return [(st, new)]
    h.E.absclass['BaseOptimizer'] = call
    return p, new


def shape_vec(*d):
    a = h_arr = z3.K(Z, z3.IntVal(0))
    for i, x in enumerate(d):
        a = z3.Store(a, i, x)
    return VecV(SIZE, z3.IntVal(len(d)), a)


VS = ('vec', SIZE)


def bias_layer(h):
    T = h.T
    b = h.tensor('bias')
    reg, bits = h.integer('registration_id'), h.var('bits', U8)
    sh = shape_vec(T.rows(b), T.cols(b), T.chans(b))
    st, o, _ = h.new1('BiasLayer', [h.var('label', STR), sh, sh, bits, reg], [STR, VS, VS, U8, INT])
    return st, o, b, reg, bits


@unit('BiasLayer::BiasLayer', 'C12', mode='real')
def bias_new(h):
    T = h.T
    st, o, b, reg, bits = bias_layer(h)
    g = cell(h, st, b)
    f = fields(st, o)
    st = same_as(h, st, f['bias'], b, 'initial bias')
    st, x = at(h, st, f['bias'], g)
    h.check(st, 'starts at 0.1', x == f32(0.1))
    h.check(st, 'registration and precision kept', z3.And(f['registration_id'] == reg, f['bits'] == bits))
    h.check(st, 'no errors yet', f['bias_errors'].len == 0)


@unit('BiasLayer::forward', 'C12', mode='real')
def bias_fwd(h):
    T = h.T
    st, o, b, reg, bits = bias_layer(h)
    set_field(st, o, bias=b)
    a = h.T.new('a', st)
    with_shape(h, st, a, (T.rows(b), T.cols(b), T.chans(b)))
    g = cell(h, st, a)
    st, v = h.call1(st, o, 'BiasLayer', 'forward', h.box(st, vec1(a)), h.var('forTraining', BOOL))
    st = same_as(h, st, v, a)
    st, x = at(h, st, v, g)
    h.check(st, 'input plus bias', x == T.val(a, *g) + T.val(b, *g))


@unit('BiasLayer::backward', 'C12', mode='real')
def bias_back(h):
    st, o, b, reg, bits = bias_layer(h)
    e = h.T.new('error', st)
    n = h.size('queued', 0, 1 << 20)
    arr = z3.Const('bias_errors', z3.ArraySort(Z, Z))
    set_field(st, o, bias_errors=VecV(fields(st, o)['bias_errors'].et, n, arr))
    st, v = h.call1(st, o, 'BiasLayer', 'backward', e)
    h.check(st, 'the error itself', only(h, st, v) == e)
    q = fields(st, o)['bias_errors']
    h.check(st, 'the error is remembered last', z3.And(q.len == n + 1, z3.Select(q.arr, n) == e))


@unit('BiasLayer::apply', 'C12', mode='real')
def bias_apply(h):
    T = h.T
    M = stored(h)
    st, o, b, reg, bits = bias_layer(h)
    g = cell(h, st, b)
    set_field(st, o, bias=b)
    q = Queue(h, st, 'bias_errors', fields(st, o)['bias_errors'], (T.rows(b), T.cols(b), T.chans(b)), g).put(st, o, 'bias_errors')

    def gradient(E, s, gr):
        h.check(s, 'gradient is the mean error', value_of(h, s, gr, g) * z3.ToReal(q.n) == q.sum(q.n))
    p, new = optimizer(h, 'calculateBiasChange', reg, b, gradient)
    st, _ = h.call1(st, o, 'BiasLayer', 'apply', p)
    f = fields(st, o)
    h.check(st, 'the bias becomes the adjusted bias at the layer\'s precision', f['bias'] == M(new, bits))
    h.check(st, 'all errors are consumed', f['bias_errors'].len == 0)
    h.check(st, 'registration and precision kept', z3.And(f['registration_id'] == reg, f['bits'] == bits))


def product(h):
    """MatrixMultiplyTensorView elements by their contract (C06): the sum of products of row and column"""
    S = z3.Function('sumproduct', z3.ArraySort(Z, z3.RealSort()), z3.ArraySort(Z, z3.RealSort()), Z, z3.RealSort())
    h.E.axgens['sumproduct'] = lambda x: [z3.Implies(x.arg(2) == 1, x == z3.Select(x.arg(0), 0) * z3.Select(x.arg(1), 0))]

    def sp(f, g, n):
        j = z3.Int('j!sp')
        return S(z3.Lambda([j], z3.simplify(f(j))), z3.Lambda([j], z3.simplify(g(j))), n)

    def c(E, fr, st, this, args):
        f = st.heap[as_int_const(z3.simplify(this))][1]
        l, r = f['left_child_'], f['right_child_']
        a = [E.val(st, x) for x in args]
        return [(st, sp(lambda j: value_of(h, st, l, (a[0], j, a[2])), lambda j: value_of(h, st, r, (j, a[1], a[2])), dims_of(h, st, l)[1]))]
    h.E.contracts[('MatrixMultiplyTensorView', 'getValue')] = c
    return sp


def fc_layer(h, l2):
    T = h.T
    w = h.tensor('weights', nonempty=True)
    reg, bits = h.integer('registration_id'), h.var('bits', U8)
    strength = h.flt('regularization_strength')
    h.E.contracts[('TensorFromXavier', '<new>')] = lambda E, fr, st, args: [(st, w)]
    h.st.assume(T.chans(w) == 1)
    h.st.assume(reg < 1 << 30)
    st, o, _ = h.new1('FullyConnectedLayer', [h.var('label', STR), T.rows(w), T.cols(w), bits, reg, z3.BoolVal(l2), strength], [STR, SIZE, SIZE, U8, INT, BOOL, F32])
    return st, o, w, reg, bits, strength


@unit('FullyConnectedLayer::forward', 'C12', mode='real')
def fc_fwd(h):
    T = h.T
    sp = product(h)
    st, o, w, reg, bits, strength = fc_layer(h, False)
    a = T.new('a', st, nonempty=True)
    st.assume(z3.And(T.cols(a) == T.rows(w), T.chans(a) == 1))
    r, c = h.size('row'), h.size('column')
    st.assume(z3.And(r < T.rows(a), c < T.cols(w)))
    n = h.size('queued', 0, 1 << 20)
    arr = z3.Const('lastInputs', z3.ArraySort(Z, Z))
    for train in (True, False):
        s = st.copy()
        set_field(s, o, lastInputs=VecV(fields(s, o)['lastInputs'].et, n, arr))
        s, v = h.call1(s, o, 'FullyConnectedLayer', 'forward', h.box(s, vec1(a)), z3.BoolVal(train))
        d = dims_of(h, s, v)
        h.check(s, 'one row per input row and one column per neuron', z3.And(d[0] == T.rows(a), d[1] == T.cols(w), d[2] == 1))
        s, x = h.call1(s, v, 'BaseTensor', 'getValue', r, c, z3.IntVal(0))
        h.check(s, 'input times weights', x == sp(lambda j: T.val(a, r, j, 0), lambda j: T.val(w, j, c, 0), T.cols(a)))
        q = fields(s, o)['lastInputs']
        if train:
            h.check(s, 'the input is remembered last', z3.And(q.len == n + 1, z3.Select(q.arr, n) == a))
        else:
            h.check(s, 'nothing is remembered', q.len == n)


def fc_backward(l2):
    @unit('FullyConnectedLayer::backward (%s)' % ('L2 regularization' if l2 else 'no regularization'), 'C12', mode='real')
    def u(h):
        T = h.T
        frozen(h)
        sp = product(h)
        st, o, w, reg, bits, strength = fc_layer(h, l2)
        e = T.new('error', st, nonempty=True)
        with_shape(h, st, e, (z3.IntVal(1), T.cols(w), z3.IntVal(1)))
        r, c = h.size('input'), h.size('neuron')
        st.assume(z3.And(r < T.rows(w), c < T.cols(w)))
        q = Queue(h, st, 'lastInputs', fields(st, o)['lastInputs'], (z3.IntVal(1), T.rows(w), z3.IntVal(1)), (z3.IntVal(0), r, z3.IntVal(0))).put(st, o, 'lastInputs')
        m = h.size('earlier_errors', 0, 1 << 20)
        arr = z3.Const('weights_errors', z3.ArraySort(Z, Z))
        set_field(st, o, weights_errors=VecV(fields(st, o)['weights_errors'].et, m, arr))
        st, v = h.call1(st, o, 'FullyConnectedLayer', 'backward', e)
        ie = only(h, st, v)
        d = dims_of(h, st, ie)
        h.check(st, 'input error has the shape of an input', z3.And(d[0] == 1, d[1] == T.rows(w), d[2] == 1))
        st, x = h.call1(st, ie, 'BaseTensor', 'getValue', z3.IntVal(0), r, z3.IntVal(0))
        h.check(st, 'input error is the error times the transposed weights', x == sp(lambda j: T.val(e, 0, j, 0), lambda j: T.val(w, r, j, 0), T.cols(e)))
        f = fields(st, o)
        h.check(st, 'all inputs of the batch are consumed', f['lastInputs'].len == 0)
        qe = f['weights_errors']
        h.check(st, 'one more weight error', qe.len == m + 1)
        we = z3.simplify(z3.Select(qe.arr, m))
        d = dims_of(h, st, we)
        h.check(st, 'weight error has the shape of the weights', z3.And(d[0] == T.rows(w), d[1] == T.cols(w), d[2] == 1))
        st, y = h.call1(st, we, 'BaseTensor', 'getValue', r, c, z3.IntVal(0))
        reg_ = strength * T.val(w, r, c, 0) if l2 else R0
        h.check(st, 'weight error is the mean input times the error', (y - reg_) * z3.ToReal(q.n) == q.sum(q.n) * T.val(e, 0, c, 0))
        h.check(st, 'weights are unchanged', f['weights'] == w)


fc_backward(False)
fc_backward(True)


@unit('FullyConnectedLayer::apply', 'C12', mode='real')
def fc_apply(h):
    T = h.T
    M = stored(h)
    st, o, w, reg, bits, strength = fc_layer(h, True)
    g = cell(h, st, w)
    q = Queue(h, st, 'weights_errors', fields(st, o)['weights_errors'], (T.rows(w), T.cols(w), T.chans(w)), g).put(st, o, 'weights_errors')

    def gradient(E, s, gr):
        h.check(s, 'gradient is the mean weight error', value_of(h, s, gr, g) * z3.ToReal(q.n) == q.sum(q.n))
    p, new = optimizer(h, 'calculateWeightsChange', reg, w, gradient)
    st, _ = h.call1(st, o, 'FullyConnectedLayer', 'apply', p)
    f = fields(st, o)
    h.check(st, 'the weights become the adjusted weights at the layer\'s precision', f['weights'] == M(new, bits))
    h.check(st, 'all errors are consumed', f['weights_errors'].len == 0)
    h.check(st, 'registration and precision kept', z3.And(f['registration_id'] == reg, f['bits'] == bits))


# ---- layers without parameters
def flat_offset(h, a, g):
    """position of an element in the flattened row, with the facts (products of non-negative factors) that bound it"""
    T = h.T
    M = T.cols(a) * T.rows(a)
    off = g[2] * M + g[0] * T.cols(a) + g[1]
    facts = [(T.chans(a) - 1 - g[2]) * M >= 0, g[2] * M >= 0, (T.rows(a) - 1 - g[0]) * T.cols(a) >= 0, g[0] * T.cols(a) >= 0, M >= 0]
    # a quotient that differs by one or more differs by a divisor or more
    for num, den, quo in ((off, M, g[2]), (g[0] * T.cols(a) + g[1], T.cols(a), g[0])):
        q = num / den
        facts += [z3.Implies(q >= quo + 1, (q - quo - 1) * den >= 0), z3.Implies(q <= quo - 1, (quo - 1 - q) * den >= 0)]
    return off, facts


@unit('FlattenLayer', 'C12', mode='real')
def flatten(h):
    T = h.T
    a = h.tensor('a', nonempty=True)
    g = cell(h, h.st, a)
    st, o, _ = h.new1('FlattenLayer', [], [])
    st, v = h.call1(st, o, 'FlattenLayer', 'forward', h.box(st, vec1(a)), h.var('forTraining', BOOL))
    d = dims_of(h, st, v)
    n = T.cols(a) * T.rows(a) * T.chans(a)
    h.check(st, 'one row with every element', z3.And(d[0] == 1, d[1] == n, d[2] == 1))
    off, facts = flat_offset(h, a, g)
    for x in facts:
        st.assume(x)
    st, x = h.call1(st, v, 'BaseTensor', 'getValue', z3.IntVal(0), off, z3.IntVal(0))
    h.check(st, 'row after row, channel after channel', x == T.val(a, *g))
    e = T.new('error', st, nonempty=True)
    with_shape(h, st, e, (z3.IntVal(1), n, z3.IntVal(1)))
    st, w = h.call1(st, o, 'FlattenLayer', 'backward', e)
    r = only(h, st, w)
    st = same_as(h, st, r, a, 'error')
    st, y = at(h, st, r, g)
    h.check(st, 'each error returns to its element', y == T.val(e, 0, off, 0))


@unit('DropoutLayer', 'C12', mode='real')
def dropout(h):
    T = h.T
    a = h.tensor('a', nonempty=True)
    g = cell(h, h.st, a)
    rate = h.flt('dropout_rate')
    h.st.assume(z3.And(rate >= 0, rate <= 1))
    rnd = T.new('random', h.st, nonempty=True)
    with_shape(h, h.st, rnd, (T.rows(a), T.cols(a), T.chans(a)))
    h.E.contracts[('TensorFromRandom', '<new>')] = lambda E, fr, st, args: [(st, rnd)]
    sh = shape_vec(T.rows(a), T.cols(a), T.chans(a))
    st, o, th = h.new1('DropoutLayer', [h.var('label', STR), sh, rate], [STR, VS, F32])
    h.check(st, 'rates between 0 and 1 are accepted', z3.BoolVal(not [x for x in th if h.E.feasible(x[0].pc)]))
    s = st.copy()
    s, v = h.call1(s, o, 'DropoutLayer', 'forward', h.box(s, vec1(a)), z3.BoolVal(False))
    s = same_as(h, s, v, a)
    s, x = at(h, s, v, g)
    h.check(s, 'predicting scales by the share that is kept', x == T.val(a, *g) * (1 - rate))
    st, v = h.call1(st, o, 'DropoutLayer', 'forward', h.box(st, vec1(a)), z3.BoolVal(True))
    st = same_as(h, st, v, a)
    st, x = at(h, st, v, g)
    h.check(st, 'training keeps or drops the element', z3.Or(x == T.val(a, *g), x == 0))
    keep = T.val(rnd, *g) > rate
    h.check(st, 'it is kept where the random number exceeds the rate', z3.Implies(T.val(rnd, *g) != rate, x == z3.If(keep, T.val(a, *g), R0)))
    e = T.new('error', st, nonempty=True)
    with_shape(h, st, e, (T.rows(a), T.cols(a), T.chans(a)))
    st, w = h.call1(st, o, 'DropoutLayer', 'backward', e)
    r = only(h, st, w)
    st = same_as(h, st, r, a, 'error')
    st, y = at(h, st, r, g)
    h.check(st, 'the error passes exactly the elements kept', z3.Implies(T.val(rnd, *g) != rate, y == z3.If(keep, T.val(e, *g), R0)))


def concat_layer(h, n):
    """n inputs with the same rows and channels"""
    T = h.T
    xs = [h.tensor('input%d' % i, nonempty=True) for i in range(n)]
    for x in xs[1:]:
        h.st.assume(z3.And(T.rows(x) == T.rows(xs[0]), T.chans(x) == T.chans(xs[0])))
    h.st.assume(sum((T.cols(x) for x in xs), z3.IntVal(0)) <= 1 << 40)
    arr = z3.K(Z, h.E.th.to_z3(shape_vec(), VS))
    for i, x in enumerate(xs):
        arr = z3.Store(arr, i, h.E.th.to_z3(shape_vec(T.rows(x), T.cols(x), T.chans(x)), VS))
    st, o, _ = h.new1('ConcatenateWideLayer', [h.var('label', STR), VecV(VS, z3.IntVal(n), arr)], [STR, ('vec', VS)])
    return st, o, xs


for n in (2, 3, 4):
    def mk(n=n):
        @unit('ConcatenateWideLayer with %d inputs' % n, 'C12', mode='real', kind='bounded', note='the number of inputs is enumerated up to 4')
        def concat(h):
            T = h.T
            st, o, xs = concat_layer(h, n)
            st, v = h.call1(st, o, 'ConcatenateWideLayer', 'forward', h.box(st, vec1(*xs)), h.var('forTraining', BOOL))
            total = sum((T.cols(x) for x in xs), z3.IntVal(0))
            d = dims_of(h, st, v)
            h.check(st, 'as wide as all inputs together', z3.And(d[0] == T.rows(xs[0]), d[1] == total, d[2] == T.chans(xs[0])))
            e = T.new('error', st, nonempty=True)
            with_shape(h, st, e, (T.rows(xs[0]), total, T.chans(xs[0])))
            st, w = h.call1(st, o, 'ConcatenateWideLayer', 'backward', e)
            h.check(st, 'one error per input', w.len == n)
            start = z3.IntVal(0)
            for i, x in enumerate(xs):
                s = st.copy()
                g = cell(h, s, x, 'g%d' % i)
                s, y = h.call1(s, v, 'BaseTensor', 'getValue', g[0], start + g[1], g[2])
                h.check(s, 'input %d in its columns' % i, y == T.val(x, *g))
                r = select(w.arr, i)
                s = same_as(h, s, r, x, 'error of input %d' % i)
                s, y = at(h, s, r, g)
                h.check(s, 'error of input %d is that of its columns' % i, y == T.val(e, g[0], start + g[1], g[2]))
                start = start + T.cols(x)
    mk()


# ---- 2d convolution; the number of filters and input channels is enumerated, everything else is arbitrary
A1 = z3.ArraySort(Z, z3.RealSort())
A2 = z3.ArraySort(Z, A1)


I_, J_ = z3.Int('i!im'), z3.Int('j!im')


def image(f):
    return z3.Lambda([I_], z3.Lambda([J_], z3.simplify(f(I_, J_))))


def image_of(h, st, p, channel):
    """a channel of the tensor p as a function of row and column (what it says outside the tensor is irrelevant to a correlation)"""
    d = dims_of(h, st, p)
    st = st.copy()
    st.assume(z3.And(I_ >= 0, J_ >= 0, I_ < d[0], J_ < d[1]))
    return image(lambda i, j: value_of(h, st, p, (i, j, channel)))


def correlations(h):
    """elements of the two correlations by their contracts (C06); a full one is written as the valid one over its zero padded left operand"""
    fs = {nm: z3.Function(nm + '_correlation', A2, A2, Z, Z, Z, Z, z3.RealSort()) for nm in ('valid', 'full')}
    full = ('Full2DCrossCorrelationTensorView', 'Full2DConvolveTensorView')

    def c(E, fr, st, this, args):
        cls, f = st.heap[as_int_const(z3.simplify(this))]
        l, r = f['left_child_'], f['right_child_']
        if cls in full:
            pad = st.heap[as_int_const(z3.simplify(l))]
            if pad[0] != 'ZeroPadTensorView':
                return None
            l = pad[1]['child_']
        a = [E.val(st, x) for x in args]
        d = dims_of(h, st, r)
        return [(st, fs['full' if cls in full else 'valid'](image_of(h, st, l, a[2]), image_of(h, st, r, a[2]), a[0], a[1], d[0], d[1]))]
    for cls in ('Valid2DCrossCorrelationTensorView',) + full:
        h.E.contracts[(cls, 'getValue')] = c
    return fs['valid'], fs['full']


def conv_layer(h, filters, depth, l2):
    T = h.T
    K = h.size('kernel', 1, 1 << 20)
    R, C = h.size('input_rows', 1, 1 << 30), h.size('input_columns', 1, 1 << 30)
    h.st.assume(z3.And(K <= R, K <= C))
    ws = []
    for i in range(filters):
        w = h.tensor('weights%d' % i, nonempty=True)
        with_shape(h, h.st, w, (K, K, z3.IntVal(depth)))
        ws.append(w)
    left = list(ws)

    def xavier(E, fr, st, args):
        a = [E.val(st, x) for x in args]
        E.check(st, 'kernels are square and as deep as the input', z3.And(a[0] == K, a[1] == K, a[2] == depth))
        if not left:
            raise Unsupported('more kernels than filters')
        return [(st, left.pop(0))]
    h.E.contracts[('TensorFromXavier', '<new>')] = xavier
    reg, bits, strength = h.integer('registration_id'), h.var('bits', U8), h.flt('regularization_strength')
    h.st.assume(z3.And(reg >= 0, reg < 1 << 30))
    st, o, _ = h.new1('Convolution2dValidFunction', [h.var('label', STR), shape_vec(R, C, z3.IntVal(depth)), z3.IntVal(filters), K, bits, reg, z3.BoolVal(l2), strength],
                      [STR, VS, SIZE, SIZE, U8, INT, BOOL, F32])
    h.check(st, 'one kernel per filter', z3.And(fields(st, o)['weights'].len == filters, *[z3.Select(fields(st, o)['weights'].arr, i) == w for i, w in enumerate(ws)]))
    return st, o, ws, K, (R, C, z3.IntVal(depth)), reg, bits, strength


def conv_units(filters, depth, batch=1):
    tag = '%d filter%s over %d channel%s' % (filters, 's' * (filters > 1), depth, 's' * (depth > 1))
    if batch > 1:
        tag += ', %d inputs' % batch
    note = 'the numbers of filters, channels and inputs of a batch are enumerated'
    once = unit if batch == 1 else lambda *a, **k: lambda f: f

    @once('Convolution2dValidFunction::forward (%s)' % tag, 'C12', mode='real', kind='bounded', note=note)
    def fwd(h):
        T = h.T
        X, _ = correlations(h)
        st, o, ws, K, shape, reg, bits, strength = conv_layer(h, filters, depth, False)
        a = T.new('a', st, nonempty=True)
        with_shape(h, st, a, shape)
        n = h.size('queued', 0, 1 << 20)
        arr = z3.Const('lastInputs', z3.ArraySort(Z, Z))
        set_field(st, o, lastInputs=VecV(fields(st, o)['lastInputs'].et, n, arr))
        for train in (True, False):
            s = st.copy()
            s, v = h.call1(s, o, 'Convolution2dValidFunction', 'forward', h.box(s, vec1(a)), z3.BoolVal(train))
            d = dims_of(h, s, v)
            h.check(s, 'shape of the output', z3.And(d[0] == shape[0] - K + 1, d[1] == shape[1] - K + 1, d[2] == filters))
            r, c = h.size('r'), h.size('c')
            s.assume(z3.And(r >= 0, c >= 0, r <= shape[0] - K, c <= shape[1] - K))
            for f in range(filters):
                s2, x = h.call1(s.copy(), v, 'BaseTensor', 'getValue', r, c, z3.IntVal(f))
                want = sum((X(image(lambda i, j, l=l: T.val(a, i, j, l)), image(lambda i, j, l=l: T.val(ws[f], i, j, l)), r, c, K, K) for l in range(depth)), R0)
                h.check(s2, 'output channel %d is the correlation with filter %d' % (f, f), x == want)
            q = fields(s, o)['lastInputs']
            h.check(s, 'the input is remembered exactly when training', z3.And(q.len == n + 1, z3.Select(q.arr, n) == a) if train else q.len == n)

    for l2 in (False, True):
        @unit('Convolution2dValidFunction::backward (%s%s)' % (tag, ', L2 regularization' if l2 else ''), 'C12', mode='real', kind='bounded', note=note)
        def back(h, l2=l2):
            T = h.T
            X, FX = correlations(h)
            frozen(h)
            st, o, ws, K, shape, reg, bits, strength = conv_layer(h, filters, depth, l2)
            xs = [T.new('a%d' % i, st, nonempty=True) for i in range(batch)]
            for a in xs:
                with_shape(h, st, a, shape)
            set_field(st, o, lastInputs=VecV(fields(st, o)['lastInputs'].et, z3.IntVal(batch), vec1(*xs).arr))
            mean = lambda i, j, l: sum((T.val(a, i, j, l) for a in xs[1:]), T.val(xs[0], i, j, l)) / batch if batch > 1 else T.val(xs[0], i, j, l)
            e = T.new('error', st, nonempty=True)
            with_shape(h, st, e, (shape[0] - K + 1, shape[1] - K + 1, z3.IntVal(filters)))
            st, v = h.call1(st, o, 'Convolution2dValidFunction', 'backward', e)
            ie = only(h, st, v)
            d = dims_of(h, st, ie)
            h.check(st, 'input error has the shape of the input', z3.And(d[0] == shape[0], d[1] == shape[1], d[2] == depth))
            r, c = h.size('r'), h.size('c')
            s = st.copy()
            s.assume(z3.And(r >= 0, c >= 0, r < shape[0], c < shape[1]))
            for l in range(depth):
                s2, x = h.call1(s.copy(), ie, 'BaseTensor', 'getValue', r, c, z3.IntVal(l))
                want = sum((FX(image(lambda i, j, f=f: T.val(e, i, j, f)), image(lambda i, j, f=f: T.val(ws[f], K - i - 1, K - j - 1, l)), r, c, K, K) for f in range(filters)), R0)
                h.check(s2, 'input error of channel %d' % l, x == want)
            f_ = fields(st, o)
            h.check(st, 'the input is consumed', f_['lastInputs'].len == 0)
            wc = f_['weight_changes']
            h.check(st, 'one set of weight changes', wc.len == 1)
            changes = h.E.th.from_z3(select(wc.arr, 0), wc.et)
            h.check(st, 'one change per filter', changes.len == filters)
            i, j = h.size('i'), h.size('j')
            st.assume(z3.And(i >= 0, j >= 0, i < K, j < K))
            for f in range(filters):
                p = select(z3.simplify(changes.arr), f)
                d = dims_of(h, st, p)
                h.check(st, 'change of filter %d has the shape of its weights' % f, z3.And(d[0] == K, d[1] == K, d[2] == depth))
                for l in range(depth):
                    s2, x = h.call1(st.copy(), p, 'BaseTensor', 'getValue', i, j, z3.IntVal(l))
                    want = X(image(lambda y, x_: mean(y, x_, l)), image(lambda y, x_: T.val(e, y, x_, f)), i, j, T.rows(e), T.cols(e))
                    if l2:
                        want = want + strength * T.val(ws[f], i, j, l)
                    h.check(s2, 'weight change of filter %d channel %d' % (f, l), x == want)

    @once('Convolution2dValidFunction::apply (%s)' % tag, 'C12', mode='real', kind='bounded', note=note)
    def app(h):
        T = h.T
        M = stored(h)
        st, o, ws, K, shape, reg, bits, strength = conv_layer(h, filters, depth, False)
        ch = []
        for f in range(filters):
            w = T.new('change%d' % f, st, nonempty=True)
            with_shape(h, st, w, (K, K, z3.IntVal(depth)))
            ch.append(w)
        wc = fields(st, o)['weight_changes']
        entry = h.E.th.to_z3(VecV(PT, z3.IntVal(filters), vec1(*ch).arr), wc.et)
        set_field(st, o, weight_changes=VecV(wc.et, z3.IntVal(1), z3.Store(z3.K(Z, entry), 0, entry)))
        N = z3.Function('adjusted', Z, Z, Z)

        def call(E, fr, s, this, d, args):
            if d['name'] not in ('calculateWeightsChange', 'calculateBiasChange'):
                return None
            i, w, gr = [z3.simplify(E.val(s, x)) for x in args]
            h.check(s, 'asks for the right kind of change', z3.BoolVal(d['name'] == 'calculateWeightsChange'))
            h.check(s, 'under its registration', i == reg)
            r = N(w, gr)
            with_shape(h, s, r, (K, K, z3.IntVal(depth)))
            return [(s, r)]
        h.E.absclass['BaseOptimizer'] = call
        p = z3.Int('optimizer')
        st.assume(z3.And(p > 2000, p < 3000))
        st, _ = h.call1(st, o, 'Convolution2dValidFunction', 'apply', p)
        f_ = fields(st, o)
        h.check(st, 'still one kernel per filter', f_['weights'].len == filters)
        for f in range(filters):
            h.check(st, 'weights of filter %d step along their own change, at the layer\'s precision' % f, select(z3.simplify(f_['weights'].arr), f) == M(N(ws[f], ch[f]), bits))
        h.check(st, 'the changes are consumed', f_['weight_changes'].len == 0)


for _f, _d in ((1, 1), (2, 1), (1, 2), (3, 2)):
    conv_units(_f, _d)
conv_units(1, 1, 2)
conv_units(2, 1, 3)
