"""C09 activation functions, C10 loss functions, C11 optimizers (floats as reals)."""
import struct
from fractions import Fraction
from ..unit import *
from .views import shape_of, PT

R0, R1 = z3.RealVal(0), z3.RealVal(1)


def f32(x):
    """the real number a float literal denotes"""
    return z3.RealVal(Fraction(struct.unpack('f', struct.pack('f', x))[0]))


def cell(h, st, a, name='g'):
    g = tuple(h.size(name + '_' + x) for x in ('row', 'column', 'channel'))
    st.assume(h.T.inb(a, *g))
    return g


def same_as(h, st, v, a, what='result'):
    st, (n, m, q) = shape_of(h, st, v)
    h.check(st, what + ' has the rows of the input', n == h.T.rows(a))
    h.check(st, what + ' has the columns of the input', m == h.T.cols(a))
    h.check(st, what + ' has the channels of the input', q == h.T.chans(a))
    return st


def at(h, st, v, g):
    return h.call1(st, v, 'BaseTensor', 'getValue', *g)


def positive_exp(h):
    h.E.axgens['m_exp64'] = lambda x: [x > 0]


def exp(h, x):
    return h.E.th.fmath('exp', 64, x)


def rabs(x):
    return z3.If(x >= 0, x, -x)


def activation(cls, f, df):
    for which, fn in (('activate', f), ('derivative', df)):
        def mk(which=which, fn=fn):
            @unit('%s::%s' % (cls, which), 'C09', mode='real')
            def u(h):
                a = h.tensor('a')
                g = cell(h, h.st, a)
                positive_exp(h)
                st, o, _ = h.new1(cls, [], [])
                st, v = h.call1(st, o, cls, which, a)
                st = same_as(h, st, v, a)
                st, x = at(h, st, v, g)
                h.check(st, 'value', x == fn(h, h.T.val(a, *g)))
        mk()


def sigmoid(h, x):
    return R1 / (R1 + exp(h, -x))


def softsign(h, x):
    return z3.RealVal('1/2') * (x / (1 + rabs(x)) + 1)


def tanh_(h, x):
    return h.E.th.fmath('tanh', 64, x)


def tanh2(h, x):
    return 2 * sigmoid(h, 2 * x) - 1


def slope(f):
    return lambda h, x: f(h, x) * (1 - f(h, x))


activation('ReLUActivationFunction', lambda h, x: z3.If(x > 0, x, R0), lambda h, x: z3.If(x > 0, R1, R0))
activation('LeakyReLUActivationFunction', lambda h, x: z3.If(x >= 0, x, f32(0.01) * x), lambda h, x: z3.If(x >= 0, R1, f32(0.01)))
activation('LinearActivationFunction', lambda h, x: x, lambda h, x: R1)
activation('SigmoidActivationFunction', sigmoid, slope(sigmoid))
activation('SigmoidApproximationActivationFunction', softsign, slope(softsign))
activation('TanhActivationFunction', tanh_, lambda h, x: 1 - tanh_(h, x) * tanh_(h, x))
activation('TanhApproximationActivationFunction', tanh2, lambda h, x: 1 - tanh2(h, x) * tanh2(h, x))


@unit('SoftmaxActivationFunction::activate', 'C09', mode='real')
def softmax(h):
    E, T = h.E, h.T
    a = h.tensor('a', nonempty=True)
    g = cell(h, h.st, a)
    positive_exp(h)
    mx = z3.Real('max')
    total = z3.Real('total')
    seen = []

    def c_max(E, fr, st, this, args):
        E.check(st, 'the maximum is taken of the input', this == a)
        return [(st, mx)]

    # contract of sum() (C07): the sum of every element; here of exp(x - max), a sum of positive numbers over a non-empty tensor
    def c_sum(E, fr, st, this, args):
        s = same_as(h, st.copy(), this, a, 'summed tensor')
        s, x = at(h, s, this, g)
        h.check(s, 'summed element', x == exp(h, T.val(a, *g) - mx))
        st.assume(total > 0)
        return [(st, total)]
    E.contracts[('BaseTensor', 'max')] = c_max
    E.contracts[('BaseTensor', 'sum')] = c_sum
    st, o, _ = h.new1('SoftmaxActivationFunction', [], [])
    st, v = h.call1(st, o, 'SoftmaxActivationFunction', 'activate', a)
    st = same_as(h, st, v, a)
    st, x = at(h, st, v, g)
    h.check(st, 'value', x == exp(h, T.val(a, *g) - mx) / total)


@unit('SoftmaxActivationFunction::derivative', 'C09', mode='real')
def softmax_d(h):
    # categorical cross entropy's derivative (prediction - truth) is by the input of softmax already: the factor here is one
    a = h.tensor('a')
    g = cell(h, h.st, a)
    st, o, _ = h.new1('SoftmaxActivationFunction', [], [])
    st, v = h.call1(st, o, 'SoftmaxActivationFunction', 'derivative', a)
    st = same_as(h, st, v, a)
    st, x = at(h, st, v, g)
    h.check(st, 'value', x == R1)


# ---- C10 losses
def loss(cls):
    """(harness) -> truth, prediction (same shape), ghost cell, the loss object"""
    def start(h):
        T = h.T
        t, p = h.tensor('truth', nonempty=True), h.tensor('prediction', nonempty=True)
        h.st.assume(z3.And(T.rows(t) == T.rows(p), T.cols(t) == T.cols(p), T.chans(t) == T.chans(p)))
        g = cell(h, h.st, t)
        st, o, _ = h.new1(cls, [], [])
        return st, o, t, p, g
    return start


def by_ref(h, st, x):
    return h.box(st, x)


def clip(x):
    lo, hi = f32(1e-8), R1 - f32(1e-8)
    return z3.If(x < lo, lo, z3.If(x > hi, hi, x))


def log_(h, x):
    return h.E.th.fmath('log', 64, x)


def element(cls, method, value, pre=None, extra_args=()):
    @unit('%s::%s' % (cls, method), 'C10', mode='real')
    def u(h):
        T = h.T
        st, o, t, p, g = loss(cls)(h)
        x, y = T.val(t, *g), T.val(p, *g)
        if pre:
            st.assume(pre(x, y))
        if method == 'compute_error':
            st, v = h.call1(st, o, cls, method, t, p)
        else:
            st, e = h.call1(st, o, cls, 'compute_error', t, p)
            st, v = h.call1(st, o, cls, method, e, t, p)
        st = same_as(h, st, v, t)
        st, r = at(h, st, v, g)
        h.check(st, 'value', value(h, x, y, r))


def eq(f):
    return lambda h, x, y, r: r == f(h, x, y)


def sign(x):
    return z3.If(x > 0, R1, z3.If(x < 0, -R1, R0))


MSE, MAE, SMAE = 'MeanSquaredErrorLossFunction', 'MeanAbsoluteErrorLossFunction', 'SmoothMeanAbsoluteErrorLossFunction'
BCE, CCE = 'BinaryCrossEntropyLossFunction', 'CategoricalCrossEntropyLossFunction'
HALF = z3.RealVal('1/2')
element(MSE, 'compute_error', eq(lambda h, x, y: y - x))
element(MSE, 'compute_loss_derivative', eq(lambda h, x, y: 2 * (y - x)))
element(MAE, 'compute_error', eq(lambda h, x, y: rabs(y - x)))
element(MAE, 'compute_loss_derivative', eq(lambda h, x, y: sign(y - x)))
element(SMAE, 'compute_error', eq(lambda h, x, y: z3.If(rabs(y - x) < 1, HALF * (y - x) * (y - x), rabs(y - x) - HALF)))
element(SMAE, 'compute_loss_derivative', eq(lambda h, x, y: z3.If(rabs(y - x) < 1, y - x, sign(y - x))))
inside = lambda x, y: z3.And(y > 0, y < 1)
element(BCE, 'compute_error', eq(lambda h, x, y: -(x * log_(h, clip(y)) + (1 - x) * log_(h, clip(1 - y)))))
element(BCE, 'compute_loss_derivative', lambda h, x, y, r: r * (y * (1 - y)) == y - x, inside)
element(CCE, 'compute_error', eq(lambda h, x, y: -x * log_(h, clip(y))))
element(CCE, 'compute_loss_derivative', eq(lambda h, x, y: y - x))


def total(cls, member, fn, post):
    """compute_loss reduces the whole error tensor once, through the contract of the reduction (C07)"""
    @unit('%s::compute_loss' % cls, 'C10', mode='real')
    def u(h):
        E, T = h.E, h.T
        e = h.tensor('error', nonempty=True)
        g = cell(h, h.st, e)
        red = {m: z3.Real(m) for m in ('sum', 'arithmeticMean')}
        n = z3.ToReal(T.rows(e) * T.cols(e) * T.chans(e))
        h.st.assume(n >= 1)
        h.st.assume(red['arithmeticMean'] * n == red['sum'])
        for m in red:
            def c(E, fr, st, this, args, m=m):
                s = same_as(h, st.copy(), this, e, 'reduced tensor')
                s, x = at(h, s, this, g)
                h.check(s, 'reduced element', x == fn(T.val(e, *g)))
                return [(st, red[m])]
            E.contracts[('BaseTensor', m)] = c
        st, o, _ = h.new1(cls, [], [])
        st, r = h.call1(st, o, cls, 'compute_loss', e)
        h.check(st, 'value', post(r, red['sum'], n))


mean = lambda r, s, n: r * n == s
whole = lambda r, s, n: r == s
total(MSE, 'arithmeticMean', lambda x: x * x, mean)
total(MAE, 'arithmeticMean', lambda x: x, mean)
total(SMAE, 'sum', lambda x: x, mean)
total(BCE, 'sum', lambda x: x, whole)
total(CCE, 'sum', lambda x: x, whole)


# ---- C11 optimizers
def frozen(h):
    """materializeTensor by its contract (C08): at 32 bit it is the same shape and elements, which an abstract value cannot tell from the tensor itself"""
    def c(E, fr, st, this, args):
        if len(args) > 1 and as_int_const(E.val(st, args[1])) not in (None, 32):
            return None
        return [(st, E.val(st, args[0]))]
    h.E.contracts[(None, 'materializeTensor')] = c


def fields(st, o):
    return st.heap[as_int_const(o)][1]


def symbolic_map(h, st, o, name, key, known, tensor=None):
    """put the optimizer into an arbitrary earlier state: the map knows `key` (with `tensor`) or does not"""
    f = fields(st, o)
    m = f[name]
    dom = z3.Const(name + '_dom', m.dom.sort())
    val = z3.Const(name + '_val', m.val.sort())
    size = z3.Int(name + '_size')
    st.assume(size >= 0)
    st.assume(z3.Select(dom, key) == known)
    if known:
        st.assume(size >= 1)
        val = z3.Store(val, key, tensor)
        dom = z3.Store(dom, key, z3.BoolVal(True))
    else:
        dom = z3.Store(dom, key, z3.BoolVal(False))
    st.heap[as_int_const(o)] = (st.heap[as_int_const(o)][0], dict(f, **{name: MapV(m.t, dom, val, size)}))
    return dom, val


def set_field(st, o, **kw):
    c, f = st.heap[as_int_const(o)]
    assert all(k in f for k in kw), (kw, sorted(f))
    st.heap[as_int_const(o)] = (c, dict(f, **kw))


def demon_contract(h, cls):
    used = []

    def c(E, fr, st, this, args):
        r = z3.Const(E.th.fresh_name('demon'), z3.RealSort())
        st.assume(r >= f32(1e-5))
        st.assume(r <= f32(1e-1))
        used.append(r)
        return [(st, r)]
    h.E.contracts[(cls, 'calculateDemonAdjustedLearnRate')] = c
    return used


def step_setup(h, cls, decay=None):
    T = h.T
    p, g = h.tensor('parameters', nonempty=True), h.tensor('gradient', nonempty=True)
    st = h.st
    st.assume(z3.And(T.rows(p) == T.rows(g), T.cols(p) == T.cols(g), T.chans(p) == T.chans(g)))
    c = cell(h, st, p)
    lr, blr = h.flt('learningRate'), h.flt('biasLearningRate')
    st.assume(z3.And(lr > 0, blr > 0))
    key = h.integer('registration_id')
    args, types = [lr, blr], [F32, F32]
    if decay is not None:
        args.append(z3.BoolVal(decay))
        types.append(BOOL)
    st, o, _ = h.new1(cls, args, types)
    ts = h.integer('time_step')
    st.assume(z3.And(ts >= 0, ts < 1 << 30))
    set_field(st, o, time_step=ts)
    return st, o, p, g, c, lr, blr, key, ts


for which, rate in (('calculateWeightsChange', 0), ('calculateBiasChange', 1)):
    def mk(which=which, rate=rate):
        @unit('MBGDOptimizer::' + which, 'C11', mode='real')
        def u(h):
            T = h.T
            st, o, p, g, c, lr, blr, key, ts = step_setup(h, 'MBGDOptimizer')
            st, v = h.call1(st, o, 'MBGDOptimizer', which, key, p, g)
            st = same_as(h, st, v, p)
            st, x = at(h, st, v, c)
            h.check(st, 'value', x == T.val(p, *c) - (blr if rate else lr) * T.val(g, *c))
    mk()


def momentum(which, rate, mname, other, last, known, decay):
    tag = '%s (%s, %s learning rate)' % (which, 'known layer' if known else 'first step of a layer', 'decaying' if decay else 'fixed')

    @unit('SGDMOptimizer::' + tag, 'C11', mode='real')
    def u(h):
        T = h.T
        frozen(h)
        st, o, p, g, c, lr, blr, key, ts = step_setup(h, 'SGDMOptimizer', decay)
        m = h.T.new('momentum', st)
        st.assume(z3.And(T.rows(p) == T.rows(m), T.cols(p) == T.cols(m), T.chans(p) == T.chans(m)))
        dom, val = symbolic_map(h, st, o, mname, key, known, m)
        # the same id may be known among the other kind of parameters, with any momentum
        m2 = h.T.new('other_momentum', st)
        st.assume(z3.And(T.rows(p) == T.rows(m2), T.cols(p) == T.cols(m2), T.chans(p) == T.chans(m2)))
        symbolic_map(h, st, o, other, key, True, m2)
        demon_contract(h, 'SGDMOptimizer')
        before = fields(st, o)[other]
        st, v = h.call1(st, o, 'SGDMOptimizer', which, key, p, g)
        prev = T.val(m, *c) if known else R0
        rate_ = blr if rate else lr
        new = f32(0.9) * prev + rate_ * T.val(g, *c)
        st = same_as(h, st, v, p)
        st, x = at(h, st, v, c)
        h.check(st, 'value', x == T.val(p, *c) - new)
        f = fields(st, o)
        mp = f[mname]
        h.check(st, 'momentum is remembered', z3.Select(mp.dom, key))
        mo = z3.simplify(z3.Select(mp.val, key))
        st = same_as(h, st, mo, p, 'remembered momentum')
        st, x = at(h, st, mo, c)
        h.check(st, 'remembered momentum', x == new)
        k2 = h.integer('another_id')
        st.assume(k2 != key)
        h.check(st, 'other layers keep their momentum', z3.And(z3.Select(mp.dom, k2) == z3.Select(dom, k2), z3.Select(mp.val, k2) == z3.Select(val, k2)))
        h.check(st, 'the other kind of momentum is untouched', z3.And(f[other].dom == before.dom, f[other].val == before.val))
        a, b = ('biasLearningRate', 'learningRate') if rate else ('learningRate', 'biasLearningRate')
        now, was = (blr, lr) if rate else (lr, blr)
        h.check(st, 'the other learning rate is unchanged', f[b] == was)
        if decay:
            h.check(st, 'learning rate changes only within its limits', z3.Or(f[a] == now, z3.And(f[a] >= f32(1e-5), f[a] <= f32(1e-1))))
            h.check(st, 'at most one change per time step', z3.Implies(ts <= 1, f[a] == now))
        else:
            h.check(st, 'learning rate is unchanged', f[a] == now)


for args in (('calculateWeightsChange', 0, 'weight_momentum', 'bias_momentum', 'last_time_step_updated_weights'),
             ('calculateBiasChange', 1, 'bias_momentum', 'weight_momentum', 'last_time_step_updated_bias')):
    for kn in (True, False):
        for dc in (True, False):
            momentum(*args, kn, dc)


def adam(which, rate, names, others, known, decay):
    tag = '%s (%s, %s learning rate)' % (which, 'known layer' if known else 'first step of a layer', 'decaying' if decay else 'fixed')

    @unit('AdamOptimizer::' + tag, 'C11', mode='real')
    def u(h):
        T = h.T
        frozen(h)
        h.E.axgens['m_sqrt64'] = lambda x: [z3.Implies(x.arg(0) >= 0, z3.And(x >= 0, x * x == x.arg(0)))]
        st, o, p, g, c, lr, blr, key, ts = step_setup(h, 'AdamOptimizer', decay)
        ms = []
        for n in names:
            m = h.T.new(n, st)
            st.assume(z3.And(T.rows(p) == T.rows(m), T.cols(p) == T.cols(m), T.chans(p) == T.chans(m)))
            ms.append((m, symbolic_map(h, st, o, n, key, known, m)))
        # the two maps always know the same layers: both are written together
        st.assume(T.val(ms[1][0], *c) >= 0)
        for n in others:
            m2 = h.T.new(n, st)
            st.assume(z3.And(T.rows(p) == T.rows(m2), T.cols(p) == T.cols(m2), T.chans(p) == T.chans(m2)))
            symbolic_map(h, st, o, n, key, True, m2)
        demon_contract(h, 'AdamOptimizer')
        before = [fields(st, o)[x] for x in others]
        st, v = h.call1(st, o, 'AdamOptimizer', which, key, p, g)
        f = fields(st, o)
        gr = T.val(g, *c)
        pm, pv = [T.val(m, *c) if known else R0 for m, _ in ms]
        b1, b2, eps = f32(0.9), f32(0.999), f32(1e-8)
        m1 = b1 * pm + (1 - b1) * gr
        v1 = b2 * pv + (1 - b2) * (gr * gr)
        a, b = ('biasLearningRate', 'learningRate') if rate else ('learningRate', 'biasLearningRate')
        now, was = (blr, lr) if rate else (lr, blr)
        rate_ = f[a]
        st = same_as(h, st, v, p)
        for nm, nv, (m, (dom, val)), want in zip(('first moment', 'second moment'), names, ms, (m1, v1)):
            mp = f[nv]
            h.check(st, nm + ' is remembered', z3.Select(mp.dom, key))
            mo = z3.simplify(z3.Select(mp.val, key))
            st = same_as(h, st, mo, p, 'remembered ' + nm)
            st, x = at(h, st, mo, c)
            h.check(st, 'remembered ' + nm, x == want)
            k2 = h.integer('another_id')
            s2 = st.copy()
            s2.assume(k2 != key)
            h.check(s2, 'other layers keep their ' + nm, z3.And(z3.Select(mp.dom, k2) == z3.Select(dom, k2), z3.Select(mp.val, k2) == z3.Select(val, k2)))
        h.check(st, 'the other kind of moments is untouched', z3.And(*[z3.And(f[x].dom == y.dom, f[x].val == y.val) for x, y in zip(others, before)]))
        st, x = at(h, st, v, c)
        root = h.E.th.fmath('sqrt', 64, v1)
        q = z3.Real('step')
        s3 = st.copy()
        h.check(st, 'value', (x - T.val(p, *c)) * (root + 2 * eps) == -rate_ * m1)
        h.check(st, 'the other learning rate is unchanged', f[b] == was)
        if decay:
            h.check(st, 'learning rate changes only within its limits', z3.Or(f[a] == now, z3.And(f[a] >= f32(1e-5), f[a] <= f32(1e-1))))
            h.check(st, 'no change before the second time step', z3.Implies(ts <= 1, f[a] == now))
        else:
            h.check(st, 'learning rate is unchanged', f[a] == now)


for args in (('calculateWeightsChange', 0, ('weight_m', 'weight_v'), ('bias_m', 'bias_v')), ('calculateBiasChange', 1, ('bias_m', 'bias_v'), ('weight_m', 'weight_v'))):
    for kn in (True, False):
        for dc in (True, False):
            adam(*args, kn, dc)


def demon(cls, nmaps):
    @unit('%s::calculateDemonAdjustedLearnRate' % cls, 'C11', mode='real')
    def u(h):
        # average() of the moments is left open: any number; second moments are averages of squares
        n = [0]

        def avg(E, fr, st, this, args):
            n[0] += 1
            r = z3.Real('average%d' % n[0])
            if n[0] == 2:
                st.assume(r >= 0)
            return [(st, r)]
        h.E.contracts[(cls, 'average')] = avg
        h.E.axgens['m_sqrt64'] = lambda x: [z3.Implies(x.arg(0) >= 0, x >= 0)]
        h.E.axgens['m_pow64'] = lambda x: [z3.Implies(z3.And(x.arg(0) > 0, x.arg(0) < 1, x.arg(1) >= 1), z3.And(x > 0, x <= x.arg(0)))]
        st, o, p, g, c, lr, blr, key, ts = step_setup(h, cls, True)
        st.assume(ts >= 2)
        f = fields(st, o)
        ms = [f[x] for x in (('weight_m', 'weight_v') if nmaps == 2 else ('weight_momentum',))]
        st, r = h.call1(st, o, cls, 'calculateDemonAdjustedLearnRate', *ms)
        h.check(st, 'within the limits', z3.And(r >= f32(1e-5), r <= f32(1e-1)))


demon('SGDMOptimizer', 1)
demon('AdamOptimizer', 2)


def registration(cls):
    @unit(cls + '::registration', 'C11', mode='real')
    def u(h):
        st, o, p, g, c, lr, blr, key, ts = step_setup(h, cls, True)
        n = h.integer('next')
        st.assume(z3.And(n >= 0, n < 1 << 30))
        set_field(st, o, next_id=n)
        st, a = h.call1(st, o, cls, 'registerForWeightChanges')
        st, b = h.call1(st, o, cls, 'registerForBiasChanges')
        st, d = h.call1(st, o, cls, 'registerForWeightChanges')
        h.check(st, 'ids are never handed out twice', z3.And(a >= n, b > a, d > b, fields(st, o)['next_id'] > d))


registration('SGDMOptimizer')
registration('AdamOptimizer')


@unit('BaseOptimizer::update_time_step', 'C11', mode='real')
def tick(h):
    st, o, p, g, c, lr, blr, key, ts = step_setup(h, 'MBGDOptimizer')
    st, _ = h.call1(st, o, 'MBGDOptimizer', 'update_time_step')
    h.check(st, 'one step further', fields(st, o)['time_step'] == ts + 1)
    st, a = h.call1(st, o, 'MBGDOptimizer', 'getLearningRate')
    st, b = h.call1(st, o, 'MBGDOptimizer', 'getBiasLearningRate')
    h.check(st, 'learning rates as given', z3.And(a == lr, b == blr))
