"""C15 normalization: column statistics, what normalizing does with them, and that it can be undone."""
from ..unit import *
from .views import PT
from .reduce import ghost, regions, sums, partial, MEAN_ORDERS, R0, R1, sqrt_axiom
from .training import fields, set_field, same_as, at
from .datasets import details, NUM
from .layers import select

SV = ('ptr', ('cls', 'StandardizationAndNormalizationValues'))
VP = ('vec', PT)
F64 = ('float', 64)


def statistics(h, prior, start):
    """ctx templates for a running mean and sum of squared deviations; prior = (count, sum, sum of squares, lowest, highest)"""
    n0, s0, q0, lo, hi = prior
    g = ghost(h, h.st)
    fam = dict(cnt=sums(h, 'count', lambda x: R1, n0, lambda s, x: s + x),
               sum=sums(h, 'total', lambda x: x, s0, lambda s, x: s + x),
               sq=sums(h, 'squares', lambda x: x * x, q0, lambda s, x: s + x))
    if lo is not None:
        fam['lo'] = sums(h, 'lowest', lambda x: x, lo, lambda s, x: z3.If(x < s, x, s))
        fam['hi'] = sums(h, 'highest', lambda x: x, hi, lambda s, x: z3.If(s < x, x, s))

    def tmpl(ctx):
        out = []
        V = lambda st, r: ctx.rd(st, r)
        P = {k: dict((p, f) for p, f in fs) for k, fs in fam.items()}
        first = ctx.outer()[0]

        def starts(r, x):
            try:
                v = first.rd(first.entry, r)
            except Exception:
                return False
            return v is not None and x is not None and z3.eq(z3.simplify(v), z3.simplify(x))
        fl = ctx.floats()
        cs = [r for r in fl if starts(r, n0)]
        ms = [r for r in fl if starts(r, start[0])]
        ds = [r for r in fl if starts(r, start[1])]
        for c in cs:
            out.append(('%s >= 0' % ctx.name(c), lambda st, c=c: V(st, c) >= 0))
            for nm, reg in regions(h, ctx, g):
                out.append(('%s >= 1 once a cell was visited %s' % (ctx.name(c), nm), lambda st, c=c, reg=reg: z3.Implies(reg(st), V(st, c) >= 1)))
        for perm in MEAN_ORDERS:
            q = lambda st, k, perm=perm: partial(ctx, st, P[k][perm])
            for r in fl:
                for k, x in (('cnt', n0), ('lo', lo), ('hi', hi)):
                    if k in P and starts(r, x):
                        out.append(('%s is %s %r' % (ctx.name(r), k, perm), lambda st, r=r, k=k, q=q: V(st, r) == q(st, k)))
            # the count: a variable, or how many elements the loops passed
            counts = [(ctx.name(c), lambda st, c=c: V(st, c)) for c in cs]
            if len(ctx.outer()) == 1 and ctx.idx_roots:
                counts.append(('passed', lambda st: z3.ToReal(ctx.idx(st))))
            for nm, c in counts:
                for m in ms:
                    out.append(('%s * %s is sum %r' % (nm, ctx.name(m), perm), lambda st, c=c, m=m, q=q: c(st) * V(st, m) == q(st, 'sum')))
                    for d in ds:
                        if str(d) != str(m):
                            out.append(('%s is squares - %s * %s^2 %r' % (ctx.name(d), nm, ctx.name(m), perm),
                                        lambda st, c=c, m=m, d=d, q=q: V(st, d) == q(st, 'sq') - c(st) * V(st, m) * V(st, m)))
        return out
    h.E.invs.append(tmpl)
    z = z3.IntVal(0)
    return {k: dict(fs)[(2, 0, 1)](h.T.chans(h.a), z, z) for k, fs in fam.items()}


@unit('statistics of a column', 'C15', mode='real')
def column_statistics(h):
    """whatever was seen before: after another tensor the count, mean, squared deviations, smallest and largest are those of all values together"""
    st, o, _ = h.new1('StandardizationAndNormalizationValues', [], [])
    h.a = a = h.tensor('a', nonempty=True)
    h.st = st
    n0, s0, q0, m0, d0, lo, hi = (h.var(x, F64) for x in ('n0', 'sum0', 'squares0', 'mean0', 'M20', 'lo0', 'hi0'))
    st.assume(z3.And(n0 >= 0, n0 * m0 == s0, d0 == q0 - n0 * m0 * m0))
    set_field(st, o, total_elements=n0, mean_result=m0, M2=d0, min_value=lo, max_value=hi)
    w = statistics(h, (n0, s0, q0, lo, hi), (m0, d0))
    st, _ = h.callf1(st, 'update_standardization_normalization_values_calculation', o, a)
    f = fields(st, o)
    n, m = f['total_elements'], f['mean_result']
    h.check(st, 'count', n == w['cnt'])
    h.check(st, 'mean * count == sum', n * m == w['sum'])
    h.check(st, 'squared deviations', f['M2'] == w['sq'] - n * m * m)
    h.check(st, 'smallest', f['min_value'] == w['lo'])
    h.check(st, 'largest', f['max_value'] == w['hi'])
    h.check(st, 'standard deviation', f['standard_deviation'] == h.E.th.fmath('sqrt', 64, f['M2'] / n))


@unit('statistics of nothing', 'C15', mode='real')
def no_statistics(h):
    st, o, _ = h.new1('StandardizationAndNormalizationValues', [], [])
    f = fields(st, o)
    for k in ('total_elements', 'mean_result', 'M2', 'standard_deviation'):
        h.check(st, k, f[k] == 0)


def flat_fold(h, name, step):
    """fold over the flat offset: getValue(i) by its contract (C07: it is the element at that offset)"""
    f = z3.Function(name, Z, h.E.th.fsort(64))
    x = z3.Function('element', Z, h.E.th.fsort(32))
    h.E.recdefs[name] = lambda i: z3.If(i <= 0, R0, f(i - 1) + step(x(i - 1)))
    return f, x


@unit('StandardizeTensorView(tensor): its statistics', 'C15', mode='real')
def standardize_stats(h):
    E, T = h.E, h.T
    h.a = a = h.tensor('a', nonempty=True)
    n = T.rows(a) * T.cols(a) * T.chans(a)
    N = h.size('elements')
    h.st.assume(z3.And(N == n, N >= 1))
    s, x = flat_fold(h, 'flat_sum', lambda v: v)
    q, _ = flat_fold(h, 'flat_squares', lambda v: v * v)
    E.contracts[('BaseTensor', 'size')] = lambda E, fr, st, this, args: [(st, N)]

    def get(E, fr, st, this, args):
        if len(args) != 1:
            return None
        i = E.val(st, args[0])
        E.check(st, 'elements are read within the tensor', z3.And(i >= 0, i < N))
        return [(st, x(i))]
    E.contracts[('BaseTensor', 'getValue')] = get

    def tmpl(ctx):
        out = []
        fl = ctx.floats()
        V = lambda st, r: ctx.rd(st, r)
        if not ctx.idx_roots:
            return out
        k = lambda st: z3.ToReal(ctx.idx(st))
        out.append(('at most all were passed', lambda st: ctx.idx(st) <= N))
        for m in fl:
            out.append(('%s * passed is the sum' % ctx.name(m), lambda st, m=m: k(st) * V(st, m) == s(ctx.idx(st))))
            for d in fl:
                if str(d) != str(m):
                    out.append(('%s is squares - passed * %s^2' % (ctx.name(d), ctx.name(m)), lambda st, m=m, d=d: V(st, d) == q(ctx.idx(st)) - k(st) * V(st, m) * V(st, m)))
        return out
    E.invs.append(tmpl)
    st, v, _ = h.new1('StandardizeTensorView', [a], [PT])
    f = fields(st, v)
    R = z3.ToReal(N)
    h.check(st, 'mean * count == sum', f['mean_'] * R == s(N))
    var = h.var('variance', F64)
    st.assume(var * R == q(N) - R * f['mean_'] * f['mean_'])
    h.check(st, 'standard deviation', z3.If(var == 0, f['std_dev_'] == 1, f['std_dev_'] == E.th.fmath('sqrt', 64, var)))


def numbered(h, name):
    """column details with arbitrary numbers that can be divided by"""
    o = details(h, name, ordered_labels=VecV(STR, z3.IntVal(0), z3.K(Z, z3.Empty(z3.SeqSort(Z)))))
    return o


def forward(f, x):
    rng = f['max_value'] - f['min_value']
    y = z3.If(f['is_standardized'], (x - f['mean']) / f['standard_deviation'], x)
    return z3.If(f['is_normalized'], (y - f['min_value']) / z3.If(rng == 0, R1, rng), y)


def backward(f, x):
    y = z3.If(f['is_normalized'], x * (f['max_value'] - f['min_value']) + f['min_value'], x)
    return z3.If(f['is_standardized'], y * f['standard_deviation'] + f['mean'], y)


def wrapped(h, st, name, t, o):
    """call a function that takes a tensor by reference and returns it"""
    E = h.E
    lv = E.temp(st, t)
    st, r = h.callf1(st, name, lv, o)
    return st, z3.simplify(r)


@unit('normalizing by a column\'s numbers', 'C15', mode='real')
def normalizing(h):
    o = numbered(h, 'c')
    a = h.T.new('a', h.st, nonempty=True)
    f = fields(h.st, o)
    h.st.assume(f['standard_deviation'] != 0)
    g = tuple(h.size(x) for x in ('row', 'column', 'channel'))
    h.st.assume(h.T.inb(a, *g))
    st, v = wrapped(h, h.st, 'standardize_and_normalize', a, o)
    st = same_as(h, st, v, a)
    st, y = at(h, st, v, g)
    x = h.T.val(a, *g)
    h.check(st, 'standardized, then normalized', y == forward(f, x))
    h.check(st, 'the smallest value normalizes to 0', z3.Implies(z3.And(f['is_normalized'], z3.Not(f['is_standardized']), x == f['min_value']), y == 0))
    h.check(st, 'the largest value normalizes to 1', z3.Implies(z3.And(f['is_normalized'], z3.Not(f['is_standardized']), x == f['max_value'], x != f['min_value']), y == 1))
    h.check(st, 'values in between stay in between', z3.Implies(z3.And(f['is_normalized'], z3.Not(f['is_standardized']), x >= f['min_value'], x <= f['max_value']), z3.And(y >= 0, y <= 1)))
    # and back
    st, w = wrapped(h, st, 'unstandardize_and_denormalize', v, o)
    st = same_as(h, st, w, a, 'restored tensor')
    st, z = at(h, st, w, g)
    h.check(st, 'the value is restored', z3.Implies(z3.Or(z3.Not(f['is_normalized']), f['max_value'] != f['min_value'], z3.And(z3.Not(f['is_standardized']), x == f['min_value'])), z == x))


@unit('restoring by a column\'s numbers', 'C15', mode='real')
def restoring(h):
    o = numbered(h, 'c')
    a = h.T.new('a', h.st, nonempty=True)
    f = fields(h.st, o)
    g = tuple(h.size(x) for x in ('row', 'column', 'channel'))
    h.st.assume(h.T.inb(a, *g))
    st, v = wrapped(h, h.st, 'unstandardize_and_denormalize', a, o)
    st = same_as(h, st, v, a)
    st, y = at(h, st, v, g)
    h.check(st, 'denormalized, then unstandardized', y == backward(f, h.T.val(a, *g)))


@unit('renormalizing from one column\'s numbers to another\'s', 'C15', mode='real')
def renormalizing(h):
    E = h.E
    a = h.T.new('a', h.st, nonempty=True)
    F = [{k: (h.var('%s_%s' % (w, k), BOOL) if k.startswith('is_') else h.flt('%s_%s' % (w, k))) for k in NUM} for w in ('from', 'to')]
    h.st.assume(F[1]['standard_deviation'] != 0)
    g = tuple(h.size(x) for x in ('row', 'column', 'channel'))
    h.st.assume(h.T.inb(a, *g))
    E.contracts[(None, 'materializeTensor')] = lambda E, fr, st, this, args: [(st, E.val(st, args[0]))]
    st, v = h.callf1(h.st, 'renormalizeAndStandardize', E.temp(h.st, a), *[F[0][k] for k in NUM], *[F[1][k] for k in NUM])
    v = z3.simplify(v)
    st = same_as(h, st, v, a)
    st, y = at(h, st, v, g)
    h.check(st, 'back by the first numbers, forth by the second', y == forward(F[1], backward(F[0], h.T.val(a, *g))))


KEPT = ('purpose', 'rows', 'columns', 'channels', 'name', 'source_column_count')


def whole_dataset(g, e, purposes, nrows):
    @unit('normalizing a dataset of %s with %d rows' % (' and '.join(x for x in (purposes[:g], purposes[g:]) if x), nrows), 'C15', mode='real', kind='bounded', cost=10,
          note='the columns and the number of rows are enumerated; file access and statistics by contract (C14, units above)')
    def u(h):
        from .datasets import columns, tensor_vec
        E, T = h.E, h.T
        os = []
        for i, p in enumerate(purposes):
            o = details(h, 'column%d' % i, purpose=z3.IntVal(ord(p)), ordered_labels=VecV(STR, z3.IntVal(1), z3.K(Z, h.var('label%d' % i, STR))))
            os.append(o)
        n = len(os)
        st = h.st
        cells = [[T.new('row%d_column%d' % (r, i), st, nonempty=True) for i in range(n)] for r in range(nrows)]
        raw, out = h.var('raw_path', STR), h.var('dataset_path', STR)
        opened = []
        E.opts['open_file'] = lambda E, st, put, v: (opened.append(v[0]), put(pos=z3.IntVal(0), size=z3.IntVal(0), ok=z3.BoolVal(True), open=z3.BoolVal(True)))

        def read_header(E, fr, st, this, args):
            set_field(st, this, given_metadata_=columns(h, os[:g]), expected_metadata_=columns(h, os[g:]), number_of_rows_=z3.IntVal(nrows))
            return [(st, None)]
        E.contracts[('BinaryDatasetReader', 'readHeader')] = read_header

        def read_row(E, fr, st, this, args):
            i = as_int_const(z3.simplify(E.val(st, args[0])))
            if i is None or i >= nrows:
                E.check(st, 'rows are read within the dataset', z3.BoolVal(False))
                return []
            return [(st, RecV(('pair', VP, VP), dict(first=tensor_vec(cells[i][:g]), second=tensor_vec(cells[i][g:]))))]
        E.contracts[('BinaryDatasetReader', 'readRow')] = read_row
        seen = []

        def update(E, fr, st, this, args):
            o, t = (z3.simplify(E.val(st, a)) for a in args)
            k = len(seen)
            seen.append((as_int_const(o), t))
            set_field(st, o, **{x: h.var('%s_after_%d' % (x, k), F64) for x in ('mean_result', 'standard_deviation', 'M2', 'total_elements', 'min_value', 'max_value')})
            return [(st, None)]
        E.contracts[(None, 'update_standardization_normalization_values_calculation')] = update
        W = {}
        rows = []

        def write_header(E, fr, st, this, args):
            f = fields(st, this)
            W['g'], W['e'], W['cache'] = f['given_metadata_'], f['expected_metadata_'], f['lru_cache_']
            return [(st, None)]
        E.contracts[('BinaryDatasetWriter', 'writeHeader')] = write_header

        def write_row(E, fr, st, this, args):
            rows.append(([E.val(st, a) for a in args], st.copy()))
            return [(st, z3.BoolVal(True))]
        E.contracts[('BinaryDatasetWriter', 'writeRow')] = write_row
        st, _ = h.callf1(st, 'normalize_and_standardize_dataset', raw, out)
        h.check(st, 'reads the raw file, writes dataset.bin', z3.And(z3.BoolVal(len(opened) == 2), opened[0] == raw, opened[1] == z3.Concat(out, E.strval([ord(c) for c in '/dataset.bin']))))
        h.check(st, 'repeated rows are kept', W['cache'] == 0)
        h.check(st, 'as many columns', z3.And(W['g'].len == g, W['e'].len == n - g))
        h.check(st, 'as many rows', z3.BoolVal(len(rows) == nrows))
        for j, o in enumerate(os):
            m = z3.simplify(z3.Select(W['g'].arr, j) if j < g else z3.Select(W['e'].arr, j - g))
            f, w = fields(st, m), fields(st, o)
            for k in KEPT:
                h.check(st, 'column %d keeps its %s' % (j, k), f[k] == w[k])
            h.check(st, 'column %d keeps its labels' % j, z3.And(f['ordered_labels'].len == 1, z3.Select(f['ordered_labels'].arr, 0) == z3.Select(w['ordered_labels'].arr, 0)))
            mine = [i for i, (s, t) in enumerate(seen) if any(z3.eq(t, cells[r][j]) for r in range(nrows))]
            if purposes[j] == 'N' and nrows:
                h.check(st, 'statistics of column %d are over all of its rows' % j, z3.BoolVal(len(mine) == nrows and len(set(seen[i][0] for i in mine)) == 1
                        and len([1 for s, t in seen if s == seen[mine[0]][0]]) == nrows))
                v = {x: h.var('%s_after_%d' % (x, mine[-1]), F64) for x in ('mean_result', 'standard_deviation', 'min_value', 'max_value')}
                h.check(st, 'column %d is normalized' % j, f['is_normalized'])
                h.check(st, 'column %d is standardized where it spreads' % j, f['is_standardized'] == (v['standard_deviation'] > 1))
                for k, x in (('mean', 'mean_result'), ('standard_deviation', 'standard_deviation'), ('min_value', 'min_value'), ('max_value', 'max_value')):
                    h.check(st, 'column %d records its %s' % (j, k), f[k] == v[x])
            elif purposes[j] != 'N':
                h.check(st, 'column %d is left as it is' % j, z3.Not(z3.Or(f['is_normalized'], f['is_standardized'])))
            gh = tuple(h.size('g%d_%s' % (j, x)) for x in ('row', 'column', 'channel'))
            for r, (args, s) in enumerate(rows):
                s = s.copy()
                s.assume(h.T.inb(cells[r][j], *gh))
                s.assume(z3.Implies(f['is_standardized'], f['standard_deviation'] != 0))
                t = select(args[0].arr, j) if j < g else select(args[1].arr, j - g)
                s, y = at(h, s, t, gh)
                h.check(s, 'row %d column %d is written normalized by its column' % (r, j), y == forward(f, T.val(cells[r][j], *gh)))
    return u


whole_dataset(2, 3, 'NLN', 2)
whole_dataset(1, 2, 'LN', 2)
whole_dataset(1, 2, 'NI', 1)
whole_dataset(2, 3, 'ITL', 2)
