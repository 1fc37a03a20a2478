"""C14 binary datasets: what is written is what is read."""
from ..unit import *
from ..types import STREAM
from .views import PT
from .training import fields, set_field
from .persist import swaps, stream, disk

U64 = ('int', 64, False)
VSTR = ('vec', STR)
FIELDS = ('purpose', 'is_standardized', 'mean', 'standard_deviation', 'is_normalized', 'min_value', 'max_value', 'source_column_count', 'rows', 'columns', 'channels', 'ordered_labels', 'name')


def quiet(h):
    """the constructors open their file and leave the header to the caller"""
    E = h.E
    for c, m in (('BinaryDatasetWriter', 'writeHeader'), ('BinaryDatasetReader', 'readHeader')):
        E.contracts[(c, m)] = lambda E, fr, st, this, args: [(st, None)]

    def open_file(E, st, put, v):
        put(pos=z3.IntVal(0), size=z3.IntVal(0), ok=z3.BoolVal(True), open=z3.BoolVal(True))
    E.opts['open_file'] = open_file


def details(h, name, **kw):
    """a column's details with arbitrary content"""
    st, o, _ = h.new1('BinaryColumnMetadata', [], [])
    f = fields(st, o)
    put = {}
    for k in FIELDS:
        if k in kw:
            put[k] = kw[k]
        elif k == 'ordered_labels':
            n = h.size(name + '_labels')
            put[k] = VecV(STR, n, z3.Const(name + '_labels_at', z3.ArraySort(Z, z3.SeqSort(Z))))
        else:
            put[k] = h.E.sym('%s_%s' % (name, k), TYPES[k], st)
    set_field(st, o, **put)
    h.st = st
    return o


TYPES = dict(purpose=('int', 8, True), is_standardized=('bool',), is_normalized=('bool',), mean=F32, standard_deviation=F32, min_value=F32, max_value=F32,
             source_column_count=U64, rows=U64, columns=U64, channels=U64, name=STR)


MT = ('ptr', ('cls', 'BinaryColumnMetadata'))
VM = ('vec', MT)


def columns(h, os):
    a = h.E.th.karr(MT)
    for i, o in enumerate(os):
        a = z3.Store(a, z3.IntVal(i), o)
    return VecV(MT, z3.IntVal(len(os)), a)


def column_details(h, n):
    """a column with n labels: any purpose, numbers, shape, label texts and name"""
    E = h.E
    swaps(h)
    quiet(h)
    labels = [h.var('label%d' % i, STR) for i in range(n)]
    a = z3.K(Z, z3.Empty(z3.SeqSort(Z)))
    for i, l in enumerate(labels):
        a = z3.Store(a, z3.IntVal(i), l)
    o = details(h, 'd', ordered_labels=VecV(STR, z3.IntVal(n), a))
    want = dict(fields(h.st, o))
    s0 = stream(h, 'out')
    h.st.assume(s0.f['pos'] == s0.f['size'])
    for l in labels + [want['name']]:
        h.st.assume(z3.Length(l) < 1 << 40)
    vec = columns(h, [o])
    st, w, _ = h.new1('BinaryDatasetWriter', [h.var('path', STR), vec, vec, z3.IntVal(0)], [STR, VM, VM, SIZE])
    set_field(st, w, binaryFile_=s0)
    st, _ = h.call1(st, w, 'BinaryDatasetWriter', 'writeColumnMetadata', o)
    s1 = fields(st, w)['binaryFile_']
    h.check(st, 'writing appends', z3.And(s1.f['pos'] == s1.f['size'], s1.f['pos'] > s0.f['pos'], s1.f['ok']))
    st, r, _ = h.new1('BinaryDatasetReader', [h.var('path', STR)], [STR], st=st)
    set_field(st, r, binaryFile_=RecV(s1.t, dict(s1.f, pos=s0.f['pos'])))
    E.unroll = n + 1
    st, got = h.call1(st, r, 'BinaryDatasetReader', 'readColumnMetadata')
    E.unroll = 0
    s2 = fields(st, r)['binaryFile_']
    h.check(st, 'reading consumes what was written', z3.And(s2.f['pos'] == s1.f['pos'], s2.f['ok']))
    g = fields(st, got)
    for k in FIELDS:
        if k == 'ordered_labels':
            h.check(st, 'number of labels', g[k].len == n)
            for i in range(n):
                h.check(st, 'label %d' % i, z3.Select(g[k].arr, i) == labels[i])
        else:
            h.check(st, k, g[k] == want[k])


for _n in range(4):
    unit('column details written and read, %d labels' % _n, 'C14', cost=10, kind='bounded', note='any texts, up to three labels')(lambda h, n=_n: column_details(h, n))


def column_contracts(h, os):
    """writeColumnMetadata and readColumnMetadata by contract (units above): details written at a place are what is read at that place"""
    E = h.E
    D = []

    def write(E, fr, st, this, args):
        o = E.val(st, args[0])
        s = fields(st, this)['binaryFile_']
        n = h.size('details_%d_bytes' % len(D))
        st.assume(z3.And(n > 0, n < 1 << 40))
        D.append((z3.simplify(s.f['pos']), z3.simplify(o), n))
        E.check(st, 'details are appended', s.f['pos'] == s.f['size'])
        f = dict(s.f, pos=s.f['pos'] + n, size=s.f['pos'] + n)
        set_field(st, this, binaryFile_=RecV(s.t, f))
        return [(st, None)]

    def read(E, fr, st, this, args):
        s = fields(st, this)['binaryFile_']
        for p, o, n in D:
            if E.valid(st.pc, s.f['pos'] == p):
                set_field(st, this, binaryFile_=RecV(s.t, dict(s.f, pos=p + n)))
                return [(st, o)]
        E.check(st, 'details are read from where details were written', z3.BoolVal(False))
        return []
    E.contracts[('BinaryDatasetWriter', 'writeColumnMetadata')] = write
    E.contracts[('BinaryDatasetReader', 'readColumnMetadata')] = read
    return D


def a_dataset(h, g, e, purposes):
    """a writer whose header was written: -> (state, writer, given columns, expected columns)"""
    E = h.E
    swaps(h)
    D = disk(h)
    E.opts['open_file'] = D['w']
    os = []
    for i in range(g + e):
        o = details(h, 'column%d' % i, purpose=z3.IntVal(ord(purposes[i])), ordered_labels=VecV(STR, z3.IntVal(0), z3.K(Z, z3.Empty(z3.SeqSort(Z)))))
        f = fields(h.st, o)
        h.st.assume(z3.And(*[z3.And(f[k] >= 1, f[k] < 1 << 20) for k in ('rows', 'columns', 'channels')]))
        h.st.assume(f['rows'] * f['columns'] * f['channels'] >= 1)
        h.st.assume(f['rows'] * f['columns'] * f['channels'] < 1 << 40)
        os.append(o)
    column_contracts(h, os)
    path = h.var('path', STR)
    st, w, th = h.new1('BinaryDatasetWriter', [path, columns(h, os[:g]), columns(h, os[g:]), z3.IntVal(0)], [STR, VM, VM, SIZE])
    return st, w, os, path, D


def width(st, os):
    n = z3.IntVal(0)
    for o in os:
        f = fields(st, o)
        n = n + 4 * (f['rows'] * f['columns'] * f['channels'])
    return n


def the_reader(h, st, w, os, path, D, rows, renorm=None):
    """the file closed after `rows` rows were written behind the header, opened for reading"""
    E = h.E
    s1 = fields(st, w)['binaryFile_']
    rs = width(st, os)
    st.assume(z3.And(rows >= 0, rs * rows < 1 << 50, rs * rows >= 0))
    st.assume((rs * rows) / rs == rows)
    set_field(st, w, binaryFile_=RecV(s1.t, dict(s1.f, size=s1.f['pos'] + rs * rows, pos=s1.f['pos'] + rs * rows)))
    st, _ = h.call1(st, w, 'BinaryDatasetWriter', 'close')
    E.opts['open_file'] = D['r']
    E.opts['file_size'] = lambda E, st, p: D['file'].f['size']
    E.unroll = len(os) + 1
    if renorm is None:
        st, r, th = h.new1('BinaryDatasetReader', [path], [STR], st=st)
    else:
        st, r, th = h.new1('BinaryDatasetReader', [path] + [h.box(st, columns(h, x)) for x in renorm], [STR, VM, VM], st=st)
    E.unroll = 0
    h.check(st, 'the header is accepted', z3.BoolVal(not [x for x in th if E.feasible(x[0].pc)]))
    return st, r, s1.f['pos'], rs


def header(h, g, e):
    E = h.E
    st, w, os, path, D = a_dataset(h, g, e, 'NTLI'[:g] + 'LN'[:e])
    rows = h.size('rows_written')
    st, r, base, rs = the_reader(h, st, w, os, path, D, rows)
    f = fields(st, r)
    h.check(st, 'header size', f['header_size_'] == base)
    h.check(st, 'row size', f['row_size_'] == rs)
    st, n = h.call1(st, r, 'BinaryDatasetReader', 'rowCount')
    h.check(st, 'number of rows', n == rows)
    for m, part in (('given', os[:g]), ('expected', os[g:])):
        st, n = h.call1(st, r, 'BinaryDatasetReader', 'get_%s_column_count' % m)
        h.check(st, 'number of %s columns' % m, n == len(part))
        for i, o in enumerate(part):
            st, p = h.call1(st, r, 'BinaryDatasetReader', 'get_%s_metadata' % m, z3.IntVal(i))
            h.check(st, '%s column %d' % (m, i), p == o)
            st, p = h.call1(st, r, 'BinaryDatasetReader', 'get%sTensorDims' % m.capitalize(), z3.IntVal(i))
            d = fields(st, o)
            for k, nm in enumerate(('rows', 'columns', 'channels')):
                h.check(st, '%s column %d: %s' % (m, i, nm), z3.Select(p.arr, k) == d[nm])
            st, p = h.call1(st, r, 'BinaryDatasetReader', 'get%sTensorPurpose' % m.capitalize(), z3.IntVal(i))
            h.check(st, '%s column %d: purpose' % (m, i), p == d['purpose'])


for _g, _e in ((1, 0), (1, 1), (2, 1), (3, 2)):
    unit('header with %d given and %d expected columns' % (_g, _e), 'C14', cost=5, kind='bounded', note='the numbers of columns are enumerated; column details by contract')(lambda h, g=_g, e=_e: header(h, g, e))


def row_tensors(h, st, os):
    ts = []
    for i, o in enumerate(os):
        f = fields(st, o)
        t = h.T.new('tensor%d' % i, st, nonempty=True)
        st.assume(z3.And(h.T.rows(t) == f['rows'], h.T.cols(t) == f['columns'], h.T.chans(t) == f['channels']))
        ts.append(t)
    return ts


def tensor_vec(ts):
    a = z3.K(Z, z3.IntVal(0))
    for i, t in enumerate(ts):
        a = z3.Store(a, z3.IntVal(i), t)
    return VecV(PT, z3.IntVal(len(ts)), a)


KIND = {'I': 'PixelTensor', 'L': 'QuarterTensor'}


def bodies(h, D, st):
    """saving and loading the elements of a tensor by their contract (C13): one tensor takes 4 bytes per element"""
    E, T = h.E, h.T
    log = []

    def save(E, fr, st, this, args):
        if len(args) != 2 or not z3.is_false(z3.simplify(E.val(st, args[1]))):
            return None
        lv = args[0].lv if isinstance(args[0], RefV) else args[0]
        s = E.read(st, lv)
        E.check(st, 'tensors are appended', s.f['pos'] == s.f['size'])
        log.append(('w', s.f['pos'], z3.simplify(this)))
        n = s.f['pos'] + 4 * (T.rows(this) * T.cols(this) * T.chans(this))
        E.write(st, lv, RecV(s.t, dict(s.f, pos=n, size=n)))
        return [(st, z3.BoolVal(True))]
    E.contracts[('BaseTensor', 'save')] = save

    def loader(cls):
        def load(E, fr, st, args):
            vs = [E.val(st, a) for a in args]
            if not isinstance(vs[0], RecV):
                return None
            lv = args[0].lv if isinstance(args[0], RefV) else args[0]
            s = E.read(st, lv)
            rest = vs[1:]
            bias = rest.pop(0) if cls == 'QuarterTensor' else None
            p = z3.IntVal(800000 + len(log))
            log.append(('r', s.f['pos'], cls, bias, rest, p))
            E.write(st, lv, RecV(s.t, dict(s.f, pos=s.f['pos'] + 4 * (rest[0] * rest[1] * rest[2]))))
            return [(st, p)]
        return load
    for c in ('FullTensor', 'QuarterTensor', 'PixelTensor'):
        E.contracts[(c, '<new>')] = loader(c)
    return log


NUM = ('is_normalized', 'is_standardized', 'min_value', 'max_value', 'mean', 'standard_deviation')


def renormalized(h, g, e, purposes, which):
    """rows read with other columns' numbers: every tensor is renormalized from its own column's numbers to its own target's"""
    E = h.E
    st, w, os, path, D = a_dataset(h, g, e, purposes)
    bodies(h, D, st)
    h.st = st
    other = [details(h, 'target%d' % i, ordered_labels=VecV(STR, z3.IntVal(0), z3.K(Z, z3.Empty(z3.SeqSort(Z))))) for i in range(g + e)]
    st = h.st
    rows = h.size('rows_written')
    parts = (other[:g] if which[0] else [], other[g:] if which[1] else [])
    st, r, base, rs = the_reader(h, st, w, os, path, D, rows, parts)
    log = []

    def renorm(E, fr, st, this, args):
        p = z3.IntVal(700000 + len(log))
        log.append(([E.val(st, a) for a in args], p))
        return [(st, p)]
    E.contracts[(None, 'renormalizeAndStandardize')] = renorm
    i = h.size('index')
    st.assume(z3.And(i < rows, i * rs >= 0, i * rs <= rs * rows, i <= i * rs, rows <= rs * rows, rs <= rs * rows))
    s, (a, b) = pair_of(h, st, r, i)
    n = 0
    for j, o in enumerate(os):
        got = z3.Select(a.arr, j) if j < g else z3.Select(b.arr, j - g)
        if not which[j >= g]:
            h.check(s, 'column %d is left alone' % j, z3.IntVal(800000 + j) == got)
            continue
        h.check(s, 'column %d is renormalized' % j, z3.BoolVal(n < len(log)))
        x, p = log[n]
        n += 1
        f, t = fields(s, o), fields(s, other[j])
        h.check(s, 'column %d is returned renormalized' % j, z3.And(got == p, x[0] == z3.IntVal(800000 + j)))
        for k, (u, nm) in enumerate(zip(x[1:7], NUM)):
            h.check(s, 'column %d: from its own %s' % (j, nm), u == f[nm])
        for k, (u, nm) in enumerate(zip(x[7:13], NUM)):
            h.check(s, 'column %d: to its own target\'s %s' % (j, nm), u == t[nm])
    h.check(s, 'nothing else is renormalized', z3.BoolVal(n == len(log)))


def rows_unit(h, g, e, purposes):
    E = h.E
    st, w, os, path, D = a_dataset(h, g, e, purposes)
    rows = h.size('rows_written')
    ts = row_tensors(h, st, os)
    log = bodies(h, D, st)
    # writing
    base = fields(st, w)['binaryFile_'].f['pos']
    s = st.copy()
    s, ok = h.call1(s, w, 'BinaryDatasetWriter', 'writeRow', h.box(s, tensor_vec(ts[:g])), h.box(s, tensor_vec(ts[g:])))
    h.check(s, 'the row is written', ok)
    at = base
    h.check(s, 'one write per column', z3.BoolVal(len(log) == len(os)))
    for i, (x, o) in enumerate(zip(log, os)):
        f = fields(s, o)
        h.check(s, 'column %d is written behind the columns before it' % i, z3.And(x[1] == at, x[2] == ts[i]))
        at = at + 4 * (f['rows'] * f['columns'] * f['channels'])
    h.check(s, 'a row takes its row size', fields(s, w)['binaryFile_'].f['size'] == base + width(s, os))
    # reading
    del log[:]
    st, r, base, rs = the_reader(h, st, w, os, path, D, rows)
    i = h.size('index')
    # products of non-negative factors
    st.assume(z3.Implies(i < rows, z3.And(i * rs >= 0, i * rs <= rs * rows, i <= i * rs, rows <= rs * rows, rs <= rs * rows)))
    res, th = h.call(st.copy(), r, 'BinaryDatasetReader', 'readRow', i)
    for x in th:
        h.check(x[0], 'only rows beyond the last are rejected', i >= rows)
    for x in res:
        h.check(x[0], 'rows beyond the last are rejected', i < rows)
    del log[:]
    s = st.copy().assume(i < rows)
    s, (a, b) = pair_of(h, s, r, i)
    h.check(s, 'one read per column', z3.BoolVal(len(log) == len(os)))
    at = base + i * rs
    for j, (x, o) in enumerate(zip(log, os)):
        f = fields(s, o)
        cls = KIND.get(purposes[j], 'FullTensor')
        h.check(s, 'column %d is read as %s' % (j, cls), z3.BoolVal(x[2] == cls))
        h.check(s, 'column %d of row i is read from where it was written' % j, x[1] == at)
        h.check(s, 'column %d is read with its shape' % j, z3.And(*[u == f[k] for u, k in zip(x[4], ('rows', 'columns', 'channels'))]))
        got = z3.Select(a.arr, j) if j < g else z3.Select(b.arr, j - g)
        h.check(s, 'column %d is returned in its place' % j, got == x[5])
        at = at + 4 * (f['rows'] * f['columns'] * f['channels'])
    h.check(s, 'as many tensors as columns', z3.And(a.len == g, b.len == e))


def pair_of(h, s, r, i):
    s, v = h.call1(s, r, 'BinaryDatasetReader', 'readRow', i)
    return s, (v.f['first'], v.f['second'])


for _g, _e, _p in ((1, 0, 'N'), (1, 1, 'IL'), (2, 1, 'TNL'), (1, 2, 'LIN'), (3, 2, 'NNTLT')):
    unit('rows of %s' % ' and '.join(x for x in (_p[:_g], _p[_g:]) if x), 'C14', cost=5, kind='bounded', note='the columns are enumerated; rows, shapes and row number are arbitrary')(lambda h, g=_g, e=_e, p=_p: rows_unit(h, g, e, p))


for _w in ((True, True), (True, False), (False, True)):
    for _g, _e in ((1, 1), (3, 2)):
        unit('rows renormalized (%d given%s, %d expected%s)' % (_g, '' if _w[0] else ' not', _e, '' if _w[1] else ' not'), 'C14', cost=5, kind='bounded',
             note='the columns are enumerated; the arithmetic of the renormalization is C15')(lambda h, g=_g, e=_e, w=_w: renormalized(h, g, e, 'NTN'[:g] + 'NN'[:e], w))
