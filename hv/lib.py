"""Contracts (semantics) of the C++ standard library used by /repo: the trusted base below the verified code."""
import math
import z3
from .types import *
from .values import *

Z = z3.IntSort()


def trust(E, what):
    E.trusted.add('std::' + what)


def install(E):
    pass


def global_var(E, r):
    n = r['name']
    if n in ('cout', 'cerr', 'cin', 'clog', 'endl', 'flush', 'par', 'seq'):
        return Opaque(n)
    if n == 'npos':
        return z3.IntVal((1 << 64) - 1) if E.mode == 'int' else E.I((1 << 64) - 1, SIZE)
    if n in ('binary', 'out', 'in', 'app', 'trunc', 'beg', 'end', 'cur', 'ate', 'failbit', 'badbit', 'async', 'eofbit', 'goodbit'):
        return Opaque(n)
    t = r.get('type', {}).get('qualType', '')
    if 'fmtflags' in t or '_Ios' in t or 'openmode' in t or 'seekdir' in t:
        return Opaque(n)
    return None


def isptrval(v):
    return isinstance(v, z3.ArithRef)


def val(E, st, a):
    v = E.val(st, a)
    if isinstance(v, RefV):
        v = E.read(st, v.lv)
    return v


# ------------------------------------------------------------------ sequences
def vlen(v):
    if isinstance(v, VecV):
        return v.len
    if isinstance(v, MapV):
        return v.size
    return z3.Length(v)


def slen(E, v):
    n = vlen(v)
    s = z3.simplify(n)
    return s if as_int_const(s) is not None else n


def elem_t(t):
    return CHAR


def convert(E, st, v, ft, tt):
    """implicit conversion of an argument value"""
    if ft == tt or v is None:
        return v
    k, f = tt[0], ft[0]
    if k in ('int', 'float', 'bool') and f in ('int', 'float', 'bool'):
        return E.cast(st, v, ft, tt)
    if k == 'bool' and f == 'ptr':
        return v != 0
    if k == 'ptr' and f == 'null':
        return z3.IntVal(0)
    return v


def pair_of(E, a, ta, b, tb):
    t = ('pair', E.vt(ta), E.vt(tb))
    return RecV(t, {'first': a, 'second': b})


def vec_const(E, et, n, v):
    if isinstance(v, Opaque) or isinstance(v, FnV):
        return Opaque('vector')
    return VecV(et, n, z3.K(Z, E.th.to_z3(v, et)))


def arr_lambda(E, et, f):
    """array with element i equal to f(i)"""
    i = z3.Int(E.th.fresh_name('ai'))
    return z3.Lambda([i], f(i))


def sub_vec(E, st, v, lo, n):
    """elements [lo, lo+n) of v"""
    if isinstance(v, VecV):
        lo_s = z3.simplify(lo) if isinstance(lo, z3.ExprRef) else z3.IntVal(lo)
        if as_int_const(lo_s) == 0:
            return VecV(v.et, n, v.arr)
        i = z3.Int(E.th.fresh_name('sv'))
        return VecV(v.et, n, z3.Lambda([i], z3.Select(v.arr, i + lo)))
    return z3.SubSeq(v, lo, n)


def concat_vec(E, st, a, b):
    if isinstance(a, VecV):
        nb = as_int_const(z3.simplify(b.len))
        if nb is not None and nb <= 8:
            arr = a.arr
            for k in range(nb):
                arr = z3.Store(arr, a.len + k, E.th.to_z3(E.sel(b, z3.IntVal(k)), b.et))
            return VecV(a.et, a.len + nb, arr)
        i = z3.Int(E.th.fresh_name('cv'))
        return VecV(a.et, a.len + b.len, z3.Lambda([i], z3.If(i < a.len, z3.Select(a.arr, i), z3.Select(b.arr, i - a.len))))
    return z3.Concat(a, b)


# ------------------------------------------------------------------ iterators
def iter_cmp(E, st, op, a, b):
    if isinstance(a, MapIterV) or isinstance(b, MapIterV):
        va = a.valid if isinstance(a, MapIterV) else z3.BoolVal(False)
        vb = b.valid if isinstance(b, MapIterV) else z3.BoolVal(False)
        if z3.is_false(z3.simplify(vb)):
            r = z3.Not(va)
        elif z3.is_false(z3.simplify(va)):
            r = z3.Not(vb)
        else:
            raise Unsupported('comparison of two map iterators')
        return r if op == '==' else z3.Not(r)
    if isinstance(a, IterV) and isinstance(b, IterV):
        x, y = a.idx, b.idx
        return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    raise Unsupported('iterator comparison')


def map_order(E, st, m):
    """an arbitrary (unordered) or ascending (ordered) enumeration of the keys of m"""
    key = ('maporder', m.dom.get_id(), m.size.get_id())
    if key in E.sp:
        return E.sp[key]
    ks = m.dom.sort().domain()
    arr = z3.Const(E.th.fresh_name('keys'), z3.ArraySort(Z, ks))
    E.sp[key] = (arr, m.size)
    E._keep.append(m)
    return E.sp[key]


def iter_facts(E, st, m, keys, n):
    i, j = z3.Ints('mi mj')
    ks = m.dom.sort().domain()
    k = z3.Const('mk', ks)
    pos = z3.Function(E.th.fresh_name('pos'), ks, Z)
    st.assume(n >= 0)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(m.dom, z3.Select(keys, i)), pos(z3.Select(keys, i)) == i)),
                        patterns=[z3.Select(keys, i)]))
    st.assume(z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.And(pos(k) >= 0, pos(k) < n, z3.Select(keys, pos(k)) == k)),
                        patterns=[z3.Select(m.dom, k)]))
    if len(m.t) > 3 and m.t[3] in ('map', 'set') and m.t[1][0] == 'int':
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Select(keys, i) < z3.Select(keys, j)),
                            patterns=[z3.MultiPattern(z3.Select(keys, i), z3.Select(keys, j))]))


def map_elem(E, st, lv, m, keys, i):
    k = E.th.from_z3(z3.Select(keys, i), m.t[1])
    if m.t[3] in ('set', 'unordered_set'):
        return k
    v = E.th.from_z3(z3.Select(m.val, z3.Select(keys, i)), m.t[2])
    return RecV(('pair', m.t[1], m.t[2]), {'first': k, 'second': v})


# ------------------------------------------------------------------ free functions
def numeric_limit(E, name, t):
    import numpy as np
    if t[0] == 'float':
        i = np.finfo(np.float32 if t[1] == 32 else np.float64)
        v = {'max': i.max, 'lowest': i.min, 'min': i.tiny, 'epsilon': i.eps, 'infinity': float('inf'), 'quiet_NaN': float('nan')}.get(name)
        return None if v is None else fpval(float(v), t[1])
    lo, hi = E.th.rng(t)
    v = {'max': hi, 'lowest': lo, 'min': lo}.get(name)
    return None if v is None else E.th.iv(v, t)


def std_call(E, fr, st, e, r, args):
    name = r['name']
    t = E.ty.of(e)
    if not args and name in ('max', 'min', 'lowest', 'epsilon', 'infinity', 'quiet_NaN') and t[0] in ('int', 'float'):
        v = numeric_limit(E, name, t)
        if v is not None:
            return [(st, v)]
    if name in ('make_shared', 'make_unique'):
        return make_shared(E, fr, st, t, args)
    if name in ('move', 'forward', 'ref', 'as_const', 'addressof'):
        return [(s, RefV(E.deref_lv(s, lv)) if lv.root[0] != 't' else E.read(s, lv)) for s, lv in E.lvof(fr, st, args[0])] if E.is_lv(args[0]) \
            else E.ev(fr, st, args[0])
    if name in ('dynamic_pointer_cast', 'static_pointer_cast'):
        out = []
        for s, v in E.ev(fr, st, args[0]):
            if name == 'dynamic_pointer_cast':
                c = as_int_const(v)
                if c is not None and c in s.heap and t[1][0] == 'cls':
                    v = v if E.prog.is_a(s.heap[c][0], t[1][1]) else z3.IntVal(0)
                else:
                    raise Unsupported('dynamic_pointer_cast of abstract object')
            out.append((s, v))
        return out
    if name in ('min', 'max', 'clamp', 'swap', 'tie', 'get', 'exchange', 'make_pair', 'make_tuple'):
        refs = [True] * len(args)
    else:
        refs = [True] * len(args)
    out = []
    for s, vs in E.ev_args(fr, st, args, refs):
        out += call_std(E, fr, s, name, vs, e, t, [E.ty.of(a) for a in args])
    return out


def make_shared(E, fr, st, t, args):
    if t[1][0] == 'cls':
        cls = t[1][1]
        ats = [E.ty.of(a) for a in args]
        ctor = E.pick_ctor(cls, ats, args)
        if ctor is None and (args or E.prog.cinfo[cls]['ctors']):
            imp = [c for c in E.prog.cinfo[cls]['ctors'] if not E.prog.params(c)]
            if args:
                raise Unsupported('no constructor of %s for %r' % (cls, ats))
            ctor = imp[0] if imp else None
        fargs = E.fix_args(ctor, args) if ctor is not None else args
        refs = E.param_refs(ctor) if ctor is not None else []
        h = E.contracts.get((cls, '<new>'))
        out = []
        for s, vs in E.ev_args(fr, st, fargs, refs):
            if ctor is not None:
                for i, p in enumerate(E.prog.params(ctor)):
                    if i < len(ats) and not isinstance(vs[i], LV):
                        vs[i] = convert(E, s, vs[i], ats[i], E.ty.of(p))
                    elif i < len(ats) and ats[i] != E.ty.of(p) and ats[i][0] in ('int', 'float', 'bool'):
                        vs[i] = convert(E, s, E.read(s, vs[i]), ats[i], E.ty.of(p))
            if h is not None:
                r = h(E, fr, s, vs)
                if r is not None:
                    out += r
                    continue
            for s2, oid in E.construct(fr, s, cls, vs, ctor):
                out.append((s2, z3.IntVal(oid)))
        return out
    # box around a plain value
    out = []
    for s, v in std_construct(E, fr, st, t[1], args, '', None):
        oid = next(E.objc)
        s.heap[oid] = ('<box>', {'*': v})
        out.append((s, z3.IntVal(oid)))
    return out


def fmin(E, a, b, w):
    return z3.If(fcmp('<', b, a), b, a)


def fmax(E, a, b, w):
    return z3.If(fcmp('<', a, b), b, a)


MATH1 = {'exp', 'expf', 'log', 'logf', 'sqrt', 'sqrtf', 'tanh', 'tanhf', 'sin', 'cos', 'sinf', 'cosf', 'log2', 'log10', 'log10f', 'sinh', 'cosh', 'erf', 'log1p', 'expm1'}
MATH2 = {'pow', 'powf', 'fmod', 'atan2', 'hypot'}
ROUND = {'round': z3.RoundNearestTiesToAway, 'floor': z3.RoundTowardNegative, 'ceil': z3.RoundTowardPositive, 'trunc': z3.RoundTowardZero,
         'roundf': z3.RoundNearestTiesToAway, 'floorf': z3.RoundTowardNegative, 'ceilf': z3.RoundTowardPositive}


def call_std(E, fr, st, name, a, e=None, t=None, ats=None):
    v = [val(E, st, x) for x in a]
    trust(E, name)
    if t is None and v:
        t = ('float', fl_width(v[0])) if is_fl(v[0]) else INT
    if name == 'file_size' and E.opts.get('file_size'):
        return [(st, E.opts['file_size'](E, st, v[0]))]
    if name in MATH1 or name in MATH2:
        base = name[:-1] if name.endswith('f') and name != 'erf' else name
        w = t[1] if t[0] == 'float' else 64
        xs = []
        for x, xt in zip(v, ats or [None] * len(v)):
            if xt is not None and xt != ('float', w):
                x = E.cast(st, x, xt, ('float', w))
            xs.append(x)
        if base == 'sqrt':
            return [(st, z3.fpSqrt(RNE, xs[0]) if E.mode == 'bv' else E.th.fmath('sqrt', w, xs[0]))]
        return [(st, E.th.fmath(base, w, *xs))]
    if name in ROUND:
        w = t[1] if t[0] == 'float' else 64
        x = v[0]
        if ats and ats[0] != ('float', w):
            x = E.cast(st, x, ats[0], ('float', w))
        c = fpconst(x)
        if c is not None and not E.real:
            return [(st, z3.simplify(z3.fpRoundToIntegral(ROUND[name](), x)))]
        if E.mode == 'bv':
            return [(st, z3.fpRoundToIntegral(ROUND[name](), x))]
        return [(st, E.th.fmath(name.rstrip('f') if name.endswith('f') and name != 'f' else name, w, x))]
    if name in ('abs', 'fabs', 'fabsf'):
        x = v[0]
        if is_fl(x):
            return [(st, fl_abs(x))]
        if E.mode == 'bv':
            return [(st, z3.If(x < 0, -x, x))]
        return [(st, z3.If(x >= 0, x, -x))]
    if name in ('isnan', 'isinf', 'isfinite', 'signbit'):
        x = v[0]
        r = {'isnan': fl_isnan, 'isinf': fl_isinf, 'signbit': fl_isneg,
             'isfinite': lambda q: z3.And(z3.Not(fl_isnan(q)), z3.Not(fl_isinf(q)))}[name](x)
        return [(st, r)]
    if name in ('min', 'max'):
        x, y = v[0], v[1]
        if is_fl(x):
            return [(st, (fmin if name == 'min' else fmax)(E, x, y, t[1]))]
        lt = E.compare('<', y, x, t) if name == 'min' else E.compare('<', x, y, t)
        return [(st, z3.If(lt, y, x))]
    if name == 'clamp':
        x, lo, hi = v
        return [(st, z3.If(E.compare('<', x, lo, t), lo, z3.If(E.compare('<', hi, x, t), hi, x)))]
    if name == 'swap':
        E.write(st, a[0], v[1])
        E.write(st, a[1], v[0])
        return [(st, None)]
    if name == 'make_pair':
        rt = E.vt(t)
        return [(st, RecV(rt, {'first': v[0], 'second': v[1]}))]
    if name == 'make_tuple':
        rt = E.vt(t)
        return [(st, RecV(rt, {str(i): x for i, x in enumerate(v)}))]
    if name == 'tie':
        return [(st, ('tie', a))]
    if name in ('to_string',):
        f = E.th.ufun('to_string_%s' % (''.join(map(str, ats[0])) if ats else 'x'), v[0].sort(), z3.SeqSort(Z))
        return [(st, f(v[0]))]
    if name in ('stoi', 'stol', 'stoul', 'stof', 'stod', 'atoi', 'atof'):
        f = E.th.ufun(name, z3.SeqSort(Z), E.th.sort(t))
        return [(st, f(v[0]))]
    if name in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isprint', 'isupper', 'islower', 'ispunct', 'tolower', 'toupper'):
        return [(st, ctype(E, st, name, v[0]))]
    if name in ('begin', 'cbegin'):
        return [(st, IterV(E.deref_lv(st, a[0]), z3.IntVal(0)))]
    if name in ('end', 'cend'):
        return [(st, IterV(E.deref_lv(st, a[0]), vlen(v[0])))]
    if name in ('setprecision', 'setw', 'setfill', 'fixed', 'right', 'left', 'hex', 'endl', 'flush', 'dec'):
        return [(st, Opaque(name))]
    if name == 'distance':
        return [(st, v[1].idx - v[0].idx)]
    if name == 'advance':
        E.write(st, a[0], IterV(v[0].lv, v[0].idx + v[1], v[0].rev))
        return [(st, None)]
    if name == 'next':
        return [(st, IterV(v[0].lv, v[0].idx + (v[1] if len(v) > 1 else 1), v[0].rev))]
    if name == 'prev':
        return [(st, IterV(v[0].lv, v[0].idx - (v[1] if len(v) > 1 else 1), v[0].rev))]
    if name == 'memcpy':
        return memcpy(E, st, a, v)
    if name == 'get':
        # get<i>(tuple/pair)
        idx = None
        raise Unsupported('std::get')
    if name == 'fill':
        it, en, x = v
        cur = E.read(st, it.lv)
        i = z3.Int(E.th.fresh_name('fl'))
        xz = E.th.to_z3(x, cur.et)
        E.oblige(st, 'std::fill range valid', z3.And(it.idx >= 0, en.idx <= cur.len, it.idx <= en.idx))
        arr = z3.Lambda([i], z3.If(z3.And(i >= it.idx, i < en.idx), xz, z3.Select(cur.arr, i)))
        E.write(st, it.lv, VecV(cur.et, cur.len, arr))
        return [(st, None)]
    if name in ('shuffle',):
        it = v[0]
        cur = E.read(st, it.lv)
        nv = E.fresh('shuffled', ('vec', cur.et), st)
        st.assume(nv.len == cur.len)
        i = z3.Int('shi')
        perm = z3.Function(E.th.fresh_name('perm'), Z, Z)
        inv = z3.Function(E.th.fresh_name('pinv'), Z, Z)
        inr = lambda x: z3.And(x >= 0, x < cur.len)
        st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(perm(i)), inv(perm(i)) == i, z3.Select(nv.arr, i) == z3.Select(cur.arr, perm(i)))),
                            patterns=[z3.Select(nv.arr, i)]))
        st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(inv(i)), perm(inv(i)) == i, z3.Select(nv.arr, inv(i)) == z3.Select(cur.arr, i))),
                            patterns=[z3.Select(cur.arr, i)]))
        E.write(st, it.lv, nv)
        return [(st, None)]
    if name == 'iota':
        it, en, x = v
        cur = E.read(st, it.lv)
        i = z3.Int(E.th.fresh_name('io'))
        E.write(st, it.lv, VecV(cur.et, cur.len, z3.Lambda([i], z3.If(z3.And(i >= it.idx, i < en.idx), x + (i - it.idx), z3.Select(cur.arr, i)))))
        return [(st, None)]
    if name == 'find':
        it, en, x = v
        cur = E.read(st, it.lv)
        r = z3.Int(E.th.fresh_name('find'))
        i = z3.Int('fi')
        el = lambda q: cur[q] if z3.is_seq(cur) else z3.Select(cur.arr, q)
        xz = E.th.to_z3(x)
        st.assume(z3.And(r >= it.idx, r <= en.idx, z3.Implies(r < en.idx, el(r) == xz)))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= it.idx, i < r), el(i) != xz), patterns=[el(i)]))
        return [(st, IterV(it.lv, r))]
    if name in ('size', 'ssize'):
        return [(st, vlen(v[0]))]
    if name in ('__builtin_inff', '__builtin_inf', '__builtin_huge_val', '__builtin_huge_valf', '__builtin_nanf', '__builtin_nan'):
        w = 32 if name.endswith('f') else 64
        if REAL[0]:
            return [(st, INF if 'nan' not in name else z3.Real('nan'))]
        return [(st, z3.FPVal(float('nan' if 'nan' in name else 'inf'), FS[w]))]
    if name in ('time', 'rand', 'clock', 'now'):
        return [(st, E.fresh(name, t, st))]
    if name in ('srand',):
        return [(st, None)]
    raise Unsupported('std function ' + name)


def ctype(E, st, name, c):
    rng = lambda lo, hi: z3.And(c >= lo, c <= hi)
    d = rng(48, 57)
    u = rng(65, 90)
    l = rng(97, 122)
    if name == 'tolower':
        return z3.If(u, c + 32, c)
    if name == 'toupper':
        return z3.If(l, c - 32, c)
    r = {'isspace': lambda: z3.Or(c == 32, rng(9, 13)), 'isdigit': lambda: d, 'isalpha': lambda: z3.Or(u, l),
         'isalnum': lambda: z3.Or(u, l, d), 'isprint': lambda: rng(32, 126), 'isupper': lambda: u, 'islower': lambda: l,
         'ispunct': lambda: z3.And(rng(33, 126), z3.Not(z3.Or(u, l, d)))}[name]()
    E.oblige(st, 'argument of %s representable as unsigned char or EOF' % name, z3.And(c >= -1, c <= 255), 'safety')
    return z3.If(r, z3.IntVal(1), z3.IntVal(0))


def memcpy(E, st, a, v):
    d, s = v[0], v[1]
    if isinstance(d, AddrV) and isinstance(s, AddrV):
        src = E.read(st, s.lv)
        dst = E.read(st, d.lv)
        if isinstance(src, z3.ExprRef) and isinstance(dst, z3.ExprRef):
            if is_fl(src) and not is_fl(dst):
                E.write(st, d.lv, E.float_bits(src, I(fl_width(src) if not E.real else 32, False)))
            elif is_fl(dst) and not is_fl(src):
                E.write(st, d.lv, E.bits_float(src, ('float', fl_width(dst) if not E.real else 32)))
            else:
                E.write(st, d.lv, src)
            return [(st, None)]
    raise Unsupported('memcpy')


# ------------------------------------------------------------------ methods
def std_method(E, fr, st, e, me, obj, name, args):
    ot = E.ty.of(obj)
    t = E.ty.of(e)
    out = []
    if me.get('isArrow'):
        objs = []
        for s, p in E.ev(fr, st, obj):
            objs.append((s, E.deref(s, p, ot[1] if ot[0] == 'ptr' else VOID)))
    else:
        objs = [(s, E.deref_lv(s, lv)) for s, lv in E.lvof(fr, st, obj)]
    for s, lv in objs:
        for s2, vs in E.ev_args(fr, s, args, [True] * len(args)):
            out += method(E, fr, s2, e, lv, name, vs, t, ot, [E.ty.of(x) for x in args])
    return out


def unobj(E, st, lv):
    if lv.root[0] == 'obj' and not lv.path:
        c = as_int_const(lv.root[1])
        if c is not None and c in st.heap and '*' in st.heap[c][1]:
            return LV(('h', c, '*'))
    return lv


def method(E, fr, st, e, lv, name, a, t, ot, ats):
    lv = unobj(E, st, lv)
    if lv.root[0] == 'obj':
        cur = lv.root[1]
    else:
        cur = E.read(st, lv)
    v = [val(E, st, x) for x in a]
    if isinstance(cur, Opaque):
        return opaque_method(E, fr, st, lv, cur, name, v, t, a)
    if ot[0] == 'ptr' and isptrval(cur) or (isptrval(cur) and name in ('get', 'operator bool', 'reset', 'use_count')):
        if name == 'get':
            return [(st, cur)]
        if name == 'operator bool':
            return [(st, cur != 0)]
        if name == 'reset':
            E.write(st, lv, v[0] if v else z3.IntVal(0))
            return [(st, None)]
        raise Unsupported('shared_ptr::' + name)
    if isinstance(cur, FnV):
        if name == 'operator bool':
            return [(st, z3.BoolVal(True))]
        if name == 'operator()':
            return E.call_value(st, cur, a)
    if isinstance(cur, RecV) and cur.t[1] == 'stream':
        trust(E, 'fstream::' + name)
        return stream_method(E, fr, st, lv, cur, name, v, t, a)
    if isinstance(cur, VecV):
        trust(E, 'vector::' + name)
        return vec_method(E, fr, st, lv, cur, name, a, v, t, ats, e)
    if z3.is_seq(cur) if isinstance(cur, z3.ExprRef) else False:
        trust(E, 'string::' + name)
        return str_method(E, fr, st, lv, cur, name, a, v, t, ats)
    if isinstance(cur, MapV):
        trust(E, 'map::' + name)
        return map_method(E, fr, st, lv, cur, name, a, v, t, ats)
    if isinstance(cur, IterV) and name == 'base':
        return [(st, cur)]
    if name.startswith('operator ') and isinstance(cur, z3.ArithRef) and t[0] == 'int':
        return [(st, cur)]
    raise Unsupported('method %s on %r' % (name, type(cur)))


def stream_method(E, fr, st, lv, cur, name, v, t, a):
    """file streams: sequential items; an item read is defined when it is read where, and as wide as, it was written"""
    f = dict(cur.f)

    def put(**kw):
        f.update(kw)
        E.write(st, lv, RecV(cur.t, f))

    def item(x, n):
        y = E.read(st, x.lv)
        if isinstance(y, RefV):
            y = E.read(st, y.lv)
        return y
    if name == 'write':
        x, n = v[0], v[1]
        w = as_int_const(n)
        end = f['pos'] + n
        size = z3.If(end > f['size'], end, f['size'])
        if isinstance(x, AddrV):
            y = item(x, w)
            if w not in (1, 4, 8) or not isinstance(y, z3.ExprRef):
                raise Unsupported('write of %r' % (type(y),))
            if is_fl(y):
                y = E.float_bits(y, I(8 * w, False))
            elif z3.is_bool(y):
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            else:
                y = y % (1 << (8 * w)) if w < 8 else y
            b = f['b%d' % w]
            put(pos=end, size=size, **{'b%d' % w: VecV(b.et, b.len, z3.Store(b.arr, f['pos'], y))})
            return [(st, RefV(lv))]
        if isinstance(x, z3.ExprRef) and z3.is_seq(x):
            E.oblige(st, 'write within the text', z3.And(n >= 0, n <= z3.Length(x)))
            b = f['bs']
            if E.valid(st.pc, n == z3.Length(x)):
                y = x
            else:
                y = z3.SubSeq(x, z3.IntVal(0), n)
            put(pos=end, size=size, bs=VecV(b.et, b.len, z3.Store(b.arr, f['pos'], y)))
            return [(st, RefV(lv))]
        raise Unsupported('write from %r' % (type(x),))
    if name == 'read':
        x, n = v[0], v[1]
        w = as_int_const(n)
        end = f['pos'] + n
        if isinstance(x, AddrV):
            y = E.read(st, x.lv)
            if w not in (1, 4, 8) or not (isinstance(y, z3.ExprRef) or y is None):
                raise Unsupported('read into %r' % (type(y),))
            r = z3.Select(f['b%d' % w].arr, f['pos'])
            st.assume(z3.And(r >= 0, r < (1 << (8 * w))))
            if is_fl(y):
                r = E.bits_float(r, ('float', 8 * w))
            elif z3.is_bool(y):
                r = r != 0
            elif x.orig is not None and x.orig[0] == 'int' and x.orig[2]:
                r = z3.If(r >= 1 << (8 * w - 1), r - (1 << (8 * w)), r)
            E.write(st, x.lv, r)
        elif isinstance(x, IterV):
            d = E.read(st, x.lv)
            E.oblige(st, 'read fits into the buffer', z3.And(n >= 0, n <= d.len))
            if as_int_const(z3.simplify(x.idx)) == 0 and E.valid(st.pc, n == d.len):
                y = z3.Select(f['bs'].arr, f['pos'])
                i = z3.Int(E.th.fresh_name('rd'))
                arr = z3.Lambda([i], y[i])
                E.seqof = getattr(E, 'seqof', {})
                E.seqof[arr.get_id()] = (y, d.len)
                E._keep.append(arr)
                E.write(st, x.lv, VecV(d.et, d.len, arr))
            else:
                # part of a buffer, or not known to be all of it: its content is arbitrary
                E.write(st, x.lv, VecV(d.et, d.len, z3.Const(E.th.fresh_name('rd'), d.arr.sort())))
        else:
            raise Unsupported('read into %r' % (type(x),))
        put(pos=end, ok=z3.And(f['ok'], end <= f['size']))
        return [(st, RefV(lv))]
    if name in ('seekg', 'seekp'):
        if len(v) > 1 and getattr(v[1], 'what', None) != 'beg':
            raise Unsupported('seek relative to ' + str(getattr(v[1], 'what', v[1])))
        put(pos=v[0])
        return [(st, RefV(lv))]
    if name in ('tellg', 'tellp'):
        return [(st, f['pos'])]
    if name in ('is_open',):
        return [(st, f['open'])]
    if name in ('good', 'operator bool'):
        return [(st, f['ok'])]
    if name in ('fail', 'bad', 'operator!'):
        return [(st, z3.Not(f['ok']))]
    if name == 'open':
        h = E.opts.get('open_file')
        if h is None:
            raise Unsupported('opening a file')
        h(E, st, put, v)
        return [(st, None)]
    if name == 'close':
        h = E.opts.get('close_file')
        if h is not None:
            h(E, st, RecV(cur.t, f))
        put(open=z3.BoolVal(False))
        return [(st, None)]
    if name == 'flush':
        return [(st, RefV(lv))]
    raise Unsupported('fstream::' + name)


def opaque_method(E, fr, st, lv, cur, name, v, t, a):
    h = E.opts.get('opaque_method')
    if h is not None:
        r = h(E, fr, st, lv, cur, name, v, t, a)
        if r is not None:
            return r
    if name in ('what', 'c_str', 'str'):
        return [(st, z3.Const(E.th.fresh_name('text'), z3.SeqSort(Z)))]
    if name in ('precision', 'width', 'flush', 'put', 'clear', 'setf', 'exceptions', 'lock', 'unlock', 'write', 'close', 'open'):
        if t == VOID:
            return [(st, None)]
        return [(st, Opaque(name))]
    if name == 'operator bool' and cur.what in ('fn', 'function'):
        return [(st, z3.BoolVal(True))]
    if t[0] in ('int', 'bool', 'float'):
        E.assumptions.add('result of %s on a %s is arbitrary' % (name, cur.what))
        return [(st, E.fresh(name, t, st))]
    raise Unsupported('method %s on opaque %s' % (name, cur.what))


def vec_method(E, fr, st, lv, cur, name, a, v, t, ats, e):
    n = cur.len
    if name in ('size', 'length'):
        return [(st, n)]
    if name == 'empty':
        return [(st, n == 0)]
    if name == 'capacity':
        return [(st, E.fresh('capacity', SIZE, st))]
    if name in ('reserve', 'shrink_to_fit'):
        return [(st, None)]
    if name == 'clear':
        E.write(st, lv, VecV(cur.et, z3.IntVal(0), cur.arr))
        return [(st, None)]
    if name in ('push_back', 'emplace_back', 'push', 'emplace'):
        if name in ('emplace_back', 'emplace') and (len(v) != 1 or (cur.et[0] == 'rec' and not isinstance(v[0], RecV)) or cur.et[0] in ('pair', 'vec') and not isinstance(v[0], (RecV, VecV))):
            x = emplace_val(E, fr, st, cur.et, v, ats)
        else:
            x = v[0]
            if cur.et[0] in ('int', 'float', 'bool') and ats and ats[0][0] in ('int', 'float', 'bool'):
                x = convert(E, st, x, ats[0], cur.et)
        ln = slen(E, cur)
        E.write(st, lv, VecV(cur.et, z3.simplify(ln + 1) if as_int_const(ln) is not None else ln + 1, z3.Store(cur.arr, ln, E.th.to_z3(x, cur.et))))
        if name in ('emplace_back', 'emplace') and t != VOID:
            return [(st, RefV(lv.sub(('i', ln))))]
        return [(st, None)]
    if name == 'pop_back':
        E.oblige(st, 'pop_back on a non-empty vector', n > 0)
        E.write(st, lv, VecV(cur.et, n - 1, cur.arr))
        return [(st, None)]
    if name == 'push_front':
        i = z3.Int(E.th.fresh_name('pf'))
        x = E.th.to_z3(v[0], cur.et)
        E.write(st, lv, VecV(cur.et, n + 1, z3.Lambda([i], z3.If(i == 0, x, z3.Select(cur.arr, i - 1)))))
        return [(st, None)]
    if name in ('pop_front', 'pop'):
        E.oblige(st, 'pop_front on a non-empty list', n > 0)
        E.write(st, lv, sub_vec(E, st, cur, z3.IntVal(1), n - 1))
        return [(st, None)]
    if name == 'back':
        E.oblige(st, 'back() on a non-empty vector', n > 0)
        return [(st, RefV(lv.sub(('i', z3.simplify(n - 1) if as_int_const(n) is not None else n - 1))))]
    if name == 'front':
        E.oblige(st, 'front() on a non-empty vector', n > 0)
        return [(st, RefV(lv.sub(('i', z3.IntVal(0)))))]
    if name == 'at':
        return at(E, st, lv, cur, v[0])
    if name in ('begin', 'cbegin', 'rbegin', 'crbegin'):
        return [(st, IterV(tolv(E, st, lv), z3.IntVal(0), name in ('rbegin', 'crbegin')))]
    if name in ('end', 'cend', 'rend', 'crend'):
        return [(st, IterV(tolv(E, st, lv), n, name in ('rend', 'crend')))]
    if name == 'data':
        return [(st, IterV(tolv(E, st, lv), z3.IntVal(0)))]
    if name == 'resize':
        x = v[1] if len(v) > 1 else E.th.default(cur.et)
        if len(v) > 1:
            x = convert(E, st, x, ats[1], cur.et) if ats[1][0] in ('int', 'float', 'bool') else x
        xz = E.th.to_z3(x, cur.et)
        if as_int_const(n) == 0:
            nv = VecV(cur.et, v[0], z3.K(Z, xz))
        else:
            i = z3.Int(E.th.fresh_name('rs'))
            arr = z3.Const(E.th.fresh_name('resized'), cur.arr.sort())
            old = z3.Select(cur.arr, i)
            st.assume(z3.ForAll([i], z3.Implies(i < n, z3.Select(arr, i) == old), patterns=[z3.Select(arr, i)]))
            st.assume(z3.ForAll([i], z3.Implies(i >= n, z3.Select(arr, i) == xz), patterns=[z3.Select(arr, i)]))
            nv = VecV(cur.et, v[0], arr)
        E.write(st, lv, nv)
        return [(st, None)]
    if name == 'assign':
        if isinstance(v[0], IterV):
            src = E.read(st, v[0].lv)
            E.write(st, lv, sub_vec(E, st, src, v[0].idx, v[1].idx - v[0].idx))
        else:
            E.write(st, lv, VecV(cur.et, v[0], z3.K(Z, E.th.to_z3(v[1], cur.et))))
        return [(st, None)]
    if name == 'insert':
        pos = v[0]
        if len(v) == 3 and isinstance(v[1], IterV):
            src = E.read(st, v[1].lv)
            ins = seq_to_vec(E, sub_vec(E, st, src, v[1].idx, v[2].idx - v[1].idx), cur.et)
        elif len(v) == 2 and isinstance(v[1], VecV):
            ins = v[1]
        elif len(v) == 2:
            ins = VecV(cur.et, z3.IntVal(1), z3.K(Z, E.th.to_z3(v[1], cur.et)))
        elif len(v) == 3:
            ins = VecV(cur.et, v[1], z3.K(Z, E.th.to_z3(v[2], cur.et)))
        p = pos.idx
        E.oblige(st, 'insert position valid', z3.And(p >= 0, p <= n))
        if E.valid(st.pc, p == n):
            E.write(st, lv, concat_vec(E, st, cur, ins))
        else:
            i = z3.Int(E.th.fresh_name('in'))
            E.write(st, lv, VecV(cur.et, n + ins.len, z3.Lambda([i], z3.If(i < p, z3.Select(cur.arr, i), z3.If(
                i < p + ins.len, z3.Select(ins.arr, i - p), z3.Select(cur.arr, i - ins.len))))))
        return [(st, IterV(lv, p))]
    if name == 'erase':
        p = v[0].idx
        q = v[1].idx if len(v) > 1 else p + 1
        E.oblige(st, 'erase position valid', z3.And(p >= 0, p <= q, q <= n) if len(v) > 1 else z3.And(p >= 0, p < n))
        i = z3.Int(E.th.fresh_name('er'))
        E.write(st, lv, VecV(cur.et, n - (q - p), z3.Lambda([i], z3.If(i < p, z3.Select(cur.arr, i), z3.Select(cur.arr, i + (q - p))))))
        return [(st, IterV(lv, p))]
    if name == 'swap':
        E.write(st, lv, v[0])
        E.write(st, a[0], cur)
        return [(st, None)]
    if name == 'max_size':
        return [(st, z3.IntVal((1 << 62)))]
    raise Unsupported('vector::' + name)


def seq_to_vec(E, v, et):
    if isinstance(v, VecV):
        return v
    i = z3.Int(E.th.fresh_name('sq'))
    return VecV(et, z3.Length(v), z3.Lambda([i], v[i]))


def tolv(E, st, lv):
    if lv.root[0] == 't':
        return E.temp(st, lv.root[1] if not lv.path else E.read(st, lv))
    return lv


def at(E, st, lv, cur, i):
    n = vlen(cur)
    ok = z3.And(i >= 0, i < n)
    if E.valid(st.pc, ok, 1500):
        return [(st, RefV(lv.sub(('i', i))))]
    bad = st.copy().assume(z3.Not(ok))
    if E.feasible(bad.pc):
        E.thrown[-1].append((bad, 'out_of_range'))
    st.assume(ok)
    if not E.feasible(st.pc):
        return []
    return [(st, RefV(lv.sub(('i', i))))]


def emplace_val(E, fr, st, et, v, ats):
    if et[0] == 'pair':
        return RecV(et, {'first': convert(E, st, v[0], ats[0], et[1]), 'second': convert(E, st, v[1], ats[1], et[2])})
    if et[0] == 'rec':
        cls = et[1]
        c = E.pick_ctor(cls, ats)
        if c is None:
            return RecV(et, {f: v[i] if i < len(v) else E.th.default(ft) for i, (f, ft) in enumerate(et[2])})
        rs = E.construct(fr, st, cls, v, c)
        if len(rs) != 1 or rs[0][0] is not st:
            raise Unsupported('branching constructor in emplace_back')
        return RecV(et, dict(st.heap[rs[0][1]][1]))
    if et[0] == 'vec':
        if len(v) == 0:
            return E.th.default(et)
        if len(v) == 2 and isptrval(v[0]):
            return VecV(et[1], v[0], z3.K(Z, E.th.to_z3(v[1], et[1])))
        if len(v) == 1 and isptrval(v[0]):
            return VecV(et[1], v[0], E.th.karr(et[1]))
        if len(v) == 2 and isinstance(v[0], IterV):
            return sub_vec(E, st, E.read(st, v[0].lv), v[0].idx, v[1].idx - v[0].idx)
    raise Unsupported('emplace of %r' % (et,))


NPOS = (1 << 64) - 1


def str_method(E, fr, st, lv, cur, name, a, v, t, ats):
    n = z3.Length(cur)
    if name in ('size', 'length'):
        st.assume(n <= 4611686018427387903)   # std::string::max_size()
        return [(st, slen(E, cur))]
    if name == 'empty':
        return [(st, n == 0)]
    if name in ('c_str', 'data', 'str'):
        return [(st, cur)]
    if name in ('reserve', 'shrink_to_fit'):
        return [(st, None)]
    if name == 'clear':
        E.write(st, lv, E.strval(''))
        return [(st, None)]
    if name in ('push_back',):
        E.write(st, lv, z3.Concat(cur, z3.Unit(v[0])))
        return [(st, None)]
    if name == 'append':
        if len(v) == 1:
            x = v[0]
        elif len(v) == 2 and isinstance(v[0], IterV):
            x = sub_vec(E, st, E.read(st, v[0].lv), v[0].idx, v[1].idx - v[0].idx)
        elif len(v) == 2 and isptrval(v[0]):
            raise Unsupported('append(n, c)')
        else:
            x = z3.SubSeq(v[0], v[1] if len(v) > 2 else z3.IntVal(0), v[-1])
        E.write(st, lv, z3.Concat(cur, x))
        return [(st, RefV(lv))]
    if name == 'pop_back':
        E.oblige(st, 'pop_back on a non-empty string', n > 0)
        E.write(st, lv, z3.SubSeq(cur, z3.IntVal(0), n - 1))
        return [(st, None)]
    if name == 'back':
        E.oblige(st, 'back() on a non-empty string', n > 0)
        return [(st, RefV(lv.sub(('i', n - 1))))]
    if name == 'front':
        E.oblige(st, 'front() on a non-empty string', n > 0)
        return [(st, RefV(lv.sub(('i', z3.IntVal(0)))))]
    if name == 'at':
        return at(E, st, lv, cur, v[0])
    if name == 'substr':
        p = v[0] if v else z3.IntVal(0)
        ok = z3.And(p >= 0, p <= n)
        if not E.valid(st.pc, ok, 1500):
            bad = st.copy().assume(z3.Not(ok))
            if E.feasible(bad.pc):
                E.thrown[-1].append((bad, 'out_of_range'))
            st.assume(ok)
        if len(v) > 1 and as_int_const(v[1]) != NPOS:
            ln = z3.If(v[1] < n - p, v[1], n - p)
            if E.valid(st.pc, v[1] <= n - p, 1000):
                ln = v[1]
        else:
            ln = n - p
        return [(st, z3.SubSeq(cur, p, ln))]
    if name in ('find',):
        x = v[0]
        if isptrval(x):
            x = z3.Unit(x)
        p = v[1] if len(v) > 1 else z3.IntVal(0)
        r = z3.IndexOf(cur, x, p)
        return [(st, z3.If(z3.Or(p > n, r < 0), z3.IntVal(NPOS), r))]
    if name in ('begin', 'cbegin', 'rbegin', 'crbegin'):
        return [(st, IterV(tolv(E, st, lv), z3.IntVal(0), name in ('rbegin', 'crbegin')))]
    if name in ('end', 'cend', 'rend', 'crend'):
        return [(st, IterV(tolv(E, st, lv), n, name in ('rend', 'crend')))]
    if name == 'compare' and len(v) == 1:
        f = E.th.ufun('strcmp', cur.sort(), cur.sort(), Z)
        st.assume((f(cur, v[0]) == 0) == (cur == v[0]))
        return [(st, f(cur, v[0]))]
    if name == 'erase':
        if v and isinstance(v[0], IterV):
            p = v[0].idx
            q = v[1].idx if len(v) > 1 else p + 1
            E.write(st, lv, z3.Concat(z3.SubSeq(cur, z3.IntVal(0), p), z3.SubSeq(cur, q, n - q)))
            return [(st, IterV(lv, p))]
        p = v[0] if v else z3.IntVal(0)
        ln = v[1] if len(v) > 1 else n - p
        E.oblige(st, 'erase position valid', z3.And(p >= 0, p <= n))
        q = z3.If(p + ln > n, n, p + ln)
        E.write(st, lv, z3.Concat(z3.SubSeq(cur, z3.IntVal(0), p), z3.SubSeq(cur, q, n - q)))
        return [(st, RefV(lv))]
    if name == 'resize':
        raise Unsupported('string::resize')
    raise Unsupported('string::' + name)


def map_method(E, fr, st, lv, m, name, a, v, t, ats):
    isset = m.t[3] in ('set', 'unordered_set')
    if name == 'size':
        return [(st, m.size)]
    if name == 'empty':
        return [(st, m.size == 0)]
    if name == 'clear':
        E.write(st, lv, E.th.default(m.t))
        return [(st, None)]
    if name in ('count', 'contains'):
        k = E.th.to_z3(v[0])
        d = z3.Select(m.dom, k)
        return [(st, d if name == 'contains' else z3.If(d, z3.IntVal(1), z3.IntVal(0)))]
    if name == 'find':
        k = v[0]
        return [(st, MapIterV(tolv(E, st, lv), k, z3.Select(m.dom, E.th.to_z3(k))))]
    if name in ('end', 'cend'):
        return [(st, MapIterV(tolv(E, st, lv), None, z3.BoolVal(False)))]
    if name == 'at':
        k = E.th.to_z3(v[0])
        ok = z3.Select(m.dom, k)
        if not E.valid(st.pc, ok, 1500):
            bad = st.copy().assume(z3.Not(ok))
            if E.feasible(bad.pc):
                E.thrown[-1].append((bad, 'out_of_range'))
            st.assume(ok)
            if not E.feasible(st.pc):
                return []
        return [(st, RefV(lv.sub(('k', v[0]))))]
    if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        if isset:
            k = E.th.to_z3(v[0])
            E.write(st, lv, MapV(m.t, z3.Store(m.dom, k, z3.BoolVal(True)), z3.Store(m.val, k, z3.BoolVal(True)), z3.If(z3.Select(m.dom, k), m.size, m.size + 1)))
            return [(st, None)]
        if len(v) == 1:
            k, x = v[0].f['first'], v[0].f['second']
        else:
            k, x = v[0], v[1]
        kz, xz = E.th.to_z3(k), E.th.to_z3(x, m.t[2])
        had = z3.Select(m.dom, kz)
        nv = xz if name == 'insert_or_assign' else z3.If(had, z3.Select(m.val, kz), xz)
        E.write(st, lv, MapV(m.t, z3.Store(m.dom, kz, z3.BoolVal(True)), z3.Store(m.val, kz, nv), z3.If(had, m.size, m.size + 1)))
        return [(st, None)]
    if name == 'erase':
        if isinstance(v[0], MapIterV):
            k = E.th.to_z3(v[0].key)
            E.oblige(st, 'erase of a valid iterator', v[0].valid)
        else:
            k = E.th.to_z3(v[0])
        had = z3.Select(m.dom, k)
        E.write(st, lv, MapV(m.t, z3.Store(m.dom, k, z3.BoolVal(False)), m.val, z3.If(had, m.size - 1, m.size)))
        return [(st, z3.If(had, z3.IntVal(1), z3.IntVal(0)))]
    raise Unsupported('map::' + name)


# ------------------------------------------------------------------ operators
def std_operator(E, fr, st, e, opname, args):
    t = E.ty.of(e)
    ats = [E.ty.of(x) for x in args]
    if opname == 'operator()':
        out = []
        for s, f in E.ev(fr, st, args[0]):
            for s2, vs in E.ev_args(fr, s, args[1:], [True] * len(args)):
                out += E.call_value(s2, f, vs)
        return out
    if opname == 'operator->':
        out = []
        for s, v in E.ev(fr, st, args[0]):
            out.append((s, v))
        return out
    if opname == 'operator*' and len(args) == 1:
        out = []
        for s, v in E.ev(fr, st, args[0]):
            out.append((s, RefV(unobj(E, s, E.deref(s, v, t)))))
        return out
    if opname == 'operator[]':
        out = []
        for s, lv in E.lvof(fr, st, args[0]):
            lv = E.deref_lv(s, lv)
            for s2, i in E.ev(fr, s, args[1]):
                out += subscript(E, fr, s2, unobj(E, s2, lv), i, ats)
        return out
    if opname in ('operator=',):
        out = []
        for s, v in E.ev(fr, st, args[1]):
            for s2, lv in E.lvof(fr, s, args[0]):
                if isinstance(lv, LV) and lv.root[0] == 't' and isinstance(lv.root[1], tuple) and lv.root[1][0] == 'tie':
                    for x, (f, _) in zip(lv.root[1][1], E.th.recfields(v.t)):
                        E.write(s2, x, v.f[f])
                    out.append((s2, None))
                    continue
                if lv.root[0] == 'c' and not lv.path and isinstance(s2.store.get(lv.root[1]), tuple):
                    tie = s2.store[lv.root[1]]
                    for x, (f, _) in zip(tie[1], E.th.recfields(v.t)):
                        E.write(s2, x, v.f[f])
                    out.append((s2, None))
                    continue
                lv = E.deref_lv(s2, lv)
                x = v
                if isinstance(x, AddrV) and False:
                    pass
                lv = unobj(E, s2, lv)
                cur = None
                try:
                    cur = E.read(s2, lv)
                except Unsupported:
                    pass
                if isinstance(cur, z3.SeqRef) and isinstance(x, z3.ArithRef):
                    x = z3.Unit(x)
                E.write(s2, lv, x)
                out.append((s2, RefV(lv)))
        return out
    if opname in ('operator++', 'operator--'):
        out = []
        for s, lv in E.lvof(fr, st, args[0]):
            lv = E.deref_lv(s, lv)
            v = E.read(s, lv)
            if not isinstance(v, IterV):
                raise Unsupported('++ on %r' % type(v))
            nv = IterV(v.lv, v.idx + 1 if opname == 'operator++' else v.idx - 1, v.rev, v.val)
            E.write(s, lv, nv)
            out.append((s, v if len(args) > 1 else RefV(lv)))
        return out
    if opname in ('operator<<', 'operator>>'):
        out = []
        for s, lv in E.lvof(fr, st, args[0]):
            lv = E.deref_lv(s, lv)
            h = E.opts.get('stream_op')
            if h is not None:
                r = h(E, fr, s, opname, lv, args[1], ats[1])
                if r is not None:
                    out += r
                    continue
            if opname == 'operator>>':
                raise Unsupported('stream extraction')
            # insertion into a stream: no effect on verified state
            try:
                rs = E.ev(fr, s, args[1])
            except Unsupported:
                rs = [(s, None)]
            for s2, _ in rs:
                out.append((s2, RefV(lv) if lv.root[0] != 't' else E.read(s2, lv)))
        return out
    if opname == 'operator+=':
        out = []
        for s, v in E.ev(fr, st, args[1]):
            for s2, lv in E.lvof(fr, s, args[0]):
                lv = E.deref_lv(s2, lv)
                cur = E.read(s2, lv)
                if isinstance(cur, IterV):
                    E.write(s2, lv, IterV(cur.lv, cur.idx + v, cur.rev))
                elif z3.is_seq(cur):
                    x = z3.Unit(v) if isinstance(v, z3.ArithRef) else v
                    E.write(s2, lv, z3.Concat(cur, x))
                else:
                    raise Unsupported('+= on %r' % type(cur))
                out.append((s2, RefV(lv)))
        return out
    out = []
    for s, vs in E.ev_list(fr, st, args):
        vs = [val(E, s, x) for x in vs]
        out.append((s, std_binop(E, s, opname[8:], vs, t, ats)))
    return out


def std_binop(E, st, op, vs, t, ats):
    a = vs[0]
    b = vs[1] if len(vs) > 1 else None
    if isinstance(a, (IterV, MapIterV)) or isinstance(b, (IterV, MapIterV)):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return iter_cmp(E, st, op, a, b)
        if op == '+':
            it, k = (a, b) if isinstance(a, IterV) else (b, a)
            return IterV(it.lv, it.idx + k, it.rev)
        if op == '-':
            if isinstance(b, IterV):
                return a.idx - b.idx
            return IterV(a.lv, a.idx - b, a.rev)
    az = isinstance(a, z3.ExprRef)
    bz = isinstance(b, z3.ExprRef)
    if op == '+' and (az and z3.is_seq(a) or bz and z3.is_seq(b)):
        if isinstance(a, z3.ArithRef):
            a = z3.Unit(a)
        if isinstance(b, z3.ArithRef):
            b = z3.Unit(b)
        return z3.Concat(a, b)
    if op in ('==', '!='):
        if isinstance(a, VecV) and isinstance(b, VecV):
            i = z3.Int('veq')
            r = z3.And(a.len == b.len, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.len), z3.Select(a.arr, i) == z3.Select(b.arr, i))))
        elif az and bz:
            r = a == b
        elif isinstance(a, RecV) and isinstance(b, RecV):
            r = E.th.to_z3(a) == E.th.to_z3(b)
        elif isinstance(a, FnV) or isinstance(b, FnV):
            r = z3.BoolVal(False)
        elif isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of opaque values')
        else:
            raise Unsupported('operator' + op)
        return r if op == '==' else z3.Not(r)
    if op in ('<', '>', '<=', '>='):
        if az and z3.is_seq(a):
            f = E.th.ufun('str_lt', a.sort(), a.sort(), z3.BoolSort())
            return {'<': f(a, b), '>': f(b, a), '<=': z3.Not(f(b, a)), '>=': z3.Not(f(a, b))}[op]
        if isinstance(a, z3.ArithRef):
            return E.compare(op, a, b, SIZE)
    if op == '!' and isinstance(a, z3.ArithRef):
        return a == 0
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('op' + op)
    if op in ('+', '-') and isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef):
        # streampos arithmetic
        r = a + b if op == '+' else a - b
        E.oblige(st, 'stream position stays in range', z3.And(r >= -(1 << 63), r < 1 << 63))
        return r
    if op == '!' and len(vs) == 1 and isinstance(vs[0], RecV) and vs[0].t[1] == 'stream':
        return z3.Not(vs[0].f['ok'])
    raise Unsupported('operator%s on %r' % (op, [type(x) for x in vs]))


def subscript(E, fr, st, lv, i, ats):
    cur = E.read(st, lv)
    if isinstance(cur, VecV):
        E.bounds(st, cur, i, 'vector index in bounds')
        return [(st, RefV(lv.sub(('i', i))) if lv.root[0] != 't' else E.sel(cur, i))]
    if isinstance(cur, MapV):
        kz = E.th.to_z3(i)
        had = z3.Select(cur.dom, kz)
        if not E.valid(st.pc, had, 1000):
            dv = E.th.to_z3(E.th.default(cur.t[2]), cur.t[2])
            E.write(st, lv, MapV(cur.t, z3.Store(cur.dom, kz, z3.BoolVal(True)), z3.Store(cur.val, kz, z3.If(had, z3.Select(cur.val, kz), dv)),
                                 z3.If(had, cur.size, cur.size + 1)))
        return [(st, RefV(lv.sub(('k', i))))]
    if isinstance(cur, IterV):
        return [(st, RefV(cur.lv.sub(('i', cur.idx + i))))]
    if isinstance(cur, z3.ExprRef) and z3.is_seq(cur):
        # string[size()] is a readable NUL
        E.oblige(st, 'string index in bounds', z3.And(i >= 0, i <= z3.Length(cur)))
        if E.valid(st.pc, i < z3.Length(cur), 1500):
            return [(st, RefV(lv.sub(('i', i))) if lv.root[0] != 't' else cur[i])]
        return [(st, z3.If(i == z3.Length(cur), z3.IntVal(0), cur[i]))]
    raise Unsupported('subscript of %r' % (type(cur),))


# ------------------------------------------------------------------ construction
def std_construct(E, fr, st, t, args, ctype, e):
    k = t[0]
    # default arguments of std constructors (allocators) carry no information
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    ats = [E.ty.of(a) for a in args]
    if k == 'opaque':
        try:
            rs = E.ev_list(fr, st, args)
        except Unsupported:
            rs = [(st, [])]
        h = E.opts.get('opaque_construct')
        if h is not None:
            r = h(E, fr, rs, t)
            if r is not None:
                return r
        return [(s, vs[0] if len(vs) == 1 and isinstance(vs[0], Opaque) else Opaque(t[1])) for s, vs in rs]
    out = []
    for s, vs in E.ev_list(fr, st, args):
        vs = [val(E, s, x) for x in vs]
        out.append((s, construct_val(E, s, t, vs, ats)))
    return out


def construct_val(E, st, t, v, ats):
    k = t[0]
    ats = list(ats)
    while ats and ats[-1][0] == 'opaque' and 'alloc' in str(ats[-1][1]):
        ats.pop()
        v = v[:-1]
    if k in ('vec', 'list'):
        et = E.vt(t[1])
        if not v:
            try:
                return E.th.default(('vec', et))
            except Unsupported:
                return Opaque('vector')
        a0 = v[0]
        if isinstance(a0, Opaque):
            return a0
        if isinstance(a0, VecV) and len(v) == 1:
            return a0
        if isinstance(a0, IterV):
            src = E.read(st, a0.lv)
            r = sub_vec(E, st, src, a0.idx, v[1].idx - a0.idx)
            return seq_to_vec(E, r, et)
        if isinstance(a0, z3.ExprRef) and a0.sort() == Z:
            if len(v) == 1:
                return VecV(et, a0, E.th.karr(et))
            x = v[1]
            if et[0] in ('int', 'float', 'bool') and ats[1][0] in ('int', 'float', 'bool'):
                x = convert(E, st, x, ats[1], et)
            return vec_const(E, et, a0, x)
        raise Unsupported('vector constructor')
    if k == 'str':
        if not v:
            return E.strval('')
        if len(v) == 1 and isinstance(v[0], z3.ExprRef) and z3.is_seq(v[0]):
            return v[0]
        if isinstance(v[0], IterV):
            src = E.read(st, v[0].lv)
            if isinstance(src, VecV):
                q = getattr(E, 'seqof', {}).get(src.arr.get_id())
                n = v[1].idx if isinstance(v[1], IterV) else v[1]
                E.oblige(st, 'text from within the buffer', z3.And(0 <= v[0].idx, v[0].idx <= n, n <= src.len))
                if q is not None and as_int_const(z3.simplify(v[0].idx)) == 0:
                    if E.valid(st.pc, z3.Length(q[0]) == n):
                        return q[0]
                    if E.valid(st.pc, z3.Length(q[0]) >= n):
                        return z3.SubSeq(q[0], z3.IntVal(0), n)
                r = z3.Const(E.th.fresh_name('text'), z3.SeqSort(Z))
                st.assume(z3.Length(r) == n - v[0].idx)
                return r
            if v[0].rev:
                raise Unsupported('string from reverse range')
            return z3.SubSeq(src, v[0].idx, (v[1].idx if isinstance(v[1], IterV) else v[1]) - v[0].idx)
        if len(v) == 2 and isinstance(v[0], z3.ArithRef):
            n = as_int_const(v[0])
            if n is not None:
                out = E.strval('')
                for _ in range(n):
                    out = z3.Unit(v[1]) if _ == 0 else z3.Concat(out, z3.Unit(v[1]))
                return out
        if len(v) == 2 and z3.is_seq(v[0]):
            return z3.SubSeq(v[0], z3.IntVal(0), v[1])
        if isinstance(v[0], VecV):
            # initializer_list<char>
            n = as_int_const(v[0].len)
            if n is not None:
                us = [z3.Unit(E.sel(v[0], z3.IntVal(i))) for i in range(n)]
                return E.strval('') if n == 0 else (us[0] if n == 1 else z3.Concat(*us))
        raise Unsupported('string constructor')
    if k in ('pair', 'tuple'):
        rt = E.vt(t)
        fs = E.th.recfields(rt)
        if len(v) == 1 and isinstance(v[0], RecV):
            return v[0]
        if not v:
            return E.th.default(rt)
        return RecV(rt, {f: convert(E, st, x, at, ft) for (f, ft), x, at in zip(fs, v, ats)})
    if k == 'ptr':
        if not v:
            return z3.IntVal(0)
        return v[0]
    if k == 'fn':
        if not v:
            return Opaque('function')
        return v[0]
    if k in ('map', 'set'):
        if not v:
            return E.default_value(t)
        if isinstance(v[0], MapV):
            return v[0]
        if isinstance(v[0], VecV):
            m = E.default_value(t)
            n = as_int_const(z3.simplify(v[0].len))
            if n is None:
                raise Unsupported('map from symbolic list')
            for i in range(n):
                x = E.sel(v[0], z3.IntVal(i))
                kz, xz = (E.th.to_z3(x.f['first']), E.th.to_z3(x.f['second'], m.t[2])) if k == 'map' else (E.th.to_z3(x), z3.BoolVal(True))
                m = MapV(m.t, z3.Store(m.dom, kz, z3.BoolVal(True)), z3.Store(m.val, kz, z3.If(z3.Select(m.dom, kz), z3.Select(m.val, kz), xz)),
                         z3.If(z3.Select(m.dom, kz), m.size, m.size + 1))
            return m
        raise Unsupported('map constructor')
    if k == 'iter':
        return v[0]
    if k == 'arr':
        return v[0] if v else E.default_value(t)
    if k in ('int', 'float', 'bool'):
        return v[0] if v else E.th.default(t)
    if k == 'opt':
        raise Unsupported('optional')
    if k == 'rec' and t[1] == 'stream':
        s = E.th.fresh('file', t)
        s.f.update(pos=z3.IntVal(0), ok=z3.BoolVal(True), open=z3.BoolVal(False))
        if v:
            if E.opts.get('open_file') is None:
                raise Unsupported('opening a file')
            E.opts['open_file'](E, st, s.f.update, v)
        return s
    raise Unsupported('construction of %r' % (t,))
