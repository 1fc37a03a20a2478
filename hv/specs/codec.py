"""C01 portable byte order, C02 16-bit float codec, C03 8-bit float codec. Bit-precise: machine integers and IEEE floats."""
from ..unit import *

BV = z3.BitVecVal
U32 = ('int', 32, False)


def swap(v):
    n = v.size() // 8
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)])


for W in (16, 32, 64):
    @unit('portableBytes(%d bit)' % W, 'C01', mode='bv')
    def pb(h, W=W):
        x = z3.BitVec('x', W)
        h.E.input_terms['x'] = x
        sig = {16: 'uint16_t (uint16_t)', 32: 'uint32_t (uint32_t)', 64: 'uint64_t (uint64_t)'}[W]
        st, y = h.callf1(h.st, 'portableBytes', x, sig=sig)
        # byte i of the stored (little endian) image is byte n-1-i of the value: most significant byte first
        h.check(st, 'bytes are written most significant first', y == swap(x))
        st, z = h.callf1(st, 'portableBytes', y, sig=sig)
        h.check(st, 'converting twice restores the value', z == x)


@unit('portableFloat', 'C01', mode='bv')
def pf(h):
    x = z3.BitVec('x', 32)
    h.E.input_terms['x'] = x
    st, y = h.callf1(h.st, 'portableFloat', x)
    h.check(st, 'float with the byte-swapped pattern', z3.simplify(y) == z3.fpBVToFP(swap(x), FS[32]))


def bits_of(h, name):
    b = z3.BitVec(name, 32)
    h.E.input_terms[name] = b
    return b, z3.fpBVToFP(b, FS[32])


def is_nan_bits(b):
    return z3.UGT(b & BV(0x7fffffff, 32), BV(0x7f800000, 32))


def half_roundtrip(h, st, f):
    st, c = h.callf1(st, 'floatToHalf', f)
    st, g = h.callf1(st, 'halfToFloat', c)
    return st, c, g


@unit('half: value bits', 'C02', mode='bv')
def half_value(h):
    b, f = bits_of(h, 'bits')
    st, c, g = half_roundtrip(h, h.st, f)
    nan = is_nan_bits(b)
    top = z3.fpBVToFP(b & BV(0xffff0000, 32), FS[32])
    h.check(st, 'NaN stays NaN', z3.Implies(nan, z3.fpIsNaN(g)))
    h.check(st, 'infinity keeps its sign', z3.Implies(z3.fpIsInf(f), g == f))
    h.check(st, 'every other value keeps sign, exponent and the top 7 mantissa bits', z3.Implies(z3.Not(nan), g == top))
    h.check(st, 'values with 7 mantissa bits are exact', z3.Implies(z3.And(z3.Not(nan), (b & BV(0xffff, 32)) == 0), g == f))
    h.check(st, 'never larger in magnitude', z3.Implies(z3.Not(nan), z3.fpLEQ(z3.fpAbs(g), z3.fpAbs(f))))


@unit('half: every code survives', 'C02', mode='bv')
def half_codes(h):
    c = z3.BitVec('code', 16)
    h.E.input_terms['code'] = c
    nan = z3.UGT(c & BV(0x7fff, 16), BV(0x7f80, 16))
    st, g = h.callf1(h.st, 'halfToFloat', c)
    st, d = h.callf1(st, 'floatToHalf', g)
    h.check(st, 'code -> float -> code is the identity', z3.Implies(z3.Not(nan), d == c))
    h.check(st, 'NaN codes decode to NaN', z3.Implies(nan, z3.fpIsNaN(g)))
    st, g2 = h.callf1(st, 'halfToFloat', d)
    h.check(st, 'and stay NaN', z3.Implies(nan, z3.fpIsNaN(g2)))


@unit('half: order is kept', 'C02', mode='bv')
def half_mono(h):
    a, f = bits_of(h, 'bits_a')
    b, g = bits_of(h, 'bits_b')
    st, _, x = half_roundtrip(h, h.st, f)
    st, _, y = half_roundtrip(h, st, g)
    h.check(st, 'a <= b implies encoded a <= encoded b', z3.Implies(z3.fpLEQ(f, g), z3.fpLEQ(x, y)))


# ---- 8 bit floats, every bias the library uses (1..15; 0 is documented to mean 1)
def qenc(h, st, f, bias):
    return h.callf1(st, 'floatToQuarter', f, BV(bias, 32))


def qdec(h, st, q, bias):
    return h.callf1(st, 'quarterToFloat', q, BV(bias, 32))


def fp2(e, m=1.0):
    return z3.FPVal(m * 2.0 ** e, FS[32])


def qcode(h):
    q = z3.BitVec('code', 8)
    h.E.input_terms['code'] = q
    return q


def value_spec(q, b):
    """sign * (1 + m/8) * 2^(e-b); e=m=0 is zero"""
    s, e, m = z3.Extract(7, 7, q), z3.Extract(6, 3, q), z3.Extract(2, 0, q)
    ex = z3.ZeroExt(4, e) + BV(127 - b, 8)
    v = z3.fpBVToFP(z3.Concat(s, ex, m, BV(0, 20)), FS[32])
    return z3.If(q == BV(0, 8), z3.fpBVToFP(BV(0, 32), FS[32]), v)


for BIAS in range(0, 16):
    B = max(BIAS, 1)

    @unit('quarter bias %d: decoded value' % BIAS, 'C03', mode='bv')
    def qd(h, BIAS=BIAS, B=B):
        q = qcode(h)
        st, g = qdec(h, h.st, q, BIAS)
        h.check(st, 'NaN code', z3.Implies(q == 0xff, z3.fpIsNaN(g)))
        h.check(st, '+inf code', z3.Implies(q == 0x78, g == z3.fpPlusInfinity(FS[32])))
        h.check(st, '-inf code', z3.Implies(q == 0xf8, g == z3.fpMinusInfinity(FS[32])))
        h.check(st, 'tiny code is positive and below every other positive value',
                z3.Implies(q == 0x80, z3.And(z3.fpGT(g, fp2(-30)), z3.fpLT(g, fp2(-B, 1.125)))))
        h.check(st, 'sign, exponent and mantissa', z3.Implies(z3.Not(z3.Or(q == 0xff, q == 0x78, q == 0xf8, q == 0x80)), g == value_spec(q, B)))

    @unit('quarter bias %d: every code survives' % BIAS, 'C03', mode='bv')
    def qr(h, BIAS=BIAS, B=B):
        q = qcode(h)
        e = z3.Extract(6, 3, q)
        h.st.assume(z3.Or(z3.ULT(e, BV(15, 4)), q == 0x78, q == 0xf8, q == 0xff))
        if B >= 12:
            h.st.assume(q != 0x80)
        st, g = qdec(h, h.st, q, BIAS)
        bits = z3.simplify(g)
        st, d = qenc(h, st, g, BIAS)
        h.check(st, 'code -> float -> code is the identity', d == q)

    @unit('quarter bias %d: encoding error' % BIAS, 'C03', mode='bv')
    def qe(h, BIAS=BIAS, B=B):
        b, f = bits_of(h, 'bits')
        st, q = qenc(h, h.st, f, BIAS)
        st, g = qdec(h, st, q, BIAS)
        mag = z3.fpAbs(f)
        neg = z3.fpIsNegative(f)
        h.check(st, 'NaN stays NaN', z3.Implies(z3.fpIsNaN(f), z3.fpIsNaN(g)))
        h.check(st, 'infinity stays infinity', z3.Implies(z3.fpIsInf(f), g == f))
        h.check(st, '+0 stays 0', z3.Implies(b == 0, g == z3.FPVal(0.0, FS[32])))
        top = fp2(14 - B, 1.875)
        over = z3.And(z3.Not(z3.fpIsNaN(f)), z3.Not(z3.fpIsInf(f)), z3.fpGEQ(mag, fp2(15 - B)))
        h.check(st, 'too large clamps to the largest value of that sign', z3.Implies(over, g == z3.If(neg, z3.fpNeg(top), top)))
        inside = z3.And(z3.fpGEQ(mag, fp2(-B, 1.0625)), z3.fpLT(mag, fp2(15 - B)))
        # stated on bit patterns: the step between neighbouring codes of one binade is 2^-3 of it, i.e. 2^20 units of the float's
        # pattern; inside the range the decoded pattern is within half a step below/above (or exactly one truncation in the last)
        gb = h.bits(g)
        h.check(st, 'in range: sign kept', z3.Implies(inside, z3.Extract(31, 31, gb) == z3.Extract(31, 31, b)))
        h.check(st, 'in range: same power of two', z3.Implies(inside, z3.Extract(30, 23, gb) == z3.Extract(30, 23, b)))
        m, n = z3.Extract(22, 0, b), z3.Extract(22, 0, gb)
        last = z3.Extract(22, 20, b) == 7
        err = z3.If(z3.UGE(m, n), m - n, n - m)
        h.check(st, 'in range: error at most half a step (a step in the last one of a binade)',
                z3.Implies(inside, z3.ULE(err, z3.If(last, BV((1 << 20) - 1, 23), BV(1 << 19, 23)))))
        small = z3.fpLT(mag, fp2(-B, 1.0625))
        h.check(st, 'below range becomes zero or the tiny value', z3.Implies(small, z3.Or(q == 0, q == 0x80)))
        h.check(st, 'negligible positive becomes zero', z3.Implies(z3.And(z3.fpLT(mag, fp2(-12)), z3.fpLT(mag, fp2(-B)), z3.Not(neg)), q == 0))

    @unit('quarter bias %d: order is kept' % BIAS, 'C03', mode='bv')
    def qm(h, BIAS=BIAS, B=B):
        a, f = bits_of(h, 'bits_a')
        b, g = bits_of(h, 'bits_b')
        st = h.st
        st.assume(z3.And(z3.Not(z3.fpIsNegative(f)), z3.Not(z3.fpIsNegative(g)), z3.Not(is_nan_bits(a)), z3.Not(is_nan_bits(b))))
        st, x = qenc(h, st, f, BIAS)
        st, x = qdec(h, st, x, BIAS)
        st, y = qenc(h, st, g, BIAS)
        st, y = qdec(h, st, y, BIAS)
        h.check(st, 'a <= b implies decoded a <= decoded b', z3.Implies(z3.fpLEQ(f, g), z3.fpLEQ(x, y)))
