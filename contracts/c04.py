"""C04: numeric conversions, scalar and vector; floating-point constants."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *
from .fp import *

PROP = 'C04'
EVAL = 'pywasm.core.Machine.evaluate'
ASSUMPTIONS = [
    'NaN bit patterns follow x86-64 SSE: conversions between binary32 and binary64 keep the payload and set the quiet bit',
    'bit-level encodings of float operations are those of the z3/cvc5 FloatingPoint theory',
]
RM = sym.RNE
RTZ = z3.RTZ()


def pow2(n, srt):
    """2**n as a float"""
    return z3.fpSignedToFP(RM, z3.BitVecVal(1 << n, 70), srt)


def bounds(x, w, signed):
    """(below the range, above the range) of the truncated value"""
    srt = x.sort()
    t = z3.fpRoundToIntegral(RTZ, x)
    lo = z3.fpNeg(pow2(w - 1, srt)) if signed else z3.fpSignedToFP(RM, z3.BitVecVal(0, 70), srt)
    hi = pow2(w - 1 if signed else w, srt)
    return z3.fpLT(t, lo), z3.fpGEQ(t, hi)


def toint(x, w, signed):
    return z3.fpToSBV(RTZ, x, z3.BitVecSort(w)) if signed else z3.fpToUBV(RTZ, x, z3.BitVecSort(w))


def trunc(name, ft, it, signed):
    def body(c):
        a = c.bv('a', WIDTH[ft])
        n = WIDTH[it]
        w = machine(c, [inst(c, name)], [val(c, ft, a)])
        out = go(c, w)
        x = tofp(a)
        below, above = bounds(x, n, signed)
        if c.decide(zor(z3.fpIsNaN(x), below, above)):
            c.cover('trap')
            traps(c, w, out)
        else:
            c.cover('result')
            finish(c, w, out, [(it, toint(x, n, signed))])
    add(PROP, name, body, EVAL, covers=('trap', 'result'), heavy=3)


def satval(x, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    below, above = bounds(x, w, signed)
    return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, w),
                 z3.If(below, z3.BitVecVal(lo, w), z3.If(above, z3.BitVecVal(hi, w), toint(x, w, signed))))


def sat(name, ft, it, signed):
    def body(c):
        a = c.bv('a', WIDTH[ft])
        n = WIDTH[it]
        w = machine(c, [inst(c, name)], [val(c, ft, a)])
        out = go(c, w)
        c.cover('runs')
        finish(c, w, out, [(it, satval(tofp(a), n, signed))])
    add(PROP, name, body, EVAL, covers=('runs',), heavy=3)


def convert(name, it, ft, signed):
    def body(c):
        a = c.bv('a', WIDTH[it])
        w = machine(c, [inst(c, name)], [val(c, it, a)])
        out = go(c, w)
        c.cover('runs')
        srt = SORT[WIDTH[ft]]
        res = z3.fpSignedToFP(RM, a, srt) if signed else z3.fpUnsignedToFP(RM, a, srt)
        finish(c, w, out, [lambda v: is_float(c, v, ft, res, [])])
    add(PROP, name, body, EVAL, covers=('runs',), heavy=3)


def fconv(name, a_t, r_t):
    def body(c):
        a = c.bv('a', WIDTH[a_t])
        w = machine(c, [inst(c, name)], [val(c, a_t, a)])
        out = go(c, w)
        c.cover('runs')
        res = z3.fpFPToFP(RM, tofp(a), SORT[WIDTH[r_t]])
        finish(c, w, out, [lambda v: nan_conv(c, v, r_t, res, a)])
    add(PROP, name, body, EVAL, covers=('runs',), heavy=3)


def conv_is(r, res, a):
    """bits r for a float-to-float conversion `res` of the bits a"""
    nan = z3.And(isnan_bits(r), (r & quiet(r.size())) != 0, z3.Implies(canonical(a), canonical(r)))
    return z3.If(z3.fpIsNaN(res), nan, z3.And(z3.Not(isnan_bits(r)), tofp(r) == res))


def nan_conv(c, v, t, res, a):
    if not has_attrs(c, v, 'type', 'data'):
        return False
    if val_seq(c, v) is None:
        return False
    r = bits_of(c, v, WIDTH[t])
    return zand(is_val(c, v, t, r), conv_is(r, res, a))


def reinterpret(name, a_t, r_t):
    def body(c):
        a = c.bv('a', WIDTH[a_t])
        w = machine(c, [inst(c, name)], [val(c, a_t, a)])
        out = go(c, w)
        c.cover('runs')
        finish(c, w, out, [(r_t, a)])
    add(PROP, name, body, EVAL, covers=('runs',))


def fconst(name, t):
    def body(c):
        n = WIDTH[t]
        a = c.bv('a', n)
        r = c.eng.instantiate(io.BytesIO, [SBytes(sym.mkcb([ENC[name][0]] + sym.term_bytes(a)))], {})
        dec = c.run(core.Inst.from_reader, r)
        c.ensure('the constant is decoded', dec.kind == 'normal')
        w = machine(c, [dec.val])
        out = go(c, w)
        c.cover('runs')
        finish(c, w, out, [(t, a)])
    add(PROP, name, body, EVAL, covers=('runs',))


def vec(name, f, heavy=5):
    """f(input bits) -> list of (low bit, width, predicate on the result lane)"""
    def body(c):
        a = c.bv('a', 128)
        w = machine(c, [inst(c, name)], [val(c, V128, a)])
        out = go(c, w)
        c.cover('runs')

        def each(v):
            c.ensure('result is a v128', is_vec(c, v))
            r = vec_bits(c, v)
            for lo, n, p in f(a):
                c.ensure(f'bits {lo}..{lo + n - 1}', p(z3.simplify(z3.Extract(lo + n - 1, lo, r))))
            return True
        finish(c, w, out, [each])
    add(PROP, name, body, EVAL, covers=('runs',), heavy=heavy)


for f in (F32, F64):
    for i in (I32, I64):
        for s in (True, False):
            sx = '_s' if s else '_u'
            trunc(f'{TNAME[i]}.trunc_{TNAME[f]}{sx}', f, i, s)
            sat(f'{TNAME[i]}.trunc_sat_{TNAME[f]}{sx}', f, i, s)
            convert(f'{TNAME[f]}.convert_{TNAME[i]}{sx}', i, f, s)
fconv('f32.demote_f64', F64, F32)
fconv('f64.promote_f32', F32, F64)
for a, b in ((I32, F32), (I64, F64)):
    reinterpret(f'{TNAME[a]}.reinterpret_{TNAME[b]}', b, a)
    reinterpret(f'{TNAME[b]}.reinterpret_{TNAME[a]}', a, b)
fconst('f32.const', F32)
fconst('f64.const', F64)


def eqs(xs, w):
    return [(i * w, w, lambda r, x=x: r == x) for i, x in enumerate(xs)]


def same_float(x):
    return lambda r: z3.And(z3.Not(isnan_bits(r)), tofp(r) == x)


for s in (True, False):
    sx = '_s' if s else '_u'
    vec(f'i32x4.trunc_sat_f32x4{sx}', lambda a, s=s: eqs([satval(tofp(x), 32, s) for x in lanes(a, 32)], 32))
    vec(f'i32x4.trunc_sat_f64x2{sx}_zero',
        lambda a, s=s: eqs([satval(tofp(x), 32, s) for x in lanes(a, 64)] + [z3.BitVecVal(0, 32)] * 2, 32))

    def conv(srt, s=s):
        return lambda x: z3.fpSignedToFP(RM, x, srt) if s else z3.fpUnsignedToFP(RM, x, srt)
    vec(f'f32x4.convert_i32x4{sx}',
        lambda a, k=conv(sym.FP32): [(32 * i, 32, same_float(k(x))) for i, x in enumerate(lanes(a, 32))])
    vec(f'f64x2.convert_low_i32x4{sx}',
        lambda a, k=conv(sym.FP64): [(64 * i, 64, same_float(k(x))) for i, x in enumerate(lanes(a, 32)[:2])])
vec('f32x4.demote_f64x2_zero',
    lambda a: [(32 * i, 32, lambda r, x=x: conv_is(r, z3.fpFPToFP(RM, tofp(x), sym.FP32), x)) for i, x in enumerate(lanes(a, 64))] +
    [(64, 64, lambda r: r == z3.BitVecVal(0, 64))])
vec('f64x2.promote_low_f32x4',
    lambda a: [(64 * i, 64, lambda r, x=x: conv_is(r, z3.fpFPToFP(RM, tofp(x), sym.FP64), x)) for i, x in enumerate(lanes(a, 32)[:2])])
