"""C03: floating-point arithmetic, scalar and vector."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *
from .fp import *

PROP = 'C03'
EVAL = 'pywasm.core.Machine.evaluate'
ASSUMPTIONS = [
    'innocuous double rounding: one binary64 operation (+ - * / sqrt) on exact binary32 operands, rounded to binary32, equals the '
    'binary32 operation (Flocq: /verif/proofs/DoubleRounding.v)',
    'NaN bit patterns follow x86-64 SSE: conversions keep the payload and set the quiet bit, operations return a quieted operand '
    'NaN or a default NaN of either sign',
    'bit-level encodings of float operations are those of the z3/cvc5 FloatingPoint theory',
]

RM = sym.RNE


def wmin(x, y):
    bothz = z3.And(z3.fpIsZero(x), z3.fpIsZero(y))
    return z3.If(z3.fpIsNaN(x), x, z3.If(z3.fpIsNaN(y), y, z3.If(bothz, z3.If(z3.fpIsNegative(x), x, y), z3.If(z3.fpLT(x, y), x, y))))


def wmax(x, y):
    bothz = z3.And(z3.fpIsZero(x), z3.fpIsZero(y))
    return z3.If(z3.fpIsNaN(x), x, z3.If(z3.fpIsNaN(y), y, z3.If(bothz, z3.If(z3.fpIsNegative(x), y, x), z3.If(z3.fpLT(x, y), y, x))))


ARITH = {'add': lambda x, y: z3.fpAdd(RM, x, y), 'sub': lambda x, y: z3.fpSub(RM, x, y), 'mul': lambda x, y: z3.fpMul(RM, x, y),
         'div': lambda x, y: z3.fpDiv(RM, x, y), 'min': wmin, 'max': wmax}
ROUND = {'ceil': z3.RTP(), 'floor': z3.RTN(), 'trunc': z3.RTZ(), 'nearest': z3.RNE()}
UNARY = {k: (lambda x, rm=rm: z3.fpRoundToIntegral(rm, x)) for k, rm in ROUND.items()}
UNARY['sqrt'] = lambda x: z3.fpSqrt(RM, x)


def sgn(w):
    return z3.BitVecVal(1 << (w - 1), w)


BITS = {'abs': lambda a: a & ~sgn(a.size()), 'neg': lambda a: a ^ sgn(a.size())}
CMP = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ}


def pmin(a, b):
    return z3.If(z3.fpLT(tofp(b), tofp(a)), b, a)


def pmax(a, b):
    return z3.If(z3.fpLT(tofp(a), tofp(b)), b, a)


def run1(c, name, ts, args=()):
    xs = [c.bv('abc'[i], WIDTH[t]) for i, t in enumerate(ts)]
    w = machine(c, [inst(c, name, args)], [val(c, t, x) for t, x in zip(ts, xs)])
    out = go(c, w)
    c.cover('runs')
    return xs, w, out


def scalar(name, t, n, f):
    def body(c):
        xs, w, out = run1(c, name, [t] * n)
        res = f(*[tofp(x) for x in xs])
        finish(c, w, out, [lambda v: is_float(c, v, t, res, xs)])
    add(PROP, name, body, EVAL, covers=('runs',), heavy=4 if t == F64 else 2)


def scalar_bits(name, t, n, f, rt=None):
    def body(c):
        xs, w, out = run1(c, name, [t] * n)
        finish(c, w, out, [(rt or t, f(*xs))])
    add(PROP, name, body, EVAL, covers=('runs',))


def vector(name, lw, n, f):
    def body(c):
        xs, w, out = run1(c, name, [V128] * n)
        ls = [lanes(x, lw) for x in xs]

        def claim(v):
            got = lanes(vec_bits(c, v), lw)
            acc = [is_vec(c, v)]
            for i in range(128 // lw):
                ops = [l[i] for l in ls]
                acc.append(float_is(got[i], f(*[tofp(x) for x in ops]), ops))
            return zand(*acc)

        def each(v):
            ok = is_vec(c, v)
            c.ensure('result is a v128', ok)
            got = lanes(vec_bits(c, v), lw)
            for i in range(128 // lw):
                ops = [l[i] for l in ls]
                c.ensure(f'lane {i}', float_is(got[i], f(*[tofp(x) for x in ops]), ops))
            return True
        finish(c, w, out, [each])
    add(PROP, name, body, EVAL, covers=('runs',), heavy=6)


def vector_bits(name, lw, n, f):
    def body(c):
        xs, w, out = run1(c, name, [V128] * n)
        ls = [lanes(x, lw) for x in xs]
        res = unlanes([f(*[l[i] for l in ls]) for i in range(128 // lw)])
        finish(c, w, out, [(V128, res)])
    add(PROP, name, body, EVAL, covers=('runs',), heavy=2)


def mask(cond, w):
    return z3.If(cond, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))


for p, t, lw, vp in (('f32', F32, 32, 'f32x4'), ('f64', F64, 64, 'f64x2')):
    for k, f in UNARY.items():
        scalar(f'{p}.{k}', t, 1, f)
        vector(f'{vp}.{k}', lw, 1, f)
    for k, f in ARITH.items():
        scalar(f'{p}.{k}', t, 2, f)
        vector(f'{vp}.{k}', lw, 2, f)
    for k, f in BITS.items():
        scalar_bits(f'{p}.{k}', t, 1, f)
        vector_bits(f'{vp}.{k}', lw, 1, f)
    scalar_bits(f'{p}.copysign', t, 2, lambda a, b: (a & ~sgn(a.size())) | (b & sgn(a.size())))
    for k, f in CMP.items():
        scalar_bits(f'{p}.{k}', t, 2, lambda a, b, f=f: z3.If(f(tofp(a), tofp(b)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), I32)
        vector_bits(f'{vp}.{k}', lw, 2, lambda a, b, f=f: mask(f(tofp(a), tofp(b)), a.size()))
    vector_bits(f'{vp}.pmin', lw, 2, pmin)
    vector_bits(f'{vp}.pmax', lw, 2, pmax)
