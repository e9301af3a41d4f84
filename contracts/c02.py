"""C02: SIMD integer instructions."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *
from .fp import lanes, unlanes, is_vec, vec_bits

PROP = 'C02'
EVAL = 'pywasm.core.Machine.evaluate'
ASSUMPTIONS = []
SHAPES = {'i8x16': 8, 'i16x8': 16, 'i32x4': 32, 'i64x2': 64}


def K(v, w):
    return z3.BitVecVal(v, w)


def sx(x, n):
    return z3.SignExt(n - x.size(), x)


def zx(x, n):
    return z3.ZeroExt(n - x.size(), x)


def ext(x, n, s):
    return sx(x, n) if s else zx(x, n)


def run(c, name, ts, args=(), names='abc'):
    xs = [c.bv(names[i], WIDTH[t]) for i, t in enumerate(ts)]
    w = machine(c, [inst(c, name, args)], [val(c, t, x) for t, x in zip(ts, xs)])
    out = go(c, w)
    c.cover('runs')
    return xs, w, out


def vec_result(c, w, out, want, lw):
    """lanes of the result, one obligation per lane"""
    def each(v):
        c.ensure('result is a v128', is_vec(c, v))
        got = lanes(vec_bits(c, v), lw)
        for i, x in enumerate(want):
            c.ensure(f'lane {i}', got[i] == x)
        return True
    finish(c, w, out, [each])


def lanewise(name, lw, n, f, heavy=2):
    """result lane i = f(lane i of each operand)"""
    def body(c):
        xs, w, out = run(c, name, [V128] * n)
        ls = [lanes(x, lw) for x in xs]
        vec_result(c, w, out, [f(*[l[i] for l in ls]) for i in range(128 // lw)], lw)
    add(PROP, name, body, EVAL, covers=('runs',), heavy=heavy)


def whole(name, n, f, lw, heavy=2):
    """result lanes = f(operands)"""
    def body(c):
        xs, w, out = run(c, name, [V128] * n)
        vec_result(c, w, out, f(*xs), lw)
    add(PROP, name, body, EVAL, covers=('runs',), heavy=heavy)


def scalar(name, ts, f, rt, args=(), vname=None):
    def body(c):
        xs, w, out = run(c, name, ts, args)
        finish(c, w, out, [(rt, f(*xs))])
    add(PROP, vname or name, body, EVAL, covers=('runs',))


def sat(x, w, s):
    """clamp the signed x to w bits"""
    n = x.size()
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return z3.If(x < K(lo, n), K(lo, w), z3.If(x > K(hi, n), K(hi, w), z3.Extract(w - 1, 0, x)))


def mask(cond, w):
    return z3.If(cond, K(-1, w), K(0, w))


def popcnt(a):
    w = a.size()
    r = K(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
    return r


def cut(x, hi, lo=0):
    return z3.Extract(hi, lo, x)


# ---------------------------------------------------------------- whole-vector bit operations
whole('v128.not', 1, lambda a: [~a], 128)
whole('v128.and', 2, lambda a, b: [a & b], 128)
whole('v128.andnot', 2, lambda a, b: [a & ~b], 128)
whole('v128.or', 2, lambda a, b: [a | b], 128)
whole('v128.xor', 2, lambda a, b: [a ^ b], 128)
whole('v128.bitselect', 3, lambda a, b, m: [(a & m) | (b & ~m)], 128)
scalar('v128.any_true', [V128], lambda a: z3.If(a != 0, K(1, 32), K(0, 32)), I32)


def vconst(c):
    a = c.bv('a', 128)
    r = c.eng.instantiate(io.BytesIO, [SBytes(sym.mkcb(list(ENC['v128.const']) + sym.term_bytes(a)))], {})
    dec = c.run(core.Inst.from_reader, r)
    c.ensure('the constant is decoded', dec.kind == 'normal')
    w = machine(c, [dec.val])
    out = go(c, w)
    c.cover('runs')
    finish(c, w, out, [(V128, a)])


add(PROP, 'v128.const', vconst, EVAL, covers=('runs',))

# ---------------------------------------------------------------- lane arithmetic
REL = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt_s': lambda a, b: a < b, 'lt_u': z3.ULT,
       'gt_s': lambda a, b: a > b, 'gt_u': z3.UGT, 'le_s': lambda a, b: a <= b, 'le_u': z3.ULE,
       'ge_s': lambda a, b: a >= b, 'ge_u': z3.UGE}


def avgr(a, b):
    w = a.size()
    return cut(z3.LShR(zx(a, w + 2) + zx(b, w + 2) + 1, 1), w - 1)


def q15(a, b):
    p = sx(a, 32) * sx(b, 32) + 0x4000       # 32 bits hold it: |a * b| <= 2^30
    return sat(p >> 15, 16, True)


def count(b, w):
    return b & K(w - 1, 32)


def fit_count(b, w):
    n = count(b, w)
    return zx(n, w) if w > 32 else cut(n, w - 1)


def shift(name, lw, op):
    def body(c):
        xs, w, out = run(c, name, [V128, I32])
        a, b = xs
        n = fit_count(b, lw)
        vec_result(c, w, out, [op(x, n) for x in lanes(a, lw)], lw)
    add(PROP, name, body, EVAL, covers=('runs',), heavy=3)


for sh, w in SHAPES.items():
    lanewise(f'{sh}.abs', w, 1, lambda a: z3.If(a < 0, -a, a))
    lanewise(f'{sh}.neg', w, 1, lambda a: -a)
    lanewise(f'{sh}.add', w, 2, lambda a, b: a + b)
    lanewise(f'{sh}.sub', w, 2, lambda a, b: a - b)
    if w > 8:
        lanewise(f'{sh}.mul', w, 2, lambda a, b: a * b)
    for k, f in REL.items():
        if w == 64 and k.endswith('_u'):
            continue
        lanewise(f'{sh}.{k}', w, 2, lambda a, b, f=f: mask(f(a, b), a.size()))
    scalar(f'{sh}.all_true', [V128], lambda a, w=w: z3.If(z3.And(*[x != 0 for x in lanes(a, w)]), K(1, 32), K(0, 32)), I32)
    scalar(f'{sh}.bitmask', [V128], lambda a, w=w: zx(z3.Concat(*reversed([cut(x, w - 1, w - 1) for x in lanes(a, w)])), 32), I32)
    shift(f'{sh}.shl', w, lambda x, n: x << n)
    shift(f'{sh}.shr_s', w, lambda x, n: x >> n)
    shift(f'{sh}.shr_u', w, z3.LShR)
    if w < 64:
        lanewise(f'{sh}.min_s', w, 2, lambda a, b: z3.If(a < b, a, b))
        lanewise(f'{sh}.min_u', w, 2, lambda a, b: z3.If(z3.ULT(a, b), a, b))
        lanewise(f'{sh}.max_s', w, 2, lambda a, b: z3.If(a > b, a, b))
        lanewise(f'{sh}.max_u', w, 2, lambda a, b: z3.If(z3.UGT(a, b), a, b))
    if w < 32:
        for s in (True, False):
            x = '_s' if s else '_u'
            lanewise(f'{sh}.add_sat{x}', w, 2, lambda a, b, w=w, s=s: sat(ext(a, w + 3, s) + ext(b, w + 3, s), w, s))
            lanewise(f'{sh}.sub_sat{x}', w, 2, lambda a, b, w=w, s=s: sat(ext(a, w + 3, s) - ext(b, w + 3, s), w, s))
        lanewise(f'{sh}.avgr_u', w, 2, avgr)
lanewise('i8x16.popcnt', 8, 1, popcnt)
lanewise('i16x8.q15mulr_sat_s', 16, 2, q15, heavy=4)

# ---------------------------------------------------------------- widening and narrowing
NARROW = {'i16x8': 'i8x16', 'i32x4': 'i16x8', 'i64x2': 'i32x4'}
for wide, nar in NARROW.items():
    W, N = SHAPES[wide], SHAPES[nar]
    half = 128 // W
    for s in (True, False):
        x = '_s' if s else '_u'
        for part, lo in (('low', 0), ('high', half)):
            whole(f'{wide}.extend_{part}_{nar}{x}', 1,
                  lambda a, N=N, W=W, s=s, lo=lo, half=half: [ext(e, W, s) for e in lanes(a, N)[lo:lo + half]], W)
            whole(f'{wide}.extmul_{part}_{nar}{x}', 2,
                  lambda a, b, N=N, W=W, s=s, lo=lo, half=half:
                  [ext(p, W, s) * ext(q, W, s) for p, q in zip(lanes(a, N)[lo:lo + half], lanes(b, N)[lo:lo + half])], W, heavy=4)
        if W < 64:
            whole(f'{wide}.extadd_pairwise_{nar}{x}', 1,
                  lambda a, N=N, W=W, s=s, half=half:
                  [ext(lanes(a, N)[2 * i], W, s) + ext(lanes(a, N)[2 * i + 1], W, s) for i in range(half)], W)
            whole(f'{nar}.narrow_{wide}{x}', 2,
                  lambda a, b, N=N, W=W, s=s: [sat(e, N, s) for e in lanes(a, W) + lanes(b, W)], N)
whole('i32x4.dot_i16x8_s', 2,
      lambda a, b: [sx(lanes(a, 16)[2 * i], 32) * sx(lanes(b, 16)[2 * i], 32) +
                    sx(lanes(a, 16)[2 * i + 1], 32) * sx(lanes(b, 16)[2 * i + 1], 32) for i in range(4)], 32, heavy=4)


# ---------------------------------------------------------------- lanes
def select(xs, i):
    """xs[i] for an 8-bit index below len(xs)"""
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = z3.If(i == k, xs[k], r)
    return r


def swizzle(a, b):
    A = lanes(a, 8)
    return [z3.If(z3.ULT(i, 16), select(A, i), K(0, 8)) for i in lanes(b, 8)]


whole('i8x16.swizzle', 2, swizzle, 8, heavy=4)


def shuffle(c):
    a, b = c.bv('a', 128), c.bv('b', 128)
    idx = [c.bv(f'i{k}', 8, below=32) for k in range(16)]
    for i in idx:
        c.requires(z3.ULT(i, 32))
    w = machine(c, [inst(c, 'i8x16.shuffle', [sym.ubv(i, 31) for i in idx])], [val(c, V128, a), val(c, V128, b)])
    out = go(c, w)
    c.cover('runs')
    xs = lanes(a, 8) + lanes(b, 8)
    vec_result(c, w, out, [select(xs, i) for i in idx], 8)


add(PROP, 'i8x16.shuffle', shuffle, EVAL, covers=('runs',), heavy=6)

for sh, lw, t in (('i8x16', 8, I32), ('i16x8', 16, I32), ('i32x4', 32, I32), ('i64x2', 64, I64), ('f32x4', 32, F32), ('f64x2', 64, F64)):
    n = 128 // lw

    def splat(c, sh=sh, lw=lw, t=t, n=n):
        xs, w, out = run(c, f'{sh}.splat', [t])
        vec_result(c, w, out, [cut(xs[0], lw - 1)] * n, lw)
    add(PROP, f'{sh}.splat', splat, EVAL, covers=('runs',))

    for x in (('_s', '_u') if lw < 32 else ('',)):
        def extract(c, sh=sh, lw=lw, t=t, n=n, x=x):
            k = c.bv('lane', 8, below=n)
            c.requires(z3.ULT(k, n))
            xs, w, out = run(c, f'{sh}.extract_lane{x}', [V128], [sym.ubv(k, n - 1)])
            v = select(lanes(xs[0], lw), k)
            finish(c, w, out, [(t, ext(v, WIDTH[t], x != '_u'))])
        add(PROP, f'{sh}.extract_lane{x}', extract, EVAL, covers=('runs',))

    def replace(c, sh=sh, lw=lw, t=t, n=n):
        k = c.bv('lane', 8, below=n)
        c.requires(z3.ULT(k, n))
        xs, w, out = run(c, f'{sh}.replace_lane', [V128, t], [sym.ubv(k, n - 1)])
        vec_result(c, w, out, [z3.If(k == i, cut(xs[1], lw - 1), e) for i, e in enumerate(lanes(xs[0], lw))], lw)
    add(PROP, f'{sh}.replace_lane', replace, EVAL, covers=('runs',))
