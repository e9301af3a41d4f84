"""C01: scalar integer instructions."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *

ASSUMPTIONS = [
    'division of symbolic integers: quotient and remainder are uninterpreted functions constrained by ground instances of the '
    'lemmas proved in /verif/proofs/Div.lean',
    'pywasm.log is at its default level (the level is a module-level configuration value)',
]

EVAL = 'pywasm.core.Machine.evaluate'
PROP = 'C01'


def b1(cond, w=32):
    return z3.If(cond, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def clz(a):
    w = a.size()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


def ctz(a):
    w = a.size()
    r = z3.BitVecVal(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
    return r


def popcnt(a):
    w = a.size()
    r = z3.BitVecVal(0, 8)
    for i in range(w):
        r = r + z3.ZeroExt(7, z3.Extract(i, i, a))
    return z3.ZeroExt(w - 8, r) if w > 8 else r


def cnt(b):
    return b & z3.BitVecVal(b.size() - 1, b.size())


def shl(a, b):
    return a << cnt(b)


def shr_s(a, b):
    return a >> cnt(b)


def shr_u(a, b):
    return z3.LShR(a, cnt(b))


def rotl(a, b):
    n = cnt(b)
    m = (z3.BitVecVal(0, a.size()) - n) & z3.BitVecVal(a.size() - 1, a.size())
    return (a << n) | z3.LShR(a, m)


def rotr(a, b):
    n = cnt(b)
    m = (z3.BitVecVal(0, a.size()) - n) & z3.BitVecVal(a.size() - 1, a.size())
    return z3.LShR(a, n) | (a << m)


def sext(k):
    return lambda a: z3.SignExt(a.size() - k, z3.Extract(k - 1, 0, a))


def div(signed, rem):
    def f(A, B):
        w = A.size()
        if not signed:
            q, r = sym.udivrem(sym.ubv(A), sym.ubv(B))
            return sym.low(r if rem else q, w)
        a, b = sym.sbv(A), sym.sbv(B)
        q, r = sym.udivrem(sym.iabs(a), sym.iabs(b))
        na, nb = sym.cmp('<', a, 0), sym.cmp('<', b, 0)
        if rem:
            return sym.low(sym.iite(na, sym.neg(r), r), w)
        neg = zor(zand(na, znot(nb)), zand(nb, znot(na)))
        return sym.low(sym.iite(neg, sym.neg(q), q), w)
    return f


BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
       'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
       'shl': shl, 'shr_s': shr_s, 'shr_u': shr_u, 'rotl': rotl, 'rotr': rotr}
UN = {'clz': clz, 'ctz': ctz, 'popcnt': popcnt, 'extend8_s': sext(8), 'extend16_s': sext(16)}
DIV = {'div_s': (div(True, False), True), 'div_u': (div(False, False), False), 'rem_s': (div(True, True), True),
       'rem_u': (div(False, True), False)}
REL = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt_s': lambda a, b: a < b, 'lt_u': z3.ULT,
       'gt_s': lambda a, b: a > b, 'gt_u': z3.UGT, 'le_s': lambda a, b: a <= b, 'le_u': z3.ULE,
       'ge_s': lambda a, b: a >= b, 'ge_u': z3.UGE}


def simple(name, ts, f, rt, args=()):
    """instruction with operands of types ts, always completing with f(operands) of type rt"""
    def body(c):
        xs = [c.bv('abc'[i], WIDTH[t]) for i, t in enumerate(ts)]
        w = machine(c, [inst(c, name, args)], [val(c, t, x) for t, x in zip(ts, xs)])
        out = go(c, w)
        c.cover('runs')
        finish(c, w, out, [(rt, f(*xs))])
    add(PROP, name, body, EVAL, covers=('runs',))


def division(name, t, f, signed, rem):
    def body(c):
        n = WIDTH[t]
        a, b = c.bv('a', n), c.bv('b', n)
        w = machine(c, [inst(c, name)], [val(c, t, a), val(c, t, b)])
        out = go(c, w)
        trap = b == 0
        if signed and not rem:
            trap = z3.Or(trap, z3.And(a == z3.BitVecVal(1 << (n - 1), n), b == z3.BitVecVal(-1, n)))
        if c.decide(trap):
            c.cover('trap')
            traps(c, w, out)
        else:
            c.cover('result')
            finish(c, w, out, [(t, f(a, b))])
    add(PROP, name, body, EVAL, covers=('trap', 'result'), heavy=3)


def const(name, t):
    def body(c):
        n = WIDTH[t]
        a = c.bv('a', n)
        w = machine(c, [inst(c, name, [sym.sbv(a)])])
        out = go(c, w)
        c.cover('runs')
        finish(c, w, out, [(t, a)])
    add(PROP, name, body, EVAL, covers=('runs',))


for p, t in (('i32', I32), ('i64', I64)):
    const(p + '.const', t)
    for k, f in UN.items():
        simple(f'{p}.{k}', [t], f, t)
    for k, f in BIN.items():
        simple(f'{p}.{k}', [t, t], f, t)
    for k, (f, s) in DIV.items():
        division(f'{p}.{k}', t, f, s, k.startswith('rem'))
    simple(f'{p}.eqz', [t], lambda a: b1(a == 0), I32)
    for k, f in REL.items():
        simple(f'{p}.{k}', [t, t], lambda a, b, f=f: b1(f(a, b)), I32)
simple('i64.extend32_s', [I64], sext(32), I64)
simple('i32.wrap_i64', [I64], lambda a: z3.Extract(31, 0, a), I32)
simple('i64.extend_i32_s', [I32], lambda a: z3.SignExt(32, a), I64)
simple('i64.extend_i32_u', [I32], lambda a: z3.ZeroExt(32, a), I64)
