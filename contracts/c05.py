"""C05: loads and stores."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *
from .fp import is_vec, vec_bits, lanes

PROP = 'C05'
EVAL = 'pywasm.core.Machine.evaluate'
ASSUMPTIONS = []


def cut(x, hi, lo=0):
    return z3.Extract(hi, lo, x)


def ext(x, n, s):
    return z3.SignExt(n - x.size(), x) if s else z3.ZeroExt(n - x.size(), x)


def mem_setup(c, n):
    """memory, base, offset and the condition that the access of n bytes is out of bounds"""
    mem, q, ln = memory(c)
    off = c.bv('offset', 32, near=[0, ln])
    half = sym.conc_or(ln, lambda v: v // 2)
    diff = sym.conc_or(ln, lambda v: v - sym.concretize(sym.ubv(off)))
    base = c.bv('base', 32, near=[0, half, diff, sym.conc_or(diff, lambda v: v - n)])
    ea = z3.ZeroExt(32, base) + z3.ZeroExt(32, off)
    oob = z3.UGT(ea + n, sym.idx64(ln))
    return mem, q, ln, base, off, z3.simplify(ea), oob


def word(q, ea, n):
    """n bytes at ea, little-endian"""
    return sym.bytes_le_term([sym.bs_elem(q, z3.simplify(ea + k)) for k in range(n)])


def load(name, n, t, f):
    """pushes f(loaded bits) of type t"""
    def body(c):
        mem, q, ln, base, off, ea, oob = mem_setup(c, n)
        w = machine(c, [inst(c, name, [c.uint('align', 8), sym.ubv(off)])], [val(c, I32, base)], mem=mem)
        out = go(c, w)
        if c.decide(oob):
            c.cover('out of bounds')
            traps(c, w, out)
        else:
            c.cover('in bounds')
            finish(c, w, out, [(t, f(word(q, ea, n)))])
    add(PROP, name, body, EVAL, covers=('out of bounds', 'in bounds'), heavy=2)


def stored(c, w, q, ln, ea, n, bits):
    """the memory after storing the low n bytes of `bits` at ea"""
    p = c.eng.bytes_of(attr(c, w.mem, 'data'))
    c.ensure('memory stays a byte array of the same length', p is not None and bterm(sym.cmp('==', p.n, ln)))
    bs = sym.term_bytes(bits)

    def claim(k):
        want = q.at(k)
        for j in range(n):
            want = z3.If(k == ea + j, sym.bv(bs[j], 8) if isinstance(bs[j], int) else bs[j], want)
        return p.at(k) == want
    c.forall('memory holds the stored bytes little-endian and is unchanged elsewhere', ln, claim, hints=[sym.ubv(z3.simplify(ea))])


def store(name, n, t):
    def body(c):
        mem, q, ln, base, off, ea, oob = mem_setup(c, n)
        v = c.bv('v', WIDTH[t])
        w = machine(c, [inst(c, name, [c.uint('align', 8), sym.ubv(off)])], [val(c, I32, base), val(c, t, v)], mem=mem)
        out = go(c, w)
        if c.decide(oob):
            c.cover('out of bounds')
            traps(c, w, out)
        else:
            c.cover('in bounds')
            finish(c, w, out, [], holes=[(mem, 'data')])
            stored(c, w, q, ln, ea, n, cut(v, 8 * n - 1))
    add(PROP, name, body, EVAL, covers=('out of bounds', 'in bounds'), heavy=2)


def ident(x):
    return x


for t, n in ((I32, 4), (I64, 8), (F32, 4), (F64, 8), (V128, 16)):
    load(f'{TNAME[t]}.load', n, t, ident)
    store(f'{TNAME[t]}.store', n, t)
for t, ns in ((I32, (1, 2)), (I64, (1, 2, 4))):
    for n in ns:
        for s in (True, False):
            load(f'{TNAME[t]}.load{8 * n}{"_s" if s else "_u"}', n, t, lambda x, t=t, s=s: ext(x, WIDTH[t], s))
        store(f'{TNAME[t]}.store{8 * n}', n, t)
for lw in (8, 16, 32):
    k = 64 // lw
    for s in (True, False):
        load(f'v128.load{lw}x{k}{"_s" if s else "_u"}', 8, V128,
             lambda x, lw=lw, s=s, k=k: z3.Concat(*[ext(cut(x, lw * i + lw - 1, lw * i), 2 * lw, s) for i in range(k - 1, -1, -1)]))
for lw in (8, 16, 32, 64):
    load(f'v128.load{lw}_splat', lw // 8, V128, lambda x, lw=lw: z3.Concat(*[x] * (128 // lw)))
for lw in (32, 64):
    load(f'v128.load{lw}_zero', lw // 8, V128, lambda x: z3.ZeroExt(128 - x.size(), x))


def load_lane(lw):
    n = lw // 8
    name = f'v128.load{lw}_lane'

    def body(c):
        mem, q, ln, base, off, ea, oob = mem_setup(c, n)
        v, lane = c.bv('v', 128), c.bv('lane', 8, near=[0, 128 // lw - 1])
        c.requires(z3.ULT(lane, 128 // lw))
        args = [c.uint('align', 8), sym.ubv(off), sym.ubv(lane, 128 // lw - 1)]
        w = machine(c, [inst(c, name, args)], [val(c, I32, base), val(c, V128, v)], mem=mem)
        out = go(c, w)
        if c.decide(oob):
            c.cover('out of bounds')
            traps(c, w, out)
        else:
            c.cover('in bounds')
            x = word(q, ea, n)
            ls = [z3.If(lane == i, x, e) for i, e in enumerate(lanes(v, lw))]
            finish(c, w, out, [(V128, z3.Concat(*reversed(ls)))])
    add(PROP, name, body, EVAL, covers=('out of bounds', 'in bounds'), heavy=3)


def store_lane(lw):
    n = lw // 8
    name = f'v128.store{lw}_lane'

    def body(c):
        mem, q, ln, base, off, ea, oob = mem_setup(c, n)
        v, lane = c.bv('v', 128), c.bv('lane', 8, near=[0, 128 // lw - 1])
        c.requires(z3.ULT(lane, 128 // lw))
        args = [c.uint('align', 8), sym.ubv(off), sym.ubv(lane, 128 // lw - 1)]
        w = machine(c, [inst(c, name, args)], [val(c, I32, base), val(c, V128, v)], mem=mem)
        out = go(c, w)
        if c.decide(oob):
            c.cover('out of bounds')
            traps(c, w, out)
        else:
            c.cover('in bounds')
            finish(c, w, out, [], holes=[(mem, 'data')])
            x = lanes(v, lw)[-1]
            for i in range(128 // lw - 2, -1, -1):
                x = z3.If(lane == i, lanes(v, lw)[i], x)
            stored(c, w, q, ln, ea, n, z3.simplify(x))
    add(PROP, name, body, EVAL, covers=('out of bounds', 'in bounds'), heavy=3)


for lw in (8, 16, 32, 64):
    load_lane(lw)
    store_lane(lw)
