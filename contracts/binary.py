"""Encodings of the binary format as token streams, and structural comparison of decoded values."""
import io

import z3

from pydv import sym
from pydv.sym import CB, SInt, zand, zor, znot
from pydv import streams
from pydv.streams import Raw, Num, Blob, Block, Item, Rep

from .common import *

U32 = (1 << 32) - 1
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]
K = 'pywasm.core.'


def con(x):
    x = sym.concretize(x)
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    raise Unsupported('symbolic value in a concrete run')


class Bin:
    """a reader positioned at an encoding, followed by arbitrary bytes"""

    def __init__(self, c, toks, tail=True):
        self.c = c
        n = c.int('tail.n', 0, 1 << 16) if tail else 0
        q = c.bytes_in('tail', n) if tail else CB(b'')
        if c.symbolic:
            self.tail = Blob(q)
            self.r = streams.stream(c.eng, list(toks) + ([self.tail] if tail else []))
        else:
            b = streams.encode(toks, con)
            self.len = len(b)
            self.r = c.eng.alloc(ObjRec(io.BytesIO, {'buf': CB(b + streams.encode([Blob(q)] if tail else [], con)), 'pos': 0}))

    def consumed(self, name='exactly the encoding is consumed'):
        c = self.c
        if c.symbolic:
            t = streams.toks_of(c.eng, self.r)
            c.ensure(name, len(t) == 1 and t[0] is self.tail)
        else:
            c.ensure(name, attr(c, self.r, 'pos') == self.len)


def rep(c, seg, tok):
    """the items of a list segment"""
    return Rep(seg, tok)


def count_of(c, seg):
    return len(seg) if isinstance(seg, list) else seg.n


def u(v, maxlen=5):
    return Num(v, False, maxlen)


def vec(c, seg, tok):
    return [u(count_of(c, seg)), Rep(seg, tok)]


def idx(c, name, hi=U32):
    return c.int(name, 0, hi, small=False)


# ---------------------------------------------------------------- value types

def typ(c, name, options=TYPES):
    if not c.symbolic:
        return vtype(c, c.code(name, options))
    d = c.int(name, 0, 0x7f, small=False)
    c.requires(zor(*[bterm(sym.cmp('==', d, t)) for t in options]))
    return vtype(c, d)


def byte_of(v):
    return v if isinstance(v, int) else v.low(8)


def typ_tok(c, v):
    return [Item(K + 'ValType.from_reader', v, lambda: [Raw([byte_of(attr(c, v, 'data'))])])]


# ---------------------------------------------------------------- instructions

SAMPLES = ['nop', 'i32.const', 'block', 'drop', 'local.get']


def side(c):
    if not hasattr(c.eng, 'inst_bytes'):
        c.eng.inst_bytes = {}
    return c.eng.inst_bytes


def any_inst(c):
    """an instruction other than end and else"""
    def f(nm):
        if c.symbolic:
            op = c.int(nm + '.op', 0, U32, small=False)
            c.requires(zand(znot(sym.cmp('==', op, opcode.end)), znot(sym.cmp('==', op, opcode.else_fi))))
            o = c.new(core.Inst, op, c.list([Opaque(nm + '.args')]))
            return o
        k = c.choice(nm + '.op', SAMPLES)
        if k == 'i32.const':
            v = c.int(nm + '.v', -100, 100)
            o, b = c.new(core.Inst, opc(k), c.list([v])), [Raw(ENC[k]), Num(v, True)]
        elif k == 'local.get':
            v = c.int(nm + '.v', 0, 1000)
            o, b = c.new(core.Inst, opc(k), c.list([v])), [Raw(ENC[k]), Num(v)]
        elif k == 'block':
            o = c.new(core.Inst, opc(k), c.list([c.new(core.Bype, 0, 0x40), c.list([c.new(core.Inst, opc('nop'), c.list([]))])]))
            b = [Raw(b'\x02\x40\x01\x0b')]
        else:
            o, b = c.new(core.Inst, opc(k), c.list([])), [Raw(ENC[k])]
        side(c)[o.id] = b
        return o
    return f


def no_expand(what):
    def f():
        raise Unsupported(f'bytes of an arbitrary {what}')
    return f


def inst_tok(c, v):
    if c.symbolic:
        return [Item(K + 'Inst.from_reader', v, no_expand('instruction'))]
    return side(c)[v.id]


def insts(c, name, hi=1 << 20):
    return c.seq(name, c.int(name + '.n', 0, hi), any_inst(c))


END = Raw([0x0b])


def any_expr(c):
    """an expression: any instructions, then end"""
    def f(nm):
        return expr_value(c, nm)
    return f


def expr_value(c, nm):
    body = insts(c, nm + '.i')
    return c.new(core.Expr, c.seglist(body))


def expr_tok(c, v):
    def expand():
        segs = c.eng.rd(attr(c, v, 'data')).segs
        out = []
        for s in segs:
            out.append(Rep(s, lambda x: inst_tok(c, x)))
        return out + [END]
    return [Item(K + 'Expr.from_reader', v, expand)]


# ---------------------------------------------------------------- comparison

def same(c, name, got, want, seen=None):
    """got and want are structurally equal"""
    seen = seen if seen is not None else set()
    if isinstance(want, Ref):
        if got is want or got == want:
            return
        c.ensure(name + ': an object', isinstance(got, Ref))
        if (got.id, want.id) in seen:
            return
        seen.add((got.id, want.id))
        a, b = c.eng.rd(got), c.eng.rd(want)
        c.ensure(name + ': right kind', type(a) is type(b))
        if isinstance(b, ObjRec):
            c.ensure(name + f': a {b.cls.__name__}', a.cls is b.cls)
            c.ensure(name + ': same attributes', set(a.attrs) >= set(b.attrs))
            for k in b.attrs:
                same(c, f'{name}.{k}', a.attrs[k], b.attrs[k], seen)
        elif isinstance(b, ListRec):
            same_list(c, name, got, want, seen)
        elif isinstance(b, BytesRec):
            same_bytes(c, name, a.seq, b.seq)
        else:
            raise Unsupported('comparison')
        return
    if isinstance(want, Opaque):
        c.ensure(name, got is want)
        return
    if want is None or isinstance(want, (str, SStr)):
        if isinstance(want, SStr) and isinstance(got, SStr):
            c.ensure(name, c.eng.equal(got, want))
        else:
            c.ensure(name, type(got) is type(want) and got == want)
        return
    if isinstance(want, tuple) and isinstance(got, tuple):
        c.ensure(name + ': same length', len(got) == len(want))
        for i, (x, y) in enumerate(zip(got, want)):
            same(c, f'{name}[{i}]', x, y, seen)
        return
    if not sym.is_int(want):
        q, p = c.eng.bytes_of(got), c.eng.bytes_of(want)
        if p is not None:
            c.ensure(name + ': bytes', q is not None)
            same_bytes(c, name, q, p)
            return
    c.ensure(name + ': a number', sym.is_int(got) and sym.is_int(want))
    c.ensure(name, bterm(sym.cmp('==', got, want)))


def same_bytes(c, name, a, b):
    if a is b:
        return
    c.ensure(name + ': as many bytes', bterm(sym.cmp('==', a.n, b.n)))
    c.forall(name + ': same bytes', b.n, lambda k: a.at(k) == b.at(k))


def same_list(c, name, got, want, seen):
    a, b = c.eng.rd(got), c.eng.rd(want)
    c.ensure(name + ': a list', isinstance(a, ListRec))
    n = c.eng.list_len(b)
    c.ensure(name + ': same length', bterm(sym.cmp('==', c.eng.list_len(a), n)))
    if c.symbolic and not all(isinstance(s, list) for s in a.segs + b.segs):
        if len(a.segs) == len(b.segs) and all(segs_match(x, y) for x, y in zip(a.segs, b.segs)):
            for x, y in zip(a.segs, b.segs):
                if isinstance(x, list):
                    for i, (p, q) in enumerate(zip(x, y)):
                        same(c, f'{name}[{i}]', p, q, seen)
                elif not (isinstance(x, SymSeg) and isinstance(y, SymSeg) and x.base is y.base and
                          sym.const_diff(x.off, y.off) == 0):
                    generic(c, name, x.n, lambda k: c.eng.materialise(x, k), lambda k: c.eng.materialise(y, k), seen)
            return
        generic(c, name, n, lambda k: elem_at(c, got, k), lambda k: elem_at(c, want, k), seen)
        return
    xs = [x for s in a.segs for x in s]
    ys = [x for s in b.segs for x in s]
    for i, (x, y) in enumerate(zip(xs, ys)):
        same(c, f'{name}[{i}]', x, y, seen)


def segs_match(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y)
    return isinstance(sym.const_diff(x.n, y.n), int) and sym.const_diff(x.n, y.n) == 0 or x.n is y.n


def generic(c, name, n, f, g, seen):
    """equal at an arbitrary position"""
    if c.decide(sym.cmp('>', n, 0)):
        v = z3.BitVec(c.eng.fresh_name('pos'), 64)
        hi = max(sym.hi(n) - 1, 0)
        k = SInt(0, hi, lambda w: sym.resize_u(v, w))
        c.requires(z3.ULE(v, sym.bv(hi, 64)))
        c.requires(sym.cmp('<', k, n))
        same(c, name + '[k]', f(k), g(k), seen)
