"""C11: LEB128 encoding and decoding."""
import io

import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *
import pywasm.leb128 as leb

PROP = 'C11'
ASSUMPTIONS = ['integers of at most 64 bits (unsigned below 2^64, signed from -2^63 to 2^63 - 1), encodings of at most 10 bytes, as the '
               'WebAssembly format allows; the loops of the codec are unrolled completely for these']
MAX = 10
W = 80


def byte(b):
    return b if not isinstance(b, int) else z3.BitVecVal(b, 8)


def items(c, x):
    """list of byte terms of a bytes-like result"""
    q = c.eng.bytes_of(x)
    if q is None:
        c.fail('a byte sequence')
    n = sym.concretize(q.n)
    if not isinstance(n, int):
        for k in range(0, MAX + 2):
            if c.decide(sym.cmp('==', n, k)):
                n = k
                break
        else:
            c.fail('at most 11 bytes')
    return [q.at(z3.BitVecVal(k, 64)) for k in range(n)]


def denoted(bs, signed):
    """the value of the 7-bit groups, as a bit vector of W bits"""
    v = z3.BitVecVal(0, W)
    for k, b in enumerate(bs):
        v = v | z3.ZeroExt(W - 7, z3.Extract(6, 0, b)) << (7 * k)
    top = 7 * len(bs)
    if signed:
        v = z3.SignExt(W - top, z3.Extract(top - 1, 0, v)) if top < W else v
    return v


def more(b):
    return z3.Extract(7, 7, b) == z3.BitVecVal(1, 1)


def wide(x):
    return sym.low(x, W)


def number(c, signed):
    if signed:
        return c.sint('n', 64)
    return c.uint('n', 64)


def is_encoding(c, bs, n, signed):
    c.ensure('between 1 and 10 bytes', 1 <= len(bs) <= MAX)
    for b in bs[:-1]:
        c.ensure('every byte but the last has the continuation flag', more(b))
    c.ensure('the last byte has no continuation flag', znot(more(bs[-1])))
    c.ensure('the groups denote the number', denoted(bs, signed) == wide(n))
    if len(bs) > 1:
        if signed:
            # the last group is not just the sign of the rest
            s = z3.Extract(6, 6, bs[-2])
            last = z3.Extract(6, 0, bs[-1])
            c.ensure('shortest encoding', znot(zor(zand(s == 0, last == 0), zand(s == 1, last == 127))))
        else:
            c.ensure('shortest encoding', z3.Extract(6, 0, bs[-1]) != 0)


def make_encode(signed):
    cls = leb._I if signed else leb._U

    def body(c):
        n = number(c, signed)
        out = c.run(cls.encode, n)
        c.ensure(f'returns normally (got {out!r})', out.kind == 'normal')
        c.cover('encoded')
        is_encoding(c, items(c, out.val), n, signed)
    add(PROP, ('i' if signed else 'u') + '.encode', body, f'pywasm.leb128.{cls.__name__}.encode', covers=('encoded',))


def encoding(c, k):
    """k arbitrary encoding bytes"""
    bs = [c.bv(f'b{j}', 8, near=[0, 0x7f, 0x80, 0xff, 0x40]) for j in range(k)]
    return [z3.simplify((b | 0x80) if j < k - 1 else (b & 0x7f)) for j, b in enumerate(bs)]


def fits(c, v, signed):
    """the value is a 64-bit integer"""
    if signed:
        c.requires(v == z3.SignExt(W - 64, z3.Extract(63, 0, v)))
    else:
        c.requires(z3.Extract(W - 1, 64, v) == 0)


def make_decode(signed):
    cls = leb._I if signed else leb._U

    def body(c):
        k = c.choice('length', list(range(1, MAX + 1)))
        bs = encoding(c, k)
        v = denoted(bs, signed)
        fits(c, v, signed)
        out = c.run(cls.decode, c.bytearray(sym.mkcb(bs)))
        c.ensure(f'returns normally (got {out!r})', out.kind == 'normal')
        c.cover('decoded')
        c.ensure('an integer', sym.is_int(out.val))
        c.ensure('the value its groups denote', zand(bterm(sym.cmp('>=', out.val, -1 << 70)), bterm(sym.cmp('<', out.val, 1 << 70)),
                                                     wide(out.val) == v))
    add(PROP, ('i' if signed else 'u') + '.decode', body, f'pywasm.leb128.{cls.__name__}.decode', covers=('decoded',))


def make_reader(signed):
    cls = leb._I if signed else leb._U
    nm = ('i' if signed else 'u') + '.decode_reader'

    def stream(c):
        n = c.int('stream length', 0, 1 << 32)
        q = c.bytes_in('stream', n)
        p = c.int('position', 0, 1 << 32)
        c.requires(sym.cmp('<=', p, n))
        return q, n, p, c.eng.alloc(ObjRec(io.BytesIO, {'buf': q, 'pos': p}))

    def body(c):
        k = c.choice('length', list(range(1, MAX + 1)))
        q, n, p, r = stream(c)
        if not c.symbolic:
            # write an encoding into the sampled stream
            b = bytearray(bytes_value(q))
            c.requires(p + k <= n)
            for j in range(k):
                b[p + j] = b[p + j] & 0x7f if j == k - 1 else b[p + j] | 0x80
            q = sym.CB(bytes(b))
            c.eng.wr(r).attrs['buf'] = q
        c.requires(sym.cmp('<=', sym.add(p, k), n))
        bs = [q.at(sym.idx64(sym.add(p, j))) for j in range(k)]
        for j in range(k):
            c.requires(more(bs[j]) if j < k - 1 else znot(more(bs[j])))
        v = denoted(bs, signed)
        fits(c, v, signed)
        out = c.run(cls.decode_reader, r)
        c.ensure(f'returns normally (got {out!r})', out.kind == 'normal')
        c.cover('decoded')
        c.ensure('a pair', isinstance(out.val, tuple) and len(out.val) == 2)
        c.ensure('the value its groups denote', zand(bterm(sym.cmp('>=', out.val[0], -1 << 70)), bterm(sym.cmp('<', out.val[0], 1 << 70)),
                                                     wide(out.val[0]) == v))
        c.ensure('the number of bytes read', bterm(c.eng.compare('==', out.val[1], k)))
        c.ensure('the rest of the input is unread', bterm(sym.cmp('==', attr(c, r, 'pos'), sym.add(p, k))))
    add(PROP, nm, body, f'pywasm.leb128.{cls.__name__}.decode_reader', covers=('decoded',))

    def cut(c):
        k = c.choice('length', list(range(0, MAX)))
        q, n, p, r = stream(c)
        if not c.symbolic:
            b = bytearray(bytes_value(q))
            n = p + k
            b = (b + bytearray(n))[:n]
            for j in range(k):
                b[p + j] |= 0x80
            q = sym.CB(bytes(b))
            c.eng.wr(r).attrs['buf'] = q
        c.requires(sym.cmp('==', sym.add(p, k), n))
        for j in range(k):
            c.requires(more(q.at(sym.idx64(sym.add(p, j)))))
        out = c.run(cls.decode_reader, r)
        c.cover('cut')
        c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
    add(PROP, nm + ': encoding cut off by the end of the input', cut, f'pywasm.leb128.{cls.__name__}.decode_reader', covers=('cut',))


def bytes_value(q):
    return bytes(z3.simplify(q.at(z3.BitVecVal(i, 64))).as_long() for i in range(sym.concretize(q.n)))


def make_round(signed):
    cls = leb._I if signed else leb._U

    def body(c):
        n = number(c, signed)
        e = c.run(cls.encode, n)
        c.ensure(f'encodes (got {e!r})', e.kind == 'normal')
        k = len(items(c, e.val))
        r = c.eng.alloc(ObjRec(io.BytesIO, {'buf': c.eng.bytes_of(e.val), 'pos': 0}))
        out = c.run(cls.decode_reader, r)
        c.ensure(f'decodes (got {out!r})', out.kind == 'normal')
        c.cover('done')
        c.ensure('the number comes back', bterm(sym.cmp('==', out.val[0], n)))
        c.ensure('the whole encoding is read', zand(bterm(c.eng.compare('==', out.val[1], k)), bterm(sym.cmp('==', attr(c, r, 'pos'), k))))
    add(PROP, ('signed' if signed else 'unsigned') + ' round trip', body, f'pywasm.leb128.{cls.__name__}', covers=('done',))


for _s in (False, True):
    make_encode(_s)
    make_decode(_s)
    make_reader(_s)
    make_round(_s)


@contract(PROP, 'u.encode rejects negative numbers', 'pywasm.leb128._U.encode', covers=('rejected',))
def encode_negative(c):
    n = c.sint('n', 65)
    c.requires(sym.cmp('<', n, 0))
    out = c.run(leb._U.encode, n)
    c.cover('rejected')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')


