"""Symbolic values.  Python integers are unbounded: an SInt is an expression tree with a finite interval; `low(k)` gives
the k low bits of its two's complement, which is exact for every Python operator modelled here."""
import struct
import z3

FP64 = z3.Float64()
FP32 = z3.Float32()
RNE = z3.RNE()


class Unsupported(Exception):
    """The engine cannot model something; the obligation is undecided (never silently accepted)."""


ENGINE = None  # set by interp: gives implied(cond) under the current path condition


def natw(lo, hi):
    w = 1
    a = max(hi.bit_length() + 1, ((-lo - 1).bit_length() + 1) if lo < 0 else 1)
    return max(w, a)


def bv(v, k):
    return z3.BitVecVal(v & ((1 << k) - 1), k)


def resize_s(t, k):
    n = t.size()
    if n == k:
        return t
    return z3.Extract(k - 1, 0, t) if n > k else z3.SignExt(k - n, t)


def resize_u(t, k):
    n = t.size()
    if n == k:
        return t
    return z3.Extract(k - 1, 0, t) if n > k else z3.ZeroExt(k - n, t)


class SInt:
    __slots__ = ('lo', 'hi', '_c', 'f')

    # f(k) -> BV of width k; must be the low k bits of the exact value
    def __init__(self, lo, hi, f):
        self.lo, self.hi, self.f, self._c = lo, hi, f, {}

    def low(self, k):
        r = self._c.get(k)
        if r is None:
            r = self._c[k] = z3.simplify(self.f(k))
        return r

    @property
    def w(self):
        return natw(self.lo, self.hi)

    def __repr__(self):
        return f'SInt[{self.lo},{self.hi}]'

    def __bool__(self):
        raise Unsupported('truth value of SInt in host code')


def is_int(x):
    return isinstance(x, (int, SInt)) and not isinstance(x, bool)


def low(x, k):
    if isinstance(x, SInt):
        return x.low(k)
    return bv(int(x), k)


def lo(x):
    return x.lo if isinstance(x, SInt) else int(x)


def hi(x):
    return x.hi if isinstance(x, SInt) else int(x)


def width(*xs):
    return max(natw(lo(x), hi(x)) for x in xs)


def mk(lo_, hi_, f):
    if lo_ == hi_:
        return lo_
    return SInt(lo_, hi_, f)


def sbv(t):
    """signed view of a BV term"""
    n = t.size()
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SInt(-(1 << (n - 1)), (1 << (n - 1)) - 1, lambda k: resize_s(t, k))


def ubv(t, hi_=None):
    n = t.size()
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return SInt(0, (1 << n) - 1 if hi_ is None else hi_, lambda k: resize_u(t, k))


def concretize(x):
    """turn an SInt that is syntactically constant into an int"""
    if isinstance(x, SInt):
        t = x.low(x.w)
        if z3.is_bv_value(t):
            return t.as_signed_long()
    return x


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(a, int) != isinstance(b, int):
        return offset(a, b) if isinstance(b, int) else offset(b, a)
    return mk(lo(a) + lo(b), hi(a) + hi(b), lambda k: low(a, k) + low(b, k))


class Off(SInt):
    """base + a constant"""
    __slots__ = ('base', 'off')


def offset(a, n):
    if type(a) is Off:
        a, n = a.base, a.off + n
        if n == 0:
            return a
    r = Off(lo(a) + n, hi(a) + n, lambda k: low(a, k) + bv(n, k))
    r.base, r.off = a, n
    return r


def apart(a, b):
    """a - b if it is a known constant other than 0"""
    x, m = (a.base, a.off) if type(a) is Off else (a, 0)
    y, n = (b.base, b.off) if type(b) is Off else (b, 0)
    return m - n if x is y and m != n else None


def neg(a):
    if isinstance(a, int):
        return -a
    return mk(-a.hi, -a.lo, lambda k: -a.low(k))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if a is b:
        return 0
    if isinstance(b, int) and b == 0:
        return a
    r = mk(lo(a) - hi(b), hi(a) - lo(b), lambda k: low(a, k) - low(b, k))
    return r


class Prod(SInt):
    __slots__ = ('a', 'b')


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    cs = [x * y for x in (lo(a), hi(a)) for y in (lo(b), hi(b))]
    l, h = min(cs), max(cs)
    if l == h:
        return l
    p = Prod(l, h, lambda k: low(a, k) * low(b, k))
    p.a, p.b = a, b
    return p


def bitop(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'&': a & b, '|': a | b, '^': a ^ b}[op]
    la, ha, lb, hb = lo(a), hi(a), lo(b), hi(b)
    if op == '&':
        if isinstance(a, int):
            a, b = b, a
            la, ha, lb, hb = lb, hb, la, ha
        if isinstance(b, int) and b >= 0:
            if b == 0:
                return 0
            n = b.bit_length()
            return mk(0, b if la < 0 else min(b, ha), lambda k: resize_u(low(a, min(k, n)) & bv(b, min(k, n)), k))
        if la >= 0 and lb >= 0:
            l, h = 0, min(ha, hb)
        elif la >= 0:
            l, h = 0, ha
        elif lb >= 0:
            l, h = 0, hb
        else:
            m = max(natw(la, ha), natw(lb, hb)) - 1
            l, h = -(1 << m), max(ha, hb)
        return mk(l, h, lambda k: low(a, k) & low(b, k))
    m = max(natw(la, ha), natw(lb, hb)) - 1
    if la >= 0 and lb >= 0:
        l, h = (max(la, lb) if op == '|' else 0), (1 << m) - 1
    else:
        l, h = -(1 << m), (1 << m) - 1
    if op == '|':
        return mk(l, h, lambda k: low(a, k) | low(b, k))
    return mk(l, h, lambda k: low(a, k) ^ low(b, k))


def inv(a):
    if isinstance(a, int):
        return ~a
    return mk(~a.hi, ~a.lo, lambda k: ~a.low(k))


MAXSHIFT = 4096


def shl(a, s):
    if isinstance(a, int) and isinstance(s, int):
        return a << s
    if isinstance(s, int):
        def f(k):
            if s >= k:
                return bv(0, k)
            if s == 0:
                return low(a, k)
            return z3.Concat(low(a, k - s), bv(0, s))
        return mk(lo(a) << s, hi(a) << s, f)
    if s.hi > MAXSHIFT:
        raise Unsupported('shift amount unbounded')
    l = min(lo(a) << s.lo, lo(a) << s.hi)
    h = max(hi(a) << s.lo, hi(a) << s.hi)

    def f2(k):
        kk = max(k, natw(s.lo, s.hi))
        return resize_u(low(a, kk) << s.low(kk), k)
    return mk(l, h, f2)


def shr(a, s):
    if isinstance(a, int) and isinstance(s, int):
        return a >> s
    if isinstance(s, int):
        def f(k):
            return resize_s(z3.Extract(k + s - 1, s, low(a, k + s)), k)
        return mk(lo(a) >> s, hi(a) >> s, f)
    w = max(natw(lo(a), hi(a)), natw(s.lo, s.hi))
    l = min(lo(a) >> s.lo, lo(a) >> s.hi)
    h = max(hi(a) >> s.lo, hi(a) >> s.hi)
    return mk(l, h, lambda k: resize_s(low(a, w) >> low(s, w), k))


def divmod_(a, b):
    """Python floor division; the caller has established b != 0."""
    if isinstance(a, int) and isinstance(b, int):
        return divmod(a, b)
    if isinstance(b, int) and b > 0 and b & (b - 1) == 0:
        n = b.bit_length() - 1
        return shr(a, n), bitop('&', a, b - 1)
    if lo(a) >= 0 and lo(b) >= 0:
        return udivrem(a, b)
    ax, ay = iabs(a), iabs(b)
    q, r = udivrem(ax, ay)
    na, nb = cmp('<', a, 0), cmp('<', b, 0)
    same = zor(zand(na, nb), zand(znot(na), znot(nb)))
    rz = cmp('==', r, 0)
    fq = iite(same, q, iite(rz, neg(q), sub(neg(q), 1)))
    fr0 = iite(zor(same, rz), r, sub(ay, r))          # magnitude; the sign is the divisor's
    fr = iite(nb, neg(fr0), fr0)
    return fq, clip(fr, min(lo(b) + 1, 0), max(hi(b) - 1, 0))


def clip(x, l, h):
    """tighten the interval of x (the caller has established l <= x <= h)"""
    if isinstance(x, int):
        return x
    return mk(max(l, x.lo), min(h, x.hi), x.f)


def iite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return ite(c, a, b)


def iabs(a):
    if isinstance(a, int):
        return abs(a)
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    return clip(ite(a.low(a.w) < 0, neg(a), a), 0, max(-a.lo, a.hi))


def udivrem(x, y):
    """(x // y, x % y) for x >= 0, y > 0: uninterpreted functions, with the ground instances of the division lemmas the
    proofs use (see ENGINE.divide)"""
    if isinstance(x, int) and isinstance(y, int):
        return divmod(x, y)
    if isinstance(y, int) and (y & (y - 1)) == 0:
        n = y.bit_length() - 1
        return shr(x, n), bitop('&', x, y - 1)
    need = max(hi(x).bit_length(), hi(y).bit_length(), 1)
    k = next((k for k in (8, 16, 32, 64, 128, 256) if k >= need), None)
    if k is None:
        raise Unsupported('division too wide')
    X, Y = low(x, k), low(y, k)
    if isinstance(y, int) and k <= 64:
        q, r = z3.UDiv(X, Y), z3.URem(X, Y)
    else:
        q, r = ENGINE.divide(X, Y, k)
    hq = hi(x) // max(lo(y), 1)
    return (mk(0, hq, lambda n: resize_u(q, n)), mk(0, min(hi(x), max(hi(y) - 1, 0)), lambda n: resize_u(r, n)))


def cmp(op, a, b):
    """-> bool or z3 Bool"""
    if isinstance(a, int) and isinstance(b, int):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if op in ('>', '>='):
        return cmp({'>': '<', '>=': '<='}[op], b, a)
    if op == '!=':
        r = cmp('==', a, b)
        return (not r) if isinstance(r, bool) else z3.Not(r)
    la, ha, lb, hb = lo(a), hi(a), lo(b), hi(b)
    if op == '<':
        if ha < lb:
            return True
        if la >= hb:
            return False
    if op == '<=':
        if ha <= lb:
            return True
        if la > hb:
            return False
    if op == '==' and (ha < lb or hb < la):
        return False
    for p, c, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '==': '=='}[op])):
        if isinstance(p, Prod) and isinstance(c, int) and c == 0:
            # sign of a product (exact over the integers)
            ap, an = cmp('>', p.a, 0), cmp('<', p.a, 0)
            bp, bn = cmp('>', p.b, 0), cmp('<', p.b, 0)
            pos = zor(zand(ap, bp), zand(an, bn))
            ng = zor(zand(ap, bn), zand(an, bp))
            return {'<': ng, '<=': znot(pos), '>': pos, '>=': znot(ng), '==': zand(znot(pos), znot(ng))}[o]
    if isinstance(a, FInt) or isinstance(b, FInt):
        if isinstance(a, FInt) and isinstance(b, int):
            return a.cmpc(op, b)
        if isinstance(b, FInt) and isinstance(a, int):
            return b.cmpc({'<': '>', '<=': '>=', '==': '=='}[op], a)
    for p, c, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '==': '=='}[op])):
        if isinstance(p, IteInt):
            with hyp(p.c):
                x = cmp(o, p.a, c)
            with hyp(z3.Not(p.c)):
                y = cmp(o, p.b, c)
            return zor(zand(p.c, x), zand(z3.Not(p.c), y))
        if isinstance(p, FInt):
            # the other side is bounded: outside its interval the answer is known
            lc, hc = lo(c), hi(c)
            if natw(lc, hc) > 600:
                continue
            under, over = p.cmpc('<', lc), p.cmpc('>', hc)
            n = natw(lc, hc)
            x, y = p.cut(n), low(c, n)
            inr = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y}[o]
            mid = zand(znot(under), znot(over), inr)
            return zor(under, mid) if o in ('<', '<=') else zor(over, mid) if o in ('>', '>=') else mid
    # a - b with shared structure: compare at a common width
    w = width(a, b)
    if w > 600:
        raise Unsupported('comparison too wide')
    x, y = low(a, w), low(b, w)
    if op == '==':
        return x == y
    if la >= 0 and lb >= 0:
        return z3.ULT(x, y) if op == '<' else z3.ULE(x, y)
    return x < y if op == '<' else x <= y


def ite(c, a, b):
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if a is b:
        return a
    if isinstance(a, (FInt, IteInt)) or isinstance(b, (FInt, IteInt)):
        return IteInt(c, a, b)
    if isinstance(a, SInt) and isinstance(b, SInt):
        d = apart(a, b)
        if d is not None:
            # a counter: count + (one more, if c)
            l, h = min(a.lo, b.lo), max(a.hi, b.hi)
            w = max(natw(l, h), 8)
            if w > 16:
                return mk(l, h, lambda k: b.low(k) + step(c, d, k))
            r = mk(l, h, lambda k: b.low(k) + step(c, d, k) if k <= w else resize_s(r.low(w), k))
            return r
    if isinstance(a, int) and isinstance(b, int) and (a, b) == (1, 0):
        return mk(0, 1, lambda k: step(c, 1, k))
    return mk(min(lo(a), lo(b)), max(hi(a), hi(b)), lambda k: z3.If(c, low(a, k), low(b, k)))


def step(c, d, k):
    if d == 1 and k > 1 and z3.is_eq(c):
        x, y = c.arg(0), c.arg(1)
        if z3.is_bv_value(x):
            x, y = y, x
        if z3.is_bv(x) and x.size() == 1 and z3.is_bv_value(y):
            return z3.ZeroExt(k - 1, x if y.as_long() else ~x)
    return z3.If(c, bv(d, k), bv(0, k))


class hyp:
    """with hyp(c): facts asked of the engine may also use c"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        ENGINE.hyps.append(self.c)

    def __exit__(self, *a):
        ENGINE.hyps.pop()


def zand(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def zor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def znot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def zimp(a, b):
    return zor(znot(a), b)


def zite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return z3.If(c, a, b)


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        raise Unsupported('truth value of SBool in host code')

    def __repr__(self):
        return f'SBool({self.t})'


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def bterm(x):
    return x.t if isinstance(x, SBool) else x if isinstance(x, z3.BoolRef) else bool(x)


# ---------------------------------------------------------------- floats

def f64_bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def fpval(x):
    """FP64 z3 term of a concrete Python float"""
    return z3.fpBVToFP(z3.BitVecVal(f64_bits(x), 64), FP64)


SIGN64 = 1 << 63
QUIET64 = 1 << 51


def f32_nan_to64(b):
    """x86/ARM widening of an f32 NaN pattern: payload kept, quieted"""
    s = z3.Extract(31, 31, b)
    m = z3.Extract(22, 0, b)
    return z3.Concat(s, bv(0x7ff, 11), m, bv(0, 29)) | bv(QUIET64, 64)


def f64_nan_to32(b):
    s = z3.Extract(63, 63, b)
    m = z3.Extract(51, 29, b)
    return z3.Concat(s, bv(0xff, 8), m) | bv(1 << 22, 32)


class SFloat:
    """A Python float.  fp: FP64 term; nanb: its bit pattern should it be a NaN; f32: FP32 term when the value is known to
    be exactly an f32 value; op: ('add'|..., [f32 terms]) when the value is one correctly rounded binary64 operation on
    exact f32 operands (the innocuous-double-rounding lemma then gives its rounding to f32)."""
    __slots__ = ('_fp', 'nanb', 'f32', 'op', 'bits64')

    def __init__(self, fp=None, nanb=None, f32=None, op=None, bits64=None):
        self._fp, self.nanb, self.f32, self.op, self.bits64 = fp, nanb, f32, op, bits64

    @property
    def fp(self):
        if self._fp is None:
            self._fp = z3.fpFPToFP(RNE, self.f32, FP64)
        return self._fp

    def isnan(self):
        return z3.fpIsNaN(self.f32 if self.f32 is not None else self.fp)

    def isinf(self):
        return z3.fpIsInf(self.f32 if self.f32 is not None else self.fp)

    def bits(self):
        if self.bits64 is None:
            self.bits64 = z3.If(self.isnan(), self.nanb, z3.fpToIEEEBV(self.fp))
        return self.bits64

    def to32(self):
        """FP32 term of the value converted to binary32 (round to nearest even)"""
        if self.f32 is not None:
            return self.f32
        if self.op is not None:
            return apply32(*self.op)
        return z3.fpFPToFP(RNE, self.fp, FP32)

    def bits32(self):
        r = self.to32()
        return z3.If(z3.fpIsNaN(r), f64_nan_to32(self.nanb), z3.fpToIEEEBV(r))


def apply32(op, args):
    if op == 'add':
        return z3.fpAdd(RNE, *args)
    if op == 'sub':
        return z3.fpSub(RNE, *args)
    if op == 'mul':
        return z3.fpMul(RNE, *args)
    if op == 'div':
        return z3.fpDiv(RNE, *args)
    if op == 'sqrt':
        return z3.fpSqrt(RNE, *args)
    raise Unsupported(op)


def from_bits64(b):
    b = z3.simplify(b)
    if z3.is_bv_value(b):
        return bits_f64(b.as_long())
    return SFloat(fp=z3.fpBVToFP(b, FP64), nanb=b, bits64=b)


def from_bits32(b):
    b = z3.simplify(b)
    if z3.is_bv_value(b):
        return struct.unpack('<f', struct.pack('<I', b.as_long()))[0]
    return SFloat(f32=z3.fpBVToFP(b, FP32), nanb=f32_nan_to64(b))


def as_sfloat(x):
    if isinstance(x, SFloat):
        return x
    x = float(x)
    b = z3.BitVecVal(f64_bits(x), 64)
    r = SFloat(fp=fpval(x), nanb=b, bits64=b)
    try:
        p = struct.pack('<f', x)
        if x != x or struct.unpack('<f', p)[0] == x:
            r.f32 = z3.fpBVToFP(z3.BitVecVal(struct.unpack('<I', p)[0], 32), FP32)
    except OverflowError:
        pass
    return r


def fneg(a):
    return SFloat(fp=None if a._fp is None and a.f32 is not None else z3.fpNeg(a.fp), nanb=a.nanb ^ bv(SIGN64, 64),
                  f32=None if a.f32 is None else z3.fpNeg(a.f32),
                  bits64=None if a.bits64 is None else a.bits64 ^ bv(SIGN64, 64))


def fabs(a):
    m = bv(SIGN64 - 1, 64)
    return SFloat(fp=None if a._fp is None and a.f32 is not None else z3.fpAbs(a.fp), nanb=a.nanb & m,
                  f32=None if a.f32 is None else z3.fpAbs(a.f32),
                  bits64=None if a.bits64 is None else a.bits64 & m)


def fsign(a):
    """z3 Bool: sign bit of the value (NaN included)"""
    neg_ = z3.fpIsNegative(a.f32 if a.f32 is not None else a.fp)
    return z3.If(a.isnan(), z3.Extract(63, 63, a.nanb) == 1, neg_)


def fcopysign(a, b):
    s = z3.simplify(fsign(b))
    if b.bits64 is not None:
        s = z3.Extract(63, 63, b.bits64) == 1
    p = fabs(a)
    n = fneg(p)
    return fite(s, n, p)


def fite(c, a, b):
    if a is b:
        return a
    f32 = None
    if a.f32 is not None and b.f32 is not None:
        f32 = z3.If(c, a.f32, b.f32)
    bits = None
    if a.bits64 is not None and b.bits64 is not None:
        bits = z3.If(c, a.bits64, b.bits64)
    r = SFloat(fp=None if f32 is not None and a._fp is None and b._fp is None else z3.If(c, a.fp, b.fp),
               nanb=z3.If(c, a.nanb, b.nanb), f32=f32, bits64=bits)
    if f32 is None and (a.op or b.op):
        # keep the rounding lemma usable through a conditional
        r.op = None
        r = SFloatIte(c, a, b, r)
    return r


class SFloatIte(SFloat):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b, r):
        super().__init__(fp=r._fp, nanb=r.nanb, f32=None, bits64=r.bits64)
        self.c, self.a, self.b = c, a, b

    def to32(self):
        return z3.If(self.c, self.a.to32(), self.b.to32())


def fcmp(op, a, b):
    x, y = (a.f32, b.f32) if a.f32 is not None and b.f32 is not None else (a.fp, b.fp)
    return {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ,
            '!=': lambda p, q: z3.Not(z3.fpEQ(p, q))}[op](x, y)


def fcmp_int(op, f, c):
    """exact comparison of a float with a Python int constant: f op c"""
    try:
        d = float(c)
    except OverflowError:
        d = None
    if d is not None and int(d) == c:
        return fcmp(op, f, as_sfloat(d))
    if d is None:
        import math
        big = as_sfloat(math.inf if c > 0 else -math.inf)
        # |c| exceeds every finite double
        if op == '==':
            return False
        if op == '!=':
            return True
        if c > 0:
            return zand(znot(f.isnan()), fcmp('<', f, big)) if op in '<=' else fcmp('==', f, big)
        return zand(znot(f.isnan()), fcmp('>', f, big)) if op in '>=' else fcmp('==', f, big)
    # c strictly between two adjacent doubles
    import math
    below = d if int(d) < c else math.nextafter(d, -math.inf)
    above = d if int(d) > c else math.nextafter(d, math.inf)
    if op == '==':
        return False
    if op == '!=':
        return True
    if op in ('<', '<='):
        return fcmp('<=', f, as_sfloat(below))
    return fcmp('>=', f, as_sfloat(above))


class FInt(SInt):
    """The integer an integral, finite float denotes (int(), math.floor(), ...)."""
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g  # SFloat, integral
        big = (1 << 1024)
        if g.f32 is not None:
            big = 1 << 128
        super().__init__(-big, big, self._low)

    def _low(self, k):
        t = self.g.f32 if self.g.f32 is not None else self.g.fp
        srt = FP32 if self.g.f32 is not None else FP64
        for n in (32, 64, 66, 130):
            if n - 1 > 127 and srt == FP32:
                continue
            lim = z3.fpBVToFP(z3.BitVecVal(struct.unpack('<I', struct.pack('<f', float(1 << (n - 1))))[0], 32), FP32) \
                if srt == FP32 else fpval(float(1 << (n - 1)))
            if ENGINE.implied(z3.And(z3.fpLT(t, lim), z3.fpGEQ(t, z3.fpNeg(lim)))):
                return resize_s(z3.fpToSBV(z3.RTZ(), t, z3.BitVecSort(n)), k)
        raise Unsupported('float-to-int without a proved range')

    def low(self, k):
        return z3.simplify(self._low(k))   # range facts depend on the path: no caching

    def cut(self, n):
        """the value as n bits; meaningful only where it fits"""
        return z3.fpToSBV(z3.RTZ(), self.g.f32 if self.g.f32 is not None else self.g.fp, z3.BitVecSort(n))

    def cmpc(self, op, c):
        return fcmp_int(op, self.g, c)


class IteInt(SInt):
    """conditional integer with a float-derived branch: range facts are looked up under the branch's condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        super().__init__(min(lo(a), lo(b)), max(hi(a), hi(b)), self._low)

    def _low(self, k):
        with hyp(self.c):
            x = low(self.a, k)
        with hyp(z3.Not(self.c)):
            y = low(self.b, k)
        return z3.If(self.c, x, y)

    def low(self, k):
        return z3.simplify(self._low(k))


def frti(mode, a):
    """round to integral"""
    rm = {'ceil': z3.RTP(), 'floor': z3.RTN(), 'trunc': z3.RTZ(), 'rne': z3.RNE()}[mode]
    return SFloat(fp=None if a.f32 is not None else z3.fpRoundToIntegral(rm, a.fp), nanb=a.nanb,
                  f32=None if a.f32 is None else z3.fpRoundToIntegral(rm, a.f32))


def int_to_float(n):
    """float(n) for SInt"""
    if isinstance(n, FInt):
        g = n.g
        # integers have no negative zero
        z = fcmp('==', g, as_sfloat(0.0))
        return fite(z, as_sfloat(0.0), g)
    if n.w > 600:
        raise Unsupported('int too wide for float()')
    t = n.low(n.w)
    r = SFloat(fp=z3.fpSignedToFP(RNE, t, FP64), nanb=bv(0, 64))
    if n.w <= 25:
        r.f32 = z3.fpSignedToFP(RNE, t, FP32)
    elif n.w <= 54:
        # exact in binary64, so rounding to f32 rounds the integer once
        r = SFloatInt(r, t)
    return r


class SFloatInt(SFloat):
    __slots__ = ('t',)

    def __init__(self, r, t):
        super().__init__(fp=r._fp, nanb=r.nanb)
        self.t = t

    def to32(self):
        return z3.fpSignedToFP(RNE, self.t, FP32)


# ---------------------------------------------------------------- byte sequences

class BSeq:
    pass


class CB(BSeq):
    """concrete length; items: bytes or tuple of int / BV8 terms"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    @property
    def n(self):
        return len(self.items)

    def get(self, i):
        return self.items[i]

    def getz(self, i):
        v = self.items[i]
        return v if not isinstance(v, int) else z3.BitVecVal(v, 8)

    def at(self, idx):
        """BV8 term at a BV64 index term"""
        if not z3.is_bv_value(idx):
            idx = z3.simplify(idx)
        if z3.is_bv_value(idx):
            return self.getz(idx.as_long()) if idx.as_long() < len(self.items) else z3.BitVecVal(0, 8)
        r = z3.BitVecVal(0, 8)
        for j in range(len(self.items) - 1, -1, -1):
            r = z3.If(idx == j, self.getz(j), r)
        return r


class FB(BSeq):
    """symbolic length n (SInt or int) and content fn: BV64 -> BV8 (meaningful below n)"""
    __slots__ = ('n', 'fn', 'store', 'src')

    def __init__(self, n, fn, store=None, src=None):
        self.n, self.fn, self.store, self.src = n, fn, store, src

    def at(self, idx):
        return self.fn(idx)


def byte_int(v):
    return v if isinstance(v, int) else ubv(v)


def mkcb(items):
    if all(isinstance(x, int) for x in items):
        return CB(bytes(items))
    return CB(tuple(items))


def idx64(x):
    return low(x, 64)


def bs_get(s, i):
    """i: int or SInt, in range"""
    i = concretize(i)
    if isinstance(s, CB) and isinstance(i, int):
        return byte_int(s.items[i])
    return ubv(z3.simplify(s.at(idx64(i))))


def bs_concat(a, b):
    if isinstance(a, CB) and isinstance(b, CB):
        if isinstance(a.items, bytes) and isinstance(b.items, bytes):
            return CB(a.items + b.items)
        return CB(tuple(a.items) + tuple(b.items))
    if isinstance(a, CB) and a.n == 0:
        return b
    if isinstance(b, CB) and b.n == 0:
        return a
    na = a.n
    t = idx64(na)
    return FB(add(na, b.n), lambda k: z3.If(z3.ULT(k, t), a.at(k), b.at(k - t)))


def const_diff(hi_, lo_):
    """hi - lo as an int if it is syntactically constant"""
    hi_, lo_ = concretize(hi_), concretize(lo_)
    if isinstance(hi_, int) and isinstance(lo_, int):
        return hi_ - lo_
    w = width(hi_, lo_) + 1
    t = z3.simplify(low(hi_, w) - low(lo_, w))
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return None


def bs_slice(s, a, b):
    """0 <= a <= b <= len established"""
    a, b = concretize(a), concretize(b)
    if isinstance(s, CB) and isinstance(a, int) and isinstance(b, int):
        return CB(s.items[a:b])
    d = const_diff(b, a)
    if d is not None and d <= 4096:
        if isinstance(a, int):
            return mkcb([bs_elem(s, bv(a + j, 64)) for j in range(d)])
        t = idx64(a)
        return mkcb([bs_elem(s, z3.simplify(t + bv(j, 64))) for j in range(d)])
    t = idx64(a)
    return FB(sub(b, a), lambda k: s.at(k + t))


def bs_elem(s, idx):
    v = z3.simplify(s.at(idx))
    return v.as_long() if z3.is_bv_value(v) else v


def bs_store(s, a, b, src):
    """s[a:b] = src with len(src) == b - a"""
    a, b = concretize(a), concretize(b)
    if isinstance(s, CB) and isinstance(src, CB) and isinstance(a, int):
        if isinstance(s.items, bytes) and isinstance(src.items, bytes):
            return CB(s.items[:a] + src.items + s.items[a + len(src.items):])
        return CB(tuple(s.items[:a]) + tuple(src.items) + tuple(s.items[a + len(src.items):]))
    t, e = idx64(a), idx64(b)
    n = z3.simplify(e - t)

    def f(k):
        d = z3.simplify(k - t)
        if z3.is_bv_value(n) and z3.is_bv_value(d):     # a <= b: the position is within exactly when d < n
            return src.at(d) if d.as_long() < n.as_long() else s.at(k)
        return z3.If(z3.And(z3.ULE(t, k), z3.ULT(k, e)), src.at(k - t), s.at(k))
    return FB(s.n, f, store=(s, a, src))


def bs_fill(s, a, n, v):
    """s with positions a .. a+n-1 set to the byte v"""
    t, e = idx64(a), idx64(add(a, n))
    return FB(s.n, lambda k: z3.If(z3.And(z3.ULE(t, k), z3.ULT(k, e)), v, s.at(k)))


def bs_zero(n):
    n = concretize(n)
    if isinstance(n, int) and n <= 1 << 26:
        return CB(bytes(n))
    return FB(n, lambda k: z3.BitVecVal(0, 8))


def bs_ite(c, a, b):
    if isinstance(a, CB) and isinstance(b, CB):
        if a.n != b.n:
            return None
        if a.items == b.items if isinstance(a.items, bytes) and isinstance(b.items, bytes) else False:
            return a
        out = []
        for x, y in zip(a.items, b.items):
            if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
                out.append(x)
            else:
                out.append(z3.If(c, x if not isinstance(x, int) else bv(x, 8), y if not isinstance(y, int) else bv(y, 8)))
        return mkcb(out)
    if const_diff(a.n, b.n) != 0:
        return None
    return FB(a.n, lambda k: z3.If(c, a.at(k), b.at(k)))


def bytes_le_term(items):
    """BV term of little-endian bytes"""
    ts = [x if not isinstance(x, int) else bv(x, 8) for x in items]
    if len(ts) == 1:
        return z3.simplify(ts[0])
    return z3.simplify(z3.Concat(*reversed(ts)))


def term_bytes(t):
    n = t.size() // 8
    out = []
    for j in range(n):
        e = z3.simplify(z3.Extract(8 * j + 7, 8 * j, t))
        out.append(e.as_long() if z3.is_bv_value(e) else e)
    return out


def conc_or(x, f):
    """f(x) for a concrete integer, else None"""
    x = concretize(x) if x is not None else None
    if not isinstance(x, int):
        return None
    try:
        return f(x)
    except TypeError:
        return None
