"""Models of the Python built-ins and library functions the code under verification uses (CPython 3.12, x86-64 Linux).
Everything here is part of the trusted base; `python3-vt -m pydv.selftest` cross-checks it against CPython."""
import builtins
import ctypes
import io
import math
import operator
import struct

import z3

from . import sym
from .sym import (SInt, SBool, SFloat, Unsupported, CB, FB, mkbool, bterm, zand, zor, znot, is_int)
from . import streams
from . import loops
from .interp import (FoldSeg, Ref, SBytes, SStr, Union, Opaque, Closure, BoundMethod, BuiltinMethod, ExcVal, ObjRec, ListRec,
                     BytesRec, DictRec, EnvRec, IterRec, SymSeg, GenSeg, BaseSeq, Brk, RevSeg, Slice, SymIter, PyRaise, MISSING,
                     Frame, conc)

FUNCS = {}
CLASSES = {}
EXT = {}       # callables keyed by object
METHODS = {}   # (kind, name)


def ext(*fns):
    def deco(m):
        for f in fns:
            EXT[f] = m
        return m
    return deco


def method(kind, *names):
    def deco(m):
        for n in names:
            METHODS[(kind, n)] = m
        return m
    return deco


def call_external(eng, f, args, kw):
    try:
        m = EXT.get(f)
    except TypeError:
        m = None
    if m is not None:
        eng.models_used.add(getattr(f, '__qualname__', str(f)))
        return m(eng, *args, **kw)
    h = getattr(eng, 'ext_hook', None)
    if h is not None:
        r = h(eng, f, args, kw)
        if r is not MISSING:
            return r
    if isinstance(f, (Opaque,)):
        raise Unsupported(f'call of {f!r}')
    s = getattr(f, '__self__', None)
    if s is not None and conc(s) and not isinstance(s, type(builtins)):
        return call_method(eng, s, f.__name__, args, kw)
    if isinstance(f, type) and issubclass(f, BaseException):
        return ExcVal(f, tuple(args))
    if f in PURE and all(conc(a) for a in args):
        try:
            return f(*args, **kw)
        except Exception as e:
            eng.raise_(type(e), *e.args)
    raise Unsupported(f'call of external {getattr(f, "__module__", "")}.{getattr(f, "__qualname__", f)}')


PURE = {len, abs, min, max, ord, chr, hex, bin, oct, int, float, str, bool, divmod, pow, math.log2, sum, repr, math.gcd}


def kind_of(eng, v):
    if isinstance(v, Ref):
        r = eng.rd(v)
        if isinstance(r, ListRec):
            return 'list'
        if isinstance(r, BytesRec):
            return 'bytearray'
        if isinstance(r, DictRec):
            return 'dict'
        if isinstance(r, ObjRec):
            return r.cls.__name__
        if isinstance(r, IterRec):
            return 'iter'
    if isinstance(v, (bytes, SBytes)):
        return 'bytes'
    if isinstance(v, (str, SStr)):
        return 'str'
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, (float, SFloat)):
        return 'float'
    if isinstance(v, (tuple, frozenset)):
        return 'tuple'
    if isinstance(v, Opaque):
        return v.attrs.get('kind', 'opaque')
    if isinstance(v, dict):
        return 'cdict'
    return type(v).__name__


def call_method(eng, recv, name, args, kw):
    if isinstance(recv, Union):
        recv = eng.split_union(recv)
    k = kind_of(eng, recv)
    m = METHODS.get((k, name))
    if m is None and k == 'bool':
        m = METHODS.get(('int', name))
    if m is None and k == 'bytearray':
        m = METHODS.get(('bytes', name))
    if m is not None:
        return m(eng, recv, *args, **kw)
    if isinstance(recv, Opaque):
        h = getattr(eng, 'ext_hook', None)
        if h is not None:
            r = h(eng, (recv, name), args, kw)
            if r is not MISSING:
                return r
    if isinstance(recv, Ref) and isinstance(eng.rd(recv), IterRec):
        raise Unsupported(f'iterator method {name}')
    if conc(recv) and not isinstance(recv, tuple):
        if not hasattr(recv, name):
            eng.raise_(AttributeError, name)
        if all(conc(a) for a in args) and all(conc(a) for a in kw.values()):
            try:
                r = getattr(recv, name)(*args, **kw)
            except Exception as e:
                eng.raise_(type(e), *e.args)
            if isinstance(r, list):
                return eng.new_list(r)
            return r
    raise Unsupported(f'method {k}.{name}')


def has_method(rec, name):
    return (rec.cls.__name__, name) in METHODS


# ---------------------------------------------------------------- builtins

@ext(len)
def m_len(eng, v):
    if isinstance(v, streams.TokBytes):
        return v.n
    if isinstance(v, Union):
        return eng.lift(lambda x: m_len(eng, x), v)
    if isinstance(v, Ref):
        r = eng.rd(v)
        if isinstance(r, ListRec):
            return eng.list_len(r)
        if isinstance(r, BytesRec):
            return r.seq.n
        if isinstance(r, DictRec):
            return len(r.d)
        if isinstance(r, ObjRec) and hasattr(r.cls, '__len__'):
            return eng.call(eng.getattr_(v, '__len__'), [])
    if isinstance(v, SBytes):
        return v.seq.n
    if isinstance(v, SStr):
        return eng.str_len(v)
    if isinstance(v, SymIter):
        return v.n
    if isinstance(v, Opaque) and 'len' in v.attrs:
        return v.attrs['len']
    if v is None or isinstance(v, (int, float, SInt, SFloat, SBool)):
        eng.raise_(TypeError, 'object has no len()')
    return len(v)


@ext(range)
def m_range(eng, *a):
    a = [eng.as_int(eng.split_union(x) if isinstance(x, Union) else x) for x in a]
    a = [sym.concretize(x) for x in a]
    if any(not is_int(x) for x in a):
        eng.raise_(TypeError, 'range')
    if all(isinstance(x, int) for x in a):
        return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if step == 1:
        n = sym.sub(stop, start)
    elif isinstance(step, int) and step > 1:
        n = sym.divmod_(sym.add(sym.sub(stop, start), step - 1), step)[0]
    elif step == -1:
        n = sym.sub(start, stop)
    else:
        raise Unsupported('symbolic range step')
    if sym.lo(n) < 0:
        if not eng.decide(sym.cmp('>', n, 0)):
            return range(0)
        n = sym.mk(1, sym.hi(n), n.f) if isinstance(n, SInt) else n
    return SymIter('range', n, (start, step))


def int_of_float(eng, f, mode='trunc'):
    if isinstance(f, float):
        try:
            return {'trunc': math.trunc, 'ceil': math.ceil, 'floor': math.floor, 'rne': round}[mode](f)
        except (ValueError, OverflowError) as e:
            eng.raise_(type(e), *e.args)
    if eng.decide(f.isnan()):
        eng.raise_(ValueError, 'cannot convert float NaN to integer')
    if eng.decide(f.isinf()):
        eng.raise_(OverflowError, 'cannot convert float infinity to integer')
    return sym.FInt(sym.frti(mode, f))


@ext(int)
def m_int(eng, v=0, base=None):
    if isinstance(v, Union):
        return eng.lift(lambda x: m_int(eng, x), v)
    if base is not None or isinstance(v, (str, bytes)):
        if conc(v):
            try:
                return int(v) if base is None else int(v, base)
            except ValueError as e:
                eng.raise_(ValueError, *e.args)
        raise Unsupported('int of string')
    v = eng.as_int(v)
    if is_int(v):
        return v
    if isinstance(v, (float, SFloat)):
        return int_of_float(eng, v)
    eng.raise_(TypeError, 'int() argument')


@ext(float)
def m_float(eng, v=0.0):
    if isinstance(v, Union):
        return eng.lift(lambda x: m_float(eng, x), v)
    v = eng.as_int(v)
    if isinstance(v, (float, SFloat)):
        return v
    if isinstance(v, int):
        try:
            return float(v)
        except OverflowError as e:
            eng.raise_(OverflowError, *e.args)
    if isinstance(v, SInt):
        return sym.int_to_float(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            eng.raise_(ValueError, *e.args)
    eng.raise_(TypeError, 'float() argument')


@ext(bool)
def m_bool(eng, v=False):
    return mkbool(eng.truth(v))


def to_bseq(eng, v):
    """bytes of a bytes-like object or of an iterable of ints"""
    if isinstance(v, Union):
        v = eng.split_union(v)
    q = eng.bytes_of(v)
    if q is not None:
        return q
    if isinstance(v, (int, SInt, float, SFloat, str, SStr)) or v is None:
        eng.raise_(TypeError, 'bytes-like object expected')
    if isinstance(v, Opaque) and 'bytes' in v.attrs:
        return v.attrs['bytes']
    it = eng.iterate(v)
    if isinstance(it, SymIter):
        raise Unsupported('bytes of symbolic iterable')
    out = []
    for x in it:
        x = eng.as_int(eng.split_union(x) if isinstance(x, Union) else x)
        if not is_int(x):
            eng.raise_(TypeError, 'integer expected')
        if not eng.decide(zand(sym.cmp('<=', 0, x), sym.cmp('<=', x, 255))):
            eng.raise_(ValueError, 'byte must be in range(0, 256)')
        x = sym.concretize(x)
        out.append(x if isinstance(x, int) else x.low(8))
    return sym.mkcb(out)


def make_bytes_seq(eng, v, enc=None):
    if isinstance(v, Union):
        v = eng.split_union(v)
    v = eng.as_int(v)
    if is_int(v):
        if eng.decide(sym.cmp('<', v, 0)):
            eng.raise_(ValueError, 'negative count')
        return sym.bs_zero(v)
    if isinstance(v, (str, SStr)):
        if enc is None:
            eng.raise_(TypeError, 'string argument without an encoding')
        return eng.bytes_of(str_encode(eng, v, enc))
    return to_bseq(eng, v)


@ext(bytearray)
def m_bytearray(eng, v=b'', encoding=None):
    if isinstance(v, streams.TokBytes):
        return v
    return eng.new_bytes(make_bytes_seq(eng, v, encoding))


@ext(bytes)
def m_bytes(eng, v=b'', encoding=None):
    if isinstance(v, streams.TokBytes):
        return v
    return eng.mk_bytes(make_bytes_seq(eng, v, encoding))


@ext(memoryview)
def m_memoryview(eng, v):
    raise Unsupported('memoryview')


@ext(list)
def m_list(eng, v=()):
    if isinstance(v, Ref) and isinstance(eng.rd(v), ListRec):
        return eng.alloc(eng.rd(v).copy())
    it = eng.iterate(v)
    if isinstance(it, SymIter):
        it = it.unroll(eng)
    return eng.new_list(list(it))


@ext(tuple)
def m_tuple(eng, v=()):
    return tuple(eng.iterate_concrete(v))


@ext(set, frozenset)
def m_set(eng, v=()):
    xs = list(eng.iterate_concrete(v))
    if not all(conc(x) for x in xs):
        raise Unsupported('symbolic set')
    return frozenset(xs)


@ext(dict)
def m_dict(eng, v=None, **kw):
    d = {}
    if v is not None:
        if isinstance(v, Ref) and isinstance(eng.rd(v), DictRec):
            d.update(eng.rd(v).d)
        elif isinstance(v, dict):
            d.update(v)
        else:
            for p in eng.iterate_concrete(v):
                k, x = list(eng.iterate_concrete(p))
                if not conc(k):
                    raise Unsupported('symbolic dict key')
                d[k] = x
    d.update(kw)
    return eng.alloc(DictRec(d))


def choose(eng, c, a, b):
    """c ? a : b for immutable values (c: bool or z3 Bool)"""
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if is_int(a) and is_int(b):
        return sym.ite(c, a, b)
    fl = (float, SFloat)
    if isinstance(a, fl) and isinstance(b, fl):
        return sym.fite(c, sym.as_sfloat(a), sym.as_sfloat(b))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(sym.zite(c, bterm(a), bterm(b)))
    num = (int, float, SInt, SFloat, bool, SBool)
    if isinstance(a, num) and isinstance(b, num):
        return Union([(c, a), (z3.Not(c), b)])
    return a if eng.decide(c) else b


def minmax(eng, op, args, kw):
    key = kw.get('key')
    if len(args) == 1:
        xs = list(eng.iterate_concrete(args[0]))
        if not xs:
            if 'default' in kw:
                return kw['default']
            eng.raise_(ValueError, 'empty sequence')
    else:
        xs = list(args)

    def two(a, b):
        ka, kb = (a, b) if key is None else (eng.call(key, [a]), eng.call(key, [b]))
        return choose(eng, bterm(eng.compare(op, kb, ka)), b, a)
    acc = xs[0]
    for x in xs[1:]:
        if any(isinstance(v, Union) for v in (acc, x)):
            acc = eng.lift(two, acc, x)
        else:
            acc = two(acc, x)
    return acc


@ext(min)
def m_min(eng, *a, **kw):
    return minmax(eng, '<', a, kw)


@ext(max)
def m_max(eng, *a, **kw):
    return minmax(eng, '>', a, kw)


@ext(abs)
def m_abs(eng, v):
    if isinstance(v, Union):
        return eng.lift(lambda x: m_abs(eng, x), v)
    v = eng.as_int(v)
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, SInt):
        if isinstance(v, sym.FInt):
            return sym.FInt(sym.fabs(v.g))
        if v.lo >= 0:
            return v
        r = sym.ite(sym.cmp('<', v, 0), sym.neg(v), v)
        return sym.mk(0 if v.lo < 0 < v.hi else min(abs(v.lo), abs(v.hi)), max(-v.lo, v.hi), r.f) if isinstance(r, SInt) else r
    if isinstance(v, SFloat):
        return sym.fabs(v)
    eng.raise_(TypeError, 'bad operand for abs()')


@ext(sum)
def m_sum(eng, v, start=0):
    acc = start
    if getattr(eng, 'havoc', False) and isinstance(v, Ref) and isinstance(eng.rd(v), ListRec):
        r = some_sum(eng, eng.rd(v), acc)
        if r is not None:
            return r
    for x in eng.iterate_concrete(v):
        acc = eng.binop('+', acc, x)
    return acc


def some_sum(eng, rec, acc):
    """the sum of a list with unknown parts: any number its elements' range allows (where the contract keeps nothing else)"""
    unknown = [s for s in rec.segs if not isinstance(s, list)]
    if not unknown or not is_int_like(acc):
        return None
    for s in rec.segs:
        if isinstance(s, list):
            for x in s:
                acc = eng.binop('+', acc, x)
            continue
        n = eng.seg_len(s)
        if isinstance(n, int):
            return None
        j = SInt(0, max(sym.hi(n) - 1, 0), z3_index(eng))
        q = getattr(eng, 'sums', None)
        if q is not None and sym.const_diff(q.n, n) == 0:
            def same():
                return eng.implied(sym.cmp('==', eng.as_int(eng.materialise(s, j)), q.f(eng.materialise(q.seg, j))))
            if all(o.kind == 'normal' and o.val is True for o in eng.explore(same, (sym.cmp('<', j, n),))):
                acc = eng.binop('+', acc, q.total)
                continue
        outs = eng.explore(lambda: eng.as_int(eng.materialise(s, j)), (sym.cmp('<', j, n),))
        if any(o.kind != 'normal' or not isinstance(o.val, (int, SInt)) for o in outs):
            return None
        lo = min([sym.lo(o.val) for o in outs] + [0]) * sym.hi(n)
        hi = max([sym.hi(o.val) for o in outs] + [0]) * sym.hi(n)
        k = hi.bit_length() + 2
        t = z3.BitVec(eng.fresh_name('sum'), k)
        x = SInt(lo, hi, lambda w, t=t, k=k: z3.Extract(w - 1, 0, t) if w <= k else z3.SignExt(w - k, t))
        eng.assume(zand(sym.cmp('>=', x, lo), sym.cmp('<=', x, hi)))
        acc = eng.binop('+', acc, x)
    return acc


def is_int_like(v):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool)


@ext(any)
def m_any(eng, v):
    return mkbool(zor(*[eng.truth(x) for x in eng.iterate_concrete(v)]))


@ext(all)
def m_all(eng, v):
    return mkbool(zand(*[eng.truth(x) for x in eng.iterate_concrete(v)]))


@ext(zip)
def m_zip(eng, *its, strict=False):
    xs = [eng.iterate(x) for x in its]
    if any(isinstance(x, SymIter) for x in xs):
        n = None
        for x in xs:
            m = x.n if isinstance(x, SymIter) else len(list(x))
            if n is None:
                n = m
            else:
                n = m if eng.decide(sym.cmp('<=', m, n)) else n
        n = sym.concretize(n)
        if isinstance(n, int):
            return tuple(tuple(x.at(eng, j) if isinstance(x, SymIter) else list(x)[j] for x in xs) for j in range(n))
        return SymIter('zip', n, [x if isinstance(x, SymIter) else list(x) for x in xs])
    ls = [list(x) for x in xs]
    if strict and len({len(x) for x in ls}) > 1:
        eng.raise_(ValueError, 'zip() argument lengths differ')
    return tuple(zip(*ls))


@ext(enumerate)
def m_enumerate(eng, v, start=0):
    it = eng.iterate(v)
    if isinstance(it, SymIter):
        return SymIter('enumerate', it.n, (it, start))
    return tuple((sym.add(start, i), x) for i, x in enumerate(it))


@ext(reversed)
def m_reversed(eng, v):
    if isinstance(v, Ref) and isinstance(eng.rd(v), ListRec):
        return eng.list_slice(v, Slice(None, None, -1))
    return tuple(reversed(list(eng.iterate_concrete(v))))


@ext(sorted)
def m_sorted(eng, v, key=None, reverse=False):
    xs = list(eng.iterate_concrete(v))
    if key is None and all(conc(x) for x in xs):
        return eng.new_list(sorted(xs, reverse=reverse))
    h = getattr(eng, 'sorted_hook', None)
    if h is not None:
        return h(eng, xs)
    raise Unsupported('sorted')


@ext(map)
def m_map(eng, f, *its):
    if len(its) == 1:
        return tuple(eng.call(f, [x]) for x in eng.iterate_concrete(its[0]))
    return tuple(eng.call(f, list(x)) for x in zip(*[list(eng.iterate_concrete(i)) for i in its]))


@ext(filter)
def m_filter(eng, f, it):
    return tuple(x for x in eng.iterate_concrete(it) if eng.decide(eng.truth(eng.call(f, [x]) if f is not None else x)))


@ext(iter)
def m_iter(eng, v):
    return eng.alloc(IterRec(tuple(eng.iterate_concrete(v))))


@ext(next)
def m_next(eng, it, default=MISSING):
    if not isinstance(it, Ref):
        it = eng.alloc(IterRec(tuple(eng.iterate_concrete(it))))
    r = eng.rd(it)
    if isinstance(r, ListRec):
        if default is MISSING and not all(isinstance(s, list) for s in r.segs):
            raise Unsupported('next')
        xs = [x for s in r.segs for x in s]
        if xs:
            return xs[0]
        if default is not MISSING:
            return default
        eng.raise_(StopIteration)
    if r.pos < len(r.items):
        eng.wr(it).pos = r.pos + 1
        return r.items[r.pos]
    if default is not MISSING:
        return default
    eng.raise_(StopIteration)


PYCLS = {'list': list, 'bytearray': bytearray, 'dict': dict, 'bytes': bytes, 'str': str, 'bool': bool, 'int': int,
         'float': float, 'tuple': tuple, 'NoneType': type(None)}


def type_of(eng, v):
    if isinstance(v, Union):
        v = eng.split_union(v)
    if isinstance(v, Ref) and isinstance(eng.rd(v), ObjRec):
        return eng.rd(v).cls
    if isinstance(v, ExcVal):
        return v.cls
    k = kind_of(eng, v)
    if isinstance(v, Opaque):
        return v.attrs.get('cls', object)
    return PYCLS.get(k) or type(v)


@ext(isinstance)
def m_isinstance(eng, v, t):
    return issubclass(type_of(eng, v), t)


@ext(issubclass)
def m_issubclass(eng, v, t):
    return issubclass(v, t)


@ext(type)
def m_type(eng, v):
    return type_of(eng, v)


@ext(callable)
def m_callable(eng, v):
    return isinstance(v, (Closure, BoundMethod, BuiltinMethod)) or callable(v)


@ext(hasattr)
def m_hasattr(eng, v, n):
    try:
        eng.getattr_(v, n)
        return True
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise


@ext(getattr)
def m_getattr(eng, v, n, d=MISSING):
    try:
        return eng.getattr_(v, n)
    except PyRaise as e:
        if d is not MISSING and issubclass(e.exc.cls, AttributeError):
            return d
        raise


@ext(setattr)
def m_setattr(eng, v, n, x):
    eng.setattr_(v, n, x)


@ext(ord)
def m_ord(eng, v):
    q = eng.bytes_of(v)
    if q is not None:
        if not eng.decide(sym.cmp('==', q.n, 1)):
            eng.raise_(TypeError, 'ord() expected a character')
        return sym.bs_get(q, 0)
    if isinstance(v, str):
        if len(v) != 1:
            eng.raise_(TypeError, 'ord() expected a character')
        return ord(v)
    eng.raise_(TypeError, 'ord() expected string of length 1')


@ext(chr)
def m_chr(eng, v):
    if isinstance(v, int):
        return chr(v)
    return SStr(('chr', id(v)))


@ext(repr, ascii, format)
def m_repr(eng, v, *a):
    if isinstance(v, int) and all(conc(x) for x in a):
        return format(v, *a) if a else repr(v)
    return SStr(('repr', id(v)))


def radix(f):
    @ext(f)
    def m(eng, v):
        v = eng.as_int(v) if not isinstance(v, (int, SInt)) else v
        if isinstance(v, int):
            return f(v)
        if not isinstance(v, SInt):
            eng.raise_(TypeError)
        r = SStr((f.__name__, id(v)))
        r.meta = (f.__name__, v)
        return r
    return m


radix(hex)
radix(oct)
radix(bin)


@ext(str)
def m_str(eng, v='', *a):
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, int):
        return str(v)
    q = eng.bytes_of(v)
    if q is not None and a:
        return bytes_decode(eng, v, *a)
    return SStr(('str', id(v)))


@ext(print)
def m_print(eng, *a, **kw):
    eng.event('print', a)


@ext(round)
def m_round(eng, v, nd=None):
    if isinstance(v, Union):
        return eng.lift(lambda x: m_round(eng, x), v)
    if nd is not None:
        if conc(v):
            return round(v, nd)
        raise Unsupported('round digits')
    v = eng.as_int(v)
    if is_int(v):
        return v
    return int_of_float(eng, v, 'rne')


@ext(divmod)
def m_divmod(eng, a, b):
    return (eng.binop('//', a, b), eng.binop('%', a, b))


@ext(pow)
def m_pow(eng, a, b, m=None):
    if conc(a) and conc(b):
        return pow(a, b) if m is None else pow(a, b, m)
    if a == 2 and m is None and isinstance(b, SInt):
        return eng.binop('<<', 1, b)
    raise Unsupported('pow')


@ext(hash)
def m_hash(eng, v):
    return 0


@ext(id)
def m_id(eng, v):
    raise Unsupported('id')


@ext(operator.index)
def m_index(eng, v):
    return eng.as_int(v)


# ---------------------------------------------------------------- math

@ext(math.isnan)
def m_isnan(eng, v):
    if isinstance(v, Union):
        return eng.lift(lambda x: m_isnan(eng, x), v)
    v = eng.as_int(v)
    if isinstance(v, float):
        return math.isnan(v)
    if isinstance(v, SFloat):
        return mkbool(v.isnan())
    if is_int(v):
        return False
    eng.raise_(TypeError, 'must be real number')


@ext(math.isinf)
def m_isinf(eng, v):
    if isinstance(v, Union):
        return eng.lift(lambda x: m_isinf(eng, x), v)
    v = eng.as_int(v)
    if isinstance(v, float):
        return math.isinf(v)
    if isinstance(v, SFloat):
        return mkbool(v.isinf())
    if is_int(v):
        return False
    eng.raise_(TypeError, 'must be real number')


@ext(math.isfinite)
def m_isfinite(eng, v):
    return mkbool(zand(znot(bterm(m_isnan(eng, v))), znot(bterm(m_isinf(eng, v)))))


@ext(math.copysign)
def m_copysign(eng, a, b):
    if isinstance(a, Union) or isinstance(b, Union):
        return eng.lift(lambda x, y: m_copysign(eng, x, y), a, b)
    a, b = m_float(eng, a), m_float(eng, b)
    if isinstance(a, float) and isinstance(b, float):
        return math.copysign(a, b)
    return sym.fcopysign(sym.as_sfloat(a), sym.as_sfloat(b))


@ext(math.fabs)
def m_fabs(eng, a):
    a = m_float(eng, a)
    return abs(a) if isinstance(a, float) else sym.fabs(a)


@ext(math.sqrt)
def m_sqrt(eng, a):
    a = m_float(eng, a)
    if isinstance(a, float):
        try:
            return math.sqrt(a)
        except ValueError as e:
            eng.raise_(ValueError, *e.args)
    if eng.decide(sym.fcmp('<', a, sym.as_sfloat(0.0))):
        eng.raise_(ValueError, 'math domain error')
    o = ('sqrt', [a.f32]) if a.f32 is not None else None
    return SFloat(fp=z3.fpSqrt(sym.RNE, a.fp), nanb=eng.nan_result([a]), op=o)


def m_rounder(mode):
    def m(eng, v):
        if isinstance(v, Union):
            return eng.lift(lambda x: m(eng, x), v)
        v = eng.as_int(v)
        if is_int(v):
            return v
        if not isinstance(v, (float, SFloat)):
            eng.raise_(TypeError, 'must be real number')
        return int_of_float(eng, v, mode)
    return m


EXT[math.ceil] = m_rounder('ceil')
EXT[math.floor] = m_rounder('floor')
EXT[math.trunc] = m_rounder('trunc')


# ---------------------------------------------------------------- ctypes

def to_f32(eng, v):
    v = m_float(eng, v)
    if isinstance(v, float):
        return ctypes.c_float(v).value
    f = v.to32()
    if v.f32 is not None:
        nb = v.nanb
        # an f32-valued NaN keeps its pattern (already quiet in 64-bit form)
        return SFloat(f32=f, nanb=sym.f32_nan_to64(sym.f64_nan_to32(nb)))
    return SFloat(f32=f, nanb=sym.f32_nan_to64(sym.f64_nan_to32(v.nanb)))


@ext(ctypes.c_float)
def m_c_float(eng, v=0.0):
    if isinstance(v, Union):
        v = eng.split_union(v)
    return Opaque('c_float', {'value': to_f32(eng, v)})


@ext(ctypes.c_double)
def m_c_double(eng, v=0.0):
    return Opaque('c_double', {'value': m_float(eng, v)})


def c_int_model(bits, signed):
    def m(eng, v=0):
        if isinstance(v, Union):
            v = eng.split_union(v)
        v = eng.as_int(v)
        if not is_int(v):
            eng.raise_(TypeError, 'int expected')
        t = sym.low(v, bits)
        return Opaque('c_int', {'value': sym.sbv(t) if signed else sym.ubv(t)})
    return m


for _n, _b, _s in (('c_int8', 8, 1), ('c_uint8', 8, 0), ('c_int16', 16, 1), ('c_uint16', 16, 0), ('c_int32', 32, 1),
                   ('c_uint32', 32, 0), ('c_int64', 64, 1), ('c_uint64', 64, 0)):
    EXT[getattr(ctypes, _n)] = c_int_model(_b, bool(_s))


# ---------------------------------------------------------------- struct

FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True),
       'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    order, i = '@', 0
    if fmt and fmt[0] in '<>=@!':
        order, i = fmt[0], 1
    out = []
    while i < len(fmt):
        n = ''
        while fmt[i].isdigit():
            n += fmt[i]
            i += 1
        c = fmt[i]
        i += 1
        if c == ' ':
            continue
        if c == 's':
            out.append(('s', int(n or 1)))
        else:
            out.extend([(c, 1)] * int(n or 1))
    if order == '@' and len(out) > 1:
        sizes = {code_size(c, n, '@') for c, n in out}
        if len(sizes) > 1:
            raise Unsupported('native struct alignment')
    return order, out


def code_size(c, n, order):
    if c == 's':
        return n
    if c in 'lL' and order == '@':
        return 8
    if c in FMT:
        return FMT[c][0]
    if c == 'f':
        return 4
    if c == 'd':
        return 8
    if c in 'x?c':
        return 1
    raise Unsupported(f'struct code {c}')


@ext(struct.calcsize)
def m_calcsize(eng, fmt):
    return struct.calcsize(fmt)


@ext(struct.pack)
def m_pack(eng, fmt, *vals):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic struct format')
    order, codes = parse_fmt(fmt)
    vals = list(vals)
    if len([c for c, _ in codes if c != 'x']) != len(vals):
        eng.raise_(struct.error, 'wrong number of items')
    out = []
    for c, n in codes:
        if c == 'x':
            out.append(0)
            continue
        v = vals.pop(0)
        if isinstance(v, Union):
            v = eng.split_union(v)
        size = code_size(c, n, order)
        if c in FMT:
            signed = FMT[c][1]
            v = eng.as_int(v)
            if not is_int(v):
                eng.raise_(struct.error, 'required argument is not an integer')
            lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
            if not eng.decide(zand(sym.cmp('<=', lo, v), sym.cmp('<=', v, hi))):
                eng.raise_(struct.error, 'argument out of range')
            t = sym.low(v, 8 * size)
        elif c == '?':
            b = eng.truth(v)
            t = sym.bv(int(b), 8) if isinstance(b, bool) else z3.If(b, sym.bv(1, 8), sym.bv(0, 8))
        elif c in 'fd':
            v = eng.as_int(v)
            if not (is_int(v) or isinstance(v, (float, SFloat))):
                eng.raise_(struct.error, 'required argument is not a float')
            f = sym.as_sfloat(m_float(eng, v)) if not isinstance(v, SFloat) else v
            if c == 'd':
                t = f.bits()
            else:
                if order in '<>=!' and f.f32 is None:
                    r = f.to32()
                    if eng.decide(z3.And(z3.fpIsInf(r), z3.Not(z3.fpIsInf(f.fp)))):
                        eng.raise_(OverflowError, 'float too large to pack with f format')
                t = f.bits32()
        elif c == 's':
            q = to_bseq(eng, v)
            if not isinstance(q, CB):
                raise Unsupported('struct s of symbolic length')
            out.extend((list(q.items) + [0] * n)[:n])
            continue
        else:
            raise Unsupported(f'struct code {c}')
        bs = sym.term_bytes(t)
        out.extend(bs if order in '<=@' else bs[::-1])
    return eng.mk_bytes(sym.mkcb(out))


def unpack_items(eng, order, codes, items):
    res, p = [], 0
    for c, n in codes:
        size = code_size(c, n, order)
        b = items[p:p + size]
        p += size
        if c == 'x':
            continue
        if order in '>!':
            b = b[::-1]
        if c == 's':
            res.append(eng.mk_bytes(sym.mkcb(list(b))))
            continue
        t = sym.bytes_le_term(b)
        if c in FMT:
            res.append(sym.sbv(t) if FMT[c][1] else sym.ubv(t))
        elif c == 'f':
            res.append(sym.from_bits32(t))
        elif c == 'd':
            res.append(sym.from_bits64(t))
        elif c == '?':
            res.append(mkbool(t != 0))
        else:
            raise Unsupported(f'struct code {c}')
    return tuple(res)


@ext(struct.unpack)
def m_unpack(eng, fmt, data):
    order, codes = parse_fmt(fmt)
    q = eng.bytes_of(data)
    if q is None:
        eng.raise_(TypeError, 'a bytes-like object is required')
    size = sum(code_size(c, n, order) for c, n in codes)
    if not eng.decide(sym.cmp('==', q.n, size)):
        eng.raise_(struct.error, 'unpack requires a buffer of other length')
    if not isinstance(q, CB):
        q = sym.mkcb([sym.bs_elem(q, sym.bv(j, 64)) for j in range(size)])
    return unpack_items(eng, order, codes, q.items)


@ext(struct.unpack_from)
def m_unpack_from(eng, fmt, data, offset=0):
    order, codes = parse_fmt(fmt)
    q = eng.bytes_of(data)
    size = sum(code_size(c, n, order) for c, n in codes)
    if eng.decide(sym.cmp('<', offset, 0)):
        offset = sym.add(q.n, offset)
        if eng.decide(sym.cmp('<', offset, 0)):
            eng.raise_(struct.error, 'offset out of range')
    if not eng.decide(sym.cmp('<=', sym.add(offset, size), q.n)):
        eng.raise_(struct.error, 'buffer too small')
    s = sym.bs_slice(q, offset, sym.add(offset, size))
    return unpack_items(eng, order, codes, s.items)


@ext(struct.pack_into)
def m_pack_into(eng, fmt, buf, offset, *vals):
    src = eng.bytes_of(m_pack(eng, fmt, *vals))
    q = eng.rd(buf).seq
    if eng.decide(sym.cmp('<', offset, 0)):
        offset = sym.add(q.n, offset)
        if eng.decide(sym.cmp('<', offset, 0)):
            eng.raise_(struct.error, 'offset out of range')
    if not eng.decide(sym.cmp('<=', sym.add(offset, src.n), q.n)):
        eng.raise_(struct.error, 'buffer too small')
    eng.wr(buf).seq = sym.bs_store(q, offset, sym.add(offset, src.n), src)


# ---------------------------------------------------------------- int methods

def m_from_bytes(eng, data, byteorder='big', *, signed=False):
    q = to_bseq(eng, data)
    if not isinstance(q, CB):
        n = sym.concretize(q.n)
        if not isinstance(n, int):
            for k in range(0, 17):
                if eng.decide(sym.cmp('==', q.n, k)):
                    n = k
                    break
            else:
                raise Unsupported('from_bytes of symbolic length')
        q = sym.mkcb([sym.bs_elem(q, sym.bv(j, 64)) for j in range(n)])
    items = list(q.items)
    if not items:
        return 0
    if byteorder == 'big':
        items = items[::-1]
    elif byteorder != 'little':
        raise Unsupported('byteorder')
    t = sym.bytes_le_term(items)
    return sym.sbv(t) if signed else sym.ubv(t)


EXT[int.from_bytes] = m_from_bytes


@method('int', 'to_bytes')
def m_to_bytes(eng, n, length=1, byteorder='big', *, signed=False):
    if not isinstance(length, int):
        raise Unsupported('to_bytes length')
    n = eng.as_int(n)
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
    if not eng.decide(zand(sym.cmp('<=', lo, n), sym.cmp('<=', n, hi))):
        eng.raise_(OverflowError, 'int too big to convert')
    bs = sym.term_bytes(sym.low(n, 8 * length))
    return eng.mk_bytes(sym.mkcb(bs if byteorder == 'little' else bs[::-1]))


@ext(int.to_bytes)
def m_to_bytes_f(eng, n, *a, **kw):
    return m_to_bytes(eng, n, *a, **kw)


@method('int', 'bit_length')
def m_bit_length(eng, n):
    if isinstance(n, int):
        return n.bit_length()
    a = m_abs(eng, n)
    t = a.low(a.w)
    r = 0
    for j in range(a.w - 1):
        r = sym.ite(z3.Extract(j, j, t) == 1, j + 1, r)
    return r


@method('int', 'bit_count')
def m_bit_count(eng, n):
    if isinstance(n, int):
        return n.bit_count()
    a = m_abs(eng, n)
    t = a.low(a.w)
    r = 0
    for j in range(a.w - 1):
        r = sym.ite(z3.Extract(j, j, t) == 1, sym.add(r, 1), r)
    return r


@ext(int.bit_length)
def m_bit_length_f(eng, n):
    return m_bit_length(eng, n)


@ext(int.bit_count)
def m_bit_count_f(eng, n):
    return m_bit_count(eng, n)


@method('float', 'is_integer')
def m_is_integer(eng, f):
    if isinstance(f, float):
        return f.is_integer()
    g = sym.frti('trunc', f)
    return mkbool(z3.And(z3.Not(f.isnan()), z3.Not(f.isinf()), sym.fcmp('==', f, g)))


# ---------------------------------------------------------------- lists

@method('list', 'append')
def l_append(eng, o, v):
    eng.list_append(o, v)


@method('list', 'pop')
def l_pop(eng, o, i=-1):
    return eng.list_pop(o, eng.as_int(i))


@method('list', 'extend')
def l_extend(eng, o, v):
    src = eng.list_segs(v)
    rec = eng.wr(o)
    rec.segs = eng.norm_segs([list(s) if isinstance(s, list) else s for s in rec.segs] + src)


@method('list', 'copy')
def l_copy(eng, o):
    return eng.alloc(eng.rd(o).copy())


@method('list', 'clear')
def l_clear(eng, o):
    eng.wr(o).segs = []


@method('list', 'insert')
def l_insert(eng, o, i, v):
    eng.list_setslice(o, Slice(i, i, None), (v,))


@method('list', 'reverse')
def l_reverse(eng, o):
    eng.wr(o).segs = eng.rd(eng.list_slice(o, Slice(None, None, -1))).segs


@method('list', 'index')
def l_index(eng, o, v):
    for i, x in enumerate(eng.iterate_concrete(o)):
        if eng.decide(bterm(eng.compare('==', x, v))):
            return i
    eng.raise_(ValueError, 'not in list')


@method('list', 'count')
def l_count(eng, o, v):
    r = 0
    for x in eng.iterate_concrete(o):
        c = bterm(eng.compare('==', x, v))
        r = sym.add(r, int(c) if isinstance(c, bool) else sym.ite(c, 1, 0))
    return r


@method('list', 'remove')
def l_remove(eng, o, v):
    i = l_index(eng, o, v)
    eng.list_pop(o, i)


@method('list', 'sort')
def l_sort(eng, o, key=None, reverse=False):
    r = m_sorted(eng, o, key, reverse)
    eng.wr(o).segs = [list(s) if isinstance(s, list) else s for s in eng.rd(r).segs]


@method('tuple', 'index')
def t_index(eng, o, v):
    return l_index(eng, o, v)


# ---------------------------------------------------------------- dicts

@method('dict', 'items')
def d_items(eng, o):
    return tuple(eng.rd(o).d.items())


@method('dict', 'keys')
def d_keys(eng, o):
    return tuple(eng.rd(o).d.keys())


@method('dict', 'values')
def d_values(eng, o):
    return tuple(eng.rd(o).d.values())


def d_lookup(eng, d, k):
    if conc(k):
        return d.get(k, MISSING)
    for key in d:
        if eng.decide(bterm(eng.compare('==', k, key))):
            return d[key]
    return MISSING


@method('dict', 'get')
def d_get(eng, o, k, default=None):
    r = d_lookup(eng, eng.rd(o).d, k)
    return default if r is MISSING else r


@method('cdict', 'get')
def cd_get(eng, o, k, default=None):
    r = d_lookup(eng, o, k)
    return default if r is MISSING else r


@method('cdict', 'items')
def cd_items(eng, o):
    return tuple(o.items())


@method('cdict', 'values')
def cd_values(eng, o):
    return tuple(o.values())


@method('cdict', 'keys')
def cd_keys(eng, o):
    return tuple(o.keys())


@method('dict', 'pop')
def d_pop(eng, o, k, default=MISSING):
    if not conc(k):
        raise Unsupported('symbolic dict key')
    d = eng.wr(o).d
    if k in d:
        return d.pop(k)
    if default is not MISSING:
        return default
    eng.raise_(KeyError, k)


@method('dict', 'clear')
def d_clear(eng, o):
    eng.wr(o).d.clear()


@method('dict', 'copy')
def d_copy(eng, o):
    return eng.alloc(DictRec(dict(eng.rd(o).d)))


@method('dict', 'update')
def d_update(eng, o, v=None, **kw):
    if v is not None:
        eng.wr(o).d.update(eng.rd(v).d if isinstance(v, Ref) else v)
    eng.wr(o).d.update(kw)


@method('dict', 'setdefault')
def d_setdefault(eng, o, k, v=None):
    if not conc(k):
        raise Unsupported('symbolic dict key')
    return eng.wr(o).d.setdefault(k, v)


# ---------------------------------------------------------------- bytes / bytearray

@method('bytearray', 'append')
def b_append(eng, o, v):
    q = to_bseq(eng, (v,))
    eng.wr(o).seq = sym.bs_concat(eng.rd(o).seq, q)


@method('bytearray', 'extend')
def b_extend(eng, o, v):
    q = to_bseq(eng, v)
    eng.wr(o).seq = sym.bs_concat(eng.rd(o).seq, q)


@method('bytearray', 'copy')
def b_copy(eng, o):
    return eng.new_bytes(eng.rd(o).seq)


@method('bytearray', 'clear')
def b_clear(eng, o):
    eng.wr(o).seq = CB(b'')


@method('bytearray', 'pop')
def b_pop(eng, o, i=-1):
    q = eng.rd(o).seq
    i = eng.norm_index(i, q.n)
    v = sym.bs_get(q, i)
    eng.wr(o).seq = sym.bs_concat(sym.bs_slice(q, 0, i), sym.bs_slice(q, sym.add(i, 1), q.n))
    return v


@method('bytearray', 'reverse')
def b_reverse(eng, o):
    q = eng.rd(o).seq
    if not isinstance(q, CB):
        raise Unsupported('reverse')
    eng.wr(o).seq = CB(q.items[::-1])


@method('bytes', 'join')
def b_join(eng, o, parts):
    sep = eng.bytes_of(o)
    acc = CB(b'')
    for i, p in enumerate(eng.iterate_concrete(parts)):
        q = eng.bytes_of(p)
        if q is None:
            eng.raise_(TypeError, 'expected a bytes-like object')
        if i:
            acc = sym.bs_concat(acc, sep)
        acc = sym.bs_concat(acc, q)
    return eng.new_bytes(acc) if kind_of(eng, o) == 'bytearray' else eng.mk_bytes(acc)


@method('bytes', 'hex')
def b_hex(eng, o, *a):
    q = eng.bytes_of(o)
    if isinstance(q, CB) and isinstance(q.items, bytes):
        return q.items.hex()
    return SStr(('hex', id(q)))


@method('bytes', 'startswith')
def b_startswith(eng, o, p):
    q, s = eng.bytes_of(o), eng.bytes_of(p)
    if not isinstance(s, CB):
        raise Unsupported('startswith')
    if not eng.decide(sym.cmp('<=', s.n, q.n)):
        return False
    return eng.bytes_equal(sym.bs_slice(q, 0, s.n), s)


@method('bytes', 'decode')
def bytes_decode(eng, o, encoding='utf-8', errors='strict'):
    q = eng.bytes_of(o)
    if isinstance(q, CB) and isinstance(q.items, bytes):
        try:
            return q.items.decode(encoding, errors)
        except UnicodeDecodeError as e:
            eng.raise_(UnicodeDecodeError, *e.args)
    h = getattr(eng, 'decode_hook', None)
    if h is not None:
        return h(eng, q)
    raise Unsupported('decode')


# ---------------------------------------------------------------- strings

def str_encode(eng, s, encoding='utf-8', errors='strict'):
    if isinstance(s, str):
        try:
            return s.encode(encoding, errors)
        except UnicodeEncodeError as e:
            eng.raise_(UnicodeEncodeError, *e.args)
    if s.enc is None or str(encoding).lower().replace('-', '') != 'utf8':
        raise Unsupported('encode')
    return eng.mk_bytes(s.enc)


METHODS[('str', 'encode')] = str_encode


@method('str', 'join')
def s_join(eng, s, parts):
    xs = list(eng.iterate_concrete(parts))
    if isinstance(s, str) and all(isinstance(x, str) for x in xs):
        return s.join(xs)
    return SStr(('join', s if isinstance(s, str) else s.key, tuple(x if isinstance(x, str) else x.key for x in xs)))


def str_hooked(name):
    def m(eng, s, *a, **kw):
        if isinstance(s, str) and all(conc(x) for x in a) and all(conc(x) for x in kw.values()):
            try:
                r = getattr(s, name)(*a, **kw)
            except Exception as e:
                eng.raise_(type(e), *e.args)
            return eng.new_list(r) if isinstance(r, list) else r
        h = getattr(eng, 'str_hook', None)
        if h is not None:
            r = h(eng, name, s, a)
            if r is not MISSING:
                return r
        if name == 'count' and isinstance(s, SStr) and isinstance(s.meta, tuple) and s.meta[0] == 'bin' and a == ('1',):
            return m_bit_count(eng, s.meta[1])
        raise Unsupported(f'str.{name}')
    return m


for _n in ('startswith', 'endswith', 'split', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'find', 'partition',
           'rsplit', 'removeprefix', 'format', 'count', 'zfill', 'isdigit'):
    METHODS[('str', _n)] = str_hooked(_n)


def skey(s):
    return s.key if isinstance(s, SStr) else s


def str_equal(eng, a, b):
    if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
        return False
    if isinstance(a, SStr) and isinstance(b, SStr) and a.key == b.key:
        return True
    h = getattr(eng, 'str_hook', None)
    if h is not None:
        r = h(eng, '==', a, (b,))
        if r is not MISSING:
            return r
    if isinstance(a, SStr) and a.enc is not None or isinstance(b, SStr) and b.enc is not None:
        x = eng.bytes_of(str_encode(eng, a))
        y = eng.bytes_of(str_encode(eng, b))
        return eng.bytes_equal(x, y)
    raise Unsupported('string equality')


def opaque_equal(eng, a, b):
    if isinstance(a, Opaque) and 'eq' in a.attrs:
        return a.attrs['eq'](eng, b)
    if isinstance(b, Opaque) and 'eq' in b.attrs:
        return b.attrs['eq'](eng, a)
    if a is None or b is None or isinstance(a, (int, str, bytes)) or isinstance(b, (int, str, bytes)):
        return False
    raise Unsupported('opaque equality')


def str_contains(eng, c, x):
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    h = getattr(eng, 'str_hook', None)
    if h is not None:
        r = h(eng, 'contains', c, (x,))
        if r is not MISSING:
            return r
    raise Unsupported('in string')


def str_slice(eng, s, k):
    h = getattr(eng, 'str_hook', None)
    if h is not None:
        r = h(eng, 'getitem', s, (k,))
        if r is not MISSING:
            return r
    raise Unsupported('string subscript')


# ---------------------------------------------------------------- BytesIO

@ext(io.BytesIO)
def m_BytesIO(eng, data=b''):
    if isinstance(data, streams.TokBytes):
        return streams.stream(eng, data.toks)
    return eng.alloc(ObjRec(io.BytesIO, {'buf': to_bseq(eng, data), 'pos': 0}))


@method('BytesIO', 'read')
def io_read(eng, o, n=-1):
    r = eng.rd(o)
    if 'toks' in r.attrs:
        return streams.read(eng, o, n)
    q, pos = r.attrs['buf'], r.attrs['pos']
    if n is None:
        n = -1
    if isinstance(n, Union):
        n = eng.split_union(n)
    n = eng.as_int(n)
    if not is_int(n):
        eng.raise_(TypeError, 'read()')
    avail = sym.sub(q.n, pos)
    if eng.decide(sym.cmp('<', avail, 0)):
        return b''
    if eng.decide(sym.cmp('<', n, 0)):
        end = q.n
    elif eng.decide(sym.cmp('<=', n, avail)):
        end = sym.add(pos, n)
    else:
        end = q.n
    s = sym.bs_slice(q, pos, end)
    eng.wr(o).attrs['pos'] = end
    return eng.mk_bytes(s)


@method('BytesIO', 'seek')
def io_seek(eng, o, off, whence=0):
    r = eng.rd(o)
    if 'toks' in r.attrs:
        return streams.seek(eng, o, off, whence)
    base = {0: 0, 1: r.attrs['pos'], 2: r.attrs['buf'].n}[whence]
    p = sym.add(base, off)
    if eng.decide(sym.cmp('<', p, 0)):
        if whence == 0:
            eng.raise_(ValueError, 'negative seek value')
        p = 0
    eng.wr(o).attrs['pos'] = p
    return p


@method('BytesIO', 'tell')
def io_tell(eng, o):
    return eng.rd(o).attrs['pos']


@method('BytesIO', 'getvalue', 'getbuffer')
def io_getvalue(eng, o):
    return eng.mk_bytes(eng.rd(o).attrs['buf'])


@method('BytesIO', 'close')
def io_close(eng, o):
    pass


# ---------------------------------------------------------------- operators on containers

def binop(eng, op, a, b):
    if op == '+':
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        ka, kb = kind_of(eng, a), kind_of(eng, b)
        if ka in ('bytes', 'bytearray') and kb in ('bytes', 'bytearray'):
            q = sym.bs_concat(eng.bytes_of(a), eng.bytes_of(b))
            return eng.new_bytes(q) if ka == 'bytearray' else eng.mk_bytes(q)
        if ka == 'list' and kb == 'list':
            return eng.alloc(ListRec(eng.norm_segs(eng.list_segs(a) + eng.list_segs(b))))
        if ka == 'str' and kb == 'str':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            h = getattr(eng, 'str_hook', None)
            if h is not None:
                r = h(eng, '+', a, (b,))
                if r is not MISSING:
                    return r
            r = SStr(('cat', skey(a), skey(b)))
            if (isinstance(a, str) or a.enc is not None) and (isinstance(b, str) or b.enc is not None):
                r.enc = sym.bs_concat(eng.bytes_of(str_encode(eng, a)), eng.bytes_of(str_encode(eng, b)))
                if all(isinstance(x, str) or x.nchars is not None for x in (a, b)):
                    r.nchars = sym.add(eng.str_len(a), eng.str_len(b))
            return r
        if {ka, kb} & {'list', 'tuple', 'bytes', 'bytearray', 'str', 'NoneType'}:
            eng.raise_(TypeError, 'unsupported operand type(s) for +')
    if op == '*':
        a, b = eng.as_int(a), eng.as_int(b)
        if is_int(a):
            a, b = b, a
        if is_int(b):
            k = kind_of(eng, a)
            b = sym.concretize(b)
            if k == 'list':
                rec = eng.rd(a)
                if isinstance(b, int):
                    return eng.alloc(ListRec(eng.norm_segs([list(s) if isinstance(s, list) else s for _ in range(max(b, 0)) for s in rec.segs])))
                if len(rec.segs) == 1 and isinstance(rec.segs[0], list) and len(rec.segs[0]) == 1:
                    if eng.decide(sym.cmp('<=', b, 0)):
                        return eng.new_list([])
                    v = rec.segs[0][0]
                    return eng.alloc(ListRec([GenSeg(b, lambda e, j: v, ('const', v))]))
            if k in ('bytes', 'bytearray'):
                q = eng.bytes_of(a)
                if isinstance(b, int) and isinstance(q, CB) and q.n * max(b, 0) < 1 << 27:
                    r = CB(q.items * max(b, 0)) if isinstance(q.items, bytes) else sym.mkcb(list(q.items) * max(b, 0))
                    return eng.new_bytes(r) if k == 'bytearray' else eng.mk_bytes(r)
                if isinstance(q, CB) and q.n == 1:
                    if eng.decide(sym.cmp('<=', b, 0)):
                        r = CB(b'')
                    else:
                        t = q.getz(0)
                        r = FB(b, lambda i: t)
                    return eng.new_bytes(r) if k == 'bytearray' else eng.mk_bytes(r)
            if isinstance(a, (str, tuple)) and isinstance(b, int):
                return a * b
    if op == '%' and isinstance(a, (str, SStr)):
        return SStr(('fmt', id(a)))
    if op in '&|-^' and isinstance(a, frozenset) and isinstance(b, frozenset):
        return {'&': a & b, '|': a | b, '-': a - b, '^': a ^ b}[op]
    if isinstance(a, Opaque) and 'binop' in a.attrs:
        return a.attrs['binop'](eng, op, b)
    return MISSING


# ---------------------------------------------------------------- loops with a symbolic number of iterations

def snapshot(eng):
    return dict(eng.st.heap)


def generic_iteration(eng, thunk, extra=()):
    """run thunk under every feasible choice from the current state, without committing"""
    return eng.explore(thunk, extra)


def symbolic_comp(eng, node, it, inner, elt, out):
    """list comprehension over a range with a symbolic number of steps"""
    import ast
    e = node.elt
    g = node.generators[0]
    if getattr(eng, 'has_streams', False) and it.kind == 'range':
        def step(j):
            eng.assign(g.target, it.at(eng, j), inner)
            eng.list_append(out, elt(inner))
        if streams.rep_loop(eng, step, it.n):
            return out
    # n-fold X.pop(): cut the last n elements off X (reversed); n > len(X) empties X and raises
    if it.kind == 'range' and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'pop' \
            and not e.args and not e.keywords and isinstance(g.target, ast.Name):
        names = {x.id for x in ast.walk(e.func.value) if isinstance(x, ast.Name)}
        if g.target.id not in names and not any(isinstance(x, ast.Call) for x in ast.walk(e.func.value)):
            lst = eng.eval(e.func.value, inner)
            if isinstance(lst, Ref) and isinstance(eng.rd(lst), ListRec):
                n = eng.list_len(eng.rd(lst))
                if not eng.decide(sym.cmp('<=', it.n, n)):
                    eng.wr(lst).segs = []
                    eng.raise_(IndexError, 'pop from empty list')
                a, b = eng.list_cut(eng.rd(lst).segs, sym.sub(n, it.n))
                eng.wr(lst).segs = [list(s) if isinstance(s, list) else s for s in a]
                rev = []
                for s in reversed(b):
                    rev.append(list(reversed(s)) if isinstance(s, list) else s.inner if isinstance(s, RevSeg) else RevSeg(s))
                return eng.alloc(ListRec(rev))
    # element expression independent of the loop variable and without effects
    if it.kind == 'range' and isinstance(g.target, ast.Name):
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        if g.target.id not in names:
            before = dict(eng.st.heap)
            ids0 = set(before)
            memo0, ghost0 = eng.st.memo, eng.st.ghost
            j = SInt(0, max(sym.hi(it.n) - 1, 0), z3_index(eng))
            outs = eng.explore(lambda: elt(inner))
            if len(outs) == 1 and outs[0].kind == 'normal':
                o = outs[0]
                if all(o.st.heap[i] is before[i] for i in ids0) and o.st.memo is memo0 and o.st.ghost == ghost0:
                    v = o.val
                    if not isinstance(v, Ref) or v.id in ids0:
                        return eng.alloc(ListRec([GenSeg(it.n, lambda en, k: v, ('const', v))]))
                    heap = o.st.heap

                    def clone(en, val, m):
                        if isinstance(val, Ref) and val.id not in ids0:
                            if val.id in m:
                                return m[val.id]
                            rec = heap[val.id]
                            r = en.alloc(rec.copy())
                            m[val.id] = r
                            w = en.wr(r)
                            if isinstance(w, ObjRec):
                                w.attrs = {k: clone(en, x, m) for k, x in w.attrs.items()}
                            elif isinstance(w, ListRec):
                                w.segs = [[clone(en, x, m) for x in s] if isinstance(s, list) else s for s in w.segs]
                            elif isinstance(w, DictRec):
                                w.d = {k: clone(en, x, m) for k, x in w.d.items()}
                            return r
                        return val
                    base = BaseSeq(eng.fresh_name('comp'), lambda en, nm: clone(en, v, {}))
                    base.template = (v, heap)
                    return eng.alloc(ListRec([SymSeg(base, 0, it.n)]))
            del j
    return None


def z3_index(eng):
    v = z3.BitVec(eng.fresh_name('j'), 64)
    return lambda k: sym.resize_u(v, k)


def symbolic_for(eng, s, it, fr):
    """for loops with a symbolic number of steps: inductive template `one indexed store per step`.
    After j steps, the target sequence equals the original with positions f(0..j-1) replaced; established by executing
    the body once at a generic step from the invariant state and checking that it yields the invariant at j + 1."""
    import ast
    if it.kind not in ('range', 'enumerate', 'list', 'bytes', 'zip') or s.orelse:
        return False
    if getattr(eng, 'has_streams', False) and it.kind == 'range':
        def step(j):
            eng.assign(s.target, it.at(eng, j), fr)
            eng.block(s.body, fr)
        if streams.rep_loop(eng, step, it.n):
            return True
    ps = loops.parts(eng, it)
    if ps is not None:
        def item(x):
            eng.assign(s.target, x, fr)
            eng.block(s.body, fr)
        try:
            return loops.piecewise(eng, it, ps, item)
        except Brk:
            return True
    if fold_for(eng, s, it, fr, False):
        return True
    stores = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for y in s.body for x in ast.walk(y))
    if stores and store_for(eng, s, it, fr):
        return True

    def body(j):
        eng.assign(s.target, it.at(eng, j), fr)
        eng.block(s.body, fr)
    return loops.generic(eng, it.n, body, over=it.sources()) or fold_for(eng, s, it, fr) or \
        not stores and store_for(eng, s, it, fr) or \
        getattr(eng, 'havoc', False) and loops.generic(eng, it.n, body, over=it.sources(), havoc=True)


def store_for(eng, s, it, fr):
    import ast
    n = it.n
    st0 = eng.st
    jv = z3.BitVec(eng.fresh_name('step'), 64)
    j = SInt(0, max(sym.hi(n) - 1, 0), lambda k: sym.resize_u(jv, k))
    assum = [c for c in (sym.cmp('<', j, n), z3.ULE(jv, sym.bv(max(sym.hi(n) - 1, 0), 64))) if c is not True]
    ids0 = dict(st0.heap)

    def body():
        eng.assign(s.target, it.at(eng, j), fr)
        eng.block(s.body, fr)
    outs = loops.explore_at(eng, lambda _: body(), None, assum, lambda: None)
    if not outs or any(o.kind != 'normal' for o in outs):
        return False
    if len(outs) > 1:
        return False
    o = outs[0]
    if o.st.ghost != st0.ghost:
        return False
    changed = [i for i in ids0 if o.st.heap[i] is not ids0[i]]
    tgt = None
    for i in changed:
        r = ids0[i]
        if isinstance(r, EnvRec):
            keys = [k for k in o.st.heap[i].v if o.st.heap[i].v[k] is not r.v.get(k, MISSING)]
            tn = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            if set(keys) - tn:
                return False
            continue
        if isinstance(r, BytesRec) and tgt is None:
            tgt = i
            continue
        if isinstance(r, ListRec) and tgt is None:
            tgt = i
            continue
        return False
    if tgt is None:
        return False
    r0, r1 = ids0[tgt], o.st.heap[tgt]
    if isinstance(r0, ListRec):
        # a single element replaced: locate it
        if len(r1.segs) < 1:
            return False
        off, pos, val = 0, None, None
        for sg in r1.segs:
            if isinstance(sg, list) and len(sg) == 1:
                if pos is not None:
                    return False
                pos, val = off, sg[0]
            elif isinstance(sg, list):
                return False
            off = sym.add(off, eng.seg_len(sg))
        if pos is None or not eng.implied(zand(*assum) if False else sym.cmp('==', off, eng.list_len(r0))):
            return False
        # position must be a + j, value independent of j and of the list
        a = sym.sub(pos, j)
        if depends(a, jv) or isinstance(val, (SInt, SFloat, SBool, Union)) or \
                isinstance(val, Ref) and val.id not in ids0:
            return False
        ref = Ref(tgt)
        first, rest = eng.list_cut(eng.rd(ref).segs, sym.add(a, n))
        first, _ = eng.list_cut(first, a)
        eng.wr(ref).segs = eng.norm_segs([list(x) if isinstance(x, list) else x for x in first] +
                                         [GenSeg(n, lambda e, k: val, ('const', val))] +
                                         [list(x) if isinstance(x, list) else x for x in rest])
        eng.assign(s.target, it.at(eng, sym.sub(n, 1)), fr)
        return True
    q0, q1 = r0.seq, r1.seq
    # read off position and value: the generic step must be a one-byte store at a + j
    w = getattr(q1, 'store', None)
    if w is None:
        return False
    base, pos, src = w
    if base is not q0:
        return False
    if src.n != 1:
        return False
    a = sym.sub(pos, j)
    if depends(a, jv):
        return False
    v = src.getz(0)
    if uses(v, jv):
        return False
    # invariant B_j(k) = (a <= k < a + j) ? v : B_0(k); one step from B_j stores v at a + j, giving B_{j+1}:
    # re-execute the body from the invariant state and compare at a fresh position
    ref = Ref(tgt)
    inv = sym.bs_fill(q0, a, j, v)
    ok = []

    def body2():
        eng.wr(ref).seq = inv
        eng.assign(s.target, it.at(eng, j), fr)
        eng.block(s.body, fr)
        k = z3.BitVec(eng.fresh_name('pos'), 64)
        want = sym.bs_fill(q0, a, sym.add(j, 1), v)
        got = eng.rd(ref).seq
        ok.append(eng.implied(zand(sym.cmp('==', got.n, want.n))) and
                  eng.check([z3.ULT(k, sym.idx64(q0.n)), z3.Not(got.at(k) == want.at(k))], timeout=20000) == 'unsat')
    outs = eng.explore(body2, assum)
    if not ok or not all(ok) or any(x.kind != 'normal' for x in outs):
        return False
    eng.wr(ref).seq = sym.bs_fill(q0, a, n, v)
    eng.assign(s.target, it.at(eng, sym.sub(n, 1)), fr)
    return True


def same_attrs(a, b):
    return isinstance(b, ObjRec) and all(getattr(a, f) is getattr(b, f) for f in a.__slots__ if f != 'attrs') and \
        a.attrs.keys() == b.attrs.keys() and all(v is b.attrs[k] or isinstance(v, Ref) and v == b.attrs[k] for k, v in a.attrs.items())


def fold_for(eng, s, it, fr, single=True):
    """for x in L: T.extend(part(x)) / T.append(...): T becomes T + part(L[0]) + ... + part(L[n-1]).
    The body runs once at a generic step j with T = old + U, U unknown and never looked at; it must end with old + U + part
    and change nothing else."""
    import ast
    if it.kind != 'list' or not isinstance(s.target, ast.Name):
        return False
    src = eng.rd(it.data)
    if not isinstance(src, ListRec) or len(src.segs) != 1 or not isinstance(src.segs[0], SymSeg):
        return False
    n, st0, temps = it.n, eng.st, set()
    jv = z3.BitVec(eng.fresh_name('step'), 64)
    j = SInt(0, max(sym.hi(n) - 1, 0), lambda k: sym.resize_u(jv, k))
    assum = [c for c in (sym.cmp('<', j, n), z3.ULE(jv, sym.bv(max(sym.hi(n) - 1, 0), 64))) if c is not True]
    ids0 = dict(st0.heap)
    elem = []

    def body():
        e = it.at(eng, j)
        elem[:] = [e]
        eng.assign(s.target, e, fr)
        eng.block(s.body, fr)

    def one(prep=None):
        elem.clear()

        def run():
            if prep:
                prep()
            body()
        outs = eng.explore(run, assum)
        if len(outs) != 1 or outs[0].kind != 'normal' or outs[0].st.ghost != st0.ghost:
            return None, None
        o, tgt = outs[0], None
        for i in ids0:
            if o.st.heap[i] is ids0[i]:
                continue
            r = ids0[i]
            if isinstance(r, EnvRec):
                # bound anew on each round: tried with their values forgotten below
                temps.update((i, k) for k in o.st.heap[i].v
                             if o.st.heap[i].v[k] is not r.v.get(k, MISSING) and o.st.heap[i].v[k] is not streams.POISON and k != s.target.id)
            elif isinstance(r, ObjRec) and same_attrs(r, o.st.heap[i]):
                continue
            elif i == it.data.id:
                q = [x for x in o.st.heap[i].segs if isinstance(x, list)]
                if not (len(q) == 1 and len(q[0]) == 1 and any(v is q[0][0] or v == q[0][0] for b, k, v, nm in o.st.memo
                                                               if b is src.segs[0].base)):
                    return None, None
            elif isinstance(r, ListRec) and tgt is None:
                tgt = i
            else:
                return None, None
        return o, tgt
    o, tgt = one()
    if tgt is None:
        return False
    old = [x for x in ids0[tgt].segs if not isinstance(x, list) or x]

    def untouched(e, nm):
        raise Unsupported('loop body reads what it appends to')
    u = SymSeg(BaseSeq(eng.fresh_name('sofar'), untouched), 0, SInt(0, 1 << 32, z3_index(eng)))

    def prep():
        eng.wr(Ref(tgt)).segs = [list(x) if isinstance(x, list) else x for x in old] + [u]
        for i, k in temps:
            eng.wr(Ref(i)).v[k] = streams.POISON
    before = set(temps)
    o, t2 = one(prep)
    if t2 != tgt or temps - before:
        return False
    got = o.st.heap[tgt].segs
    k = len(old)
    if len(got) < k + 1 or got[k] is not u or any(not (x is y or isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and
                                                       all(p is q for p, q in zip(x, y))) for x, y in zip(old, got)):
        return False
    part = got[k + 1:]
    if not single and len(part) == 1 and isinstance(part[0], list) and len(part[0]) == 1:
        return False
    for i, r in o.st.heap.items():
        if i not in ids0:
            eng.st.heap[i] = r
    lo, hi = 0, max(sym.hi(n), 1) << 33
    tv = z3.BitVec(eng.fresh_name('total'), 80)
    eng.assume(z3.ULE(tv, sym.bv(hi, 80)))
    total = sym.mk(lo, hi, lambda w: sym.resize_u(tv, w))
    seg = FoldSeg(total, n, it.data, j, elem[0], part, list(o.conds))
    eng.wr(Ref(tgt)).segs = [list(x) if isinstance(x, list) else x for x in old] + [seg]
    for i, k in temps:
        eng.wr(Ref(i)).v[k] = streams.POISON
    return True


def uses(t, v):
    seen, work = set(), [t]
    vid = v.get_id()
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == vid:
            return True
        work.extend(x.children())
    return False


def depends(x, v):
    if isinstance(x, int):
        return False
    return uses(x.low(x.w), v)
