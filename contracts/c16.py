"""C16: values cross the host boundary unchanged."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot, zimp

from .common import *
from .fp import *

PROP = 'C16'
IN = 'pywasm.core.ValInst.from_all'
OUT = 'pywasm.core.ValInst.into_all'
CALL = 'pywasm.core.Runtime.invocate'
HOST = 'pywasm.core.Machine.evaluate_call'
ASSUMPTIONS = ['export names of a module are distinct; they are only compared for equality (names stand for opaque tokens)',
               'host functions return the number and types of values their signature declares',
               'ctypes.c_float and struct round to the nearest f32 and keep f64 bit patterns (CPython, C library)',
               'host values are int, float, bytearray or None, as the signature of invocate says']
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]
REFS = (FUNCREF, EXTERNREF)


def fits(n, t):
    w = 64 if t == I64 else 32
    return zand(bterm(sym.cmp('>=', n, -1 << w - 1)), bterm(sym.cmp('<', n, 1 << w - 1)))


def low(n, w):
    return sym.low(n, w)


def int_val(c, v, t, n):
    """v is a value of type t (an int type or a reference type) holding n"""
    if not has_attrs(c, v, 'type', 'data') or val_seq(c, v) is None:
        return False
    if t in REFS:
        q = val_seq(c, v)
        want = sym.term_bytes(z3.simplify(low(n, 32))) + [1] + [0] * 11
        return zand(bterm(sym.cmp('==', attr(c, v, 'type', 'data'), t)),
                    sym.bytes_le_term(list(q.items)) == sym.bytes_le_term(want))
    return is_val(c, v, t, z3.simplify(low(n, WIDTH[t])))


def null_val(c, v, t):
    return same_val(c, v, val_bytes(c, t, []))


# ---------------------------------------------------------------- host value -> WebAssembly value

def intake_int(t):
    def body(c):
        n = c.sint('n', 80)
        out = c.run(core.ValInst.from_all, vtype(c, t), n)
        if c.decide(fits(n, t)):
            c.cover('in range')
            c.ensure(f'accepted (got {out!r})', out.kind == 'normal')
            c.ensure('the same number', int_val(c, out.val, t, n))
        else:
            c.cover('out of range')
            c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
    add(PROP, f'host int to {TNAME[t]}', body, IN, covers=('in range', 'out of range'))


for t in (I32, I64, FUNCREF, EXTERNREF):
    intake_int(t)


def intake_null(t):
    def body(c):
        out = c.run(core.ValInst.from_all, vtype(c, t), None)
        c.cover('null')
        c.ensure(f'accepted (got {out!r})', out.kind == 'normal')
        c.ensure('a null reference', null_val(c, out.val, t))
    add(PROP, f'host None to {TNAME[t]}', body, IN, covers=('null',))


intake_null(FUNCREF)
intake_null(EXTERNREF)


@contract(PROP, 'host float to f64', IN, covers=('done',))
def intake_f64(c):
    b = c.bv('bits', 64)
    out = c.run(core.ValInst.from_all, vtype(c, F64), sym.from_bits64(b))
    c.cover('done')
    c.ensure(f'accepted (got {out!r})', out.kind == 'normal')
    c.ensure('the same bits', is_val(c, out.val, F64, b))


@contract(PROP, 'host float to f32', IN, covers=('done',))
def intake_f32(c):
    b = c.bv('bits', 64)
    out = c.run(core.ValInst.from_all, vtype(c, F32), sym.from_bits64(b))
    c.cover('done')
    c.ensure(f'accepted (got {out!r})', out.kind == 'normal')
    v = out.val
    if not has_attrs(c, v, 'type', 'data') or val_seq(c, v) is None:
        return c.fail('a value')
    r = bits_of(c, v, 32)
    c.ensure('an f32', is_val(c, v, F32, r))
    x = z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(b, sym.FP64), sym.FP32)
    c.ensure('NaN for NaN', isnan_bits(b) == isnan_bits(r))
    c.ensure('the nearest f32', z3.Or(isnan_bits(b), tofp(r) == x))


@contract(PROP, 'host bytes to v128', IN, covers=('done', 'bad'))
def intake_v128(c):
    n = c.choice('len', [16, 0, 1, 15, 17, 32])
    items = [c.bv(f'b{i}', 8) for i in range(n)]
    src = c.bytearray(sym.mkcb(items))
    out = c.run(core.ValInst.from_all, vtype(c, V128), src)
    if n != 16:
        c.cover('bad')
        c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
        return
    c.cover('done')
    c.ensure(f'accepted (got {out!r})', out.kind == 'normal')
    c.ensure('the same bytes', is_val(c, out.val, V128, sym.bytes_le_term(items)))
    c.ensure("not the host's own bytearray", attr(c, out.val, 'data') != src)


@contract(PROP, 'other types are refused', IN, covers=('bad',))
def intake_bad(c):
    t = c.int('type', 0, 255)
    c.requires(zand(*[bterm(sym.cmp('!=', t, x)) for x in TYPES]))
    c.cover('bad')
    ty = vtype(c, I32)
    c.eng.wr(ty).attrs['data'] = t
    out = c.run(core.ValInst.from_all, ty, 0)
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')


# ---------------------------------------------------------------- WebAssembly value -> host value

def fits_type(v, kind):
    return isinstance(v, kind) or (kind is float and isinstance(v, sym.SFloat)) or (kind is int and is_int(v) and not isinstance(v, bool))


def out_int(t):
    def body(c):
        b = c.bv('bits', WIDTH[t])
        v = val(c, t, b)
        pre = Snap(c)
        out = c.run(interp_method('into_all', v))
        c.cover('done')
        c.ensure(f'converted (got {out!r})', out.kind == 'normal' and fits_type(out.val, int))
        c.ensure('the signed number', bterm(sym.cmp('==', out.val, sym.sbv(b))))
        unchanged(c, 'the value stays', pre, [v])
    add(PROP, f'{TNAME[t]} to host int', body, OUT, covers=('done',))


def interp_method(name, ref):
    from pydv.interp import BoundMethod
    return BoundMethod(getattr(core.ValInst, name), ref)


out_int(I32)
out_int(I64)


def out_ref(t):
    def body(c):
        v, null, a = ref_val(c, t, 'r')
        out = c.run(interp_method('into_all', v))
        c.ensure(f'converted (got {out!r})', out.kind == 'normal')
        out.val = pick(c, out.val)
        if c.decide(null):
            c.cover('null')
            c.ensure('None for null', out.val is None)
        else:
            c.cover('address')
            c.ensure('the address', fits_type(out.val, int))
            c.ensure('the same address', bterm(sym.cmp('==', out.val, sym.sbv(a))))
    add(PROP, f'{TNAME[t]} to host', body, OUT, covers=('null', 'address'))


out_ref(FUNCREF)
out_ref(EXTERNREF)


@contract(PROP, 'f64 to host float', OUT, covers=('done',))
def out_f64(c):
    b = c.bv('bits', 64)
    out = c.run(interp_method('into_all', val(c, F64, b)))
    c.cover('done')
    c.ensure(f'converted (got {out!r})', out.kind == 'normal' and fits_type(out.val, float))
    c.ensure('the same bits', sym.as_sfloat(out.val).bits() == b)


@contract(PROP, 'f32 to host float', OUT, covers=('done',))
def out_f32(c):
    b = c.bv('bits', 32)
    out = c.run(interp_method('into_all', val(c, F32, b)))
    c.cover('done')
    c.ensure(f'converted (got {out!r})', out.kind == 'normal' and fits_type(out.val, float))
    f = sym.as_sfloat(out.val)
    c.ensure('NaN for NaN', f.isnan() == isnan_bits(b))
    c.ensure('the same number', z3.Or(isnan_bits(b), f.fp == z3.fpFPToFP(z3.RNE(), tofp(b), sym.FP64)))


@contract(PROP, 'v128 to host bytes', OUT, covers=('done',))
def out_v128(c):
    b = c.bv('bits', 128)
    v = val(c, V128, b)
    out = c.run(interp_method('into_all', v))
    c.cover('done')
    c.ensure(f'converted (got {out!r})', out.kind == 'normal' and isinstance(out.val, Ref) and isinstance(c.eng.rd(out.val), BytesRec))
    q = c.eng.rd(out.val).seq
    c.ensure('16 bytes', q.n == 16)
    c.ensure('the same bytes', sym.bytes_le_term([q.getz(i) for i in range(16)]) == b)
    c.ensure("not the value's own bytearray", out.val != attr(c, v, 'data'))


def round_trip(t):
    def body(c):
        if t in REFS:
            v = ref_val(c, t, 'r')[0]
        else:
            b = c.bv('bits', WIDTH[t])
            if t == F32:
                c.requires(znot(isnan_bits(b)))
            v = val(c, t, b)
        keep = val_bytes(c, t, list(val_seq(c, v).items))
        out = c.run(interp_method('into_all', v))
        c.ensure(f'out (got {out!r})', out.kind == 'normal')
        back = c.run(core.ValInst.from_all, vtype(c, t), out.val)
        c.cover('done')
        c.ensure(f'and back (got {back!r})', back.kind == 'normal')
        c.ensure('the same value', same_val(c, back.val, keep))
    add(PROP, f'{TNAME[t]} to the host and back', body, OUT, covers=('done',))


for t in TYPES:
    round_trip(t)


# ---------------------------------------------------------------- Runtime.invocate

class Guest:
    """an exported function with n parameters and r results; running it is left to Machine.invocate, which has its own contracts
    (C10, C17): here it only records what it is given and returns r values"""

    def __init__(self, c, ptypes, rtypes, results, kind=0, name=7):
        rt = self.rt = c.new(core.Runtime)
        m = self.m = attr(c, rt, 'machine')
        self.type = c.new(core.FuncType, ptypes, rtypes)
        f = c.new(core.FuncInst, self.type, c.new(core.ModuleInst), c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list([]))))
        decoy = c.new(core.FuncHost, functype(c, [], []), 'decoy')
        c.eng.wr(attr(c, m, 'store')).attrs['func'] = c.list([decoy, f])
        mod = self.mod = c.new(core.ModuleInst)

        def other(nm):
            k, i = c.int(nm + '.kind', 0, 3), c.int(nm + '.index', 0, 1)
            n = c.int(nm + '.name', 0, 99)
            c.requires(bterm(sym.cmp('!=', n, 7)))
            return c.new(core.ExportInst, n, c.new(core.Extern, k, i))
        a, b = c.seq('before', c.int('nbefore', 0, 1 << 20), other), c.seq('after', c.int('nafter', 0, 1 << 20), other)
        this = [] if name is None else [c.new(core.ExportInst, 7, c.new(core.Extern, kind, 1))]
        c.eng.wr(mod).attrs['exps'] = c.seglist(a, this, b)
        c.eng.wr(m).attrs['seen'] = c.eng.wr(m).attrs['addr'] = None
        if c.symbolic:
            def standin(eng, mm, addr, args):
                w = eng.wr(mm).attrs
                w['seen'], w['addr'] = args, addr
                return results
            c.eng.contracts = {**c.eng.contracts, 'pywasm.core.Machine.invocate': standin}
        else:
            def make(lw):
                def standin(mm, addr, args):
                    mm.seen, mm.addr = args, addr
                    return lw.val(results)
                return standin
            make.wants_lower = True
            c.patch(core.Machine, 'invocate', make)

    def called(self, c):
        return attr(c, self.m, 'addr') is not None


def hostval(c, t):
    """an arbitrary host value of the kind t takes"""
    if t in (I32, I64):
        return lambda nm: c.sint(nm, WIDTH[t])
    if t in REFS:
        return lambda nm: c.sint(nm, 32)
    if t == F64:
        return lambda nm: sym.from_bits64(c.bv(nm, 64))
    if t == F32:
        def f(nm):
            b = c.bv(nm, 32)
            c.requires(znot(isnan_bits(b)))
            return sym.from_bits32(b)
        return f
    return lambda nm: c.bytearray(sym.mkcb([c.bv(f'{nm}.{i}', 8) for i in range(16)]))


def is_host(c, v, t, x):
    """v is the value of type t for the host value x (of the right kind and in range)"""
    if t in (I32, I64) or t in REFS:
        return int_val(c, v, t, x)
    if t == F64:
        return is_val(c, v, t, sym.as_sfloat(x).bits())
    if t == F32:
        if not has_attrs(c, v, 'type', 'data') or val_seq(c, v) is None:
            return False
        r = bits_of(c, v, 32)
        f = sym.as_sfloat(x)
        return zand(is_val(c, v, t, r), tofp(r) == f.f32)
    q = c.eng.rd(x).seq
    return is_val(c, v, t, sym.bytes_le_term([q.getz(i) for i in range(16)]))


def wasmval(c, t):
    def f(nm):
        if t in REFS:
            return ref_val(c, t, nm)[0]
        b = c.bv(nm, WIDTH[t])
        if t == F32:
            c.requires(znot(isnan_bits(b)))
        return val(c, t, b)
    return f


def is_out(c, x, t, v):
    """x is the host value for the value v of type t"""
    if t in REFS:
        null = bterm(sym.cmp('==', sym.ubv(val_byte(c, v, 4)), 0))
        if c.decide(null):
            return x is None
        return fits_type(x, int) and bterm(sym.cmp('==', x, sym.sbv(bits_of(c, v, 32))))
    b = bits_of(c, v, WIDTH[t])
    if t in (I32, I64):
        return fits_type(x, int) and bterm(sym.cmp('==', x, sym.sbv(b)))
    if t in (F32, F64):
        return fits_type(x, float) and (sym.as_sfloat(x).bits() == b if t == F64 else
                                        sym.as_sfloat(x).fp == z3.fpFPToFP(z3.RNE(), tofp(b), sym.FP64))
    if not isinstance(x, Ref) or not isinstance(c.eng.rd(x), BytesRec):
        return False
    q = c.eng.rd(x).seq
    return q.n == 16 and sym.bytes_le_term([q.getz(i) for i in range(16)]) == b


def pick(c, v):
    return c.eng.split_union(v) if isinstance(v, Union) else v


def val_byte(c, v, i):
    x = list(val_seq(c, v).items)[i]
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def each(c, name, ref, n, holds, upto=40):
    """every element k < n of the list satisfies holds(k, element); a generic k, so the last obligation of its path"""
    if not isinstance(ref, Ref) or not isinstance(c.eng.rd(ref), ListRec):
        return c.fail(name + ' (not a list)')
    c.ensure(name + ': as many', bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(ref)), n)))
    if not c.symbolic:
        for k in range(min(sym.concretize(n), upto)):
            c.ensure(name, holds(k, elem_at(c, ref, k)))
        return
    if not c.decide(sym.cmp('>', n, 0)):
        return
    k = c.int(c.eng.fresh_name('k'), 0, max(sym.hi(n) - 1, 0), small=False)
    c.requires(bterm(sym.cmp('<', k, n)))
    c.ensure(name, holds(k, elem_at(c, ref, k)))


def types_of(c, nm, n, t):
    return c.seglist(c.seq(nm, n, lambda q: vtype(c, t)))


def invoke_args(t):
    def body(c):
        n = c.int('n', 0, 1000)
        ps = c.seglist(c.seq('arg', n, hostval(c, t)))
        g = Guest(c, types_of(c, 'ptype', n, t), types_of(c, 'rtype', 0, t), c.list([]))
        src = c.seglist(*c.eng.rd(ps).segs)
        out = c.run(core.Runtime.invocate, g.rt, g.mod, 7, ps)
        c.cover('called')
        c.ensure(f'called (got {out!r})', out.kind == 'normal')
        c.ensure('the exported function', bterm(sym.cmp('==', attr(c, g.m, 'addr'), 1)))
        each(c, 'arguments', attr(c, g.m, 'seen'), n, lambda k, v: is_host(c, v, t, elem_at(c, src, k)))
    add(PROP, f'invoking with any number of {TNAME[t]} arguments', body, CALL, covers=('called',))


def invoke_rets(t):
    def body(c):
        n = c.int('n', 0, 1000)
        vs = c.seglist(c.seq('result', n, wasmval(c, t)))
        g = Guest(c, types_of(c, 'ptype', 0, t), types_of(c, 'rtype', n, t), vs)
        out = c.run(core.Runtime.invocate, g.rt, g.mod, 7, c.list([]))
        c.cover('returned')
        c.ensure(f'returns (got {out!r})', out.kind == 'normal')
        each(c, 'results', out.val, n, lambda k, x: is_out(c, pick(c, x), t, elem_at(c, vs, k)))
    add(PROP, f'any number of {TNAME[t]} results', body, CALL, covers=('returned',))


for t in TYPES:
    invoke_args(t)
    invoke_rets(t)


@contract(PROP, 'invoking with any mix of integer and reference parameters', CALL, covers=('called',))
def invoke_mixed(c):
    n = c.int('n', 0, 1000)
    kinds = [I32, I64, FUNCREF, EXTERNREF]

    def ty(nm):
        d = c.int(nm, 0, 0x7f, small=False) if c.symbolic else c.choice(nm, kinds)
        if c.symbolic:
            c.requires(zor(*[bterm(sym.cmp('==', d, t)) for t in kinds]))
        return vtype(c, d)
    pt = c.seglist(c.seq('ptype', n, ty))
    ps = c.seglist(c.seq('arg', n, lambda nm: c.sint(nm, 32)))
    g = Guest(c, pt, c.list([]), c.list([]))
    out = c.run(core.Runtime.invocate, g.rt, g.mod, 7, ps)
    c.cover('called')
    c.ensure(f'called (got {out!r})', out.kind == 'normal')

    def holds(k, v):
        t = attr(c, elem_at(c, pt, k), 'data')
        x = elem_at(c, ps, k)
        for kk in kinds[:-1]:
            if c.decide(sym.cmp('==', t, kk)):
                return int_val(c, v, kk, x)
        return int_val(c, v, kinds[-1], x)
    each(c, 'arguments', attr(c, g.m, 'seen'), n, holds)


def invoke_range(t):
    def body(c):
        n = c.int('n', 1, 1000)
        k = c.int('k', 0, 999)
        c.requires(bterm(sym.cmp('<', k, n)))
        ps = c.seglist(c.seq('arg', n, lambda nm: c.sint(nm, 80)))
        bad = elem_at(c, ps, k)
        c.requires(znot(fits(bad, t)))
        g = Guest(c, types_of(c, 'ptype', n, t), c.list([]), c.list([]))
        out = c.run(core.Runtime.invocate, g.rt, g.mod, 7, ps)
        if out.kind != 'raise' and c.symbolic:
            from pydv import loops
            loops.instantiate(c.eng, k)
        c.cover('called')
        c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
        c.ensure('nothing ran', not g.called(c))
    add(PROP, f'one {TNAME[t]} argument out of range', body, CALL, covers=('called',))


for t in (I32, I64, FUNCREF, EXTERNREF):
    invoke_range(t)


@contract(PROP, 'wrong number of arguments', CALL, covers=('called',))
def invoke_count(c):
    t = c.choice('type', [I32, F64])
    n, q = c.int('n', 0, 1000), c.int('given', 0, 1000)
    c.requires(bterm(sym.cmp('!=', n, q)))
    g = Guest(c, types_of(c, 'ptype', n, t), c.list([]), c.list([]))
    out = c.run(core.Runtime.invocate, g.rt, g.mod, 7, c.seglist(c.seq('arg', q, hostval(c, t))))
    c.cover('called')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
    c.ensure('nothing ran', not g.called(c))


@contract(PROP, 'an export that is not a function', CALL, covers=('called',))
def invoke_kind(c):
    g = Guest(c, c.list([]), c.list([]), c.list([]), kind=c.choice('kind', [1, 2, 3]))
    out = c.run(core.Runtime.invocate, g.rt, g.mod, 7, c.list([]))
    c.cover('called')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
    c.ensure('nothing ran', not g.called(c))


@contract(PROP, 'no such export', CALL, covers=('called',))
def invoke_name(c):
    g = Guest(c, c.list([]), c.list([]), c.list([]), name=None)
    out = c.run(core.Runtime.invocate, g.rt, g.mod, 7, c.list([]))
    c.cover('called')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
    c.ensure('nothing ran', not g.called(c))


# ---------------------------------------------------------------- through a whole call

def through(t1, t2):
    """a guest function that returns its two arguments in reverse order, called for real"""
    def body(c):
        rt = c.new(core.Runtime)
        m = attr(c, rt, 'machine')
        a, b = hostval(c, t1)('a'), hostval(c, t2)('b')
        mod = c.new(core.ModuleInst)
        code = c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list([inst(c, 'local.get', [1]), inst(c, 'local.get', [0])])))
        f = c.new(core.FuncInst, functype(c, [t1, t2], [t2, t1]), mod, code)
        c.eng.wr(attr(c, m, 'store')).attrs['func'] = c.list([c.new(core.FuncHost, functype(c, [], []), 'decoy'), f])
        c.eng.wr(mod).attrs['exps'] = c.list([c.new(core.ExportInst, 'other', c.new(core.Extern, 0, 0)),
                                              c.new(core.ExportInst, 'f', c.new(core.Extern, 0, 1))])
        va, vb = keep(c, a), keep(c, b)
        out = c.run(core.Runtime.invocate, rt, mod, 'f', c.list([a, b]))
        c.cover('called')
        c.ensure(f'returns (got {out!r})', out.kind == 'normal' and isinstance(out.val, Ref))
        each2(c, out.val, [(t2, vb), (t1, va)])
    add(PROP, f'({TNAME[t1]}, {TNAME[t2]}) through a guest function', body, CALL, covers=('called',))


def keep(c, x):
    return c.bytearray(c.eng.rd(x).seq) if isinstance(x, Ref) else x


def each2(c, ref, want):
    c.ensure('as many', bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(ref)), len(want))))
    for k, (t, x) in enumerate(want):
        c.ensure(f'value {k}', host_same(c, elem_at(c, ref, k), t, x))


def host_same(c, y, t, x):
    if x is None:
        return y is None
    if t == F64:
        return fits_type(y, float) and sym.as_sfloat(y).bits() == sym.as_sfloat(x).bits()
    if t == F32:
        return fits_type(y, float) and sym.as_sfloat(y).fp == sym.as_sfloat(x).fp
    if t == V128:
        if not isinstance(y, Ref) or not isinstance(c.eng.rd(y), BytesRec):
            return False
        p, q = c.eng.rd(y).seq, c.eng.rd(x).seq
        return p.n == 16 and sym.bytes_le_term([p.getz(i) for i in range(16)]) == sym.bytes_le_term([q.getz(i) for i in range(16)])
    return fits_type(y, int) and bterm(sym.cmp('==', y, x))


for k, t in enumerate(TYPES):
    through(t, TYPES[(k + 3) % 7])


# ---------------------------------------------------------------- host functions called by the guest

def host_note(m, args):
    """keeps what it is given and gives it back"""
    m.seen = args
    return args


def host_args(t):
    def body(c):
        n = c.int('n', 0, 1000)
        vs = c.seq('arg', n, wasmval(c, t))
        src = frozen(c, vs, n)
        h = c.new(core.FuncHost, c.new(core.FuncType, types_of(c, 'ptype', n, t), types_of(c, 'rtype', n, t)), host_note)
        w = machine(c, [inst(c, 'call', [1])], [], funcs=[c.new(core.FuncHost, functype(c, [], []), 'decoy'), h])
        set_stack(c, w, vs)
        out = go(c, w)
        c.cover('called')
        c.ensure(f'the guest goes on (got {out!r})', out.kind == 'stop' and out.stop == 'next')
        if c.choice('look at', ['arguments', 'results']) == 'arguments':
            each(c, 'what the host sees', attr(c, w.m, 'seen'), n, lambda k, x: is_out(c, pick(c, x), t, elem_at(c, src, k)))
            return
        st = attr(c, w.stack, 'value')
        c.ensure('as many values on the stack', bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(st)), sym.add(w.nbase, n))))
        if not c.symbolic:
            for k in range(sym.concretize(n)):
                c.ensure('results', same_val(c, elem_at(c, st, sym.add(w.nbase, k)), elem_at(c, src, k)))
            return
        if not c.decide(sym.cmp('>', n, 0)):
            return
        k = c.int('k', 0, 999, small=False)
        c.requires(bterm(sym.cmp('<', k, n)))
        c.ensure('results', same_val(c, elem_at(c, st, sym.add(w.nbase, k)), elem_at(c, src, k)))
    add(PROP, f'host function with any number of {TNAME[t]} values', body, HOST, covers=('called',))


for t in TYPES:
    host_args(t)




def host_huge(m, args):
    """an i32 result far out of range"""
    return [args[0] + 0x100000000]


@contract(PROP, 'host result out of range', HOST, covers=('trap',))
def host_range(c):
    h = c.new(core.FuncHost, functype(c, [I32], [I32]), host_huge)
    w = machine(c, [inst(c, 'call', [1])], [val(c, I32, c.bv('a', 32))], funcs=[c.new(core.FuncHost, functype(c, [], []), 'decoy'), h])
    out = go(c, w)
    c.cover('trap')
    traps(c, w, out)
