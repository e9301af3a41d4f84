"""C15: instantiation builds the module instance the description prescribes."""
import z3

from pydv import loops, sym
from pydv.sym import zand, zor, znot
from pydv.interp import BoundMethod, mkbool

from .common import *
from .c10 import anytype, bool_of
from .c14 import Linked, pairs, at_some, sig_of, use_sig_eq, anyreftype, KINDS, FUNC, TABLE, MEM, GLOBAL, U32

PROP = 'C15'
INST = 'pywasm.core.Machine.instance'
ALLOC = 'pywasm.core.Machine.allocate'
STORE = 'pywasm.core.Store.'
ELEM, DATA = 4, 5
SPACE = ['func', 'tabl', 'mems', 'glob', 'elem', 'data']
ASSUMPTIONS = ['the module is valid: every index it mentions exists, constant expressions yield the declared type',
               'imports match (C14)']


def eq(a, b):
    return bterm(sym.cmp('==', a, b))


def length(c, ref):
    return c.eng.list_len(c.eng.rd(ref))


class Store:
    """a store that holds any number of entities already"""

    def __init__(self, c, machine=None):
        self.c = c
        self.m = machine or c.new(core.Machine)
        self.store, self.stack = attr(c, self.m, 'store'), attr(c, self.m, 'stack')
        self.n = [c.int(f'store.{k}', 0, 1000) for k in SPACE]
        self.old = []
        word = lambda nm: val(c, I64, c.bv(nm, 64))
        make = [lambda nm: c.new(core.FuncHost, functype(c, [], []), 'host'),
                lambda nm: table_inst(c, FUNCREF, [val_bytes(c, FUNCREF, [])]),
                lambda nm: mem_inst(c, 1, c.bytes_in(nm, 65536)),
                lambda nm: c.new(core.GlobalInst, word(nm), 1),
                lambda nm: c.new(core.ElemInst, vtype(c, FUNCREF), c.list([val_bytes(c, FUNCREF, [])])),
                lambda nm: c.new(core.DataInst, c.bytearray(c.bytes_in(nm, 3)))]
        for key, n, f in zip(SPACE, self.n, make):
            q = c.seq('store.' + key, n, f)
            c.eng.wr(self.store).attrs[key] = c.seglist(q)
            self.old.append(q)

    def list(self, key):
        return attr(self.c, self.store, key)

    def appended(self, key, name, n=1):
        """the store's list is what it was, followed by n entities"""
        c = self.c
        i = SPACE.index(key)
        c.ensure(f'{name}: one more', eq(length(c, self.list(key)), sym.add(self.n[i], n)))
        kept_prefix(c, f'{name}: the others stay', self.list(key), self.old[i], self.n[i])

    def others(self, name, pre, *keys):
        unchanged(self.c, f'{name}: no other list changes', pre, [self.store], [(self.store, k) for k in keys])


def kept_prefix(c, name, ref, seg, n):
    """the list begins with the same objects as before"""
    if not c.symbolic:
        xs = [x for s in c.eng.rd(ref).segs for x in s]
        c.ensure(name, xs[:len(seg)] == list(seg))
        return
    got = canon_segs(c.eng, None, c.eng.rd(ref).segs, exact=False)
    want = canon_segs(c.eng, None, c.eng.rd(c.seglist(seg)).segs, exact=False)
    c.ensure(name, len(got) >= len(want) and all(seg_same(c, x, y) for x, y in zip(got, want)))


def alloc(fn, key, args, check, covers=('done',)):
    def body(c):
        w = Store(c)
        given = args(c)
        roots = [a for a in given if isinstance(a, Ref)]
        pre = Snap(c)
        out = c.run(BoundMethod(getattr(core.Store, fn), w.store), *given)
        c.cover('done')
        c.ensure(f'allocates (got {out!r})', out.kind == 'normal')
        i = SPACE.index(key)
        c.ensure('answers its address', eq(out.val, w.n[i]) if is_int(out.val) else False)
        w.appended(key, fn)
        w.others(fn, pre, key)
        unchanged(c, 'what it is given is only read', pre, roots)
        check(c, elem_at(c, w.list(key), w.n[i]), *given)
    add(PROP, fn, body, STORE + fn, covers=covers)


def is_type(c, name, t, want):
    c.ensure(name, eq(attr(c, t, 'data'), attr(c, want, 'data')) if has_attrs(c, t, 'data') else False)


def same_limits(c, name, got, want):
    for k in 'nm':
        c.ensure(f'{name}: {k}', eq(attr(c, got, k), attr(c, want, k)))


def func_args(c):
    n = c.int('types', 1, 1000)
    mod = c.new(core.ModuleInst)
    c.eng.wr(mod).attrs['type'] = c.seglist(c.seq('type', n, lambda nm: sig_of(c, nm)))
    i = below(c, 'typeidx', n)
    return [mod, c.new(core.FuncDesc, i, c.list([]), c.new(core.Expr, c.list([])))]


def func_is(c, f, mod, desc):
    c.ensure('a function of this module', eq(attr(c, f, 'kind'), 0) and attr(c, f, 'module') == mod)
    c.ensure('runs the described code', attr(c, f, 'code') == desc)
    c.ensure('has the declared type', attr(c, f, 'type') == elem_at(c, attr(c, mod, 'type'), attr(c, desc, 'type')))


def table_args(c, most=1000):
    lim = c.new(core.Limits, c.int('n', 0, most), c.int('m', 0, U32))
    c.requires(zor(eq(attr(c, lim, 'm'), 0), bterm(sym.cmp('<=', attr(c, lim, 'n'), attr(c, lim, 'm')))))
    return [c.new(core.TableType, anyreftype(c)('type'), lim)]


def table_is(c, t, ty):
    is_type(c, 'the declared element type', attr(c, t, 'type', 'type'), attr(c, ty, 'type'))
    same_limits(c, 'the declared limits', attr(c, t, 'type', 'limits'), attr(c, ty, 'limits'))
    n = attr(c, ty, 'limits', 'n')
    c.ensure('the declared size', eq(attr(c, t, 'size'), n))
    list_is(c, 'null references', attr(c, t, 'elem'), n, lambda k: val_bytes(c, attr(c, ty, 'type', 'data'), []))


def mem_args(c):
    lim = c.new(core.Limits, c.int('n', 0, 65536 if c.symbolic else 3), c.int('m', 0, U32))
    c.requires(zor(eq(attr(c, lim, 'm'), 0), bterm(sym.cmp('<=', attr(c, lim, 'n'), attr(c, lim, 'm')))))
    return [c.new(core.MemType, lim)]


def zero_bytes(c, name, q, n):
    c.ensure(f'{name}: length', eq(q.n, n))
    if not c.symbolic:
        c.ensure(name, not any(sym.concretize(x) for x in q.items))
        return
    k = c.int('byte', 0, (1 << 32) - 1, small=False)
    c.requires(bterm(sym.cmp('<', k, n)))
    c.ensure(name, q.at(sym.idx64(k)) == 0)


def mem_is(c, m, ty):
    same_limits(c, 'the declared limits', attr(c, m, 'type', 'limits'), attr(c, ty, 'limits'))
    n = attr(c, ty, 'limits', 'n')
    c.ensure('the declared size', eq(attr(c, m, 'size'), n))
    zero_bytes(c, 'zero bytes', c.eng.bytes_of(attr(c, m, 'data')), sym.mul(n, 65536))


def any_value(c, nm):
    """a value of any type and bits"""
    t = c.choice(nm + '.t', [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF])
    if t in (FUNCREF, EXTERNREF):
        return ref_val(c, t, nm)[0]
    return val(c, t, c.bv(nm, WIDTH[t]))


def glob_args(c):
    v = any_value(c, 'v')
    return [c.new(core.GlobalType, vtype(c, attr(c, v, 'type', 'data')), c.int('mut', 0, 1)), v]


def glob_is(c, g, ty, v):
    c.ensure('the declared mutability', eq(attr(c, g, 'mut'), attr(c, ty, 'mut')))
    c.ensure('the initial value', same_val(c, attr(c, g, 'data'), v))


def elem_args(c):
    t = c.choice('t', [FUNCREF, EXTERNREF])
    return [vtype(c, t), c.seglist(refseq(c, 'refs', t, c.int('n', 0, 1000)))]


def elem_is(c, e, ty, refs):
    is_type(c, 'the declared type', attr(c, e, 'type'), ty)
    want = c.eng.rd(refs)
    list_is(c, 'the references', attr(c, e, 'data'), c.eng.list_len(want), lambda k: elem_at(c, refs, k))


def data_args(c):
    return [c.bytearray(c.bytes_in('init', c.int('n', 0, 100000)))]


def same_bytes(c, name, q, r):
    c.ensure(f'{name}: length', eq(q.n, r.n))
    if not c.symbolic:
        c.ensure(name, [sym.concretize(x) for x in q.items] == [sym.concretize(x) for x in r.items])
        return
    k = c.int(c.eng.fresh_name('byte'), 0, (1 << 32) - 1, small=False)
    c.requires(bterm(sym.cmp('<', k, r.n)))
    c.ensure(name, q.at(sym.idx64(k)) == r.at(sym.idx64(k)))


def data_is(c, d, init):
    same_bytes(c, 'the bytes', c.eng.bytes_of(attr(c, d, 'data')), c.eng.bytes_of(init))


alloc('allocate_func_wasm', 'func', func_args, func_is)
alloc('allocate_func_host', 'func', lambda c: [c.new(core.FuncHost, functype(c, [I32], []), 'given')],
      lambda c, f, given: c.ensure('the given function', f == given))
alloc('allocate_table', 'tabl', table_args, table_is)
alloc('allocate_memory', 'mems', mem_args, mem_is)
alloc('allocate_global', 'glob', glob_args, glob_is)
alloc('allocate_elem', 'elem', elem_args, elem_is)
alloc('allocate_data', 'data', data_args, data_is)


# ---------------------------------------------------------------- a whole module

class Module(Linked):
    """a module with any number of imports and definitions of every kind over a store with any contents"""

    def __init__(self, c, kinds=(FUNC, TABLE, MEM, GLOBAL)):
        super().__init__(c)
        st = c.eng.wr(self.store).attrs
        for key, f in (('elem', lambda nm: c.new(core.ElemInst, vtype(c, FUNCREF), c.list([val_bytes(c, FUNCREF, [])]))),
                       ('data', lambda nm: c.new(core.DataInst, c.bytearray(c.bytes_in(nm, 3))))):
            n = c.int('store.' + key, 0, 1000)
            q = c.seq('store.' + key, n, f)
            st[key] = c.seglist(q)
            self.lists.append(frozen(c, q, n))
            self.nk.append(n)
        self.imps, self.exts, self.ni = [], [], []
        # imports of all kinds, functions last and first
        order = (FUNC, GLOBAL, TABLE, MEM) if len(kinds) > 1 and c.choice('import order', [0, 1]) else (MEM, GLOBAL, TABLE, FUNC)
        order = [k for k in order if k in kinds]
        self.impsegs, self.extsegs = {}, {}
        for k in order:
            n = c.int(f'imports.{k}', 0, 1000)
            xs, ys = pairs(c, self, n, lambda nm, k=k: self.couple(f'{k}.{nm}', k), f'{k}')
            self.impsegs[k], self.extsegs[k] = xs, ys
            self.ni.append((k, n))
        self.ni = dict(self.ni)
        self.imps = c.seglist(*[self.impsegs[k] for k in order])
        self.exts = c.seglist(*[self.extsegs[k] for k in order])
        self.given = {k: frozen(c, self.extsegs[k], self.ni[k]) for k in order}
        self.nd = {}
        self.defs = {}
        self.kw = {}

    def couple(self, nm, k):
        for t in range(1 if self.c.symbolic else 40):
            i, e = self.imp(f'{nm}.{t}', (k,)), self.extern(f'{nm}.{t}', (k,))
            if not self.c.symbolic and k in (TABLE, MEM):
                self.c.eng.wr(attr(self.c, i, 'desc', 'limits')).attrs.update(self.c.choice(f'{nm}.{t}.lim', [{'n': 0, 'm': 0}, {}, {}]))
            m = self.match(i, e)
            if self.c.symbolic or bool_of(m):
                break
        self.c.requires(m)
        return i, e

    def define(self, key, make, most=1000):
        c = self.c
        n = c.int(f'defined.{key}', 0, most)
        q = c.seq('def.' + key, n, make)
        self.nd[key] = n
        self.defs[key] = frozen(c, q, n)
        self.kw[key] = c.seglist(q)

    def run(self):
        c = self.c
        self.desc = module_desc(c, imps=self.imps, type=c.seglist(self.type_seq), **self.kw)
        self.pre = Snap(c)
        out = c.run(core.Machine.instance, self.m, self.desc, self.exts)
        c.cover('done')
        c.ensure(f'instantiates (got {out!r})', out.kind == 'normal')
        return out.val


def at_some2(c, n, name='j'):
    if not c.symbolic:
        return range(n)
    if not c.decide(sym.cmp('>', n, 0)):
        return ()
    k = c.int(name, 0, 999, small=False)
    c.requires(bterm(sym.cmp('<', k, n)))
    return (k,)


def spaced(kind, c, w, mod):
    """the index space of this kind: the imports in order, then new addresses -> the entity and description of any definition"""
    key = SPACE[kind]
    ni, nd = w.ni.get(kind, 0), w.nd[key]
    lst = attr(c, mod, key)
    c.ensure(f'{key}: as many as imported and defined', eq(length(c, lst), sym.add(ni, nd)))
    c.ensure(f'{key}: the store grows by the definitions', eq(length(c, attr(c, w.store, key)), sym.add(w.nk[kind], nd)))
    if kind in w.given:
        for k in at_some(c, ni):
            c.ensure('an import', eq(elem_at(c, lst, k), attr(c, elem_at(c, w.given[kind], k), 'data')))
    for j in at_some2(c, nd):
        a = elem_at(c, lst, sym.add(ni, j))
        c.ensure('a definition: a new address', eq(a, sym.add(w.nk[kind], j)))
        yield j, elem_at(c, attr(c, w.store, key), a), elem_at(c, w.defs[key], j)


def space(kind, make, check):
    key = SPACE[kind]

    def body(c):
        w = Module(c)
        w.define(key, lambda nm: make(c, w, nm))
        mod = w.run()
        for j, x, d in spaced(kind, c, w, mod):
            check(c, w, mod, x, d)
    add(PROP, f'{key}: imports first, then definitions', body, INST, covers=('done',))


def func_desc(c, w, nm):
    i = below(c, nm + '.typeidx', w.nt)
    return c.new(core.FuncDesc, i, c.list([]), c.new(core.Expr, c.list([])))


def limits_of(c, nm, most):
    lim = c.new(core.Limits, c.int(nm + '.n', 0, most), c.int(nm + '.m', 0, U32))
    c.requires(zor(eq(attr(c, lim, 'm'), 0), bterm(sym.cmp('<=', attr(c, lim, 'n'), attr(c, lim, 'm')))))
    return lim


def table_desc(c, w, nm):
    return c.new(core.TableType, w.rty(nm + '.type'), limits_of(c, nm, 1000 if c.symbolic else 5))


def mem_desc(c, w, nm):
    return c.new(core.MemType, limits_of(c, nm, 65536 if c.symbolic else 1))


space(FUNC, func_desc, lambda c, w, mod, x, d: func_is(c, x, mod, d))
space(TABLE, table_desc, lambda c, w, mod, x, d: table_is(c, x, d))
space(MEM, mem_desc, lambda c, w, mod, x, d: mem_is(c, x, d))


# ---------------------------------------------------------------- constant expressions

CONST = ['i32.const', 'i64.const', 'f32.const', 'f64.const', 'v128.const', 'ref.null', 'ref.func', 'global.get']
BITS = {'f32.const': (F32, 32), 'f64.const': (F64, 64), 'v128.const': (V128, 128)}


def low(v, bits):
    r = sym.low(v, bits)
    return z3.BitVecVal(r, bits) if isinstance(r, int) else r


class Constants:
    """constant expressions, and the values they stand for"""

    def __init__(self, c, w):
        self.c, self.w = c, w

    def expr(self, nm, kinds=CONST, indices=None):
        """-> (Expr, () -> value once instantiated)"""
        c, w = self.c, self.w
        k, i = c.choice(nm + '.op', list(kinds)), None
        if k in ('i32.const', 'i64.const'):
            b = 32 if k[1] == '3' else 64
            arg = c.int(nm + '.x', -(1 << b - 1), (1 << b - 1) - 1)
        elif k in BITS:
            b = c.bv(nm + '.x', BITS[k][1])
            i, arg = decoded(c, [*ENC[k], *sym.term_bytes(b)]), sym.ubv(b)
        elif k == 'ref.null':
            arg = sym.ite(bterm(c.bool(nm + '.x')), FUNCREF, EXTERNREF)
            i = decoded(c, [*ENC[k], arg if isinstance(arg, int) else sym.low(arg, 8)])
        elif k == 'ref.func':
            arg = below(c, nm + '.f', sym.add(w.ni[FUNC], w.nd.get('func', 0)), 1999)
        else:
            arg = below(c, nm + '.g', w.ni[GLOBAL])
        e = c.new(core.Expr, c.list([i or inst(c, k, [arg])]))
        c.eng.wr(e).attrs['#what'] = (k, arg)
        return e

    def means(self, e):
        c, w = self.c, self.w
        k, x = attr(c, e, '#what')
        if k in ('i32.const', 'i64.const'):
            t = I32 if k[1] == '3' else I64
            return val(c, t, low(x, WIDTH[t]))
        if k in BITS:
            return val(c, BITS[k][0], low(x, BITS[k][1]))
        if k == 'ref.null':
            return val_bytes(c, x, [])
        if k == 'ref.func':
            a = self.func_addr(x)
            return val_bytes(c, FUNCREF, sym.term_bytes(z3.simplify(low(a, 32))) + [1])
        a = attr(c, elem_at(c, w.given[GLOBAL], x), 'data')
        return attr(c, w.entity(GLOBAL, a), 'data')

    def func_addr(self, x):
        c, w = self.c, self.w
        if c.decide(sym.cmp('<', x, w.ni[FUNC])):
            return attr(c, elem_at(c, w.given[FUNC], x), 'data')
        return sym.add(w.nk[FUNC], sym.sub(x, w.ni[FUNC]))


def glob_desc(c, w, nm):
    return c.new(core.GlobalDesc, c.new(core.GlobalType, w.ty(nm + '.type'), c.int(nm + '.mut', 0, 1)), Constants(c, w).expr(nm))


def globals_(c):
    w = Module(c)
    w.nd['func'] = c.int('defined.func', 0, 1000)
    w.define('func', lambda nm: func_desc(c, w, nm))
    w.define('glob', lambda nm: glob_desc(c, w, nm))
    mod = w.run()
    for j, x, d in spaced(GLOBAL, c, w, mod):
        glob_is(c, x, attr(c, d, 'type'), Constants(c, w).means(attr(c, d, 'init')))


add(PROP, 'glob: imports first, then definitions, initialised by their expressions', globals_, INST, covers=('done',))


# ---------------------------------------------------------------- segments

REFS = ['ref.null', 'ref.func']


def elem_desc(c, w, nm, kinds, most=1000):
    """a segment that stays around until it is used or dropped by the program"""
    k = kinds[0]
    n = c.int(nm + '.count', 0, most if c.symbolic else 3)
    con = Constants(c, w)
    init = c.seq(nm + '.init', n, lambda nm: con.expr(nm, REFS))
    return c.new(core.ElemDesc, k, w.rty(nm + '.type'), 0, c.new(core.Expr, c.list([])), c.seglist(init))


def elem_space(kinds, word):
    def body(c):
        w = Module(c, (FUNC,))
        w.define('func', lambda nm: func_desc(c, w, nm))
        w.define('elem', lambda nm: elem_desc(c, w, nm, kinds))
        mod = w.run()
        con = Constants(c, w)
        for j, x, d in spaced(ELEM, c, w, mod):
            is_type(c, 'the declared type', attr(c, x, 'type'), attr(c, d, 'type'))
            init = attr(c, d, 'init')
            n = length(c, init)
            list_is(c, 'the references', attr(c, x, 'data'), n if word == 'passive' else 0, lambda k: con.means(elem_at(c, init, k)))
    add(PROP, f'elem: {word} segments ({kinds[0]})', body, INST, covers=('done',))


for k in (1, 5):
    elem_space([k], 'passive')


def data_desc(c, w, nm):
    return c.new(core.DataDesc, 1, 0, c.new(core.Expr, c.list([])), c.bytearray(c.bytes_in(nm + '.init', c.int(nm + '.count', 0, 100000 if c.symbolic else 9))))


space(DATA, data_desc, lambda c, w, mod, x, d: same_bytes(c, 'the bytes', c.eng.bytes_of(attr(c, x, 'data')), c.eng.bytes_of(attr(c, d, 'init'))))


# ---------------------------------------------------------------- exports


def exports(c):
    w = Module(c)
    w.define('func', lambda nm: func_desc(c, w, nm))
    w.define('tabl', lambda nm: c.new(core.TableType, w.rty(nm + '.type'), c.new(core.Limits, 0, 0)))
    w.define('mems', lambda nm: c.new(core.MemType, c.new(core.Limits, 0, 0)))
    con = Constants(c, w)
    w.define('glob', lambda nm: c.new(core.GlobalDesc, c.new(core.GlobalType, vtype(c, I32), 0), con.expr(nm, ['i32.const'])))
    w.ntotal = [sym.add(w.ni[k], w.nd[SPACE[k]]) for k in range(4)]

    def export(nm):
        k = c.choice(nm + '.kind', [k for k in range(4) if c.symbolic or w.ntotal[k]] or [0])
        i = below(c, nm + '.index', w.ntotal[k], 1999)
        return c.new(core.ExportDesc, c.choice(nm + '.name', ['memory', 'a', '']), k, i)
    w.define('exps', export)
    mod = w.run()
    lst = attr(c, mod, 'exps')
    c.ensure('all exports', eq(length(c, lst), w.nd['exps']))
    for j in at_some2(c, w.nd['exps']):
        x, d = elem_at(c, lst, j), elem_at(c, w.defs['exps'], j)
        c.ensure('the name', attr(c, x, 'name') == attr(c, d, 'name'))
        k, i = attr(c, d, 'kind'), attr(c, d, 'desc')
        c.ensure('the kind', eq(attr(c, x, 'data', 'kind'), k))
        c.ensure('the entity', eq(attr(c, x, 'data', 'data'), entity(c, w, k, i)))


def entity(c, w, k, i):
    """the address of entity i of this kind"""
    if c.decide(sym.cmp('<', i, w.ni[k])):
        return attr(c, elem_at(c, w.given[k], i), 'data')
    return sym.add(w.nk[k], sym.sub(i, w.ni[k]))


add(PROP, 'exports', exports, INST, covers=('done',))


# ---------------------------------------------------------------- active segments and the start function

SEGMENTS = 'at most 4 segments of each kind; their sizes and contents, the tables and the memory are unbounded'


class Small:
    """a module with one imported and one defined table, a memory and an imported global that offsets can come from"""

    def __init__(self, c, elem=(), data=(), func=(), star=-1, types=(), mem=None, host=None):
        self.c = c
        m = self.m = c.new(core.Machine)
        self.store, self.stack = attr(c, m, 'store'), attr(c, m, 'stack')
        st = c.eng.wr(self.store).attrs
        self.nt = [c.int('tab0.n', 0, 100000), c.int('tab1.n', 0, 100000)]
        if not c.symbolic:
            self.nt = [n % 7 for n in self.nt]
        self.func0 = len(func)
        self.t0 = refseq(c, 'tab0', FUNCREF, self.nt[0])
        self.t0ref = frozen(c, self.t0, self.nt[0])
        self.tab0 = table_inst(c, FUNCREF, [], 0, self.nt[0])
        c.eng.wr(self.tab0).attrs.update(elem=c.seglist(self.t0), size=self.nt[0])
        self.base = c.bv('base', 32, near=[0, 3])
        self.glob = c.new(core.GlobalInst, val(c, I32, self.base), 0)
        self.pages = c.int('pages', 0, 16 if c.symbolic else 1)
        self.mem_imported = mem if mem is not None else c.choice('memory', ['imported', 'defined']) == 'imported'
        self.q = c.bytes_in('mem', sym.mul(self.pages, 65536)) if self.mem_imported else None
        decoy_t = table_inst(c, FUNCREF, [val_bytes(c, FUNCREF, [])])
        decoy_m = mem_inst(c, 1, c.bytes_in('decoymem', 65536))
        mems = [decoy_m] + ([mem_inst(c, self.pages, self.q)] if self.mem_imported else [])
        st.update(tabl=c.list([decoy_t, self.tab0]), mems=c.list(mems), glob=c.list([c.new(core.GlobalInst, val(c, I32, z3.BitVecVal(77, 32)), 0), self.glob]),
                  elem=c.list([c.new(core.ElemInst, vtype(c, FUNCREF), c.list([val_bytes(c, FUNCREF, [])]))]),
                  data=c.list([c.new(core.DataInst, c.bytearray(sym.mkcb([1, 2, 3])))]))
        self.decoys = [elem_at(c, st[k], 0) for k in ('tabl', 'mems', 'glob', 'elem', 'data')]
        lim = lambda n: c.new(core.Limits, n, 0)
        imp = lambda k, d: c.new(core.Import, 'm', 'x', k, d)
        imps = [imp(GLOBAL, c.new(core.GlobalType, vtype(c, I32), 0)), imp(TABLE, c.new(core.TableType, vtype(c, FUNCREF), lim(0)))]
        exts = [c.new(core.Extern, GLOBAL, 1), c.new(core.Extern, TABLE, 1)]
        if self.mem_imported:
            imps.append(imp(MEM, c.new(core.MemType, lim(0))))
            exts.append(c.new(core.Extern, MEM, 1))
        if host is not None:
            imps.append(imp(FUNC, 0))
            exts.append(c.new(core.Extern, FUNC, 1))
        self.ni, self.nk, self.nd = {FUNC: 1 if host is not None else 0}, {FUNC: 3}, {'func': c.int('defined.func', 1, 1000)}
        st['func'] = c.list([c.new(core.FuncHost, functype(c, [], []), host if q == 1 and host is not None else 'decoy') for q in range(3)])
        self.con = Constants(c, self)
        types = [functype(c, [], []), *types]
        fs = c.seq('def.func', self.nd['func'], lambda nm: c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list([]))))
        self.elem = [self.elem_seg(i, *k) for i, k in enumerate(elem)]
        self.data = [self.data_seg(i, k) for i, k in enumerate(data)]
        self.desc = module_desc(c, imps=c.list(imps), tabl=c.list([c.new(core.TableType, vtype(c, FUNCREF), lim(self.nt[1]))]),
                                mems=c.list([] if self.mem_imported else [c.new(core.MemType, lim(self.pages))]),
                                elem=c.list([e.desc for e in self.elem]), data=c.list([d.desc for d in self.data]),
                                func=c.seglist(list(func), fs), type=c.list(types), star=star)
        self.exts = c.list(exts)

    def offset(self, nm, near):
        """-> (Expr, its 32 bits)"""
        c = self.c
        if nm.startswith('data') and c.choice(nm + '.from', ['const', 'global']) == 'global' or nm == 'elem0':
            return c.new(core.Expr, c.list([inst(c, 'global.get', [0])])), self.base
        x = c.bv(nm + '.x', 32, near=[0, 1, near])
        return c.new(core.Expr, c.list([inst(c, 'i32.const', [sym.sbv(x)])])), x

    def elem_seg(self, i, kind, tidx):
        c, s = self.c, World()
        nm = f'elem{i}'
        s.kind, s.tidx, s.active = kind, tidx, not kind & 1
        s.n = c.int(nm + '.count', 0, 100000)
        if not c.symbolic:
            s.n %= 5
        s.init = c.seq(nm + '.init', s.n, lambda nm: self.con.expr(nm, ['ref.func']))
        s.list = frozen(c, s.init, s.n)
        off, s.off = self.offset(nm, self.nt[tidx]) if s.active else (c.new(core.Expr, c.list([])), None)
        s.desc = c.new(core.ElemDesc, kind, vtype(c, FUNCREF), tidx, off, c.seglist(s.init))
        return s

    def data_seg(self, i, kind):
        c, s = self.c, World()
        nm = f'data{i}'
        s.kind, s.active = kind, not kind & 1
        s.n = c.int(nm + '.count', 0, 100000 if c.symbolic else 9)
        s.q = c.bytes_in(nm + '.init', s.n)
        off, s.off = self.offset(nm, sym.mul(self.pages, 65536)) if s.active else (c.new(core.Expr, c.list([])), None)
        s.desc = c.new(core.DataDesc, kind, 0, off, c.bytearray(s.q))
        return s

    def run(self):
        c = self.c
        self.pre = Snap(c)
        out = c.run(core.Machine.instance, self.m, self.desc, self.exts)
        c.ensure(f'instantiates or traps (got {out!r})', out.kind in ('normal', 'stop') or out.kind == 'raise' and issubclass(out.exc.cls, Exception))
        c.cover(out.kind)
        st = self.store
        self.mem = elem_at(c, attr(c, st, 'mems'), 1)
        return out

    def fits(self, s, size):
        return bterm(sym.cmp('<=', sym.add(sym.ubv(s.off), s.n), size))

    def memory_is(self, name, upto):
        """the memory is the initial one with the first `upto` active segments written over it"""
        c = self.c
        p = c.eng.bytes_of(attr(c, self.mem, 'data'))
        ln = sym.mul(self.pages, 65536)
        c.ensure(f'{name}: the memory keeps its length', bterm(sym.cmp('==', p.n, ln)))

        def want(k):
            b = self.q.at(k) if self.mem_imported else z3.BitVecVal(0, 8)
            for s in upto:
                o, n = z3.ZeroExt(32, s.off), sym.idx64(s.n)
                b = z3.If(z3.And(z3.ULE(o, k), z3.ULT(k, o + n)), s.q.at(k - o), b)
            return b
        c.forall(f'{name}: each byte', ln, lambda k: p.at(k) == want(k), hints=[sym.ubv(s.off) for s in upto])


def data_segments(kinds):
    def body(c):
        w = Small(c, data=kinds)
        out = w.run()
        ln = sym.mul(w.pages, 65536)
        done = []
        for s in w.data:
            if s.active:
                if not c.decide(w.fits(s, ln)):
                    c.ensure('a segment that does not fit traps', out.kind == 'raise')
                    w.memory_is('the segments before it have been copied', done)
                    unchanged(c, 'other modules are left alone', w.pre, w.decoys + [w.glob, w.tab0])
                    return
                done.append(s)
        c.ensure('all segments fit: no trap', out.kind == 'normal')
        dropped(c, w, out.val, 'data', w.data)
        unchanged(c, 'other modules are left alone', w.pre, w.decoys + [w.glob, w.tab0])
        w.memory_is('copied in order', done)
    add(PROP, f'data segments {kinds}', body, INST, covers=('normal',) + (('raise',) if any(not k & 1 for k in kinds) else ()), bounded=SEGMENTS)


def dropped(c, w, mod, key, segs):
    """active and declarative segments are dropped, passive ones are there; the description can be used again"""
    for i, s in enumerate(segs):
        x = elem_at(c, attr(c, w.store, key), elem_at(c, attr(c, mod, key), i))
        n = attr_len(c, attr(c, x, 'data'))
        c.ensure(f'{key} segment {i}: ' + ('kept' if s.kind & 3 == 1 else 'dropped'), eq(n, s.n if s.kind & 3 == 1 else 0))
    unchanged(c, 'the description can be instantiated again', w.pre, [w.desc])


def attr_len(c, ref):
    r = c.eng.rd(ref)
    return r.seq.n if isinstance(r, BytesRec) else c.eng.list_len(r)


data_segments((0, 1, 2, 0))
data_segments((1, 0))


def elem_segments(kinds):
    def body(c):
        w = Small(c, elem=kinds, mem=True)
        out = w.run()
        done = []
        trap = False
        for s in w.elem:
            if s.active:
                if not c.decide(w.fits(s, w.nt[s.tidx])):
                    c.ensure('a segment that does not fit traps', out.kind == 'raise')
                    trap = True
                    break
                done.append(s)
        unchanged(c, 'other modules are left alone', w.pre, w.decoys + [w.glob])
        if not trap:
            c.ensure('all segments fit: no trap', out.kind == 'normal')
            dropped(c, w, out.val, 'elem', w.elem)
        which = c.choice('table', [0, 1])
        tab = w.tab0 if not which else elem_at(c, attr(c, w.store, 'tabl'), 2)

        def want(k):
            for s in done[::-1]:
                if s.tidx == which:
                    o = sym.ubv(s.off)
                    if c.decide(zand(bterm(sym.cmp('<=', o, k)), bterm(sym.cmp('<', k, sym.add(o, s.n))))):
                        return w.con.means(elem_at(c, s.list, sym.sub(k, o)))
            return elem_at(c, w.t0ref, k) if not which else val_bytes(c, FUNCREF, [])
        list_is(c, 'copied in order', attr(c, tab, 'elem'), w.nt[which], want)
    add(PROP, f'element segments {kinds}', body, INST, covers=('normal', 'raise'), bounded=SEGMENTS)


elem_segments(((0, 0), (3, 0), (2, 1), (1, 0)))
elem_segments(((6, 1), (5, 0), (4, 0), (7, 0)))
elem_segments(((0, 0), (0, 0)))


def flip(m, args):
    """a host function that looks at the memory and changes it"""
    m.store.mems[1].data[0] = m.store.mems[1].data[0] ^ 0x5a
    return []


def start(kind):
    def body(c):
        host = flip if kind == 'imported' else None
        bump = [inst(c, 'i32.const', [0]), inst(c, 'i32.const', [0]), inst(c, 'i32.load8_u', [0, 0]), inst(c, 'i32.const', [0x5a]),
                inst(c, 'i32.xor'), inst(c, 'i32.store8', [0, 0])]
        fn = lambda b: c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list(b)))
        code = [fn([inst(c, 'unreachable')]), fn([stop(c, 'start')] if kind == 'observed' else bump)]
        w = Small(c, elem=((0, 0),), data=(0, 1), func=code, star=0 if host else 1, host=host)
        c.requires(bterm(sym.cmp('>', w.pages, 0)))
        out = w.run()
        ln = sym.mul(w.pages, 65536)
        if not c.decide(zand(w.fits(w.elem[0], w.nt[0]), w.fits(w.data[0], ln))):
            c.ensure('a segment that does not fit traps, the start function does not run', out.kind == 'raise')
            return
        if kind == 'observed':
            c.ensure('the start function runs', out.kind == 'stop' and out.stop == 'start')
            st = w.store
            for key in ('elem', 'data'):
                x = elem_at(c, attr(c, st, key), 1)
                c.ensure(f'{key}: active segments are dropped by then', eq(attr_len(c, attr(c, x, 'data')), 0))
            w.memory_is('copied by then', [w.data[0]])
            return
        c.ensure(f'the start function runs (got {out!r})', out.kind == 'normal')
        for k in ('value', 'label', 'frame'):
            c.ensure('nothing is left on the stacks', eq(length(c, attr(c, w.stack, k)), 0))
        p = c.eng.bytes_of(attr(c, w.mem, 'data'))
        o, n = z3.ZeroExt(32, w.data[0].off), sym.idx64(w.data[0].n)

        def want(k):
            b = w.q.at(k) if w.mem_imported else z3.BitVecVal(0, 8)
            b = z3.If(z3.And(z3.ULE(o, k), z3.ULT(k, o + n)), w.data[0].q.at(k - o), b)
            return z3.If(k == 0, b ^ 0x5a, b)
        c.forall('once, on the initialised memory', ln, lambda k: p.at(k) == want(k), hints=[0, sym.ubv(w.data[0].off)])
    add(PROP, f'start function: {kind}', body, INST, covers=('stop' if kind == 'observed' else 'normal', 'raise'), bounded=SEGMENTS)


for k in ('observed', 'defined', 'imported'):
    start(k)


def drops(key):
    """a program that drops its passive segments leaves the description intact, and other instances of it"""
    def body(c):
        w = Small(c, elem=((1, 0), (5, 0)), data=(1, 1), mem=True)
        out = w.run()
        c.cover('runs')
        c.ensure('instantiates', out.kind == 'normal')
        one = out.val
        two = c.run(core.Machine.instance, w.m, w.desc, w.exts)
        c.ensure('instantiates again', two.kind == 'normal')
        i = c.choice('which', [0, 1])
        st = attr(c, w.m, 'stack')
        name = 'data.drop' if key == 'data' else 'elem.drop'
        c.eng.wr(st).attrs.update(
            frame=c.list([c.new(core.Frame, c.new(core.ModuleInst), c.new(core.LocalsInst, c.list([])), 0, 0, 0),
                          c.new(core.Frame, one, c.new(core.LocalsInst, c.list([])), 0, 1, 0)]),
            label=c.list([c.new(core.Label, 0, 1, 0, 1, c.list([stop(c, 'outer')]), 0),
                          c.new(core.Label, 0, 2, 0, 1, c.list([inst(c, name, [i]), stop(c, 'next')]), 0)]))
        out = c.run(core.Machine.evaluate, w.m)
        c.ensure('drops', out.kind == 'stop' and out.stop == 'next')
        unchanged(c, 'the description stays', w.pre, [w.desc])
        for mod, gone in ((one, i), (two.val, None)):
            for j, s in enumerate(getattr(w, key)):
                x = elem_at(c, attr(c, w.store, key), elem_at(c, attr(c, mod, key), j))
                c.ensure('only this instance of the segment is gone', eq(attr_len(c, attr(c, x, 'data')), 0 if j == gone else s.n))
    add(PROP, f'{key} segments of two instances of a module are independent', body, INST, covers=('runs',), bounded=SEGMENTS)


drops('data')
drops('elem')
