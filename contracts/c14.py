"""C14: imports are linked only when their types match."""
import z3

from pydv import loops, sym
from pydv.sym import zand, zor, znot
from pydv.interp import BoundMethod, mkbool

from pydv.loops import POISON

from .common import *
from .c10 import anytype

PROP = 'C14'
INST = 'pywasm.core.Machine.instance'
RINST = 'pywasm.core.Runtime.instance'
ASSUMPTIONS = ['a supplied external value is an address of the store of its kind',
               'a maximum of 0 stands for no maximum (see the finding under C13)',
               'comparing two lists of types compares the elements with ValType.__eq__']
FUNC, TABLE, MEM, GLOBAL = 0, 1, 2, 3
KINDS = ['function', 'table', 'memory', 'global']
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]


# ---------------------------------------------------------------- types

def limits_match(n1, m1, n2, m2):
    """a size of n1 with maximum m1 (0: none) is at least as tight as the limits n2, m2"""
    return zand(bterm(sym.cmp('>=', n1, n2)),
                zor(bterm(sym.cmp('==', m2, 0)), zand(bterm(sym.cmp('!=', m1, 0)), bterm(sym.cmp('<=', m1, m2)))))


def truth(c, name, out, want):
    c.ensure(f'{name}: answers (got {out!r})', out.kind == 'normal')
    c.ensure(name, c.eng.truth_term(out.val) == want if c.symbolic and not isinstance(out.val, bool) else
             (bterm(out.val) == want if isinstance(want, z3.BoolRef) else bterm(out.val) is want))


def same_bool(c, name, out, want):
    c.ensure(f'{name}: answers (got {out!r})', out.kind == 'normal' and isinstance(out.val, (bool, SBool)))
    c.ensure(name, z3.BoolVal(True) == zboolean(bterm(out.val), want))


def zboolean(a, b):
    a = z3.BoolVal(a) if isinstance(a, bool) else a
    b = z3.BoolVal(b) if isinstance(b, bool) else b
    return a == b


U32 = (1 << 32) - 1


@contract(PROP, 'limits', 'pywasm.core.Limits.suit', covers=('done',))
def limits(c):
    a, b, x, y = (c.int(k, 0, U32) for k in ('n', 'm', 'n2', 'm2'))
    out = c.run(BoundMethod(core.Limits.suit, c.new(core.Limits, a, b)), c.new(core.Limits, x, y))
    c.cover('done')
    same_bool(c, 'at least as tight', out, limits_match(a, b, x, y))


@contract(PROP, 'the current size of a memory counts', 'pywasm.core.MemInst.suit', covers=('done',))
def mem_suit(c):
    m, q, n = memory(c, maxpages=3)
    lim = attr(c, m, 'type', 'limits')
    c.eng.wr(lim).attrs.update(n=c.int('declared', 0, 3), m=c.int('max', 0, U32))
    x, y = c.int('n2', 0, U32), c.int('m2', 0, U32)
    pre = Snap(c)
    out = c.run(BoundMethod(core.MemInst.suit, m), c.new(core.Limits, x, y))
    c.cover('done')
    same_bool(c, 'at least as tight', out, limits_match(attr(c, m, 'size'), attr(c, lim, 'm'), x, y))
    unchanged(c, 'only looks', pre, [m])


@contract(PROP, 'the current size of a table counts', 'pywasm.core.TableInst.suit', covers=('done',))
def table_suit(c):
    n = c.int('size', 0, 1000)
    m = table_inst(c, FUNCREF, c.seq('elem', n, lambda nm: ref_val(c, FUNCREF, nm)[0]), c.int('max', 0, U32), n) if c.symbolic else \
        table_inst(c, FUNCREF, [ref_val(c, FUNCREF, f'e{i}')[0] for i in range(n)], c.int('max', 0, U32))
    lim = attr(c, m, 'type', 'limits')
    c.eng.wr(lim).attrs['n'] = c.int('declared', 0, 1000)
    x, y = c.int('n2', 0, U32), c.int('m2', 0, U32)
    pre = Snap(c)
    out = c.run(BoundMethod(core.TableInst.suit, m), c.new(core.Limits, x, y))
    c.cover('done')
    same_bool(c, 'at least as tight', out, limits_match(n, attr(c, lim, 'm'), x, y))
    unchanged(c, 'only looks', pre, [m])


def type_pair(c, na, nb):
    ty = anytype(c)
    a = [ty(f'a{i}') for i in range(na)]
    b = [ty(f'b{i}') for i in range(nb)]
    return a, b, na == nb and zand(*[bterm(sym.cmp('==', attr(c, p, 'data'), attr(c, q, 'data'))) for p, q in zip(a, b)])


@contract(PROP, 'function signatures', 'pywasm.core.FuncType.__eq__', covers=('done',), bounded='at most 2 parameters and 2 results')
def signatures(c):
    n = [c.choice(f'n{i}', [0, 1, 2]) for i in range(4)]
    a, b, p = type_pair(c, n[0], n[1])
    x, y, q = type_pair2(c, n[2], n[3])
    out = c.run(BoundMethod(core.FuncType.__eq__, c.new(core.FuncType, c.list(a), c.list(x))), c.new(core.FuncType, c.list(b), c.list(y)))
    c.cover('done')
    same_bool(c, 'equal', out, zand(p, q))


def type_pair2(c, na, nb):
    ty = anytype(c)
    a = [ty(f'x{i}') for i in range(na)]
    b = [ty(f'y{i}') for i in range(nb)]
    return a, b, na == nb and zand(*[bterm(sym.cmp('==', attr(c, p, 'data'), attr(c, q, 'data'))) for p, q in zip(a, b)])


def signature(c, name):
    """a signature of any length"""
    ty = anytype(c)
    return (c.seq(name + '.args', c.int(name + '.nargs', 0, 1000), ty), c.seq(name + '.rets', c.int(name + '.nrets', 0, 1000), ty))


@contract(PROP, 'function signatures of any length: equal ones', 'pywasm.core.FuncType.__eq__', covers=('done',))
def signatures_same(c):
    a, r = signature(c, 'f')
    out = c.run(BoundMethod(core.FuncType.__eq__, c.new(core.FuncType, c.seglist(a), c.seglist(r))),
                c.new(core.FuncType, c.seglist(a), c.seglist(r)))
    c.cover('done')
    same_bool(c, 'equal', out, True)


def signatures_differ(where):
    def body(c):
        a, r = signature(c, 'f')
        (i, x), (j, y) = (a, 0), (r, 0)
        ty = anytype(c)
        p, q = ty('p'), ty('q')
        c.requires(bterm(sym.cmp('!=', attr(c, p, 'data'), attr(c, q, 'data'))))
        tail = c.seq('tail', c.int('ntail', 0, 1000), ty)
        one = {'a parameter': ([a, [p], tail], [r], [a, [q], tail], [r]),
               'a result': ([a], [r, [p], tail], [a], [r, [q], tail]),
               'a parameter more': ([a, [p]], [r], [a], [r]),
               'a result less': ([a], [r], [a], [r, [p]])}[where]
        f, g = c.new(core.FuncType, c.seglist(*one[0]), c.seglist(*one[1])), c.new(core.FuncType, c.seglist(*one[2]), c.seglist(*one[3]))
        out = c.run(BoundMethod(core.FuncType.__eq__, f), g)
        c.cover('done')
        same_bool(c, 'not equal', out, False)
    add(PROP, f'function signatures of any length: {where}', body, 'pywasm.core.FuncType.__eq__', covers=('done',))


for s in ('a parameter', 'a result', 'a parameter more', 'a result less'):
    signatures_differ(s)


@contract(PROP, 'value types', 'pywasm.core.ValType.__eq__', covers=('done',))
def valtypes(c):
    ty = anytype(c)
    a, b = ty('a'), ty('b')
    out = c.run(BoundMethod(core.ValType.__eq__, a), b)
    c.cover('done')
    same_bool(c, 'equal', out, bterm(sym.cmp('==', attr(c, a, 'data'), attr(c, b, 'data'))))


# ---------------------------------------------------------------- instantiation

def sig_of(c, nm):
    """a signature: which one it is is all that matters (FuncType.__eq__ is proved above)"""
    k = c.int(nm + '.sig', 0, 1 << 20)
    if c.symbolic:
        t = c.new(core.FuncType, c.list([]), c.list([]))
        c.eng.wr(t).attrs.update(args=POISON, rets=POISON)
        c.eng.wr(t).attrs['#id'] = k
        return t
    t = c.new(core.FuncType, c.list([vtype(c, I32)] * (k % 5)), c.list([vtype(c, I64)] * (k // 5 % 5)))
    return t


def sig_same(c, f, g):
    if c.symbolic:
        return bterm(sym.cmp('==', attr(c, f, '#id'), attr(c, g, '#id')))
    f, g = c.eng.rd(f).attrs, c.eng.rd(g).attrs
    return all(c.eng.list_len(c.eng.rd(f[k])) == c.eng.list_len(c.eng.rd(g[k])) for k in ('args', 'rets'))


def anyreftype(c):
    def f(nm):
        if not c.symbolic:
            return vtype(c, c.choice(nm, [FUNCREF, EXTERNREF]))
        d = c.int(nm, 0, 0x7f, small=False)
        c.requires(zor(*[bterm(sym.cmp('==', d, t)) for t in (FUNCREF, EXTERNREF)]))
        return vtype(c, d)
    return f


def typed(c, t, nm):
    v = val_bytes(c, I32, [c.bv(nm, 8)])
    c.eng.wr(v).attrs['type'] = t
    return v


def use_sig_eq(c):
    if c.symbolic:
        c.eng.contracts = {**c.eng.contracts,
                           'pywasm.core.FuncType.__eq__': lambda eng, a, b: mkbool(sym.cmp('==', eng.rd(a).attrs['#id'], eng.rd(b).attrs['#id']))}


class Linked:
    """a store with any number of entities of every kind, and a module that only imports"""

    def __init__(self, c):
        self.c = c
        use_sig_eq(c)
        m = self.m = c.new(core.Machine)
        self.store, self.stack = attr(c, m, 'store'), attr(c, m, 'stack')
        self.nk = [c.int(f'store.{k}', 1, 1000) for k in KINDS]
        self.nt = c.int('types', 1, 1000)

        ty = self.ty = anytype(c)
        rty = self.rty = anyreftype(c)
        anyref = lambda nm: val_bytes(c, FUNCREF, [c.bv(nm, 8)])

        def table(nm):
            k = c.int(nm + '.size', 0, 4)
            t = table_inst(c, FUNCREF, c.seq(nm + '.elem', k, anyref), c.int(nm + '.max', 0, U32), k)
            if not c.symbolic:
                c.eng.wr(t).attrs['size'] = k
            c.eng.wr(attr(c, t, 'type')).attrs['type'] = rty(nm + '.type')
            return t

        def mem(nm):
            r, q, k = memory(c, nm, maxpages=2)
            c.eng.wr(attr(c, r, 'type', 'limits')).attrs['m'] = c.int(nm + '.max', 0, U32)
            return r
        st = c.eng.wr(self.store).attrs
        self.lists = []
        for key, k, f in (('func', 0, lambda nm: c.new(core.FuncHost, sig_of(c, nm), 'host')), ('tabl', 1, table), ('mems', 2, mem),
                          ('glob', 3, lambda nm: c.new(core.GlobalInst, typed(c, ty(nm + '.type'), nm),
                                                       c.int(nm + '.mut', 0, 1)))):
            q = c.seq('store.' + key, self.nk[k], f)
            st[key] = c.seglist(q)
            self.lists.append(frozen(c, q, self.nk[k]))
        self.type_seq = c.seq('type', self.nt, lambda nm: sig_of(c, nm))
        self.types = frozen(c, self.type_seq, self.nt)

    def entity(self, k, a):
        return elem_at(self.c, self.lists[k], a)

    def extern(self, nm, kinds=(0, 1, 2, 3)):
        c = self.c
        k = kinds[0] if len(kinds) == 1 else c.int(nm + '.kind', 0, 3)
        if not c.symbolic:
            return c.new(core.Extern, k, below(c, nm + '.addr', self.nk[k]))
        a = c.int(nm + '.addr', 0, 999)
        for q in range(4):
            c.requires(zor(bterm(sym.cmp('!=', k, q)), bterm(sym.cmp('<', a, self.nk[q]))))
        return c.new(core.Extern, k, a)

    def imp(self, nm, kinds=(0, 1, 2, 3)):
        """an import of any kind and type"""
        c = self.c
        k = c.choice(nm + '.ikind', list(kinds))
        if k == FUNC:
            d = below(c, nm + '.typeidx', self.nt)
        elif k in (TABLE, MEM):
            lim = c.new(core.Limits, c.int(nm + '.n', 0, U32), c.int(nm + '.m', 0, U32))
            d = c.new(core.TableType, self.rty(nm + '.itype'), lim) if k == TABLE else c.new(core.MemType, lim)
        else:
            d = c.new(core.GlobalType, self.ty(nm + '.itype'), c.int(nm + '.imut', 0, 1))
        return c.new(core.Import, 'm', 'n', k, d)

    def match(self, i, e):
        """the specification's import matching"""
        c = self.c
        k, a, d = attr(c, i, 'kind'), attr(c, e, 'data'), attr(c, i, 'desc')
        other = bterm(sym.cmp('!=', attr(c, e, 'kind'), k))
        x = self.entity(k, a)
        if k == FUNC:
            return zand(znot(other), sig_same(c, attr(c, x, 'type'), elem_at(c, self.types, d)))
        if k == GLOBAL:
            return zand(znot(other), bterm(sym.cmp('==', attr(c, x, 'data', 'type', 'data'), attr(c, d, 'type', 'data'))),
                        bterm(sym.cmp('==', attr(c, x, 'mut'), attr(c, d, 'mut'))))
        lim = d if False else attr(c, d, 'limits')
        fit = limits_match(attr(c, x, 'size'), attr(c, x, 'type', 'limits', 'm'), attr(c, lim, 'n'), attr(c, lim, 'm'))
        if k == TABLE:
            fit = zand(fit, bterm(sym.cmp('==', attr(c, x, 'type', 'type', 'data'), attr(c, d, 'type', 'data'))))
        return zand(znot(other), fit)

    def module(self, imps):
        return module_desc(self.c, imps=imps, type=c_list(self.c, self.type_seq))


def c_list(c, q):
    return c.seglist(q)


def pairs(c, w, n, make, name=''):
    """two lists of n elements made together"""
    if not c.symbolic:
        ps = [make(f'{i}') for i in range(n)]
        return [p[0] for p in ps], [p[1] for p in ps]
    both = c.seq('pair' + name, n, make)
    xs, ys = c.seq('imp' + name, n, None), c.seq('ext' + name, n, None)
    xs.base.at = lambda eng, idx: eng.materialise(both, idx)[0]
    ys.base.at = lambda eng, idx: eng.materialise(both, idx)[1]
    return xs, ys


def run_linked(c, w, n, imps, ext):
    fi, fe = frozen(c, imps, n), frozen(c, ext, n)
    pre = Snap(c)
    out = c.run(core.Machine.instance, w.m, w.module(c.seglist(imps)), c.seglist(ext))
    return out, fi, fe, pre


def at_some(c, n):
    """any index below n -- all of them when the inputs are concrete"""
    if not c.symbolic:
        return range(n)
    if not c.decide(sym.cmp('>', n, 0)):
        return ()
    k = c.int('k', 0, 999, small=False)
    c.requires(bterm(sym.cmp('<', k, n)))
    return (k,)


def only_matching(kind):
    """instantiation succeeds only when import k -- any k, of this kind -- matches what is supplied for it"""
    def body(c):
        n = c.int('n', 0, 1000)
        w = Linked(c)
        imps, ext = c.seq('imp', n, w.imp), c.seq('ext', n, w.extern)
        out, fi, fe, pre = run_linked(c, w, n, imps, ext)
        c.cover(out.kind)
        c.ensure(f'links or refuses (got {out!r})', out.kind in ('normal', 'raise'))
        if out.kind == 'raise':
            unchanged(c, 'the store is left alone', pre, [w.store])
            return
        for k in at_some(c, n):
            if c.symbolic:
                loops.instantiate(c.eng, k)
            i, e = elem_at(c, fi, k), elem_at(c, fe, k)
            if attr(c, i, 'kind') == kind:
                c.ensure('it matches', w.match(i, e))
    add(PROP, f'only a matching {KINDS[kind]} is linked', body, INST, covers=('normal', 'raise'))


def matching(kind):
    """all imports match: instantiation succeeds, and the module gets the supplied entities in order"""
    def body(c):
        n = c.int('n', 0, 1000)
        w = Linked(c)

        def make(nm):
            i, e = w.imp(nm, (kind,)), w.extern(nm, (kind,))
            c.requires(w.match(i, e))
            return i, e
        imps, ext = pairs(c, w, n, make)
        out, fi, fe, pre = run_linked(c, w, n, imps, ext)
        c.cover('linked')
        c.ensure(f'linked (got {out!r})', out.kind == 'normal')
        unchanged(c, 'nothing else happens to the store', pre, [w.store])
        lst = attr(c, out.val, ['func', 'tabl', 'mems', 'glob'][kind])
        c.ensure('all of them', bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(lst)), n)))
        for k in at_some(c, n):
            c.ensure('the supplied one', bterm(sym.cmp('==', elem_at(c, lst, k), attr(c, elem_at(c, fe, k), 'data'))))
    add(PROP, f'matching {KINDS[kind]} imports are accepted', body, INST, covers=('linked',))


for k in range(4):
    only_matching(k)
    matching(k)


@contract(PROP, 'a value for every import', INST, covers=('tried',))
def count(c):
    n, k = c.int('n', 0, 1000), c.int('given', 0, 1000)
    c.requires(bterm(sym.cmp('!=', n, k)))
    w = Linked(c)
    ext, imps = c.seq('ext', k, lambda nm: w.extern(nm)), c.seq('imp', n, lambda nm: w.imp(nm))
    pre = Snap(c)
    out = c.run(core.Machine.instance, w.m, w.module(c.seglist(imps)), c.seglist(ext))
    c.cover('tried')
    c.ensure(f'refused (got {out!r})', out.kind == 'raise')
    unchanged(c, 'the store is left alone', pre, [w.store])


# ---------------------------------------------------------------- names

def hand_over(c):
    """Machine.instance replaced by one that answers the externs it was given"""
    if c.symbolic:
        c.eng.contracts = {**c.eng.contracts, INST: lambda eng, m, module, extern: extern}
        return

    def make(lw):
        return lambda m, module, extern: extern
    make.wants_lower = True
    c.patch(core.Machine, 'instance', make)


def registry(c):
    """a runtime with imports p.x p.y q.x, each for a different entity"""
    rt = c.new(core.Runtime)
    es = {k: c.new(core.Extern, i % 4, 10 + i) for i, k in enumerate((('p', 'x'), ('p', 'y'), ('q', 'x')))}
    c.eng.wr(rt).attrs['imports'] = c.dict({'p': c.dict({'x': es['p', 'x'], 'y': es['p', 'y']}), 'q': c.dict({'x': es['q', 'x']})})
    return rt, es


@contract(PROP, 'imports are looked up by module and name, in order', RINST, covers=('done',))
def lookup(c):
    rt, es = registry(c)
    hand_over(c)
    n = c.int('n', 0, 1000)
    imps = c.seq('imp', n, lambda nm: c.new(core.Import, *c.choice(nm, list(es)), 0, 0))
    src = frozen(c, imps, n)
    out = c.run(core.Runtime.instance, rt, module_desc(c, imps=c.seglist(imps)))
    c.cover('done')
    c.ensure(f'linked (got {out!r})', out.kind == 'normal')
    c.ensure('one each', bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(out.val)), n)))
    for k in at_some(c, n):
        i, e = elem_at(c, src, k), elem_at(c, out.val, k)
        want = es[attr(c, i, 'module'), attr(c, i, 'name')]
        for a in ('kind', 'data'):
            c.ensure(f'what was registered under these names: {a}', bterm(sym.cmp('==', attr(c, e, a), attr(c, want, a))))


@contract(PROP, 'a name nobody registered', RINST, covers=('done',))
def unknown_name(c):
    rt, es = registry(c)
    hand_over(c)
    n, m = c.int('before', 0, 500), c.int('after', 0, 500)
    any_ = lambda nm: c.new(core.Import, *c.choice(nm, list(es)), 0, 0)
    bad = c.new(core.Import, *c.choice('bad', [('q', 'y'), ('r', 'x'), ('x', 'p')]), 0, 0)
    store = attr(c, rt, 'machine', 'store')
    pre = Snap(c)
    out = c.run(core.Runtime.instance, rt, module_desc(c, imps=c.seglist(c.seq('imp', n, any_), [bad], c.seq('more', m, any_))))
    c.cover('done')
    c.ensure(f'refused (got {out!r})', out.kind == 'raise')
    unchanged(c, 'the store is left alone', pre, [store])
