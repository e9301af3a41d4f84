"""C07: table instructions and references."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *

PROP = 'C07'
EVAL = 'pywasm.core.Machine.evaluate'
ASSUMPTIONS = ['a limits record whose maximum is 0 declares no maximum (pywasm.core.Limits); a declared maximum of 0 is a known finding of '
               'C13', 'tables have fewer than 2^31 elements', 'reference values on the stack have the type validation gives them']
CAP = 1024     # the implementation's own limit in elements
TMAX = (1 << 32) - 1


class Tab:
    def __init__(self, c, name='tab', t=FUNCREF, limit=0, hi=(1 << 31) - 1):
        self.t = t
        self.n = c.int(name + '.n', 0, hi)
        self.seg = refseq(c, name, t, self.n)
        self.inst = table_inst(c, t, self.seg, limit, self.n)
        self.old = frozen(c, self.seg, self.n)
        self.hole = (self.inst, 'elem')

    def elem(self, c):
        return attr(c, self.inst, 'elem')


def other(c):
    """the module's table 0, never addressed by the instruction under contract"""
    return table_inst(c, FUNCREF, [ref_val(c, FUNCREF, 'other0')[0]])


def rtype(c):
    return c.choice('reftype', [FUNCREF, EXTERNREF])


def idx(c, name, n):
    return c.bv(name, 32, near=[0, n])


def list_same(c, name, t):
    """nothing in table t changed"""
    list_is(c, name, t.elem(c), t.n, lambda k: elem_at(c, t.old, k))


@contract(PROP, 'table.get', EVAL, covers=('trap', 'read'))
def table_get(c):
    t = Tab(c, t=rtype(c))
    i = idx(c, 'i', t.n)
    w = machine(c, [inst(c, 'table.get', [1])], [val(c, I32, i)], tabl=[other(c), t.inst])
    out = go(c, w)
    ii = sym.ubv(i)
    if c.decide(sym.cmp('>=', ii, t.n)):
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('read')
        finish(c, w, out, [lambda v: same_val(c, v, elem_at(c, t.old, ii))])


@contract(PROP, 'table.set', EVAL, covers=('trap', 'written'))
def table_set(c):
    t = Tab(c, t=rtype(c))
    i = idx(c, 'i', t.n)
    v, nul, a = ref_val(c, t.t, 'v')
    w = machine(c, [inst(c, 'table.set', [1])], [val(c, I32, i), v], tabl=[other(c), t.inst])
    ii = sym.ubv(i)
    out_of_range = c.decide(sym.cmp('>=', ii, t.n))
    if not out_of_range:
        w.operands.append(c.eng.list_get(t.elem(c), ii))  # the old element may be shared with the stack (table.get)
        w.pre = Snap(c)
    out = go(c, w)
    if out_of_range:
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('written')
        finish(c, w, out, [], holes=[t.hole])
        list_is(c, 'exactly the addressed element is replaced', t.elem(c), t.n,
                lambda k: v if c.decide(sym.cmp('==', k, ii)) else elem_at(c, t.old, k))


@contract(PROP, 'table.size', EVAL, covers=('runs',))
def table_size(c):
    t = Tab(c, t=rtype(c))
    w = machine(c, [inst(c, 'table.size', [1])], [], tabl=[other(c), t.inst])
    out = go(c, w)
    c.cover('runs')
    finish(c, w, out, [(I32, sym.low(t.n, 32))])


@contract(PROP, 'table.grow', EVAL, covers=('grown', 'refused', 'free'))
def table_grow(c):
    limit = c.int('tab.max', 0, TMAX)
    t = Tab(c, t=rtype(c), limit=limit)
    c.requires(zor(bterm(sym.cmp('==', limit, 0)), bterm(sym.cmp('<=', t.n, limit))))
    n = c.bv('n', 32, near=[0, 1, 2, sym.conc_or(limit, lambda v: v - sym.concretize(t.n)), CAP])
    if not c.symbolic and sym.concretize(sym.ubv(n)) > 3000 and limit == 0:
        raise Reject()
    v, nul, a = ref_val(c, t.t, 'v')
    w = machine(c, [inst(c, 'table.grow', [1])], [v, val(c, I32, n)], tabl=[other(c), t.inst])
    out = go(c, w)
    new = sym.add(t.n, sym.ubv(n))
    over = zor(bterm(sym.cmp('>', new, TMAX)), zand(znot(bterm(sym.cmp('==', limit, 0))), bterm(sym.cmp('>', new, limit))))
    within = zand(znot(over), bterm(sym.cmp('<=', new, CAP)))

    def refused():
        finish(c, w, out, [(I32, z3.BitVecVal(-1, 32))])

    def grown():
        finish(c, w, out, [(I32, sym.low(t.n, 32))], holes=[t.hole, (t.inst, 'size')])
        c.ensure('the size is the old size plus the increment', bterm(sym.cmp('==', attr(c, t.inst, 'size'), new)))
        list_is(c, 'old elements are kept and new elements hold the given reference', t.elem(c), new,
                lambda k: elem_at(c, t.old, k) if c.decide(sym.cmp('<', k, t.n)) else v)
    if c.decide(over):
        c.cover('refused')
        refused()
    elif c.decide(within):
        c.cover('grown')
        grown()
    else:
        c.cover('free')
        if not c.decide(sym.cmp('==', attr(c, t.inst, 'size'), new)):
            refused()
        elif c.decide(sym.cmp('==', sym.ubv(n), 0)):
            got = stack_is(c, w, [None])
            c.ensure('one result', out.kind == 'stop' and got is not None)
            c.ensure('old size or -1', zor(is_val(c, got[0], I32, sym.low(t.n, 32)), is_val(c, got[0], I32, z3.BitVecVal(-1, 32))))
            unchanged(c, 'nothing else changes', w.pre, [w.m] + w.operands, [(w.stack, 'value'), (w.label, 'index')])
        else:
            grown()


@contract(PROP, 'table.fill', EVAL, covers=('trap', 'filled'))
def table_fill(c):
    t = Tab(c, t=rtype(c))
    n = idx(c, 'n', t.n)
    d = c.bv('d', 32, near=[0, t.n, sym.conc_or(t.n, lambda v: v - sym.concretize(sym.ubv(n)))])
    v, nul, a = ref_val(c, t.t, 'v')
    w = machine(c, [inst(c, 'table.fill', [1])], [val(c, I32, d), v, val(c, I32, n)], tabl=[other(c), t.inst])
    out = go(c, w)
    dd, end = sym.ubv(d), sym.add(sym.ubv(d), sym.ubv(n))
    if c.decide(sym.cmp('>', end, t.n)):
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('filled')
        finish(c, w, out, [], holes=[t.hole])
        list_is(c, 'exactly the range holds the given reference', t.elem(c), t.n,
                lambda k: v if c.decide(zand(bterm(sym.cmp('>=', k, dd)), bterm(sym.cmp('<', k, end)))) else elem_at(c, t.old, k))


def moved(c, t, d, s, n, src):
    """table t after elements s.. of the ghost list src went to d.."""
    dd, ss, end = sym.ubv(d), sym.ubv(s), sym.add(sym.ubv(d), sym.ubv(n))

    def source(k):
        j = sym.add(sym.sub(k, dd), ss)
        ok = zand(bterm(sym.cmp('>=', j, 0)), bterm(sym.cmp('<', j, c.eng.list_len(c.eng.rd(src)))))
        c.ensure('the source range is inside the source', ok)
        if c.symbolic:
            c.requires(ok)
        return elem_at(c, src, j)
    list_is(c, 'exactly the destination range holds the source elements', t.elem(c), t.n,
            lambda k: source(k)
            if c.decide(zand(bterm(sym.cmp('>=', k, dd)), bterm(sym.cmp('<', k, end)))) else elem_at(c, t.old, k))


def dsn(c, dl, sl):
    n = idx(c, 'n', dl)
    nn = sym.concretize(sym.ubv(n))
    d = c.bv('d', 32, near=[0, dl, sym.conc_or(dl, lambda v: v - nn)])
    s = c.bv('s', 32, near=[0, sl, sym.conc_or(sl, lambda v: v - nn)])
    return d, s, n


def beyond(a, n, ln):
    return sym.cmp('>', sym.add(sym.ubv(a), sym.ubv(n)), ln)


@contract(PROP, 'table.copy', EVAL, covers=('trap', 'copied'))
def table_copy(c):
    rt = rtype(c)
    x, y = Tab(c, 'x', rt), Tab(c, 'y', rt)
    d, s, n = dsn(c, x.n, y.n)
    w = machine(c, [inst(c, 'table.copy', [1, 2])], [val(c, I32, d), val(c, I32, s), val(c, I32, n)],
                tabl=[other(c), x.inst, y.inst])
    out = go(c, w)
    if c.decide(zor(beyond(d, n, x.n), beyond(s, n, y.n))):
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('copied')
        finish(c, w, out, [], holes=[x.hole])
        moved(c, x, d, s, n, y.old)


@contract(PROP, 'table.copy (one table)', EVAL, covers=('trap', 'copied'))
def table_copy_self(c):
    x = Tab(c, 'x', rtype(c))
    d, s, n = dsn(c, x.n, x.n)
    w = machine(c, [inst(c, 'table.copy', [1, 1])], [val(c, I32, d), val(c, I32, s), val(c, I32, n)], tabl=[other(c), x.inst])
    out = go(c, w)
    if c.decide(zor(beyond(d, n, x.n), beyond(s, n, x.n))):
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('copied')
        finish(c, w, out, [], holes=[x.hole])
        moved(c, x, d, s, n, x.old)


def segment(c, t):
    n = c.int('seg.n', 0, TMAX)
    seg = refseq(c, 'seg', t, n)
    return c.new(core.ElemInst, vtype(c, t), frozen(c, seg, n)), frozen(c, seg, n), n


def noseg(c):
    return c.new(core.ElemInst, vtype(c, FUNCREF), c.list([ref_val(c, FUNCREF, 'otherseg')[0]]))


@contract(PROP, 'table.init', EVAL, covers=('trap', 'copied'))
def table_init(c):
    x = Tab(c, 'x', rtype(c))
    e, src, sn = segment(c, x.t)
    d, s, n = dsn(c, x.n, sn)
    w = machine(c, [inst(c, 'table.init', [2, 1])], [val(c, I32, d), val(c, I32, s), val(c, I32, n)],
                tabl=[other(c), x.inst, other(c)], elems=[noseg(c), noseg(c), e])
    out = go(c, w)
    if c.decide(zor(beyond(d, n, x.n), beyond(s, n, sn))):
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('copied')
        finish(c, w, out, [], holes=[x.hole])
        moved(c, x, d, s, n, src)


@contract(PROP, 'elem.drop', EVAL, covers=('trap', 'empty'))
def elem_drop(c):
    """after elem.drop the segment behaves as empty: table.init traps unless n = s = 0"""
    x = Tab(c, 'x', rtype(c))
    e, src, sn = segment(c, x.t)
    tabs, segs = [other(c), x.inst], [noseg(c), e]
    d, s, n = dsn(c, x.n, 0)
    w = machine(c, [inst(c, 'elem.drop', [1])], tabl=tabs, elems=segs)
    out = go(c, w)
    finish(c, w, out, [], holes=[(e, 'data')])
    w2 = machine(c, [inst(c, 'table.init', [1, 1])], [val(c, I32, d), val(c, I32, s), val(c, I32, n)], tabl=tabs, elems=segs)
    out = go(c, w2)
    if c.decide(zor(beyond(d, n, x.n), beyond(s, n, 0))):
        c.cover('trap')
        traps(c, w2, out)
    else:
        c.cover('empty')
        finish(c, w2, out, [])


@contract(PROP, 'dropping a segment leaves the tables it initialised alone', EVAL, covers=('done',))
def init_then_drop(c):
    """table.init followed by elem.drop: the table keeps the references"""
    x = Tab(c, 'x', rtype(c))
    e, src, sn = segment(c, x.t)
    d, s, n = dsn(c, x.n, sn)
    w = machine(c, [inst(c, 'table.init', [0, 0]), inst(c, 'elem.drop', [0])], [val(c, I32, d), val(c, I32, s), val(c, I32, n)],
                tabl=[x.inst], elems=[e])
    c.requires(znot(zor(beyond(d, n, x.n), beyond(s, n, sn))))
    out = go(c, w)
    c.cover('done')
    finish(c, w, out, [], holes=[x.hole, (e, 'data')])
    moved(c, x, d, s, n, src)


@contract(PROP, 'ref.null', EVAL, covers=('runs',))
def ref_null(c):
    t = rtype(c)
    i = c.run(core.Inst.from_reader, c.eng.instantiate(io.BytesIO, [SBytes(sym.mkcb(list(ENC['ref.null']) + [t, 0x0b]))], {}))
    c.ensure('decodes', i.kind == 'normal')
    w = machine(c, [i.val])
    out = go(c, w)
    c.cover('runs')

    def null(v):
        return zand(sym.cmp('==', attr(c, v, 'type', 'data'), t) if has_attrs(c, v, 'type', 'data') else False,
                    is_null(c, v) is not False and is_null(c, v))
    finish(c, w, out, [null])


def is_null(c, v):
    """the flag byte that distinguishes null from an address"""
    return sym.cmp('==', sym.bs_get(val_seq(c, v), 4), 0)


@contract(PROP, 'ref.is_null', EVAL, covers=('null', 'not null'))
def ref_is_null(c):
    v, nul, a = ref_val(c, rtype(c), 'v')
    w = machine(c, [inst(c, 'ref.is_null')], [v])
    out = go(c, w)
    if c.decide(nul):
        c.cover('null')
        finish(c, w, out, [(I32, z3.BitVecVal(1, 32))])
    else:
        c.cover('not null')
        finish(c, w, out, [(I32, z3.BitVecVal(0, 32))])


@contract(PROP, 'ref.func', EVAL, covers=('runs',))
def ref_func(c):
    """the address of the module's function, as a reference that is not null"""
    w = machine(c, [inst(c, 'ref.func', [1])], funcs=[c.new(core.FuncHost, functype(c, [], []), 'a'),
                                                      c.new(core.FuncHost, functype(c, [I32], []), 'b')])
    addr = c.int('addr', 0, (1 << 31) - 1)
    # any address in the store, not just a small one
    c.eng.wr(attr(c, w.mod, 'func')).segs = [[1, addr]]
    w.pre = Snap(c)
    out = go(c, w)
    c.cover('runs')
    want = z3.Concat(z3.BitVecVal(1, 8), sym.low(addr, 32))
    finish(c, w, out, [lambda v: is_val(c, v, FUNCREF, want)])


def invariant(c, t, name):
    size, lim = attr(c, t, 'size'), attr(c, t, 'type', 'limits', 'm')
    ln = c.eng.list_len(c.eng.rd(attr(c, t, 'elem')))
    c.ensure(f'{name}: size matches the elements', bterm(sym.cmp('==', ln, size)))
    c.ensure(f'{name}: at most the declared maximum', zor(bterm(sym.cmp('==', lim, 0)), bterm(sym.cmp('<=', size, lim))))


@contract(PROP, 'TableInst()', 'pywasm.core.TableInst.__init__', covers=('made', 'refused'))
def table_new(c):
    """a new table has the declared minimum of null references; a minimum beyond the maximum is refused"""
    n = c.int('min', 0, TMAX)
    m = c.int('max', 0, TMAX)
    t = rtype(c)
    if not c.symbolic and n > 5000:
        raise Reject()
    out = c.run(core.TableInst, c.new(core.TableType, vtype(c, t), c.new(core.Limits, n, m)))
    if c.decide(zand(znot(bterm(sym.cmp('==', m, 0))), bterm(sym.cmp('>', n, m)))):
        c.cover('refused')
        c.ensure('refused', out.kind == 'raise')
        return
    c.cover('made')
    c.ensure('made', out.kind == 'normal')
    invariant(c, out.val, 'new table')
    list_is(c, 'all elements are null', attr(c, out.val, 'elem'), n, lambda k: val_bytes(c, t, []))


@contract(PROP, 'TableInst.grow', 'pywasm.core.TableInst.grow', covers=('grown', 'refused'))
def tableinst_grow(c):
    limit = c.int('max', 0, TMAX)
    t = Tab(c, t=rtype(c), limit=limit)
    c.requires(zor(bterm(sym.cmp('==', limit, 0)), bterm(sym.cmp('<=', t.n, limit))))
    n = c.int('n', 0, TMAX)
    v, nul, a = ref_val(c, t.t, 'v')
    pre = Snap(c)
    out = c.run(core.TableInst.grow, t.inst, n, v)
    invariant(c, t.inst, 'after grow')
    if out.kind == 'raise':
        c.cover('refused')
        unchanged(c, 'a refused grow changes nothing', pre, [t.inst])
    else:
        c.cover('grown')
        new = sym.add(t.n, n)
        list_is(c, 'old elements are kept and new elements hold the given reference', t.elem(c), new,
                lambda k: elem_at(c, t.old, k) if c.decide(sym.cmp('<', k, t.n)) else v)
