"""C08: locals, globals, drop and select."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *

PROP = 'C08'
EVAL = 'pywasm.core.Machine.evaluate'
NMAX = (1 << 31) - 1
ASSUMPTIONS = ['instructions have valid immediates (indices within the index space), as in a validated module']
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]


def anyv(c, name, t=None):
    """value of any type: (ValInst, type, its 128 payload bits)"""
    t = c.choice(name + '.type', TYPES) if t is None else t
    if t in (FUNCREF, EXTERNREF):
        v = ref_val(c, t, name)[0]
        return v, t, sym.bytes_le_term(list(val_seq(c, v).items))
    b = c.bv(name, WIDTH[t])
    return val(c, t, b), t, b


def frozenval(c, v):
    """the value as it is now, whatever happens to the object later"""
    return val_bytes(c, attr(c, v, 'type', 'data'), list(val_seq(c, v).items))


class Loc:
    def __init__(self, c):
        self.n = c.int('nlocals', 1, NMAX)
        self.seg = c.seq('local', self.n, lambda nm: val(c, I64, c.bv(nm, 64)))
        self.i = c.int('index', 0, NMAX)
        if not c.symbolic:
            self.i = min(self.i, self.n - 1)
        c.requires(bterm(sym.cmp('<', self.i, self.n)))
        self.ref = frozen(c, self.seg, self.n)
        self.old = frozen(c, self.seg, self.n)


@contract(PROP, 'local.get', EVAL, covers=('runs',))
def local_get(c):
    l = Loc(c)
    w = machine(c, [inst(c, 'local.get', [l.i])], locals_=l.ref)
    out = go(c, w)
    c.cover('runs')
    finish(c, w, out, [lambda v: same_val(c, v, elem_at(c, l.old, l.i))])


def set_like(name, keeps):
    def body(c):
        l = Loc(c)
        v, t, b = anyv(c, 'v')
        keep = frozenval(c, v)
        w = machine(c, [inst(c, name, [l.i])], [v], locals_=l.ref)
        w.operands.append(c.eng.list_get(l.ref, l.i))  # the old value may be shared with the stack (local.get)
        w.pre = Snap(c)
        out = go(c, w)
        c.cover('runs')
        finish(c, w, out, [lambda x: same_val(c, x, keep)] if keeps else [], holes=[(w.locals, 'data')])
        list_is(c, 'exactly the indexed local is replaced', attr(c, w.locals, 'data'), l.n,
                lambda k: keep if c.decide(sym.cmp('==', k, l.i)) else elem_at(c, l.old, k))
    add(PROP, name, body, EVAL, covers=('runs',))


set_like('local.set', False)
set_like('local.tee', True)


class Glob:
    """a store of unknown globals and a module that maps its indices to any of them"""

    def __init__(self, c, w_args, mut=None, t=None):
        self.n = c.int('nstore', 1, NMAX)
        self.k = c.int('nglob', 1, NMAX)
        self.i = c.int('index', 0, NMAX)
        if not c.symbolic:
            self.i = min(self.i, self.k - 1)
        c.requires(bterm(sym.cmp('<', self.i, self.k)))
        addr = self.addr = c.int('addr', 0, NMAX)
        if not c.symbolic:
            addr = self.addr = min(self.addr, self.n - 1)
        c.requires(bterm(sym.cmp('<', addr, self.n)))
        self.v, self.t, self.b = anyv(c, 'g', t)
        self.old = frozenval(c, self.v)
        self.mut = c.int('mut', 0, 1, small=False) if mut is None else mut
        self.inst = c.new(core.GlobalInst, self.v, self.mut)
        unknown = lambda nm: c.new(core.GlobalInst, val(c, I64, c.bv(nm, 64)), 1)
        ints = lambda nm: c.int(nm, 0, NMAX)
        after = sym.sub(sym.sub(self.n, addr), 1)
        rest = sym.sub(sym.sub(self.k, self.i), 1)
        w = self.w = machine(c, *w_args)
        c.eng.wr(w.store).attrs['glob'] = c.seglist(c.seq('ga', addr, unknown), [self.inst], c.seq('gb', after, unknown))
        c.eng.wr(w.mod).attrs['glob'] = c.seglist(c.seq('ia', self.i, ints), [addr], c.seq('ib', rest, ints))
        w.pre = Snap(c)


@contract(PROP, 'global.get', EVAL, covers=('runs',))
def global_get(c):
    i = inst(c, 'global.get', [0])
    g = Glob(c, ([i],))
    c.eng.wr(attr(c, i, 'args')).segs = [[g.i]]
    g.w.pre = Snap(c)
    out = go(c, g.w)
    c.cover('runs')
    finish(c, g.w, out, [lambda v: same_val(c, v, g.old)])


@contract(PROP, 'global.set', EVAL, covers=('set',))
def global_set(c):
    i = inst(c, 'global.set', [0])
    t = c.choice('type', TYPES)
    v, t, b = anyv(c, 'v', t)
    keep = frozenval(c, v)
    g = Glob(c, ([i], [v]), mut=1, t=t)
    c.eng.wr(attr(c, i, 'args')).segs = [[g.i]]
    g.w.operands.append(g.v)  # the old value may be shared with the stack (global.get)
    g.w.pre = Snap(c)
    out = go(c, g.w)
    c.cover('set')
    finish(c, g.w, out, [], holes=[(g.inst, 'data')])
    c.ensure('the indexed global holds the value', same_val(c, attr(c, g.inst, 'data'), keep))


@contract(PROP, 'global.set (immutable)', EVAL, covers=('refused',))
def global_set_const(c):
    """validation excludes it; should it run anyway, the global does not change"""
    i = inst(c, 'global.set', [0])
    v, t, b = anyv(c, 'v')
    g = Glob(c, ([i], [v]), mut=0, t=t)
    c.eng.wr(attr(c, i, 'args')).segs = [[g.i]]
    g.w.pre = Snap(c)
    out = go(c, g.w)
    c.cover('refused')
    traps(c, g.w, out)


@contract(PROP, 'drop', EVAL, covers=('runs',))
def drop(c):
    v, t, b = anyv(c, 'v')
    w = machine(c, [inst(c, 'drop')], [v])
    out = go(c, w)
    c.cover('runs')
    finish(c, w, out, [])


def select(name, args):
    def body(c):
        t = c.choice('type', TYPES if args is not None else TYPES[:5])
        a, _, _ = anyv(c, 'a', t)
        b, _, _ = anyv(c, 'b', t)
        ka, kb = frozenval(c, a), frozenval(c, b)
        k = c.bv('cond', 32)
        w = machine(c, [inst(c, name, [] if args is None else [c.list([t])])], [a, b, val(c, I32, k)])
        out = go(c, w)
        if c.decide(k != 0):
            c.cover('first')
            finish(c, w, out, [lambda v: same_val(c, v, ka)])
        else:
            c.cover('second')
            finish(c, w, out, [lambda v: same_val(c, v, kb)])
    add(PROP, name, body, EVAL, covers=('first', 'second'))


select('select', None)
select('select_t', 1)


@contract(PROP, 'nop', EVAL, covers=('runs',))
def nop(c):
    w = machine(c, [inst(c, 'nop')])
    out = go(c, w)
    c.cover('runs')
    finish(c, w, out, [])


@contract(PROP, 'two frames keep their own locals', EVAL, covers=('runs',))
def frames(c):
    """local.set in the running function leaves the caller's locals alone even when both lists start out equal"""
    l = Loc(c)
    v, t, b = anyv(c, 'v')
    keep = frozenval(c, v)
    w = machine(c, [inst(c, 'local.set', [l.i]), inst(c, 'local.get', [l.i])], [v], locals_=l.ref)
    caller = c.eng.rd(attr(c, w.stack, 'frame')).segs[0][0]
    mine = c.new(core.LocalsInst, frozen(c, l.seg, l.n))
    c.eng.wr(caller).attrs['locals'] = mine
    w.pre = Snap(c)
    out = go(c, w)
    c.cover('runs')
    finish(c, w, out, [lambda x: same_val(c, x, keep)], holes=[(w.locals, 'data')])
