"""C10: calls, returns, indirect calls and host calls."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *
from .fp import *

PROP = 'C10'
EVAL = 'pywasm.core.Machine.evaluate'
CALL = 'pywasm.core.Machine.evaluate_call'
BR = 'pywasm.core.Machine.evaluate_br'
ASSUMPTIONS = ['the program is valid: enough operands of the right types are on the stack',
               'host functions return the number and types of values their signature declares',
               'calls nest at least 400 deep without a trap and at most 4096 deep (the specification leaves the bound to the implementation)',
               'comparing two lists of types compares the elements with ValType.__eq__, which has its own contract']
DEEP = 4096
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]


def anytype(c):
    """a value type"""
    def f(nm):
        if not c.symbolic:
            return vtype(c, c.code(nm, TYPES))
        d = c.int(nm, 0, 0x7f, small=False)
        c.requires(zor(*[bterm(sym.cmp('==', d, t)) for t in TYPES]))
        return vtype(c, d)
    return f


class Callee:
    """a function with any number of parameters, results and local declarations, in a module of its own"""

    def __init__(self, c, body, name='f', types=None):
        self.p, self.r, self.g = c.int(name + '.params', 0, 1000), c.int(name + '.results', 0, 1000), c.int(name + '.groups', 0, 1000)
        self.ps, self.rs = c.seq('arg', self.p, anyval(c)), c.seq('result', self.r, anyval(c))
        self.pt, self.rt = c.seq(name + '.ptype', self.p, anytype(c)), c.seq(name + '.rtype', self.r, anytype(c))
        self.type = c.new(core.FuncType, c.seglist(self.pt), c.seglist(self.rt))
        ty = anytype(c)
        self.decls = c.seglist(c.seq('locals', self.g, lambda nm: c.new(core.LocalsDesc, c.int(nm + '.n', 0, (1 << 32) - 1), ty(nm + '.t'))))
        self.module = c.new(core.ModuleInst)
        self.code = c.new(core.FuncDesc, 0, self.decls, c.new(core.Expr, c.list(list(body))))
        self.inst = c.new(core.FuncInst, self.type, self.module, self.code)


def decoyfunc(c):
    return c.new(core.FuncHost, functype(c, [], []), 'decoy')


def zero_locals(c, name, lst, f):
    """the locals are the arguments followed by one zero for every declared local"""
    if not c.symbolic:
        xs = c.eng.rd(lst).segs
        xs = [x for s in xs for x in s]
        want = list(f.ps)
        for d in [x for s in c.eng.rd(f.decls).segs for x in s]:
            want += [val_bytes(c, attr(c, d, 'type', 'data'), [])] * attr(c, d, 'n')
        c.ensure(name, len(xs) == len(want) and all(bool_of(same_val(c, x, y)) for x, y in zip(xs, want)))
        return
    segs = c.eng.rd(lst).segs
    fold = [s for s in segs if isinstance(s, FoldSeg)]
    if not fold:
        # no declarations, on this path
        c.ensure(name + ' (no declaration)', bterm(sym.cmp('==', f.g, 0)))
        c.ensure(name, listed(c, lst, [f.ps]))
        return
    c.ensure(name + ': arguments, then locals', len(fold) == 1 and segs[-1] is fold[0] and
             listed(c, c.seglist(*[list(s) if isinstance(s, list) else s for s in segs[:-1]]), [f.ps]))
    fo = fold[0]
    c.ensure(name + ': every declaration', fo.src == f.decls and bterm(sym.cmp('==', fo.count, f.g)))
    for a in fo.assum:
        c.requires(a)
    c.ensure(name + ': one run of values for each declaration', len(fo.segs) == 1)
    part = fo.segs[0]
    c.ensure(name + ': as many as declared', bterm(sym.cmp('==', c.eng.seg_len(part), attr(c, fo.elem, 'n'))))
    if not c.decide(sym.cmp('>', attr(c, fo.elem, 'n'), 0)):
        return
    v = c.eng.materialise(part, c.int('which', 0, 0)) if not isinstance(part, list) else part[0]
    c.ensure(name + ': zeros of the declared type', same_val(c, v, val_bytes(c, attr(c, fo.elem, 'type', 'data'), [])))


def bool_of(x):
    return x if isinstance(x, bool) else z3.is_true(z3.simplify(x))


def small_decls(c, f):
    """concrete runs: keep the number of locals small"""
    if not c.symbolic:
        for d in [x for s in c.eng.rd(f.decls).segs for x in s]:
            if attr(c, d, 'n') > (500 if c.rnd is not None else 100000):
                raise Reject()


def call_setup(c, body, instr='call', args=(1,), extra=(), before=None, **kw):
    f = Callee(c, body)
    small_decls(c, f)
    w = deep(c, [inst(c, instr, list(args))], [f.ps, *extra], funcs=[decoyfunc(c), f.inst], **kw)
    return w, f


def in_callee(c, w, f, out, name='call'):
    c.ensure(f'{name}: the callee starts' + ('' if out.kind == 'stop' and out.stop == 'in' else f' (got {out!r})'),
             out.kind == 'stop' and out.stop == 'in')
    c.ensure(f'{name}: the arguments are gone from the stack', listed(c, attr(c, w.stack, 'value'), [w.base]))
    fr = attr(c, w.stack, 'frame')
    c.ensure(f'{name}: one frame more', bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(fr)), sym.add(w.nf, 3))))
    top = elem_at(c, fr, -1)
    c.ensure(f'{name}: runs in its own module', attr(c, top, 'module') == f.module)
    return attr(c, top, 'locals', 'data')


@contract(PROP, 'call: arguments become the first locals, declared locals are zero', CALL, covers=('called',))
def call_enters(c):
    w, f = call_setup(c, [stop(c, 'in')])
    out = go(c, w)
    c.cover('called')
    lst = in_callee(c, w, f, out)
    unchanged(c, 'call: nothing else changes', w.pre, [w.m, f.inst],
              [(w.stack, 'value'), (w.stack, 'label'), (w.stack, 'frame'), (w.label, 'index')])
    zero_locals(c, 'locals', lst, f)


@contract(PROP, 'call: declared locals, up to 3 declarations', CALL, covers=('called',), bounded='at most 3 local declarations')
def call_locals_bounded(c):
    f = Callee(c, [stop(c, 'in')])
    n = c.choice('groups', [0, 1, 2, 3])
    ty = anytype(c)
    f.decls = c.list([c.new(core.LocalsDesc, c.int(f'n{k}', 0, 1 << 20), ty(f't{k}')) for k in range(n)])
    c.eng.wr(f.code).attrs['locals'] = f.decls
    small_decls(c, f)
    w = deep(c, [inst(c, 'call', [1])], [f.ps], funcs=[decoyfunc(c), f.inst])
    out = go(c, w)
    c.cover('called')
    lst = in_callee(c, w, f, out)
    total = f.p
    ds = [(attr(c, d, 'n'), attr(c, d, 'type', 'data')) for d in c.eng.rd(f.decls).segs[0]] if n else []

    def want(k):
        off = f.p
        old = frozen(c, f.ps, f.p)
        if c.decide(sym.cmp('<', k, off)):
            return elem_at(c, old, k)
        for m, t in ds:
            off = sym.add(off, m)
            if c.decide(sym.cmp('<', k, off)):
                return val_bytes(c, t, [])
        c.fail('too many locals')
    for m, t in ds:
        total = sym.add(total, m)
    list_is(c, 'locals', lst, total, want)


def leaves(name, code, levels, exact=False):
    """the callee ends by `code` at some label depth; the caller goes on with exactly the results"""
    def body(c):
        n = c.int('nesting', 0, 1 << 16) if levels else 0
        inner = code(c, sym.add(n, levels))
        if levels:
            inner = [structured(c, 'block', [0x40], [stop(c, 'deep'), *inner])]
        w, f = call_setup(c, [stop(c, 'in'), *inner])
        out = go(c, w)
        in_callee(c, w, f, out)
        if levels:
            out = go(c, w)
            c.ensure('inner block entered', out.kind == 'stop' and out.stop == 'deep')
            push_labels(c, w, n)
        c.cover('left')
        g = [] if exact else [c.seq('garbage', c.int('ngarbage', 0, 1 << 16), anyval(c))]
        set_stack(c, w, *g, f.rs, *([[val(c, I32, z3.BitVecVal(1, 32))]] if name == 'br_if' else
                                    [[val(c, I32, c.bv('i', 32, near=[0, 1]))]] if name == 'br_table' else []))
        # the callee's locals change while it runs
        out = go(c, w)
        arrives(c, w, out, 'next', [f.rs], name)
    add(PROP, f'{name}{" from any depth" if levels else ""}: back in the caller with the results', body, EVAL, covers=('left',))


leaves('end of the body', lambda c, l: [], 0, exact=True)
for lv in (0, 1):
    leaves('return', lambda c, l: [inst(c, 'return')], lv)
    leaves('br', lambda c, l: [inst(c, 'br', [l])], lv)
    leaves('br_if', lambda c, l: [inst(c, 'br_if', [l])], lv)
    leaves('br_table', lambda c, l: [inst(c, 'br_table', [c.list([l]), l])], lv)


@contract(PROP, 'return is recursive-safe', EVAL, covers=('left',))
def nested_call(c):
    """f calls g; g returns from inside a block; f goes on in its own frame and its own labels"""
    g = Callee(c, [structured(c, 'block', [0x40], [stop(c, 'in'), inst(c, 'return')])], 'g')
    small_decls(c, g)
    body = [structured(c, 'block', [0x40], [inst(c, 'call', [0]), stop(c, 'back in f')]), stop(c, 'end of f')]
    w = deep(c, [inst(c, 'call', [1])], [], funcs=[decoyfunc(c), g.inst])
    fmod = c.new(core.ModuleInst)
    c.eng.wr(attr(c, fmod, 'func')).segs = [[2]]
    ff = c.new(core.FuncInst, functype(c, [], []), fmod, c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list(body))))
    lst = c.eng.rd(attr(c, w.store, 'func')).segs[0]
    # store: 0 and 1 decoys, 2 = g, 3 = f
    c.eng.wr(attr(c, w.store, 'func')).segs = [lst + [ff]]
    c.eng.wr(attr(c, w.mod, 'func')).segs = [[1, 3]]
    w.pre = Snap(c)
    # f leaves g's arguments on the stack
    st = c.eng.wr(w.stack).attrs
    st['value'] = c.seglist(w.base, g.ps)
    w.pre = Snap(c)
    out = go(c, w)
    c.ensure('g runs', out.kind == 'stop' and out.stop == 'in')
    mine = elem_at(c, attr(c, w.stack, 'frame'), -1)
    fframe = elem_at(c, attr(c, w.stack, 'frame'), -2)
    set_stack(c, w, c.seq('garbage', c.int('ngarbage', 0, 1 << 16), anyval(c)), g.rs)
    out = go(c, w)
    c.cover('left')
    c.ensure('back in f' + ('' if out.stop == 'back in f' else f' (got {out!r})'), out.kind == 'stop' and out.stop == 'back in f')
    c.ensure('results on the stack', listed(c, attr(c, w.stack, 'value'), [w.base, g.rs]))
    c.ensure("f's frame is current", elem_at(c, attr(c, w.stack, 'frame'), -1) == fframe)
    set_stack(c, w)
    out = go(c, w)
    c.ensure('f goes on', out.kind == 'stop' and out.stop == 'end of f')


@contract(PROP, 'runaway recursion traps', CALL, covers=('trap',), samples=0)
def exhausted(c):
    f = Callee(c, [stop(c, 'in')])
    if not c.symbolic:
        c.eng.wr(f.decls).segs = []
    w = deep(c, [inst(c, 'call', [1])], [f.ps], funcs=[decoyfunc(c), f.inst], minframes=DEEP, maxframes=1 << 20)
    out = go(c, w)
    c.cover('trap')
    traps(c, w, out)


# ---------------------------------------------------------------- call_indirect

def types_equal(c, x, y, n, m):
    """equality of two lists of types"""
    if c.symbolic:
        if x is y:
            return True
        if not c.decide(sym.cmp('==', n, m)):
            return False
        return c.decide(c.eng.list_equal(c.seglist(x), c.seglist(y)))
    xs = [attr(c, t, 'data') for t in x]
    ys = [attr(c, t, 'data') for t in y]
    return xs == ys


def indirect(c, null=False, other_type=False):
    f = Callee(c, [stop(c, 'in')])
    small_decls(c, f)
    # the declared type, another object
    if other_type:
        p, r = c.int('d.params', 0, 1000), c.int('d.results', 0, 1000)
        pt, rt = c.seq('d.ptype', p, anytype(c)), c.seq('d.rtype', r, anytype(c))
    else:
        p, r, pt, rt = f.p, f.r, f.pt, f.rt
    decl = c.new(core.FuncType, c.seglist(pt), c.seglist(rt))
    n = c.int('tab.n', 0, (1 << 31) - 1)
    i = c.bv('i', 32, near=[0, n])
    ii = sym.ubv(i)
    inside = c.decide(sym.cmp('<', ii, n))
    if inside:
        a = val_bytes(c, FUNCREF, [] if null else [2, 0, 0, 0, 1])
        segs = [c.seq('ta', ii, lambda nm: ref_val(c, FUNCREF, nm)[0]), [a],
                c.seq('tb', sym.sub(sym.sub(n, ii), 1), lambda nm: ref_val(c, FUNCREF, nm)[0])]
        if not c.symbolic and n > 2000:
            raise Reject()
    else:
        segs = [c.seq('ta', n, lambda nm: ref_val(c, FUNCREF, nm)[0])]
    tab = table_inst(c, FUNCREF, [], 0, n)
    c.eng.wr(tab).attrs['elem'] = c.seglist(*segs)
    c.eng.wr(tab).attrs['size'] = n
    decoytab = table_inst(c, FUNCREF, [val_bytes(c, FUNCREF, [1, 0, 0, 0, 1])])
    w = deep(c, [inst(c, 'call_indirect', [1, 1])], [f.ps, [val(c, I32, i)]], funcs=[decoyfunc(c), f.inst],
             types=[functype(c, [I64], []), decl], tabl=[decoytab, tab])
    same = types_equal(c, f.pt, pt, f.p, p) and types_equal(c, f.rt, rt, f.r, r)
    return w, f, inside, same


@contract(PROP, 'call_indirect', EVAL, covers=('called', 'out of range'))
def call_indirect(c):
    w, f, inside, same = indirect(c)
    out = go(c, w)
    if not inside:
        c.cover('out of range')
        traps(c, w, out)
        return
    c.cover('called')
    lst = in_callee(c, w, f, out)
    unchanged(c, 'nothing else changes', w.pre, [w.m, f.inst],
              [(w.stack, 'value'), (w.stack, 'label'), (w.stack, 'frame'), (w.label, 'index')])
    zero_locals(c, 'locals', lst, f)


@contract(PROP, 'call_indirect: null element', EVAL, covers=('trap',))
def call_indirect_null(c):
    w, f, inside, same = indirect(c, null=True)
    out = go(c, w)
    c.cover('trap')
    traps(c, w, out)


@contract(PROP, 'call_indirect: signature check', EVAL, covers=('trap', 'called'))
def call_indirect_type(c):
    w, f, inside, same = indirect(c, other_type=True)
    out = go(c, w)
    if inside and same:
        c.cover('called')
        in_callee(c, w, f, out)
    else:
        c.cover('trap')
        traps(c, w, out)


@contract(PROP, 'ValType.__eq__', 'pywasm.core.ValType.__eq__', covers=('eq', 'ne'))
def valtype_eq(c):
    a, b = anytype(c)('a'), anytype(c)('b')
    pre = Snap(c)
    r = c.eng.compare('==', a, b) if c.symbolic else c.run(core.ValType.__eq__, a, b).val
    if c.decide(sym.cmp('==', attr(c, a, 'data'), attr(c, b, 'data'))):
        c.cover('eq')
        c.ensure('equal', r)
    else:
        c.cover('ne')
        c.ensure('different', znot(bterm(r)))
    unchanged(c, 'comparing changes nothing', pre, [a, b])


@contract(PROP, 'FuncType.__eq__', 'pywasm.core.FuncType.__eq__', covers=('eq', 'ne'))
def functype_eq(c):
    k = lambda nm: c.int(nm, 0, 1000)
    ap, ar, bp, br = k('ap'), k('ar'), k('bp'), k('br')
    s = [c.seq(nm, n, anytype(c)) for nm, n in (('a.p', ap), ('a.r', ar), ('b.p', bp), ('b.r', br))]
    a = c.new(core.FuncType, c.seglist(s[0]), c.seglist(s[1]))
    b = c.new(core.FuncType, c.seglist(s[2]), c.seglist(s[3]))
    same = types_equal(c, s[0], s[2], ap, bp) and types_equal(c, s[1], s[3], ar, br)
    out = c.run(core.FuncType.__eq__, a, b)
    c.ensure('compares', out.kind == 'normal')
    if same:
        c.cover('eq')
        c.ensure('equal', out.val if isinstance(out.val, (bool, SBool)) else False)
    else:
        c.cover('ne')
        c.ensure('different', znot(bterm(out.val)) if isinstance(out.val, (bool, SBool)) else False)


# ---------------------------------------------------------------- host functions

def host_swap(m, args):
    """returns its arguments in reverse order"""
    return args[::-1]


def host_trap(m, args):
    raise Exception('host trap')


def hostval(c, name, t):
    if t in (FUNCREF, EXTERNREF):
        return ref_val(c, t, name, null=False)[0]
    b = c.bv(name, WIDTH[t])
    if t == F32:
        c.requires(znot(isnan_bits(b)))
    return val(c, t, b)


def isnan_bits(b):
    return z3.And(z3.Extract(30, 23, b) == 0xff, z3.Extract(22, 0, b) != 0)


def hostcall(t1, t2):
    def body(c):
        a, b = hostval(c, 'a', t1), hostval(c, 'b', t2)
        ka, kb = val_bytes(c, t1, list(val_seq(c, a).items)), val_bytes(c, t2, list(val_seq(c, b).items))
        h = c.new(core.FuncHost, functype(c, [t1, t2], [t2, t1]), host_swap)
        w = machine(c, [inst(c, 'call', [1])], [a, b], funcs=[decoyfunc(c), h])
        out = go(c, w)
        c.cover('called')
        finish(c, w, out, [lambda v: same_val(c, v, kb), lambda v: same_val(c, v, ka)])
    add(PROP, f'host call ({TNAME[t1]}, {TNAME[t2]})', body, CALL, covers=('called',))


for k, t in enumerate(TYPES):
    hostcall(t, TYPES[(k + 1) % 7])


@contract(PROP, 'host call that fails', CALL, covers=('trap',))
def host_fails(c):
    h = c.new(core.FuncHost, functype(c, [I32], []), host_trap)
    w = machine(c, [inst(c, 'call', [1])], [val(c, I32, c.bv('a', 32))], funcs=[decoyfunc(c), h])
    out = go(c, w)
    c.cover('trap')
    traps(c, w, out)
