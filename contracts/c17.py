"""C17: a trap or error leaves the runtime usable; a successful invocation leaves nothing behind."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *
from .c10 import Callee, anytype, in_callee, zero_locals, small_decls
from .c16 import each, interp_method

PROP = 'C17'
INVOKE = 'pywasm.core.Runtime.invocate'
MINVOKE = 'pywasm.core.Machine.invocate'
INST = 'pywasm.core.Runtime.instance'
ASSUMPTIONS = ['what an interrupted evaluation leaves on the stacks is arbitrary; how evaluation ends is decided by C01-C10',
               'invocations do not nest: host functions do not call back into Runtime.invocate on the same runtime',
               'what memory, tables and globals keep from before the trap is the business of the instruction contracts (C05-C08)']
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]
ERRORS = [AssertionError, Exception, IndexError, SystemExit, KeyboardInterrupt, RecursionError, MemoryError]


def boom(cls):
    raise cls('trap')


def residue(c, st):
    """arbitrary contents of the stacks"""
    v = c.seglist(c.seq('lvalue', c.int('nvalue', 0, 1 << 20), anyval(c)))
    l = c.seglist(c.seq('llabel', c.int('nlabel', 0, 1 << 20), anylabel(c)))
    f = c.seglist(c.seq('lframe', c.int('nframe', 0, 1 << 20), anyframe(c)))
    return {'value': v, 'label': l, 'frame': f}


def standin(c, name, fail, left, result=None):
    """Machine.<name>: leaves `left` on the stacks, then raises `fail` or returns `result`"""
    if c.symbolic:
        def f(eng, m, *args):
            st = eng.wr(eng.rd(m).attrs['stack']).attrs
            st.update(left)
            if fail is not None:
                eng.raise_(fail, 'trap')
            return result
        c.eng.contracts = {**c.eng.contracts, f'pywasm.core.Machine.{name}': f}
        return

    def make(lw):
        def f(m, *args):
            for k, v in left.items():
                setattr(m.stack, k, lw.val(v))
            if fail is not None:
                raise fail('trap')
            return lw.val(result)
        return f
    make.wants_lower = True
    c.patch(core.Machine, name, make)


def empty_stack(c, m, name):
    st = attr(c, m, 'stack')
    c.ensure(f'{name}: a stack', has_attrs(c, st, 'value', 'label', 'frame'))
    for k in ('value', 'label', 'frame'):
        x = attr(c, st, k)
        c.ensure(f'{name}: no {k} is left', isinstance(x, Ref) and isinstance(c.eng.rd(x), ListRec) and
                 bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(x)), 0)))


def world(c, ptypes=(), rtypes=()):
    rt = c.new(core.Runtime)
    m = attr(c, rt, 'machine')
    f = c.new(core.FuncInst, functype(c, list(ptypes), list(rtypes)), c.new(core.ModuleInst),
              c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list([]))))
    c.eng.wr(attr(c, m, 'store')).attrs['func'] = c.list([f])
    mod = c.new(core.ModuleInst)
    c.eng.wr(mod).attrs['exps'] = c.list([c.new(core.ExportInst, 'f', c.new(core.Extern, 0, 0))])
    return rt, m, mod


@contract(PROP, 'an invocation that fails leaves empty stacks', INVOKE, covers=('failed',))
def invoke_fails(c):
    cls = c.choice('error', ERRORS)
    rt, m, mod = world(c)
    standin(c, 'invocate', cls, residue(c, attr(c, m, 'stack')))
    out = c.run(core.Runtime.invocate, rt, mod, 'f', c.list([]))
    c.cover('failed')
    c.ensure(f'the error reaches the host (got {out!r})', out.kind == 'raise' and out.exc.cls is cls)
    empty_stack(c, m, 'afterwards')


def same_machine(c, name, pre, rt, m):
    """but for the stacks, which are empty, the runtime is as it was"""
    empty_stack(c, m, name)
    unchanged(c, f'{name}: nothing but the stacks changes', pre, [rt], [(m, 'stack')])


@contract(PROP, 'a trap changes nothing in the runtime but the stacks', INVOKE, covers=('failed',))
def trap_keeps(c):
    """the evaluation itself is its own business; what is around it keeps no trace"""
    cls = c.choice('error', ERRORS)
    rt, m, mod = world(c)
    standin(c, 'evaluate', cls, residue(c, attr(c, m, 'stack')))
    pre = Snap(c)
    out = c.run(core.Runtime.invocate, rt, mod, 'f', c.list([]))
    c.cover('failed')
    c.ensure(f'the error reaches the host (got {out!r})', out.kind == 'raise' and out.exc.cls is cls)
    same_machine(c, 'afterwards', pre, rt, m)


@contract(PROP, 'arguments that are refused leave empty stacks', INVOKE, covers=('failed',))
def invoke_refused(c):
    rt, m, mod = world(c, [I32])
    x = c.sint('x', 80)
    c.requires(zor(bterm(sym.cmp('>=', x, 1 << 31)), bterm(sym.cmp('<', x, -1 << 31))))
    out = c.run(core.Runtime.invocate, rt, mod, 'f', c.choice('args', [0, 1]) and c.list([x]) or c.list([]))
    c.cover('failed')
    c.ensure(f'refused (got {out!r})', out.kind == 'raise')
    empty_stack(c, m, 'afterwards')


@contract(PROP, 'an instantiation that fails leaves empty stacks', INST, covers=('failed',))
def instance_fails(c):
    cls = c.choice('error', ERRORS)
    rt, m, mod = world(c)
    standin(c, 'instance', cls, residue(c, attr(c, m, 'stack')))
    d = module_desc(c)
    out = c.run(core.Runtime.instance, rt, d)
    c.cover('failed')
    c.ensure(f'the error reaches the host (got {out!r})', out.kind == 'raise' and out.exc.cls is cls)
    empty_stack(c, m, 'afterwards')


@contract(PROP, 'an instantiation lacking an import leaves empty stacks', INST, covers=('failed',))
def instance_lacks(c):
    rt, m, mod = world(c)
    d = module_desc(c, imps=c.list([c.new(core.Import, 'env', 'f', 0, 0)]))
    if c.choice('module known', [0, 1]):
        c.eng.wr(rt).attrs['imports'] = c.dict({'env': c.dict({'g': c.new(core.Extern, 0, 0)})})
    out = c.run(core.Runtime.instance, rt, d)
    c.cover('failed')
    c.ensure(f'refused (got {out!r})', out.kind == 'raise')
    empty_stack(c, m, 'afterwards')


# ---------------------------------------------------------------- a successful invocation

@contract(PROP, 'an invocation starts on the empty stack with its arguments as locals', MINVOKE, covers=('started',))
def starts(c):
    f = Callee(c, [stop(c, 'in')])
    small_decls(c, f)
    t = c.choice('type', [I64])
    c.eng.wr(f.type).attrs['args'] = c.seglist(c.seq('f.ptype', f.p, lambda nm: vtype(c, t)))
    m = c.new(core.Machine)
    w = attr(c, m, 'stack')
    decoy = c.new(core.FuncHost, functype(c, [], []), 'decoy')
    c.eng.wr(attr(c, m, 'store')).attrs['func'] = c.list([decoy, f.inst])
    pre = Snap(c)
    out = c.run(core.Machine.invocate, m, 1, c.seglist(f.ps))
    c.cover('started')
    c.ensure(f'the function starts (got {out!r})', out.kind == 'stop' and out.stop == 'in')
    c.ensure('no operand yet', bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(attr(c, w, 'value'))), 0)))
    top = elem_at(c, attr(c, w, 'frame'), -1)
    c.ensure('runs in its own module', attr(c, top, 'module') == f.module)
    lst = attr(c, top, 'locals', 'data')
    c.ensure('as many results as declared', bterm(sym.cmp('==', attr(c, top, 'arity'), f.r)))
    lab = elem_at(c, attr(c, w, 'label'), -1)
    c.ensure('one label', bterm(sym.cmp('==', c.eng.list_len(c.eng.rd(attr(c, w, 'label'))), 1)))
    c.ensure('its body runs from the start', attr(c, lab, 'instr') == attr(c, f.code, 'expr', 'data'))
    unchanged(c, 'nothing else changes', pre, [attr(c, m, 'store'), f.inst], [])
    zero_locals(c, 'locals', lst, f)


def wrong_type(a, b):
    def body(c):
        n, k = c.int('n', 1, 1000), c.int('k', 0, 999)
        c.requires(bterm(sym.cmp('<', k, n)))

        def ty(nm):
            if not c.symbolic:
                return vtype(c, c.choice(nm, [a, b]))
            d = c.int(nm, 0, 0x7f, small=False)
            c.requires(zor(bterm(sym.cmp('==', d, a)), bterm(sym.cmp('==', d, b))))
            return vtype(c, d)
        pt = c.seglist(c.seq('ptype', n, ty))
        vs = c.seglist(c.seq('arg', n, lambda nm: val_bytes(c, b, [c.bv(nm, 8)])))
        c.requires(bterm(sym.cmp('==', attr(c, elem_at(c, pt, k), 'data'), a)))
        m = c.new(core.Machine)
        f = c.new(core.FuncInst, c.new(core.FuncType, pt, c.list([])), c.new(core.ModuleInst),
                  c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list([stop(c, 'in')]))))
        c.eng.wr(attr(c, m, 'store')).attrs['func'] = c.list([f])
        out = c.run(core.Machine.invocate, m, 0, vs)
        if c.symbolic and out.kind != 'raise':
            from pydv import loops
            loops.instantiate(c.eng, k)
        c.cover('refused')
        c.ensure(f'refused (got {out!r})', out.kind == 'raise')
    add(PROP, f'an argument of type {TNAME[b]} for {TNAME[a]} is refused before anything runs', body, MINVOKE, covers=('refused',))


for k, t in enumerate(TYPES):
    wrong_type(t, TYPES[(k + 2) % 7])


def evaluated(c, left):
    """Machine.evaluate: ends with `left` on the stacks"""
    standin(c, 'evaluate', None, left)


def finishes(t):
    def body(c):
        n = c.int('n', 0, 1000)
        m = c.new(core.Machine)
        f = c.new(core.FuncInst, c.new(core.FuncType, c.list([]), c.seglist(c.seq('rtype', n, lambda nm: vtype(c, t)))),
                  c.new(core.ModuleInst), c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list([]))))
        c.eng.wr(attr(c, m, 'store')).attrs['func'] = c.list([f])
        vs = c.seq('result', n, lambda nm: val_bytes(c, t, [c.bv(f'{nm}.{i}', 8) for i in range(16)]))
        src = frozen(c, vs, n)
        f0 = c.new(core.Frame, c.new(core.ModuleInst), c.new(core.LocalsInst, c.list([])), 0, 0, 0)
        evaluated(c, {'value': c.seglist(vs), 'label': c.list([]), 'frame': c.list([f0])})
        out = c.run(core.Machine.invocate, m, 0, c.list([]))
        c.cover('returned')
        c.ensure(f'returns (got {out!r})', out.kind == 'normal')
        empty_stack(c, m, 'afterwards')
        each(c, 'the results in order', out.val, n, lambda k, v: same_val(c, v, elem_at(c, src, k)))
    add(PROP, f'a successful invocation returns its {TNAME[t]} results and leaves nothing', body, MINVOKE, covers=('returned',))


for t in TYPES:
    finishes(t)


@contract(PROP, 'an invocation that does not end cleanly fails', MINVOKE, covers=('failed',))
def residue_refused(c):
    """anything left over besides the declared result makes the invocation fail rather than return"""
    n = c.int('values', 0, 1 << 20)
    l = c.int('labels', 0, 1 << 20)
    fr = c.int('frames', 1, 1 << 20)
    c.requires(zor(bterm(sym.cmp('!=', n, 1)), bterm(sym.cmp('!=', l, 0)), bterm(sym.cmp('!=', fr, 1))))
    m = c.new(core.Machine)
    f = c.new(core.FuncInst, functype(c, [], [I64]), c.new(core.ModuleInst),
              c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list([]))))
    c.eng.wr(attr(c, m, 'store')).attrs['func'] = c.list([f])
    evaluated(c, {'value': c.seglist(c.seq('v', n, anyval(c))), 'label': c.seglist(c.seq('l', l, anylabel(c))),
                  'frame': c.seglist(c.seq('f', fr, anyframe(c)))})
    out = c.run(core.Machine.invocate, m, 0, c.list([]))
    c.cover('failed')
    c.ensure(f'fails (got {out!r})', out.kind == 'raise')


# ---------------------------------------------------------------- traps at any depth, then a good call

def after_trap(kind):
    def body(c):
        rt = c.new(core.Runtime)
        m = attr(c, rt, 'machine')
        mod = c.new(core.ModuleInst)
        a, b = c.sint('a', 32), c.sint('b', 32)

        def fn(ps, rs, code):
            return c.new(core.FuncInst, functype(c, ps, rs), mod,
                         c.new(core.FuncDesc, 0, c.list([]), c.new(core.Expr, c.list(code))))
        trap = {'unreachable': [inst(c, 'unreachable')],
                'host': [inst(c, 'call', [3])],
                'division': [inst(c, 'i32.const', [1]), inst(c, 'i32.const', [0]), inst(c, 'i32.div_s'), inst(c, 'drop')],
                'recursion': [inst(c, 'call', [1])]}[kind]
        bad = fn([I32], [], [inst(c, 'local.get', [0]), inst(c, 'local.get', [0]), inst(c, 'call', [1]), inst(c, 'drop'), inst(c, 'drop')])
        worse = fn([], [], trap)
        good = fn([I32, I32], [I32, I32], [inst(c, 'local.get', [1]), inst(c, 'local.get', [0])])
        host = c.new(core.FuncHost, functype(c, [], []), host_dies)
        c.eng.wr(attr(c, m, 'store')).attrs['func'] = c.list([bad, worse, good, host])
        c.eng.wr(mod).attrs['func'] = c.list([0, 1, 2, 3])
        c.eng.wr(mod).attrs['exps'] = c.list([c.new(core.ExportInst, 'bad', c.new(core.Extern, 0, 0)),
                                              c.new(core.ExportInst, 'good', c.new(core.Extern, 0, 2))])
        pre = Snap(c)
        out = c.run(core.Runtime.invocate, rt, mod, 'bad', c.list([a]))
        c.cover('trapped')
        c.ensure(f'traps (got {out!r})', out.kind == 'raise')
        same_machine(c, 'after the trap', pre, rt, m)
        out = c.run(core.Runtime.invocate, rt, mod, 'good', c.list([a, b]))
        c.cover('again')
        c.ensure(f'the next call runs (got {out!r})', out.kind == 'normal')
        each(c, 'its results', out.val, 2, lambda k, v: bterm(sym.cmp('==', v, [b, a][k])) if isinstance(k, int) else
             bterm(sym.cmp('==', v, sym.ite(bterm(sym.cmp('==', k, 0)), b, a))))
        same_machine(c, 'after the call', pre, rt, m)
    add(PROP, f'a call after a trap ({kind})', body, INVOKE, covers=('trapped', 'again'), bounded='one trap two calls deep, then one call')


def host_dies(m, args):
    raise Exception('host')


for k in ('unreachable', 'host', 'division'):
    after_trap(k)
