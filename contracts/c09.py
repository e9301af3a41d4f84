"""C09: block, loop, if and branches.

Each contract executes the real instructions from a machine state of arbitrary depth: the label and frame stacks and the value
stack below are unknown lists of unknown length.  Blocks are entered by the code itself; what the code in between leaves on the
stacks is replaced by unknown values and labels."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *

PROP = 'C09'
EVAL = 'pywasm.core.Machine.evaluate'
BR = 'pywasm.core.Machine.evaluate_br'
ASSUMPTIONS = ['the program is valid: branch depths denote enclosing labels and enough operands of the right types are on the stack']


def blocktype(c, w=None):
    """-> (encoding, parameter segment, result segment, types of the module, number of parameters, of results)"""
    form = c.choice('form', ['empty', 'value', 'type'])
    if form == 'empty':
        return [0x40], [], [], [], 0, 0
    if form == 'value':
        return [c.choice('valtype', [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF])], [], [val(c, I64, c.bv('result', 64))], [], 0, 1
    p, r = c.int('params', 0, 1000), c.int('results', 0, 1000)
    tys = lambda nm: vtype(c, I64)
    ft = c.new(core.FuncType, c.seglist(c.seq('ptype', p, tys)), c.seglist(c.seq('rtype', r, tys)))
    return [0x01], c.seq('param', p, anyval(c)), c.seq('result', r, anyval(c)), [functype(c, [I32], [F32, F32, F32]), ft], p, r


def entered(c, kind, body, before=(), cond=None, elsebody=None, bt=None, **kw):
    """run `kind` from an arbitrary state up to the stop at the start of its body"""
    bt, ps, rs, types, p, r = bt or blocktype(c)
    bodies = [body] if elsebody is None else [body, elsebody]
    w = deep(c, [structured(c, kind, bt, *bodies)], [ps, *([[cond]] if cond is not None else [])], types=types, **kw)
    w.ps, w.rs = ps, rs
    return w


def start(c, w, name='entry', where='inner'):
    out = go(c, w)
    c.ensure(f'{name}: runs the body' + ('' if out.kind == 'stop' and out.stop == where else f' (got {out!r})'),
             out.kind == 'stop' and out.stop == where)
    c.ensure(f'{name}: the parameters stay on the stack', listed(c, attr(c, w.stack, 'value'), [w.base, w.ps]))
    unchanged(c, f'{name}: nothing else changes', w.pre, [w.m], [(w.stack, 'value'), (w.stack, 'label'), (w.label, 'index')])
    c.ensure(f'{name}: the enclosing labels are kept', kept_labels(c, w))


def kept_labels(c, w):
    """one label more than before"""
    lst = attr(c, w.stack, 'label')
    n = c.eng.list_len(c.eng.rd(lst))
    same = Same(c, w.pre, [(w.label, 'index')])
    for k, l in ((0, w.labels[0][0]), (sym.add(w.nl, 1), w.label)):
        same.go(l, elem_at(c, lst, k))
    return zand(bterm(sym.cmp('==', n, sym.add(w.nl, 3))), same.cond())


def garbage(c):
    return c.seq('garbage', c.int('ngarbage', 0, 1 << 16), anyval(c))


KINDS = {'block': 'block', 'if (taken)': 'if', 'if (else)': 'if'}


def opened(c, kind, code, **kw):
    s = stop(c, 'inner')
    if kind == 'if (taken)':
        k = c.bv('cond', 32)
        c.requires(k != 0)
        return entered(c, 'if', [s, *code], cond=val(c, I32, k), elsebody=[stop(c, 'wrong arm')], **kw)
    if kind == 'if (else)':
        return entered(c, 'if', [stop(c, 'wrong arm')], cond=val(c, I32, z3.BitVecVal(0, 32)), elsebody=[s, *code], **kw)
    return entered(c, kind, [s, *code], **kw)


def falls(kind):
    def body(c):
        w = opened(c, kind, [])
        start(c, w)
        c.cover('entered')
        set_stack(c, w, w.rs)
        out = go(c, w)
        arrives(c, w, out, 'next', [w.rs], 'end of the body')
    add(PROP, f'{kind}: enters and falls off the end', body, EVAL, covers=('entered',))


def breaks(kind):
    def body(c):
        w = opened(c, kind, [branch(c, 'br', 0)])
        start(c, w)
        c.cover('entered')
        set_stack(c, w, garbage(c), w.rs)
        out = go(c, w)
        arrives(c, w, out, 'next', [w.rs], 'br 0')
    add(PROP, f'{kind}: br 0 leaves it', body, BR, covers=('entered',))


def breaks_deep(kind):
    def body(c):
        n = c.int('nesting', 0, 1 << 16)
        br = branch(c, 'br', sym.add(n, 1))
        w = opened(c, kind, [structured(c, 'block', [0x40], [stop(c, 'deep'), br])])
        start(c, w)
        out = go(c, w)
        c.ensure('inner block entered', out.kind == 'stop' and out.stop == 'deep')
        c.cover('deep')
        push_labels(c, w, n)
        set_stack(c, w, garbage(c), w.rs)
        out = go(c, w)
        arrives(c, w, out, 'next', [w.rs], 'br l')
    add(PROP, f'{kind}: br from any depth leaves it', body, BR, covers=('deep',))


for kd in KINDS:
    falls(kd)
    breaks(kd)
    breaks_deep(kd)


@contract(PROP, 'loop: enters and falls off the end', EVAL, covers=('entered',))
def loop_falls(c):
    w = opened(c, 'loop', [])
    start(c, w)
    c.cover('entered')
    set_stack(c, w, w.rs)
    out = go(c, w)
    arrives(c, w, out, 'next', [w.rs], 'end of the body')


def again(c, w, out, name):
    """back at the start of the loop with exactly its parameters"""
    c.ensure(f'{name}: restarts the body' + ('' if out.kind == 'stop' and out.stop == 'inner' else f' (got {out!r})'),
             out.kind == 'stop' and out.stop == 'inner')
    c.ensure(f'{name}: the parameters are on the stack', listed(c, attr(c, w.stack, 'value'), [w.base, w.ps2]))
    unchanged(c, f'{name}: nothing else changes', w.pre, [w.m], [(w.stack, 'value'), (w.stack, 'label'), (w.label, 'index')])
    c.ensure(f'{name}: the labels are those at the start of the body', kept_labels(c, w))


def params2(c, w):
    """other values for the next iteration's parameters"""
    n = c.eng.list_len(c.eng.rd(c.seglist(w.ps)))
    w.ps2 = c.seq('nextparam', n, anyval(c))
    return w.ps2


@contract(PROP, 'loop: br 0 restarts it, twice, then it ends', BR, covers=('entered',))
def loop_again(c):
    w = opened(c, 'loop', [stop(c, 'mid'), inst(c, 'br_if', [0])])
    start(c, w)
    c.cover('entered')
    for k in range(2):
        out = go(c, w)
        c.ensure('runs on', out.kind == 'stop' and out.stop == 'mid')
        set_stack(c, w, c.seq(f'garbage{k}', c.int(f'ngarbage{k}', 0, 1 << 16), anyval(c)), params2(c, w),
                  [val(c, I32, z3.BitVecVal(1, 32))])
        out = go(c, w)
        again(c, w, out, 'br_if 0')
    out = go(c, w)
    set_stack(c, w, w.rs, [val(c, I32, z3.BitVecVal(0, 32))])
    out = go(c, w)
    arrives(c, w, out, 'next', [w.rs], 'end of the body')


@contract(PROP, 'loop: br from any depth restarts it', BR, covers=('deep',))
def loop_deep(c):
    n = c.int('nesting', 0, 1 << 16)
    br = branch(c, 'br', sym.add(n, 1))
    w = opened(c, 'loop', [structured(c, 'block', [0x40], [stop(c, 'deep'), br])])
    start(c, w)
    out = go(c, w)
    c.ensure('inner block entered', out.kind == 'stop' and out.stop == 'deep')
    c.cover('deep')
    push_labels(c, w, n)
    set_stack(c, w, garbage(c), params2(c, w))
    out = go(c, w)
    again(c, w, out, 'br l')


@contract(PROP, 'if without else', EVAL, covers=('taken', 'skipped'))
def if_alone(c):
    """an if with no else branch: a false condition runs nothing"""
    i = decoded(c, [0x04, 0x40, 0x01, 0x0b])
    nop = elem_at(c, elem_at(c, attr(c, i, 'args'), 1), 0)
    # its one instruction becomes a stop
    body = elem_at(c, attr(c, i, 'args'), 1)
    c.eng.wr(body).segs = [[stop(c, 'inner')]]
    k = c.bv('cond', 32)
    w = deep(c, [i], [[val(c, I32, k)]])
    w.ps = []
    if c.decide(k != 0):
        c.cover('taken')
        start(c, w)
    else:
        c.cover('skipped')
        out = go(c, w)
        arrives(c, w, out, 'next', [], 'false condition')


def conditional(name, table):
    """br_if: taken exactly when the condition is not zero"""
    def body(c):
        n = c.int('nesting', 0, 1 << 16)
        w = opened(c, 'block', [structured(c, 'block', [0x40], [stop(c, 'deep'), inst(c, 'br_if', [sym.add(n, 1)]), stop(c, 'on')])])
        start(c, w)
        out = go(c, w)
        c.ensure('inner block entered', out.kind == 'stop' and out.stop == 'deep')
        push_labels(c, w, n)
        k = c.bv('cond', 32)
        g = garbage(c)
        set_stack(c, w, g, w.rs, [val(c, I32, k)])
        before = Snap(c)
        out = go(c, w)
        if c.decide(k != 0):
            c.cover('taken')
            arrives(c, w, out, 'next', [w.rs], 'taken')
        else:
            c.cover('not taken')
            c.ensure('not taken: runs on', out.kind == 'stop' and out.stop == 'on')
            c.ensure('not taken: only the condition is removed', listed(c, attr(c, w.stack, 'value'), [w.base, g, w.rs]))
            top = c.eng.list_get(attr(c, w.stack, 'label'), -1)
            unchanged(c, 'not taken: nothing else changes', before, [w.m], [(w.stack, 'value'), (top, 'index')])
    add(PROP, name, body, EVAL, covers=('taken', 'not taken'))


conditional('br_if', False)


def table(kind):
    """br_table: entry i of the table when i is inside it, else the default"""
    def body(c):
        n = c.int('nesting', 0, 1 << 16)
        i = c.bv('i', 32, near=[0, 3])
        ii = sym.ubv(i)
        wrong = lambda nm: c.int(nm, 0, 1 << 16)
        target = sym.add(n, 1)
        inside = c.choice('inside', [True, False])
        if inside:
            if not c.symbolic and ii > 1000:
                raise Reject()
            rest = c.int('entries after', 0, (1 << 32) - 1)
            # entries before i, entry i, entries after
            lst = c.seglist(c.seq('before', ii, wrong), [target], c.seq('after', rest, wrong))
            dflt = c.int('default', 0, 1 << 16)
        else:
            ln = c.int('entries', 0, (1 << 32) - 1)
            c.requires(bterm(sym.cmp('>=', ii, ln)))
            lst = c.seglist(c.seq('entry', ln, wrong))
            dflt = target
        br = inst(c, 'br_table', [lst, dflt])
        w = opened(c, kind, [structured(c, 'block', [0x40], [stop(c, 'deep'), br])])
        start(c, w)
        out = go(c, w)
        c.ensure('inner block entered', out.kind == 'stop' and out.stop == 'deep')
        push_labels(c, w, n)
        c.cover('in the table' if inside else 'default')
        vs = w.rs if kind == 'block' else params2(c, w)
        set_stack(c, w, garbage(c), vs, [val(c, I32, i)])
        out = go(c, w)
        if kind == 'block':
            arrives(c, w, out, 'next', [w.rs], 'br_table')
        else:
            again(c, w, out, 'br_table')
    add(PROP, f'br_table to a {kind}', body, EVAL, covers=('in the table', 'default'))


table('block')
table('loop')


@contract(PROP, 'unreachable', EVAL, covers=('traps',))
def unreachable(c):
    w = machine(c, [inst(c, 'unreachable')])
    out = go(c, w)
    c.cover('traps')
    traps(c, w, out)
