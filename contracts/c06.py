"""C06: bulk memory instructions, memory.size and memory.grow."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .common import *

PROP = 'C06'
EVAL = 'pywasm.core.Machine.evaluate'
ASSUMPTIONS = ['a limits record whose maximum is 0 declares no maximum (pywasm.core.Limits); a declared maximum of 0 is a known finding of '
               'C13']
CAP = 1024     # the implementation's own limit in pages


def triple(c, dlen, slen):
    """operands d, s, n"""
    n = c.bv('n', 32, near=[0, 1, 300, 700, 1200, dlen, slen])
    nn = sym.concretize(sym.ubv(n))
    near = [0, 60, 500] + [sym.conc_or(x, lambda v: v - nn) for x in (dlen, slen)]
    d = c.bv('d', 32, near=near)
    s = c.bv('s', 32, near=near + [sym.conc_or(sym.ubv(d), f) for f in (lambda v: v + nn // 2, lambda v: v - nn // 2, lambda v: v + 5, lambda v: v - 5)])
    return d, s, n


def past(a, n, ln):
    """a + n > ln"""
    return z3.UGT(z3.ZeroExt(32, a) + z3.ZeroExt(32, n), sym.idx64(ln))


def region(c, w, q, ln, d, n, f):
    """memory after writing f(k) to the n bytes at d"""
    p = c.eng.bytes_of(attr(c, w.mem, 'data'))
    c.ensure('memory keeps its length', p is not None and bterm(sym.cmp('==', p.n, ln)))
    d64, n64 = z3.ZeroExt(32, d), z3.ZeroExt(32, n)
    c.forall('exactly the destination range is written, with the source bytes', ln,
             lambda k: p.at(k) == z3.If(z3.And(z3.ULE(d64, k), z3.ULT(k, d64 + n64)), f(k - d64), q.at(k)),
             hints=[sym.ubv(d), sym.add(sym.ubv(d), sym.ubv(n))] + ([] if c.symbolic else [sym.ubv(d + i * z3.UDiv(n, z3.BitVecVal(9, 32))) for i in range(1, 9)]))


@contract(PROP, 'memory.copy', EVAL, covers=('trap', 'copied'))
def memory_copy(c):
    mem, q, ln = memory(c)
    d, s, n = triple(c, ln, ln)
    w = machine(c, [inst(c, 'memory.copy', [])], [val(c, I32, d), val(c, I32, s), val(c, I32, n)], mem=mem)
    out = go(c, w)
    if c.decide(z3.Or(past(d, n, ln), past(s, n, ln))):
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('copied')
        finish(c, w, out, [], holes=[(mem, 'data')])
        region(c, w, q, ln, d, n, lambda j: q.at(j + z3.ZeroExt(32, s)))


@contract(PROP, 'memory.fill', EVAL, covers=('trap', 'filled'))
def memory_fill(c):
    mem, q, ln = memory(c)
    d, v, n = triple(c, ln, ln)
    w = machine(c, [inst(c, 'memory.fill', [])], [val(c, I32, d), val(c, I32, v), val(c, I32, n)], mem=mem)
    out = go(c, w)
    if c.decide(past(d, n, ln)):
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('filled')
        finish(c, w, out, [], holes=[(mem, 'data')])
        region(c, w, q, ln, d, n, lambda j: z3.Extract(7, 0, v))


def data_inst(c, dropped=False):
    dn = 0 if dropped else c.int('datalen', 0, (1 << 32) - 1)
    dq = sym.mkcb([]) if dropped else c.bytes_in('data', dn)
    return c.new(core.DataInst, c.bytearray(dq)), dq, dn


@contract(PROP, 'memory.init', EVAL, covers=('trap', 'copied'))
def memory_init(c):
    mem, q, ln = memory(c)
    other = c.new(core.DataInst, c.bytearray(sym.mkcb([9, 8, 7, 6])))
    data, dq, dn = data_inst(c)
    d, s, n = triple(c, ln, dn)
    w = machine(c, [inst(c, 'memory.init', [1])], [val(c, I32, d), val(c, I32, s), val(c, I32, n)], mem=mem, datas=[other, data])
    out = go(c, w)
    if c.decide(z3.Or(past(d, n, ln), past(s, n, dn))):
        c.cover('trap')
        traps(c, w, out)
    else:
        c.cover('copied')
        finish(c, w, out, [], holes=[(mem, 'data')])
        region(c, w, q, ln, d, n, lambda j: dq.at(j + z3.ZeroExt(32, s)))


@contract(PROP, 'data.drop', EVAL, covers=('dropped', 'trap', 'empty'))
def data_drop(c):
    """after data.drop the segment behaves as empty: memory.init of n bytes from s traps unless n = s = 0"""
    mem, q, ln = memory(c)
    other = c.new(core.DataInst, c.bytearray(sym.mkcb([9, 8, 7, 6])))
    data, dq, dn = data_inst(c)
    d, s, n = triple(c, ln, 0)
    w = machine(c, [inst(c, 'data.drop', [1])], mem=mem, datas=[other, data])
    out = go(c, w)
    c.cover('dropped')
    finish(c, w, out, [], holes=[(data, 'data')])
    # a second machine over the same store
    w2 = machine(c, [inst(c, 'memory.init', [1])], [val(c, I32, d), val(c, I32, s), val(c, I32, n)], mem=mem, datas=[other, data])
    out = go(c, w2)
    if c.decide(z3.Or(past(d, n, ln), past(s, n, 0))):
        c.cover('trap')
        traps(c, w2, out)
    else:
        c.cover('empty')
        finish(c, w2, out, [])


@contract(PROP, 'memory.size', EVAL, covers=('runs',))
def memory_size(c):
    mem, q, ln = memory(c)
    w = machine(c, [inst(c, 'memory.size', [0])], mem=mem)
    out = go(c, w)
    c.cover('runs')
    finish(c, w, out, [(I32, sym.low(attr(c, mem, 'size'), 32))])


@contract(PROP, 'memory.grow', EVAL, covers=('grown', 'refused', 'free'))
def memory_grow(c):
    pages = c.int('mem.pages', 0, 65536)
    limit = c.int('mem.max', 0, 65536)
    c.requires(zor(bterm(sym.cmp('==', limit, 0)), bterm(sym.cmp('<=', pages, limit))))
    ln = sym.shl(pages, 16) if not isinstance(pages, int) else pages << 16
    q = c.bytes_in('mem', ln)
    mem = mem_inst(c, pages, q, limit)
    n = c.bv('n', 32, near=[0, 1, 2, sym.conc_or(limit, lambda v: v - sym.concretize(pages)), sym.conc_or(pages, lambda v: CAP - v)])
    if not c.symbolic and CAP < sym.concretize(sym.ubv(n)) < 65536 * 2:
        raise Reject()    # keeps samples small; larger requests are sampled
    w = machine(c, [inst(c, 'memory.grow', [0])], [val(c, I32, n)], mem=mem)
    out = go(c, w)
    new = sym.add(pages, sym.ubv(n))
    over = zor(bterm(sym.cmp('>', new, 65536)), zand(znot(bterm(sym.cmp('==', limit, 0))), bterm(sym.cmp('>', new, limit))))
    within = zand(znot(over), bterm(sym.cmp('<=', new, CAP)))

    def refused():
        finish(c, w, out, [(I32, z3.BitVecVal(-1, 32))])

    def grown():
        finish(c, w, out, [(I32, sym.low(pages, 32))], holes=[(mem, 'data'), (mem, 'size')])
        p = c.eng.bytes_of(attr(c, mem, 'data'))
        c.ensure('the size is the old size plus the increment', bterm(sym.cmp('==', attr(c, mem, 'size'), new)))
        c.ensure('the byte array matches the size', p is not None and bterm(sym.cmp('==', p.n, sym.shl(new, 16))))
        c.forall('old bytes are kept and new bytes are zero', sym.shl(new, 16),
                 lambda k: p.at(k) == z3.If(z3.ULT(k, sym.idx64(ln)), q.at(k), z3.BitVecVal(0, 8)), hints=[ln])
    if c.decide(over):
        c.cover('refused')
        refused()
    elif c.decide(within):
        c.cover('grown')
        grown()
    else:
        # above the implementation's cap: may fail, but only cleanly
        c.cover('free')
        if out.kind == 'stop' and c.decide(bterm(sym.cmp('==', attr(c, mem, 'size'), pages))) and \
                c.decide(sym.cmp('!=', sym.ubv(n), 0)):
            refused()
        elif c.decide(sym.cmp('==', sym.ubv(n), 0)):
            got = stack_is(c, w, [None])
            c.ensure('one result', out.kind == 'stop' and got is not None)
            c.ensure('old size or -1', zor(is_val(c, got[0], I32, sym.low(pages, 32)), is_val(c, got[0], I32, z3.BitVecVal(-1, 32))))
            unchanged(c, 'nothing else changes', w.pre, [w.m] + w.operands, [(w.stack, 'value'), (w.label, 'index')])
        else:
            grown()


def invariant(c, mem, name):
    """the representation invariant of a memory instance"""
    p = c.eng.bytes_of(attr(c, mem, 'data'))
    size = attr(c, mem, 'size')
    lim = attr(c, mem, 'type', 'limits', 'm')
    c.ensure(f'{name}: size matches the bytes', p is not None and bterm(sym.cmp('==', p.n, sym.shl(size, 16))))
    c.ensure(f'{name}: at most 65536 pages', bterm(sym.cmp('<=', size, 65536)))
    c.ensure(f'{name}: at most the declared maximum', zor(bterm(sym.cmp('==', lim, 0)), bterm(sym.cmp('<=', size, lim))))


@contract(PROP, 'MemInst()', 'pywasm.core.MemInst.__init__', covers=('made', 'refused'))
def mem_new(c):
    """a new memory has the declared minimum of zero pages; a minimum beyond the maximum or 65536 is refused"""
    n = c.int('min', 0, (1 << 32) - 1)
    m = c.int('max', 0, (1 << 32) - 1)
    if not c.symbolic and n > 2000:
        raise Reject()
    out = c.run(core.MemInst, c.new(core.MemType, c.new(core.Limits, n, m)))
    bad = zor(bterm(sym.cmp('>', n, 65536)), zand(znot(bterm(sym.cmp('==', m, 0))), bterm(sym.cmp('>', n, m))))
    if c.decide(bad):
        c.cover('refused')
        c.ensure('refused', out.kind == 'raise')
        return
    c.cover('made')
    c.ensure('made', out.kind == 'normal')
    mem = out.val
    invariant(c, mem, 'new memory')
    c.ensure('size is the minimum', bterm(sym.cmp('==', attr(c, mem, 'size'), n)))
    p = c.eng.bytes_of(attr(c, mem, 'data'))
    c.forall('all bytes are zero', p.n, lambda k: p.at(k) == z3.BitVecVal(0, 8))


@contract(PROP, 'MemInst.grow', 'pywasm.core.MemInst.grow', covers=('grown', 'refused'))
def mem_grow(c):
    """growing keeps the representation invariant, or fails and changes nothing"""
    pages = c.int('pages', 0, 65536)
    limit = c.int('max', 0, 65536)
    c.requires(zor(bterm(sym.cmp('==', limit, 0)), bterm(sym.cmp('<=', pages, limit))))
    ln = sym.shl(pages, 16)
    q = c.bytes_in('mem', ln)
    mem = mem_inst(c, pages, q, limit)
    n = c.int('n', 0, (1 << 32) - 1)
    pre = Snap(c)
    out = c.run(core.MemInst.grow, mem, n)
    invariant(c, mem, 'after grow')
    if out.kind == 'raise':
        c.cover('refused')
        unchanged(c, 'a refused grow changes nothing', pre, [mem])
    else:
        c.cover('grown')
        c.ensure('the size is the old size plus the increment', bterm(sym.cmp('==', attr(c, mem, 'size'), sym.add(pages, n))))
        p = c.eng.bytes_of(attr(c, mem, 'data'))
        c.forall('old bytes are kept and new bytes are zero', p.n,
                 lambda k: p.at(k) == z3.If(z3.ULT(k, sym.idx64(ln)), q.at(k), z3.BitVecVal(0, 8)), hints=[ln])
