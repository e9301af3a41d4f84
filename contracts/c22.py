"""C22: argument and environment vectors."""
import z3

from pydv import loops, sym
from pydv.sym import Unsupported

from .c25 import field, holds, host_op, ok, rest, room, kept
from .wasi import *

PROP = 'C22'
ASSUMPTIONS = ['the module calling has a memory of less than 2 GiB',
               'the two areas a call writes do not overlap', 'the entries of a list need less than 4 GiB together']
MOST = 2


def entries(c, what):
    """up to three texts of any length"""
    n = c.choice('entries', list(range(MOST + 1)))
    return [a_text(c, f'{what}{i}') for i in range(n)]


def utf8(t):
    return t.enc if isinstance(t, SStr) else CB(t.encode())


def list_of_texts(c, attr_):
    """any number of texts of any length: its segment, and how many"""
    n = c.int(f'{attr_}.count', 0, 1 << 20) if c.symbolic else c.choice(f'{attr_}.count', [0, 1, 2, 3, 4, 12])
    return c.seq(f'{attr_}.all', n, lambda nm: a_text(c, nm)), n


def size_of(t):
    return sym.add(utf8(t).n, 1)


def total_of(c, seg, step=None):
    """the bytes all entries need; symbolically their prefix sums, which loops over the entries may use as invariants"""
    if not c.symbolic:
        return sum(con(size_of(t)) for t in seg)
    c.eng.sums = loops.Sums(c.eng, seg, size_of, step)
    c.eng.havoc = c.weak = True
    return c.eng.sums.total


def proved(c, name, cond):
    """an obligation on a step of a loop; where the invariant says too little nothing is decided"""
    o = c.discharge(name, cond)
    if o.status != 'proved':
        raise Unsupported(name)
    c.obls.append(o)


def at_any(c, n):
    k = z3.BitVec(c.eng.fresh_name('k'), 64)
    return k, z3.ULT(k, sym.idx64(n))


def vectors(what, attr_):
    get, sizes = f'{what}_get', f'{what}_sizes_get'

    def body_any(c):
        seg, n = list_of_texts(c, attr_)
        ends = []

        def step(plan, o):
            """step j writes entry j, its end and its pointer to where they belong, and nothing else"""
            eng, j, s = c.eng, plan.j, c.eng.sums
            mem = attr(c, w.mem, 'data').id
            proved(c, 'a step writes to the memory only', list(plan.blobs) == [mem] and not plan.maps and not plan.filters and not plan.ghost)
            old, new = eng.st.heap[loops.BEGIN][mem], eng.st.heap[mem].seq
            q = utf8(s.item(eng.st, j))
            at, ptr = sym.add(buf, s.at(j)), sym.add(p, sym.mul(4, j))
            b = [new.at(sym.idx64(ptr) + i) for i in range(4)]
            end = sym.add(at, size_of(s.item(eng.st, j)))
            apart = z3.Or(z3.UGE(sym.idx64(at), sym.idx64(ptr) + 4), z3.ULE(sym.idx64(end), sym.idx64(ptr)))
            proved(c, 'pointer j and entry j lie apart', apart)
            eng.assume(apart)
            for i in range(4):
                proved(c, f'pointer of entry j: byte {i}', b[i] == z3.Extract(8 * i + 7, 8 * i, sym.idx64(at)))
            k, within = at_any(c, q.n)
            proved(c, 'entry j is in the buffer', zimp(within, new.at(sym.idx64(at) + k) == q.at(k)))
            proved(c, 'the end of entry j', new.at(sym.idx64(sym.add(at, q.n))) == 0)
            k, within = at_any(c, w.n)
            out = [z3.Or(z3.ULT(k, sym.idx64(x)), z3.UGE(k, sym.idx64(sym.add(x, y)))) for x, y in ((ptr, 4), (at, size_of(s.item(eng.st, j))))]
            proved(c, 'a step changes no other byte', zimp(z3.And(within, *out), new.at(k) == old.at(k)))
            done = z3.Or(z3.And(z3.UGE(k, sym.idx64(p)), z3.ULT(k, sym.idx64(ptr))), z3.And(z3.UGE(k, sym.idx64(buf)), z3.ULT(k, sym.idx64(at))))
            proved(c, 'a step leaves earlier entries alone', zimp(z3.And(within, done), new.at(k) == old.at(k)))
            ends.append(1)
        w = world(c, fails=False, preview={attr_: c.seglist(seg)})
        args = arguments(c, w, get)
        p, buf = args
        total = total_of(c, seg, step)
        c.requires(zand(inside(p, sym.mul(4, n), w.n), inside(buf, total, w.n)))
        if not c.decide(sym.cmp('<=', sym.add(p, sym.mul(4, n)), buf)):
            c.requires(sym.cmp('<=', sym.add(buf, total), p))
        pre = Snap(c)
        out = call(c, w, get)
        ok(c, out)
        if c.symbolic:
            mem = attr(c, w.mem, 'data').id
            last = c.eng.st.heap.get(loops.END, {}).get(mem)
            if last is None:
                if not c.eng.implied(sym.cmp('==', n, 0)):
                    raise Unsupported('entries are not written by a loop over them')
                rest(c, w)
            else:
                c.cover('entries')
                now = c.eng.st.heap[mem].seq
                k, within = at_any(c, w.n)
                proved(c, 'nothing is written after the entries', now is last or zimp(within, now.at(k) == last.at(k)))
        else:
            at = buf
            for i, t in enumerate(seg):
                q = utf8(t)
                field(c, w, f'pointer {i}', p, 4 * i, 4, at)
                holds(c, w, f'entry {i}', at, q)
                field(c, w, f'the end of entry {i}', sym.add(at, q.n), 0, 1, 0)
                at = sym.add(at, size_of(t))
            rest(c, w, (p, 4 * len(seg)), (buf, total))
        kept(c, w, pre)
    add(PROP, f'{get}: any number of entries', body_any, K + get, covers=('entries',), samples=60, standin=get)

    def body_any_sizes(c):
        seg, n = list_of_texts(c, attr_)
        w = world(c, fails=False, preview={attr_: c.seglist(seg)})
        args = arguments(c, w, sizes)
        room(c, w, (args[0], 4), (args[1], 4))
        total = total_of(c, seg, lambda plan, o: None)
        c.requires(sym.cmp('<', total, 1 << 32))
        pre = Snap(c)
        out = call(c, w, sizes)
        ok(c, out)
        for name, ptr, want in (('number of entries', args[0], n), ('number of bytes', args[1], total)):
            if c.symbolic:
                got = le(c, w, ptr, 4, memory_of(c, w))
                proved(c, name, sym.cmp('==', got, want))
            else:
                field(c, w, name, ptr, 0, 4, want)
        rest(c, w, (args[0], 4), (args[1], 4))
        kept(c, w, pre)
    add(PROP, f'{sizes}: any number of entries', body_any_sizes, K + sizes, samples=60, standin=sizes)

    def body_get(c):
        texts = entries(c, attr_)
        w = world(c, fails=False, preview={attr_: c.list(list(texts))})
        args = arguments(c, w, get)
        p, buf = args
        total = 0
        for t in texts:
            total = sym.add(total, sym.add(utf8(t).n, 1))
        c.requires(zand(inside(p, 4 * len(texts), w.n), inside(buf, total, w.n)))
        if not c.decide(sym.cmp('<=', sym.add(p, 4 * len(texts)), buf)):
            c.requires(sym.cmp('<=', sym.add(buf, total), p))
        pre = Snap(c)
        out = call(c, w, get)
        c.cover(f'{len(texts)} entries')
        ok(c, out)
        at = buf
        for i, t in enumerate(texts):
            q = utf8(t)
            field(c, w, f'pointer {i}', p, 4 * i, 4, at)
            holds(c, w, f'entry {i}', at, q)
            field(c, w, f'the end of entry {i}', sym.add(at, q.n), 0, 1, 0)
            at = sym.add(at, sym.add(q.n, 1))
        rest(c, w, (p, 4 * len(texts)), (buf, total))
        kept(c, w, pre)
    add(PROP, get, body_get, K + get, covers=tuple(f'{i} entries' for i in range(MOST + 1)), samples=100, bounded=f'up to {MOST} entries')

    def body_sizes(c):
        texts = entries(c, attr_)
        w = world(c, fails=False, preview={attr_: c.list(list(texts))})
        args = arguments(c, w, sizes)
        room(c, w, (args[0], 4), (args[1], 4))
        total = 0
        for t in texts:
            total = sym.add(total, sym.add(utf8(t).n, 1))
        pre = Snap(c)
        out = call(c, w, sizes)
        c.cover(f'{len(texts)} entries')
        ok(c, out)
        field(c, w, 'number of entries', args[0], 0, 4, len(texts))
        field(c, w, 'number of bytes', args[1], 0, 4, total)
        rest(c, w, (args[0], 4), (args[1], 4))
        kept(c, w, pre)
    add(PROP, sizes, body_sizes, K + sizes, covers=tuple(f'{i} entries' for i in range(MOST + 1)), samples=100, bounded=f'up to {MOST} entries')


vectors('args', 'args')
vectors('environ', 'envs')
