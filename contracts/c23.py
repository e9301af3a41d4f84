"""C23: vectored reads and writes."""
from pydv import loops

from .c22 import at_any, proved
from .c19 import BIT, lacks
from .c25 import field, host_op, is_num, kept, may, ok
from .wasi import *

PROP = 'C23'
ASSUMPTIONS = ['the module calling has a memory of less than 2 GiB',
               'the buffers of a read, their descriptions and the reported number do not overlap',
               'the buffers of one call hold less than 4 GiB together (their number of bytes is reported in 32 bits)',
               'the host does not fail in the middle of a read (what it fails with surfaces as a trap)']
COUNT = [0, 1, 2]
SOCKS = (5, 6)


def buffers(c, w, p, n, res, apart):
    """the n buffers described at p, inside of memory; apart: nothing overlaps -> [(address, length)]"""
    if not c.symbolic and (c.rnd is not None or 'len0' in c.assign):
        lay(c, w, p, n)
    c.requires(inside(p, 8 * n, w.n))
    out = [(le(c, w, sym.add(p, 8 * i), 4), le(c, w, sym.add(p, 8 * i + 4), 4)) for i in range(n)]
    areas = [(p, 8 * n)] + [(r, 4) for r in res]
    for i, (a, k) in enumerate(out):
        c.requires(inside(a, k, w.n))
        if apart:
            for b, m in areas + out[:i]:
                c.requires(zor(sym.cmp('<=', sym.add(a, k), b), sym.cmp('<=', sym.add(b, m), a)))
    for i, r in enumerate(res):
        c.requires(inside(r, 4, w.n))
        if apart:
            c.requires(zor(sym.cmp('<=', sym.add(r, 4), p), sym.cmp('<=', sym.add(p, 8 * n), r)))
        for r2 in res[:i]:
            c.requires(zor(sym.cmp('<=', sym.add(r, 4), r2), sym.cmp('<=', sym.add(r2, 4), r)))
    return out


def ready(c, name, ip, res):
    """samples: descriptors of the right kind, buffers inside of memory"""
    if sampling(c):
        c.kinds, c.entitled = (SOCKS if name.startswith('sock') else (2, 4, 6, 0)), 0.9
        aim(c, 0.9, **{f'a{ip}': c.rnd.choice([512, 1024, 1027])}, **{f'a{r}': 2048 + 16 * i for i, r in enumerate(res)})


def lay(c, w, p, n):
    q = bytearray(real_bytes(w.q))
    at = 4096
    for i in range(n):
        k = c.choice(f'len{i}', [0, 1, 5, 40] + [x for x in (300, 5000, 66000) if at + x + 1000 < len(q)])
        if 0 <= con(p) and con(p) + 8 * i + 8 <= len(q):
            q[con(p) + 8 * i:con(p) + 8 * i + 8] = struct.pack('<II', at, k)
        at += 64 + k
    w.q = CB(bytes(q))
    c.eng.wr(attr(c, w.mem, 'data')).seq = w.q


def joined(parts):
    q = CB(b'')
    for p in parts:
        q = p if isinstance(q, CB) and q.n == 0 else sym.bs_concat(q, p)
    return q


def total_of(ns):
    t = 0
    for n in ns:
        t = sym.add(t, n)
    return t


def at_target(c, w, op, f):
    """the operation is on the descriptor's pipe, or on its host descriptor"""
    x = op[1][0]
    p = attr(c, f, 'pipe') if op[0] in ('os.read', 'os.write', 'pipe.read', 'pipe.write') else None
    if op[0].startswith('pipe.'):
        want = [(g, v) for g, v in p.alts if v is not None] if isinstance(p, Union) else [(True, p)]
        return zor(*[g for g, v in want if v is x or v == x])
    none = zor(*[g for g, v in p.alts if v is None]) if isinstance(p, Union) else p is None
    return zand(none, is_num(x) and sym.cmp('==', x, attr(c, f, 'host_fd')))


def is_socket(c, f):
    c.requires(zor(*[sym.cmp('==', attr(c, f, 'wasm_type'), k) for k in SOCKS]))


def least(a, b):
    """the smaller of two numbers"""
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return sym.ite(sym.cmp('<=', a, b), a, b)


def same_bytes(c, what, a, b, n):
    """the first n bytes agree; a, b: position -> byte"""
    if c.symbolic:
        return c.forall(what, n, lambda k: a(k) == b(k))


# ---------------------------------------------------------------- writes

def writes(name, ip, np, res, ops, off=None):
    def body(c):
        n = c.choice('buffers', COUNT)
        ready(c, name, ip, [res])
        w = world(c, fails=False)
        args = arguments(c, w, name, **{f'a{np}': n})
        f = may(c, w, name, 'FD_WRITE', files=not name.startswith('sock'))
        if name.startswith('sock'):
            is_socket(c, f)
        bufs = buffers(c, w, args[ip], n, [args[res]], False)
        pre = Snap(c)
        out = call(c, w, name)
        c.cover(f'{n} buffers')
        ok(c, out)
        q = joined([sym.bs_slice(w.q, a, sym.add(a, k)) for a, k in bufs])
        tag, op = host_op(c, w, *ops)
        if not name.startswith('sock'):
            c.ensure(f'what the descriptor designates is written to (got {op!r})', at_target(c, w, op, f))
        c.ensure('one operation', len([e for e in w.host.operations() if e[0] in ops]) == 1)
        got = c.eng.bytes_of(op[1][1])
        c.ensure('the host gets as many bytes as the buffers hold', sym.cmp('==', got.n, q.n))
        if c.symbolic:
            at = 0
            for i, (a, k) in enumerate(bufs):
                c.forall(f'buffer {i} is handed over', k, lambda j: got.at(sym.idx64(at) + j) == w.q.at(sym.idx64(a) + j))
                at = sym.add(at, k)
        else:
            c.ensure('the buffers are handed over', real_bytes(got) == real_bytes(q))
        if off is not None:
            c.ensure('at the offset asked for', sym.cmp('==', op[1][2], args[off]))
        took = c.int(tag + '.n', 0, q.n if isinstance(q.n, int) else max(sym.hi(q.n), 0))
        field(c, w, 'number of bytes the host took', args[res], 0, 4, took)
        rest_(c, w, (args[res], 4))
        kept(c, w, pre)
    add(PROP, name, body, K + name, covers=tuple(f'{i} buffers' for i in COUNT), samples=150, bounded=f'up to {COUNT[-1]} buffers of any length')


def writes_any(name, ip, np, res, ops, off=None):
    """any number of buffers: their prefix sums are the invariant; step j adds buffer j to what the host gets"""
    def body(c):
        eng = c.eng
        n = c.int('buffers', 0, 1 << 28) if c.symbolic else c.choice('buffers', [0, 1, 2, 3, 7])
        ready(c, name, ip, [res])
        w = world(c, fails=False)
        args = arguments(c, w, name, **{f'a{np}': n})
        f = may(c, w, name, 'FD_WRITE', files=not name.startswith('sock'))
        if name.startswith('sock'):
            is_socket(c, f)
        if c.symbolic:
            c.requires(zand(inside(args[ip], sym.mul(8, n), w.n), inside(args[res], 4, w.n)))

            def at(j):
                return le(c, w, sym.add(args[ip], sym.mul(8, j)), 4)

            def size(j):
                return le(c, w, sym.add(args[ip], sym.add(sym.mul(8, j), 4)), 4)

            def step(plan, o):
                j, s = plan.j, eng.sums
                ids = [i for i, d in plan.blobs.items() if d != 0]
                proved(c, 'a step adds to one sequence of bytes', len(ids) == 1 and len(plan.blobs) == 1 and not plan.maps and
                       not plan.filters and not plan.ghost)
                proved(c, 'it is empty before the first step', sym.cmp('==', plan.heap0[ids[0]].seq.n, 0))
                old, new = eng.st.heap[loops.BEGIN][ids[0]], eng.st.heap[ids[0]].seq
                proved(c, 'a step adds as much as buffer j holds', sym.cmp('==', new.n, sym.add(s.at(j), size(j))))
                k, within = at_any(c, size(j))
                proved(c, 'a step adds buffer j', zimp(within, new.at(sym.idx64(s.at(j)) + k) == w.q.at(sym.idx64(at(j)) + k)))
                k, within = at_any(c, s.at(j))
                proved(c, 'a step leaves what was gathered alone', zimp(within, new.at(k) == old.at(k)))
            eng.sums = loops.Steps(eng, n, size, step, lambda j: zimp(sym.cmp('<', j, n), inside(at(j), size(j), w.n)))
            eng.havoc = c.weak = True
            total = eng.sums.total
            c.requires(sym.cmp('<', total, 1 << 32))
        else:
            bufs = buffers(c, w, args[ip], n, [args[res]], False)
            total = total_of([k for _, k in bufs])
        pre = Snap(c)
        out = call(c, w, name)
        ok(c, out)
        tag, op = host_op(c, w, *ops)
        if not name.startswith('sock'):
            c.ensure(f'what the descriptor designates is written to (got {op!r})', at_target(c, w, op, f))
        c.ensure('one operation', len([e for e in w.host.operations() if e[0] in ops]) == 1)
        got = eng.bytes_of(op[1][1])
        c.ensure('the host gets as many bytes as the buffers hold', sym.cmp('==', got.n, total))
        if c.symbolic:
            last = list(eng.st.heap.get(loops.END, {}).values())
            if last:
                c.cover('buffers')
                k, within = at_any(c, total)
                proved(c, 'what was gathered is handed over', got is last[0] or zimp(within, got.at(k) == last[0].at(k)))
            elif not eng.implied(sym.cmp('==', n, 0)):
                raise Unsupported('buffers are not gathered by a loop over them')
        else:
            q = joined([sym.bs_slice(w.q, a, sym.add(a, k)) for a, k in bufs])
            c.ensure('the buffers are handed over', real_bytes(got) == real_bytes(q))
        if off is not None:
            c.ensure('at the offset asked for', sym.cmp('==', op[1][2], args[off]))
        took = c.int(tag + '.n', 0, total if isinstance(total, int) else max(sym.hi(total), 0))
        field(c, w, 'number of bytes the host took', args[res], 0, 4, took)
        rest_(c, w, (args[res], 4))
        kept(c, w, pre)
    add(PROP, f'{name}: any number of buffers', body, K + name, covers=('buffers',), samples=100, standin=name)


def rest_(c, w, *regions):
    from .c25 import rest
    rest(c, w, *regions)


writes('fd_write', 1, 2, 3, ('os.write', 'pipe.write'))
writes('fd_pwrite', 1, 2, 4, ('os.pwrite',), off=3)
writes('sock_send', 1, 2, 4, ('sock.send',))
writes_any('fd_write', 1, 2, 3, ('os.write', 'pipe.write'))
writes_any('fd_pwrite', 1, 2, 4, ('os.pwrite',), off=3)
writes_any('sock_send', 1, 2, 4, ('sock.send',))


# ---------------------------------------------------------------- reads

def asked(op):
    return op[1][1]


def reads(name, ip, np, res, ops, off=None, count=(0, 1), what='', make=False):
    def body(c):
        n = c.choice('buffers', list(count))
        ready(c, name, ip, res)
        w = world(c, fails=False)
        fixed = {f'a{ip}': 1024, **{f'a{r}': 1024 + 8 * n + 4 * i for i, r in enumerate(res)}} if n > 1 else {}
        args = arguments(c, w, name, **{f'a{np}': n}, **fixed)
        f = may(c, w, name, 'FD_READ', files=not name.startswith('sock'))
        if name.startswith('sock'):
            is_socket(c, f)
        bufs = buffers(c, w, args[ip], n, [args[r] for r in res], True)
        pre = Snap(c)
        out = call(c, w, name)
        c.cover(f'{n} buffers')
        ok(c, out)
        done = [(f'ev{i}.{e[0]}', e) for i, e in enumerate(w.host.events()) if e[0] in ops]
        whole = total_of([k for _, k in bufs])
        got, parts = 0, []
        for i, (tag, op) in enumerate(done):
            if not name.startswith('sock'):
                c.ensure(f'what the descriptor designates is read (got {op!r})', at_target(c, w, op, f))
            if off is not None:
                c.ensure(f'read {i}: at the offset behind what was read', sym.cmp('==', op[1][2], sym.add(args[off], got)))
            c.ensure(f'read {i}: no more than fits is asked for', sym.cmp('<=', sym.add(got, asked(op)), whole))
            m = asked(op)
            k = c.int(tag + '.n', 0, m if isinstance(m, int) else max(sym.hi(m), 0))
            if i + 1 < len(done):
                c.ensure(f'read {i}: reading goes on only when it was complete', sym.cmp('==', k, m))
            parts.append((k, c.bytes_in(tag + '.data', k), m))
            got = sym.add(got, k)
        if not done or not c.decide(sym.cmp('<', parts[-1][0], parts[-1][2])):
            c.cover('complete')
            c.ensure('all buffers are filled unless the host delivers less', sym.cmp('==', got, whole))
        else:
            c.cover('short')
        field(c, w, 'number of bytes read', args[res[0]], 0, 4, got)
        now = memory_of(c, w)
        regions, at = [(args[r], 4) for r in res], 0
        if not c.symbolic:
            data = b''.join(real_bytes(q) for _, q, _ in parts)
            for i, (a, k) in enumerate(bufs):
                m = max(0, min(k, len(data) - at))
                c.ensure(f'buffer {i} holds what was read', real_bytes(now)[a:a + m] == data[at:at + m])
                regions.append((a, m))
                at += k
        else:
            for i, (a, k) in enumerate(bufs):
                # the part of each answer that belongs into this buffer
                start = 0
                for j, (m, q, _) in enumerate(parts):
                    def same(y, start=start, m=m, q=q, a=a, at=at):
                        # y: position in the buffer
                        t = sym.idx64(at) + y - sym.idx64(start)
                        return zimp(z3.ULT(z3.simplify(t), sym.idx64(m)), now.at(sym.idx64(a) + y) == q.at(z3.simplify(t)))
                    c.forall(f'buffer {i} holds what read {j} answered', k, same)
                    start = sym.add(start, m)
                left = sym.sub(got, at)
                if not c.decide(sym.cmp('>', left, 0)):
                    m = 0
                elif c.decide(sym.cmp('>=', left, k)):
                    m = k
                else:
                    m = left
                regions.append((a, m))
                at = sym.add(at, k)
        rest_(c, w, *regions)
        kept(c, w, pre)
    if make:
        return body
    add(PROP, f'{name}{what}', body, K + name, covers=('complete', 'short') + tuple(f'{i} buffers' for i in count), samples=150,
        max_seconds=760 if what else 240, heavy=3 if what else 1, lazy=bool(what),
        bounded='one buffer of any length' if not what else 'two buffers of any length, anywhere; their descriptions at a fixed address')


for _count, _what in (((0, 1), ''), ((2,), ': two buffers')):
    reads('fd_read', 1, 2, [3], ('os.read', 'pipe.read'), count=_count, what=_what)
    reads('fd_pread', 1, 2, [4], ('os.pread',), off=3, count=_count, what=_what)
    reads('sock_recv', 1, 2, [4, 5], ('sock.recv',), count=_count, what=_what)


def reads_any(name, ip, np, res, ops, off=None):
    """any number of buffers: their prefix sums are the invariant; a step that goes on has filled its buffer, and nothing else"""
    some = reads(name, ip, np, res, ops, off, count=(0, 1, 2, 3, 7), make=True)

    def body(c):
        if not c.symbolic:
            return some(c)
        eng = c.eng
        n = c.int('buffers', 0, 1 << 28)
        w = world(c, fails=False)
        args = arguments(c, w, name, **{f'a{np}': n})
        f = may(c, w, name, 'FD_READ', files=True)
        p, r = args[ip], args[res[0]]
        mem = attr(c, w.mem, 'data').id
        c.requires(zand(inside(p, sym.mul(8, n), w.n), inside(r, 4, w.n)))

        def apart(a, k, b, m):
            return zor(sym.cmp('<=', sym.add(a, k), b), sym.cmp('<=', sym.add(b, m), a))
        c.requires(apart(r, 4, p, sym.mul(8, n)))

        def at(j):
            return le(c, w, sym.add(p, sym.mul(8, j)), 4)

        def size(j):
            return le(c, w, sym.add(p, sym.add(sym.mul(8, j), 4)), 4)

        def known(j):
            return zimp(sym.cmp('<', j, n), zand(inside(at(j), size(j), w.n), apart(at(j), size(j), p, sym.mul(8, n)),
                                                 apart(at(j), size(j), r, 4)))

        def kept_(eng, blobs, j):
            if mem in blobs:
                q, b = eng.st.heap[mem].seq, sym.idx64(sym.add(p, sym.mul(8, j)))
                eng.assume(z3.Or(z3.UGE(sym.idx64(j), sym.idx64(n)), z3.And(*[q.at(b + i) == w.q.at(b + i) for i in range(8)])))

        def one_read(ghost, j):
            """-> (asked for, number of bytes, bytes) of the read of step j, or None"""
            found = [e for e in ghost if e[0] in ('os', 'each') and e[1] not in CLOCKS]
            proved(c, 'a step asks the host for a read at most', len(found) < 2 and all(e[0] == 'os' and e[1] in ops for e in found))
            if not found:
                return None
            _, op, a, kw, tag = found[0]
            proved(c, 'a step reads what the descriptor designates', at_target(c, w, (op, a, kw), f))
            if off is not None:
                proved(c, 'a step reads at the offset behind what was read', sym.cmp('==', a[2], sym.add(args[off], eng.sums.at(j))))
            proved(c, 'a step asks for what its buffer holds', sym.cmp('==', a[1], size(j)))
            k = c.int(tag + '.n', 0, max(sym.hi(a[1]), 0))
            return a[1], k, c.bytes_in(tag + '.data', k)

        def placed(what, now, old, j, k, q, *more):
            """the first k bytes of buffer j are q, other bytes are as they were"""
            y, within = at_any(c, k)
            proved(c, f'{what} places what was read', zimp(within, now.at(sym.idx64(at(j)) + y) == q.at(y)))
            frame(what, now, old, (at(j), k), *more)

        def frame(what, now, old, *areas):
            y, within = at_any(c, w.n)
            out = [z3.Or(z3.ULT(y, sym.idx64(b)), z3.UGE(y, sym.idx64(sym.add(b, m)))) for b, m in areas]
            proved(c, f'{what} changes no other byte', zimp(z3.And(within, *out), now.at(y) == old.at(y)))

        def step(plan, o):
            j = plan.j
            proved(c, 'a step changes the memory only', list(plan.blobs) == [mem] and plan.blobs[mem] == 0 and not plan.maps and
                   not plan.filters)
            x = one_read(o.st.ghost[len(plan.ghost0):], j)
            old, now = eng.st.heap[loops.BEGIN][mem], eng.st.heap[mem].seq
            if x is None:
                proved(c, 'a step without a read has an empty buffer', sym.cmp('==', size(j), 0))
                return frame('a step', now, old)
            proved(c, 'reading goes on only when it was complete', sym.cmp('==', x[1], size(j)))
            placed('a step', now, old, j, x[1], x[2])
            y, within = at_any(c, sym.mul(8, n))
            proved(c, 'a step leaves the descriptions alone', zimp(within, now.at(sym.idx64(p) + y) == old.at(sym.idx64(p) + y)))
        eng.sums = loops.Steps(eng, n, size, step, known, kept_)
        eng.havoc = c.weak = True
        total = eng.sums.total
        c.requires(sym.cmp('<', total, 1 << 32))
        pre = Snap(c)
        out = call(c, w, name)
        ok(c, out)
        now = memory_of(c, w)
        c.ensure('the memory keeps its length', sym.cmp('==', now.n, w.n))
        ghost = eng.st.ghost
        marks = [i for i, e in enumerate(ghost) if e[0] == 'each']
        end, begin = eng.st.heap.get(loops.END), eng.st.heap.get(loops.BEGIN)
        proved(c, 'nothing is read outside of the loop', all(e[0] != 'os' or e[1] in CLOCKS for e in ghost[:marks[0] if marks else None]))
        if end is not None and len(marks) <= 1:
            proved(c, 'nothing is read outside of the loop', not marks or all(e[0] != 'os' or e[1] in CLOCKS for e in ghost[marks[0]:]))
            c.cover('complete')
            field(c, w, 'number of bytes read', r, 0, 4, total)
            frame('the end', now, end[mem], (r, 4))
        elif begin is not None and len(marks) == 1:
            j = ghost[marks[0]][2]
            x = one_read(ghost[marks[0] + 1:], j)
            proved(c, 'reading stops early only after a read', x is not None)
            proved(c, 'reading stops early only when it was not complete', sym.cmp('<', x[1], x[0]))
            c.cover('short')
            field(c, w, 'number of bytes read', r, 0, 4, sym.add(eng.sums.at(j), x[1]))
            placed('the last step', now, begin[mem], j, x[1], x[2], (r, 4))
        else:
            raise Unsupported('buffers are not filled by a loop over them')
        kept(c, w, pre)
    add(PROP, f'{name}: any number of buffers', body, K + name, covers=('complete', 'short'), samples=100, standin=f'{name}: two buffers')


reads_any('fd_read', 1, 2, [3], ('os.read', 'pipe.read'))
reads_any('fd_pread', 1, 2, [4], ('os.pread',), off=3)


def recv_any(name, ip, np, res, ops):
    """any number of buffers: one answer of the host is laid out over them in order"""
    some = reads(name, ip, np, res, ops, count=(0, 1, 2, 3, 7), make=True)

    def body(c):
        if not c.symbolic:
            return some(c)
        eng = c.eng
        n = c.int('buffers', 0, 1 << 28)
        w = world(c, fails=False)
        args = arguments(c, w, name, **{f'a{np}': n})
        f = may(c, w, name, 'FD_READ', files=False)
        is_socket(c, f)
        p, rs = args[ip], [args[r] for r in res]
        mem = attr(c, w.mem, 'data').id
        slots = [(p, sym.mul(8, n))] + [(r, 4) for r in rs]
        c.requires(inside(p, sym.mul(8, n), w.n))

        def apart(a, k, b, m):
            return zor(sym.cmp('<=', sym.add(a, k), b), sym.cmp('<=', sym.add(b, m), a))
        for i, r in enumerate(rs):
            c.requires(inside(r, 4, w.n))
            c.requires(zand(*[apart(r, 4, b, m) for b, m in slots[:i + 1]]))

        def at(j):
            return le(c, w, sym.add(p, sym.mul(8, j)), 4)

        def size(j):
            return le(c, w, sym.add(p, sym.add(sym.mul(8, j), 4)), 4)

        def known(j):
            return zimp(sym.cmp('<', j, n), zand(inside(at(j), size(j), w.n), *[apart(at(j), size(j), b, m) for b, m in slots]))

        def kept_(eng, blobs, j):
            if mem in blobs:
                q, b = eng.st.heap[mem].seq, sym.idx64(sym.add(p, sym.mul(8, j)))
                eng.assume(z3.Or(z3.UGE(sym.idx64(j), sym.idx64(n)), z3.And(*[q.at(b + i) == w.q.at(b + i) for i in range(8)])))

        def answer():
            found = [e for e in eng.st.ghost if e[0] == 'os' and e[1] in ops]
            if len(found) != 1:
                return None
            _, op, a, kw, tag = found[0]
            k = c.int(tag + '.n', 0, max(sym.hi(a[0] if is_num(a[0]) else a[1]), 0))
            return k, c.bytes_in(tag + '.data', k), (a[0] if is_num(a[0]) else a[1])

        def frame(what, now, old, *areas):
            y, within = at_any(c, w.n)
            out = [z3.Or(z3.ULT(y, sym.idx64(b)), z3.UGE(y, sym.idx64(sym.add(b, m)))) for b, m in areas]
            proved(c, f'{what} changes no other byte', zimp(z3.And(within, *out), now.at(y) == old.at(y)))

        def part(j, k):
            """how much of k bytes belongs into buffer j, and where it begins"""
            s = least(eng.sums.at(j), k)
            return s, least(size(j), sym.sub(k, s))

        def step(plan, o):
            j = plan.j
            x = answer()
            proved(c, 'a step changes the memory only', list(plan.blobs) == [mem] and plan.blobs[mem] == 0 and not plan.maps and
                   not plan.filters and not plan.ghost and x is not None)
            old, now = eng.st.heap[loops.BEGIN][mem], eng.st.heap[mem].seq
            s, m = part(j, x[0])
            y, within = at_any(c, m)
            proved(c, 'a step places what belongs into its buffer', zimp(within, now.at(sym.idx64(at(j)) + y) == x[1].at(sym.idx64(s) + y)))
            frame('a step', now, old, (at(j), m))
            y, within = at_any(c, sym.mul(8, n))
            proved(c, 'a step leaves the descriptions alone', zimp(within, now.at(sym.idx64(p) + y) == old.at(sym.idx64(p) + y)))

        def cap():
            x = answer()
            return None if x is None else x[0]
        eng.sums = loops.Steps(eng, n, size, step, known, kept_)
        eng.sums.cap = cap
        eng.havoc = c.weak = True
        total = eng.sums.total
        c.requires(sym.cmp('<', total, 1 << 32))
        pre = Snap(c)
        out = call(c, w, name)
        ok(c, out)
        now = memory_of(c, w)
        c.ensure('the memory keeps its length', sym.cmp('==', now.n, w.n))
        x = answer()
        proved(c, 'the host is asked once, outside of a loop', x is not None and all(e[0] != 'each' for e in eng.st.ghost))
        proved(c, 'the host is asked for as much as fits', sym.cmp('==', x[2], total))
        field(c, w, 'number of bytes read', rs[0], 0, 4, x[0])
        end, begin = eng.st.heap.get(loops.END), eng.st.heap.get(loops.BEGIN)
        holes = [(r, 4) for r in rs]
        if begin is not None and begin.get(mem) is not None:
            j = eng.st.loops[-1][2]
            proved(c, 'buffers are left out only when all was delivered', sym.cmp('>=', eng.sums.at(j), x[0]))
            c.cover('short')
            frame('the end', now, begin[mem], *holes)
        elif end is not None and mem in end:
            c.cover('complete')
            frame('the end', now, end[mem], *holes)
        else:
            raise Unsupported('buffers are not filled by a loop over them')
        kept(c, w, pre)
    add(PROP, f'{name}: any number of buffers', body, K + name, covers=('complete', 'short'), samples=100, standin=f'{name}: two buffers')


recv_any('sock_recv', 1, 2, [4, 5], ('sock.recv',))
