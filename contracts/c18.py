"""C18: WASI calls touch guest memory only within bounds."""
from .c24 import BOUND, FIX
from pydv import loops

from .wasi import *

PROP = 'C18'
ASSUMPTIONS = ['the module calling has a memory of less than 2 GiB (addresses are passed as signed 32-bit numbers)']
A = 'pywasm.core.MemInst.'


# ---------------------------------------------------------------- how the host gets at guest memory

def some_memory(c):
    """any memory, of any length"""
    n = c.int('n', 0, (1 << 32) if c.symbolic else 200)
    q = c.bytes_in('mem', n)
    return mem_inst(c, c.int('pages', 0, 65536), q), q, n


def an_int(c, name):
    """any number (within 66 bits)"""
    if not c.symbolic and name not in c.assign and c.rnd is not None and c.rnd.random() < 0.8:
        c.assign = {**c.assign, name: c.rnd.randint(-10, 210)}
    return c.int(name, -(1 << 65), (1 << 65), small=False)


def fails(c, w, out, pre, m):
    c.ensure(f'an exception is raised (got {out!r})', out.kind == 'raise')
    unchanged(c, 'the memory stays as it is', pre, [m])


def bytes_at(c, m):
    return c.eng.rd(attr(c, m, 'data')).seq


@contract(PROP, 'MemInst.get', A + 'get', covers=('inside', 'outside'), samples=100)
def _(c):
    m, q, n = some_memory(c)
    addr, size = an_int(c, 'addr'), an_int(c, 'size')
    pre = Snap(c)
    out = c.run(core.MemInst.get, m, addr, size)
    if not c.decide(inside(addr, size, n)):
        c.cover('outside')
        return fails(c, None, out, pre, m)
    c.cover('inside')
    c.ensure(f'answers bytes (got {out!r})', out.kind == 'normal' and isinstance(out.val, Ref) and isinstance(c.eng.rd(out.val), BytesRec))
    got = c.eng.rd(out.val).seq
    c.ensure('as many as asked for', sym.cmp('==', got.n, size))
    c.ensure('those at the address', is_slice(c.eng, got, q, addr, size))
    c.ensure('they are a copy', out.val != attr(c, m, 'data'))
    unchanged(c, 'the memory stays as it is', pre, [m])


@contract(PROP, 'MemInst.put', A + 'put', covers=('inside', 'outside'), samples=100)
def _(c):
    m, q, n = some_memory(c)
    addr, size = an_int(c, 'addr'), c.int('size', 0, 1 << 33 if c.symbolic else 60)
    src = c.bytes_in('src', size)
    data = c.bytearray(src)
    pre = Snap(c)
    out = c.run(core.MemInst.put, m, addr, data)
    if not c.decide(inside(addr, size, n)):
        c.cover('outside')
        return fails(c, None, out, pre, m)
    c.cover('inside')
    c.ensure(f'returns (got {out!r})', out.kind == 'normal')
    stored(c, m, q, n, addr, size, src)
    unchanged(c, 'nothing else changes', pre, [m, data], [(m, 'data')])


def stored(c, m, q, n, addr, size, src):
    now = bytes_at(c, m)
    c.ensure('the memory keeps its length', sym.cmp('==', now.n, n))
    c.ensure('the bytes are at the address', is_slice(c.eng, sym.bs_slice(now, addr, sym.add(addr, size)), src, 0, size))
    c.ensure('the bytes before stay', is_slice(c.eng, sym.bs_slice(now, 0, addr), q, 0, addr))
    end = sym.add(addr, size)
    c.ensure('the bytes behind stay', is_slice(c.eng, sym.bs_slice(now, end, n), q, end, sym.sub(n, end)))


def getter(name, size, signed):
    def body(c):
        m, q, n = some_memory(c)
        addr = an_int(c, 'addr')
        pre = Snap(c)
        out = c.run(getattr(core.MemInst, name), m, addr)
        if not c.decide(inside(addr, size, n)):
            c.cover('outside')
            return fails(c, None, out, pre, m)
        c.cover('inside')
        bs = [q.at(sym.idx64(addr) + i) for i in range(size)]
        t = z3.Concat(*reversed(bs)) if size > 1 else bs[0]
        want = sym.sbv(t) if signed else sym.ubv(t)
        c.ensure(f'the number at the address (got {out!r})', out.kind == 'normal' and isinstance(out.val, (int, sym.SInt)) and sym.cmp('==', out.val, want))
        unchanged(c, 'the memory stays as it is', pre, [m])
    add(PROP, f'MemInst.{name}', body, A + name, covers=('inside', 'outside'), samples=60)


def putter(name, size, signed):
    lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)

    def body(c):
        m, q, n = some_memory(c)
        addr, v = an_int(c, 'addr'), c.int('v', -(1 << 66), 1 << 66, small=False)
        if not c.symbolic and c.rnd is not None and c.rnd.random() < 0.8:
            v = c.rnd.randint(lo, hi)
        pre = Snap(c)
        out = c.run(getattr(core.MemInst, name), m, addr, v)
        fits = zand(sym.cmp('>=', v, lo), sym.cmp('<=', v, hi))
        if not c.decide(zand(inside(addr, size, n), fits)):
            c.cover('outside')
            return fails(c, None, out, pre, m)
        c.cover('inside')
        c.ensure(f'returns (got {out!r})', out.kind == 'normal')
        t = sym.low(v, 8 * size)
        src = sym.mkcb([z3.Extract(8 * i + 7, 8 * i, t) for i in range(size)])
        stored(c, m, q, n, addr, size, src)
    add(PROP, f'MemInst.{name}', body, A + name, covers=('inside', 'outside'), samples=60)


for _k, (_size, _signed) in ACCESS.items():
    if hasattr(core.MemInst, 'get_' + _k):
        getter('get_' + _k, _size, _signed)
    if hasattr(core.MemInst, 'put_' + _k):
        putter('put_' + _k, _size, _signed)


# ---------------------------------------------------------------- the calls

# the buffers a successful call reads or writes in full: (argument with the address, length or ('arg', argument with the length))
BUFFERS = {
    'args_sizes_get': [(0, 4), (1, 4)], 'environ_sizes_get': [(0, 4), (1, 4)], 'clock_res_get': [(1, 8)], 'clock_time_get': [(2, 8)],
    'fd_fdstat_get': [(1, 24)], 'fd_filestat_get': [(1, 64)], 'fd_pread': [(4, 4)], 'fd_prestat_get': [(1, 8)], 'fd_pwrite': [(4, 4)],
    'fd_read': [(3, 4)], 'fd_readdir': [(4, 4)], 'fd_seek': [(3, 8)], 'fd_tell': [(1, 8)], 'fd_write': [(3, 4)],
    'path_filestat_get': [(4, 64)], 'path_open': [(8, 4)], 'path_readlink': [(5, 4)], 'poll_oneoff': [(3, 4)],
    'random_get': [(0, ('arg', 1))], 'sock_accept': [(2, 4)], 'sock_recv': [(4, 4), (5, 4)], 'sock_send': [(4, 4)],
}
for _n, _p in PATHS.items():
    BUFFERS[_n] = BUFFERS.get(_n, []) + [(a, ('arg', b)) for a, b in _p]


def bounds(name):
    bufs = BUFFERS.get(name, [])

    def body(c):
        w = world(c)
        if c.symbolic:
            c.eng.havoc = True
        args = arguments(c, w, name, **FIX.get(name, lambda c: {})(c))
        out = call(c, w, name)
        c.cover('called')
        c.ensure('the memory keeps its length', sym.cmp('==', memory_of(c, w).n, w.n))
        e = errno(c, out)
        if bufs and e is not None and c.decide(sym.cmp('==', e, 0)):
            c.cover('success')
            for a, size in bufs:
                size = args[size[1]] if isinstance(size, tuple) else size
                c.ensure(f'success: the buffer at argument {a} is inside of the memory', inside(args[a], size, w.n))
    add(PROP, name, body, K + name, covers=('called', 'success') if bufs else ('called',), samples=40, bounded=BOUND.get(name))


for _n in SIG:
    bounds(_n)


def gathered(name):
    """every buffer a successful vectored write names lies inside of the memory"""
    def body(c):
        w = world(c)
        if c.symbolic:
            c.eng.havoc = True
        args = arguments(c, w, name)
        k = c.int('k', 0, (1 << 31) - 1) if c.symbolic else c.int('k', 0, max(0, min(3, con(args[2]) - 1)))
        c.requires(sym.cmp('<', k, args[2]))
        out = call(c, w, name)
        e = errno(c, out)
        if e is not None and c.decide(sym.cmp('==', e, 0)):
            if c.symbolic:
                loops.instantiate(c.eng, k)
            c.cover('success')
            at = sym.add(args[1], sym.mul(8, k))
            c.ensure('the description of the buffer is inside of the memory', inside(at, 8, w.n))
            c.ensure('the buffer is inside of the memory', inside(le(c, w, at, 4), le(c, w, sym.add(at, 4), 4), w.n))
    add(PROP, f'{name}: every buffer', body, K + name, covers=('success',), samples=40)


for _n in ('fd_write', 'fd_pwrite', 'sock_send'):
    gathered(_n)


# ---------------------------------------------------------------- what is written stays inside of the buffers given

from . import c25  # noqa: E402

for _ct in [ct for ct in ALL if ct.prop == 'C25']:
    if _ct.name in ('fd_readdir', 'path_readlink', 'random_get', 'fd_prestat_dir_name'):
        add(PROP, f'{_ct.name}: writes only into its buffers', _ct.body, _ct.target, covers=_ct.covers, samples=_ct.samples,
            max_seconds=_ct.max_seconds, bounded=_ct.bounded)
