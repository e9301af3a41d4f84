"""C21: rights only shrink."""
from .c24 import BOUND, FIX, OWN, entry, eq, is_num, table_len
from .wasi import *

PROP = 'C21'
ASSUMPTIONS = ['the module calling has a memory of less than 2 GiB',
               'rights are seen as the unsigned 64-bit numbers the guest passes and gets; no descriptor has the (undefined) right of bit 63: '
               'preopened ones do not, and no call adds it']
RIGHTS = ('wasm_rights_base', 'wasm_rights_root')


def within(a, b):
    """no bit of a is missing in b (64-bit)"""
    x, y = sym.low(a, 64), sym.low(b, 64)
    return (x & ~y) == 0


def plain(v):
    """the number is its unsigned 64 bits"""
    return zand(sym.cmp('>=', v, 0), sym.cmp('<', v, 1 << 64))


@contract(PROP, 'fd_fdstat_set_rights', K + 'fd_fdstat_set_rights', covers=('granted', 'refused'), samples=100)
def _(c):
    w = world(c)
    args = arguments(c, w, 'fd_fdstat_set_rights')
    c.requires(is_open(c, w, args[0]))
    f = file_at(c, w, args[0])
    was = [attr(c, f, a) for a in RIGHTS]
    pre = Snap(c)
    out = call(c, w, 'fd_fdstat_set_rights')
    e = errno(c, out)
    c.ensure(f'answers an error number (got {out!r})', e is not None)
    now = [attr(c, f, a) for a in RIGHTS]
    for x, y, a in zip(was, now, RIGHTS):
        c.ensure(f'{a}: nothing is added', within(y, x))
        c.ensure(f'{a}: stays an unsigned number', plain(y))
    fits = zand(within(args[1], was[0]), within(args[2], was[1]))
    if c.decide(sym.cmp('==', e, 0)):
        c.cover('granted')
        c.ensure('only rights the descriptor has are accepted', fits)
        for y, v, a in zip(now, args[1:], RIGHTS):
            c.ensure(f'{a}: is what the guest asks for', sym.low(y, 64) == sym.low(v, 64))
        unchanged(c, 'nothing else changes', pre, [w.pv, w.m], [(f.id, a) for a in RIGHTS])
    else:
        c.cover('refused')
        c.ensure('rights the descriptor has are accepted', zor(zand(fits, False), z3.Not(fits)))
        unchanged(c, 'nothing changes', pre, [w.pv, w.m])
    c.ensure('no host operation happens', not w.host.operations())


def opened(name, at, why):
    def body(c):
        w = world(c)
        args = arguments(c, w, name)
        k = c.int('other', 0, (1 << 16) - 1) if c.symbolic else c.int('other', 0, max(con(w.nfd) - 1, 0))
        c.requires(sym.cmp('<', k, w.nfd))
        f = file_at(c, w, k)
        was = {a: attr(c, f, a) for a in OWN}
        c.requires(is_open(c, w, args[0]))
        d = file_at(c, w, args[0])
        base, root = (attr(c, d, a) for a in RIGHTS)
        out = call(c, w, name)
        e = errno(c, out)
        r = None
        if e is not None and c.decide(sym.cmp('==', e, 0)):
            c.cover('opened')
            q = memory_of(c, w)
            c.ensure('the number fits into memory', zand(sym.cmp('>=', args[at], 0), sym.cmp('<=', sym.add(args[at], 4), q.n)))
            r = le(c, w, args[at], 4, q)
            c.ensure('the number is in the table', sym.cmp('<', r, table_len(c, w)))
            g = entry(c, w, r)
            limits = (root, root) if name == 'path_open' else (base, root)
            for a, limit in zip(RIGHTS, limits):
                c.ensure(f'{a}: within what {why} hands on', within(attr(c, g, a), limit))
                c.ensure(f'{a}: is an unsigned number', plain(attr(c, g, a)))
        if r is None or c.decide(sym.cmp('!=', k, r)):
            h = entry(c, w, k)
            for a in RIGHTS:
                c.ensure(f'other descriptors keep their {a}', eq(c, attr(c, h, a), was[a]))
    add(PROP, name, body, K + name, covers=('opened',), samples=200)


opened('path_open', 8, 'the directory')
opened('sock_accept', 2, 'the socket')


@contract(PROP, 'fd_renumber', K + 'fd_renumber', covers=('moved',), samples=100)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_renumber')
    c.requires(zand(*[is_open(c, w, a) for a in args]))
    f, g = (file_at(c, w, a) for a in args)
    was = [attr(c, f, a) for a in RIGHTS]
    pre = Snap(c)
    out = call(c, w, 'fd_renumber')
    e = errno(c, out)
    if e is None or not c.decide(sym.cmp('==', e, 0)):
        return
    c.cover('moved')
    h = entry(c, w, args[1])
    for x, a in zip(was, RIGHTS):
        c.ensure(f'{a}: moves with the file', eq(c, attr(c, h, a), x))
    if {entry(c, w, args[0]), h} == {f, g}:
        unchanged(c, 'other descriptors keep their rights', pre, [w.pv], Within((f.id, g.id)))


class Within(Except):
    """holes: everything but the rights, and the rights of these"""

    def __init__(self, ids=()):
        self.ids = ids

    def __contains__(self, k):
        return k[0] in self.ids or k[1] in OWN + ('wasm_fd',) and k[1] not in RIGHTS


def frame(name):
    def body(c):
        w = world(c, fails=name not in BOUND)
        if c.symbolic:
            c.eng.havoc = True
        arguments(c, w, name, **FIX.get(name, lambda c: {})(c))
        pre = Snap(c)
        call(c, w, name)
        c.cover('called')
        unchanged(c, 'the rights of every descriptor stay as they are', pre, [w.pv], Within())
    add(PROP, f'{name}: rights stay as they are', body, K + name, covers=('called',), samples=20, bounded=BOUND.get(name))


for _n in SIG:
    if _n not in ('fd_fdstat_set_rights', 'fd_renumber', 'path_open', 'sock_accept', 'proc_exit'):
        frame(_n)
