"""C24: the descriptor table through close, renumber, open and everything else."""
from pydv.interp import ExcVal

from .wasi import *

PROP = 'C24'
ASSUMPTIONS = ['the module calling has a memory of less than 2 GiB',
               'host operations are the functions of os, fcntl, select, time, socket, random and the pipes; nothing else reaches the host',
               'closing a host descriptor does not fail']
OWN = ('host_fd', 'host_flag', 'host_name', 'host_status', 'pipe', 'wasm_flag', 'wasm_name', 'wasm_rights_base', 'wasm_rights_root', 'wasm_status',
       'wasm_type')
CHANGES = {'fd_close', 'fd_renumber', 'path_open', 'sock_accept', 'proc_exit'}


CHANGES = {'fd_close', 'fd_renumber', 'path_open', 'sock_accept', 'proc_exit'}
OPEN, CLOSED, CHARDEV = 0, 1, 2


def sound(c, w, f):
    """an open descriptor has an open host descriptor"""
    c.requires(sym.cmp('==', attr(c, f, 'host_status'), 0))


def closes(w):
    return [e for e in w.host.operations() if e[0] in CLOSING]


CLOSING = ('os.close', 'os.closerange', 'os.dup2', 'sock.close', 'pipe.close', 'os.fdopen')


def is_num(x):
    return isinstance(x, (int, sym.SInt)) and not isinstance(x, bool)


def eq(c, x, y):
    """condition: the same value"""
    if is_num(x) and is_num(y):
        return sym.cmp('==', x, y)
    if isinstance(x, (SStr, Opaque)) or isinstance(y, (SStr, Opaque)):
        return x is y or type(x) is type(y) and x == y
    return x is y or isinstance(x, str) and x == y


def table_len(c, w):
    t = c.eng.rd(attr(c, w.pv, 'fd'))
    return c.eng.list_len(t) if c.symbolic else sum(len(s) for s in t.segs)


def entry(c, w, i):
    if c.symbolic:
        return c.eng.list_get(attr(c, w.pv, 'fd'), i)
    return [f for s in c.eng.rd(attr(c, w.pv, 'fd')).segs for f in s][con(i)]


def is_closed_once(c, w, host_fd, kind):
    """its host descriptor is closed, and nothing else; a character device (the standard streams) stays"""
    ops = closes(w)
    if c.decide(sym.cmp('==', kind, CHARDEV)):
        c.ensure(f'no host descriptor is closed (got {ops})', not ops)
    else:
        c.cover('host')
        c.ensure(f'one host descriptor is closed (got {ops})', len(ops) == 1 and ops[0][0] == 'os.close')
        c.ensure('the host descriptor closed is the one of the entry', eq(c, ops[0][1][0], host_fd))


@contract(PROP, 'fd_close', K + 'fd_close', covers=('host', 'done'))
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_close')
    c.requires(is_open(c, w, args[0]))
    f = file_at(c, w, args[0])
    sound(c, w, f)
    host_fd, kind = attr(c, f, 'host_fd'), attr(c, f, 'wasm_type')
    pre = Snap(c)
    out = call(c, w, 'fd_close')
    e = errno(c, out)
    c.ensure(f'succeeds (got {out!r})', e is not None and sym.cmp('==', e, 0))
    c.cover('done')
    c.ensure('the descriptor is closed', sym.cmp('==', attr(c, f, 'wasm_status'), CLOSED))
    is_closed_once(c, w, host_fd, kind)
    if c.decide(sym.cmp('!=', kind, CHARDEV)):
        c.ensure('the host descriptor counts as closed', sym.cmp('==', attr(c, f, 'host_status'), CLOSED))
    unchanged(c, 'nothing else changes', pre, [w.pv, w.m], [(f.id, 'wasm_status'), (f.id, 'host_status')])


@contract(PROP, 'fd_renumber', K + 'fd_renumber', covers=('host', 'done'))
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_renumber')
    c.requires(zand(*[is_open(c, w, a) for a in args]))
    c.requires(sym.cmp('!=', args[0], args[1]))
    f, g = (file_at(c, w, a) for a in args)
    c.requires(f != g)
    sound(c, w, f)
    sound(c, w, g)
    was = {a: attr(c, f, a) for a in OWN}
    host_fd, kind = attr(c, g, 'host_fd'), attr(c, g, 'wasm_type')
    pre = Snap(c)
    out = call(c, w, 'fd_renumber')
    e = errno(c, out)
    c.ensure(f'succeeds (got {out!r})', e is not None and sym.cmp('==', e, 0))
    c.cover('done')
    is_closed_once(c, w, host_fd, kind)
    src, dst = entry(c, w, args[0]), entry(c, w, args[1])
    for a in OWN:
        c.ensure(f'the target number has the {a} of the source', eq(c, attr(c, dst, a), was[a]))
    c.ensure('the source number is closed', sym.cmp('==', attr(c, src, 'wasm_status'), CLOSED))
    c.ensure('the source number no longer owns a host descriptor', sym.cmp('==', attr(c, src, 'host_status'), CLOSED))
    c.ensure('the numbers are two entries', src != dst)
    if {src, dst} == {f, g}:
        unchanged(c, 'nothing else changes', pre, [w.pv, w.m], [(x.id, a) for x in (f, g) for a in OWN + ('wasm_fd',)])


@contract(PROP, 'fd_renumber: onto itself', K + 'fd_renumber', covers=('done',))
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_renumber')
    c.requires(sym.cmp('==', args[0], args[1]))
    c.requires(is_open(c, w, args[0]))
    f = file_at(c, w, args[0])
    sound(c, w, f)
    pre = Snap(c)
    out = call(c, w, 'fd_renumber')
    e = errno(c, out)
    c.ensure(f'succeeds (got {out!r})', e is not None and sym.cmp('==', e, 0))
    c.cover('done')
    c.ensure('no host descriptor is closed', not closes(w))
    unchanged(c, 'nothing changes', pre, [w.pv, w.m])


def fresh(name, at, op):
    def body(c):
        w = world(c)
        args = arguments(c, w, name)
        k = c.int('other', 0, (1 << 16) - 1) if c.symbolic else c.int('other', 0, max(con(w.nfd) - 1, 0))
        c.requires(sym.cmp('<', k, w.nfd))
        f = file_at(c, w, k)
        was = {a: attr(c, f, a) for a in OWN}
        pre = Snap(c)
        out = call(c, w, name)
        e = errno(c, out)
        done = e is not None and c.decide(sym.cmp('==', e, 0))
        n = table_len(c, w)
        c.ensure('no entry is lost', sym.cmp('>=', n, w.nfd))
        r = None
        if done:
            c.cover('opened')
            q = memory_of(c, w)
            c.ensure('the number fits into memory', zand(sym.cmp('>=', args[at], 0), sym.cmp('<=', sym.add(args[at], 4), q.n)))
            r = le(c, w, args[at], 4, q)
            c.ensure('the number is in the table', sym.cmp('<', r, n))
            g = entry(c, w, r)
            host_fd = answer(c, w, op, 0, 1 << 20)
            c.ensure(f'the host is asked for a descriptor ({op})', host_fd is not None)
            c.ensure('the number is open', sym.cmp('==', attr(c, g, 'wasm_status'), OPEN))
            c.ensure('the number owns an open host descriptor', sym.cmp('==', attr(c, g, 'host_status'), OPEN))
            c.ensure('the number designates what the host opened', eq(c, attr(c, g, 'host_fd'), host_fd))
            p = attr(c, g, 'pipe')
            c.ensure(f'the number has no pipe (got {p!r})', p is None)
        if r is not None and c.decide(sym.cmp('==', k, r)):
            c.ensure('the number was free', sym.cmp('==', was['wasm_status'], CLOSED))
        else:
            h = entry(c, w, k)
            for a in OWN:
                c.ensure(f'other entries keep their {a}', eq(c, attr(c, h, a), was[a]))
        c.ensure(f'no host descriptor is closed (got {closes(w)})', all(x[0] != 'os.close' or not done for x in closes(w)))
    add(PROP, name, body, K + name, covers=('opened',), samples=200)


fresh('path_open', 8, 'os.open')
fresh('sock_accept', 2, 'sock.detach')
MAY = {'fd_fdstat_set_flags': ('host_flag', 'wasm_flag'), 'fd_fdstat_set_rights': ('wasm_rights_base', 'wasm_rights_root')}


def frame(name):
    def body(c):
        w = world(c, fails=name not in BOUND)
        if c.symbolic:
            c.eng.havoc = True
        args = arguments(c, w, name, **FIX.get(name, lambda c: {})(c))
        f = file_at(c, w, args[0]) if name in MAY else None
        pre = Snap(c)
        out = call(c, w, name)
        c.cover('called')
        unchanged(c, 'the descriptor table stays as it is', pre, [w.pv], [(f.id, a) for a in MAY[name]] if f else ())
        c.ensure(f'no host descriptor is closed (got {closes(w)})', not closes(w))
    add(PROP, f'{name}: descriptors stay as they are', body, K + name, covers=('called',), samples=20, bounded=BOUND.get(name))


@contract(PROP, 'main', K + 'main', covers=('closed', 'kept', 'exit', 'return', 'error'), samples=60, bounded='up to 5 descriptors')
def _(c):
    """whatever the guest does, afterwards every host descriptor the table still owns is closed, once"""
    n = c.choice('entries', [3, 4, 5])
    w = world(c, fails=False, nfd=n)
    files = [file_at(c, w, i) for i in range(n)]
    for i, f in enumerate(files):
        c.eng.wr(f).attrs['host_fd'] = 100 + i
    was = [{a: attr(c, f, a) for a in OWN} for f in files]
    how = c.choice('how', ['return', 'exit', 'error'])
    code = c.sint('code', 32)
    code = code if c.symbolic else con(code)

    class Trap(Exception):
        pass

    def invocate(*a, **kw):
        if how == 'exit':
            raise PyRaise(ExcVal(Exception, (SystemExit, code))) if c.symbolic else Exception(SystemExit, code)
        if how == 'error':
            raise PyRaise(ExcVal(Trap, ('host',))) if c.symbolic else Trap('host')
        return c.eng.new_list([]) if c.symbolic else []
    if c.symbolic:
        c.eng.contracts = {**c.eng.contracts, 'pywasm.core.Runtime.invocate': invocate}
    else:
        c.patch(core.Runtime, 'invocate', invocate)
    runtime = c.eng.alloc(ObjRec(core.Runtime, {'machine': w.m}))
    out = c.run(BoundMethod(P1.main, w.pv), runtime, c.eng.alloc(ObjRec(core.ModuleInst, {})))
    c.cover(how)
    if how == 'error':
        c.ensure(f'a trap reaches the caller (got {out!r})', out.kind == 'raise' and out.exc.cls is Trap)
    else:
        c.ensure(f'the exit code is returned (got {out!r})', out.kind == 'normal' and is_num(out.val) and sym.cmp('==', out.val, code if how == 'exit' else 0))
    done = [e[1][0] for e in closes(w) if e[0] == 'os.close']
    c.ensure('host descriptors are closed one by one', len(done) == len(closes(w)))
    for i in range(n):
        g = entry(c, w, i)
        if i < 3 or c.decide(zor(sym.cmp('==', was[i]['wasm_type'], CHARDEV), sym.cmp('==', was[i]['host_status'], CLOSED))):
            c.cover('kept')
            c.ensure(f'entry {i}: nothing is closed (got {done})', done.count(100 + i) == 0)
        else:
            c.cover('closed')
            c.ensure(f'entry {i}: its host descriptor counts as closed', sym.cmp('==', attr(c, g, 'host_status'), CLOSED))
            c.ensure(f'entry {i}: its host descriptor is closed once (got {done})', done.count(100 + i) == 1)


FIX = {'poll_oneoff': lambda c: {'a2': 1}, 'fd_readdir': lambda c: {'a3': c.choice('cookie', [0, 1, 3, 5])}}
BOUND = {'poll_oneoff': 'one subscription', 'fd_readdir': 'up to 5 directory entries'}

for _n in SIG:
    if _n not in CHANGES:
        frame(_n)
