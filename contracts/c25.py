"""C25: stat, seek, clock, random and poll results have the documented layout and the host's values."""
import fcntl

from .c19 import BIT, lacks
from .c20 import real_text
from .wasi import *

PROP = 'C25'
ASSUMPTIONS = ['the module calling has a memory of less than 2 GiB',
               'the results of a call that writes several do not overlap']
INVAL, NAMETOOLONG = 28, 37
DIR, SET, CUR, END = 3, 0, 1, 2


# ---------------------------------------------------------------- vocabulary

def may(c, w, name, *rights, files=False):
    """the descriptor is open and has the rights; files: it is no directory"""
    c.requires(is_open(c, w, w.args[0]))
    f = file_at(c, w, w.args[0])
    for r in rights:
        c.requires(znot(lacks(c, f, r)))
    if files:
        c.requires(sym.cmp('!=', attr(c, f, 'wasm_type'), DIR))
    return f


def room(c, w, *regions):
    """the regions (address, size) are inside of memory and do not overlap"""
    for i, (p, n) in enumerate(regions):
        c.requires(inside(p, n, w.n))
        for p2, n2 in regions[:i]:
            c.requires(zor(sym.cmp('<=', sym.add(p, n), p2), sym.cmp('<=', sym.add(p2, n2), p)))


def ok(c, out, code=0):
    e = errno(c, out)
    c.ensure(f'answers {code} (got {out!r})', e is not None and sym.cmp('==', e, code))


def field(c, w, what, p, off, size, want):
    c.ensure(f'{what}: {8 * size} bits at {off}', sym.cmp('==', le(c, w, sym.add(p, off), size, memory_of(c, w)), want))


def rest(c, w, *regions):
    """memory outside of the regions is as before"""
    now = memory_of(c, w)
    c.ensure('the memory keeps its length', sym.cmp('==', now.n, w.n))
    if not c.symbolic:
        old, new = bytearray(real_bytes(w.q)), bytearray(real_bytes(now))
        for p, n in regions:
            p, n = con(p), con(n)
            old[p:p + n] = new[p:p + n]
        return c.ensure('no other byte changes', old == new)

    def same(k):
        out = [z3.Or(z3.ULT(k, sym.idx64(p)), z3.UGE(k, sym.idx64(sym.add(p, n)))) for p, n in regions]
        return zimp(z3.And(*out) if out else z3.BoolVal(True), now.at(k) == w.q.at(k))
    c.forall('no other byte changes', w.n, same, hints=[x for r in regions for x in r])


def host_op(c, w, *names):
    """-> (name of the answer, operation) of the last such operation"""
    found = [(f'ev{i}.{e[0]}', e) for i, e in enumerate(w.host.events()) if e[0] in names]
    c.ensure(f'the host is asked ({"/".join(names)}; got {w.host.operations()})', bool(found))
    return found[-1]


def on(c, op, f):
    """the operation is about this descriptor's file"""
    x = op[1][0] if op[1] else None
    c.ensure(f'the host is asked about the descriptor (got {x!r})', is_num(x) and sym.cmp('==', x, attr(c, f, 'host_fd')))


def is_num(x):
    return isinstance(x, (int, sym.SInt)) and not isinstance(x, bool)


def u64(c, name):
    v = c.uint(name, 64)
    return v if c.symbolic else con(v)


def st(c, tag, k):
    return u64(c, f'{tag}.{k}')


def kept(c, w, pre, *holes):
    unchanged(c, 'nothing else changes', pre, [w.pv], holes)


def kind_of(c, tag):
    """condition-free file type of a mode; sockets: any type"""
    return sym.bitop('&', mode_of(c, tag), 0o170000)


KINDS = {stat.S_IFBLK: 1, stat.S_IFCHR: 2, stat.S_IFDIR: 3, stat.S_IFREG: 4, stat.S_IFLNK: 7}


def is_kind(c, tag, got):
    """the type number fits the mode (a socket's mode does not tell its kind: 0, 5 or 6)"""
    m = kind_of(c, tag)
    known = zor(*[sym.cmp('==', m, k) for k in KINDS])
    each = [zimp(bterm2(sym.cmp('==', m, k)), bterm2(sym.cmp('==', got, v))) for k, v in KINDS.items()]
    sock = zimp(bterm2(sym.cmp('==', m, stat.S_IFSOCK)), bterm2(zor(*[sym.cmp('==', got, v) for v in (0, 5, 6)])))
    other = zimp(bterm2(zand(znot(known), sym.cmp('!=', m, stat.S_IFSOCK))), bterm2(sym.cmp('==', got, 0)))
    return zand(*each, sock, other)


def bterm2(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ---------------------------------------------------------------- stat

@contract(PROP, 'fd_fdstat_get', K + 'fd_fdstat_get', covers=('done',), samples=60)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_fdstat_get')
    f = may(c, w, 'fd_fdstat_get')
    p = args[1]
    room(c, w, (p, 24))
    pre = Snap(c)
    out = call(c, w, 'fd_fdstat_get')
    c.cover('done')
    ok(c, out)
    field(c, w, 'file type', p, 0, 1, attr(c, f, 'wasm_type'))
    field(c, w, 'flags', p, 2, 2, attr(c, f, 'wasm_flag'))
    field(c, w, 'rights', p, 8, 8, attr(c, f, 'wasm_rights_base'))
    field(c, w, 'inheriting rights', p, 16, 8, attr(c, f, 'wasm_rights_root'))
    rest(c, w, (p, 24))
    kept(c, w, pre)
    c.ensure('the host is not asked', not w.host.operations())


def filestat(c, w, p, tag, kind):
    field(c, w, 'inode', p, 8, 8, st(c, tag, 'st_ino'))
    got = le(c, w, sym.add(p, 16), 1, memory_of(c, w))
    c.ensure('file type: 8 bits at 16', kind(got))
    for k, off in (('st_nlink', 24), ('st_size', 32), ('st_atime_ns', 40), ('st_mtime_ns', 48), ('st_ctime_ns', 56)):
        field(c, w, k, p, off, 8, st(c, tag, k))
    rest(c, w, (p, 64))


STATS = ('os.stat', 'os.fstat', 'os.lstat')


@contract(PROP, 'fd_filestat_get', K + 'fd_filestat_get', covers=('done',), samples=60)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_filestat_get')
    f = may(c, w, 'fd_filestat_get', 'FD_FILESTAT_GET')
    room(c, w, (args[1], 64))
    pre = Snap(c)
    out = call(c, w, 'fd_filestat_get')
    c.cover('done')
    ok(c, out)
    tag, op = host_op(c, w, *STATS)
    on(c, op, f)
    filestat(c, w, args[1], tag, lambda got: zor(sym.cmp('==', got, attr(c, f, 'wasm_type')), is_kind(c, tag, got)))
    kept(c, w, pre)


def named(c, w, i=0):
    """the path is inside of memory, is text and does not leave the directory"""
    p, n = w.names[i]
    c.requires(zand(sym.cmp('>=', p, 0), sym.cmp('>=', n, 0), sym.cmp('<=', sym.add(p, n), w.n)))
    if c.symbolic:
        c.requires(znot(bterm(c.bool(f'name{i}.escapes'))))
    else:
        t = real_text(w, i)
        c.requires(t is not None and not lexically_escapes(t))


def follows(c, op, flag):
    """the host follows a symbolic link when the flag says so"""
    v = op[2].get('follow_symlinks', op[0] != 'os.lstat')
    if isinstance(v, (sym.SInt, int)) and not isinstance(v, bool):
        v = sym.cmp('!=', v, 0)
    want = sym.cmp('!=', sym.bitop('&', flag, 1), 0)
    v = bterm(v) if isinstance(v, SBool) else v
    c.ensure(f'{op[0]}: a symbolic link is followed as the flag says', zor(zand(want, v), zand(znot(want), znot(v))))


def dir_fd(c, op, f, key='dir_fd'):
    x = op[2].get(key)
    c.ensure(f'{op[0]}: the path is relative to the directory (got {x!r})', is_num(x) and sym.cmp('==', x, attr(c, f, 'host_fd')))


@contract(PROP, 'path_filestat_get', K + 'path_filestat_get', covers=('done',), samples=100)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'path_filestat_get')
    f = may(c, w, 'path_filestat_get', 'PATH_FILESTAT_GET')
    room(c, w, (args[4], 64))
    named(c, w)
    pre = Snap(c)
    out = call(c, w, 'path_filestat_get')
    if not c.symbolic and out.kind == 'raise':
        raise Reject()
    c.cover('done')
    if out.kind == 'raise':
        c.ensure(f'only a path that is no text is refused (got {out!r})', out.exc.cls is UnicodeDecodeError)
        return
    ok(c, out)
    tag, op = host_op(c, w, *STATS)
    dir_fd(c, op, f)
    follows(c, op, args[1])
    filestat(c, w, args[4], tag, lambda got: is_kind(c, tag, got))
    kept(c, w, pre)


# ---------------------------------------------------------------- preopened directories

def preopened(c, w, name):
    fd = w.args[0]
    c.requires(is_open(c, w, fd))
    f = file_at(c, w, fd)
    return f, zand(sym.cmp('>=', fd, 3), sym.cmp('<', sym.sub(fd, 3), w.ndirs))


def name_bytes(c, f):
    n = attr(c, f, 'wasm_name')
    if isinstance(n, SStr):
        return n.enc
    return CB(n.encode())


@contract(PROP, 'fd_prestat_get', K + 'fd_prestat_get', covers=('preopened', 'other'), samples=100)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_prestat_get')
    f, pre_ = preopened(c, w, 'fd_prestat_get')
    pre = Snap(c)
    if not c.decide(pre_):
        c.cover('other')
        return refuses(c, w, call(c, w, 'fd_prestat_get'), pre, BADF)
    c.cover('preopened')
    room(c, w, (args[1], 8))
    out = call(c, w, 'fd_prestat_get')
    ok(c, out)
    field(c, w, 'kind (directory)', args[1], 0, 1, 0)
    field(c, w, 'length of the name', args[1], 4, 4, name_bytes(c, f).n)
    rest(c, w, (args[1], 8))
    kept(c, w, pre)


@contract(PROP, 'fd_prestat_dir_name', K + 'fd_prestat_dir_name', covers=('fits', 'too long', 'other'), samples=100)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_prestat_dir_name')
    f, pre_ = preopened(c, w, 'fd_prestat_dir_name')
    pre = Snap(c)
    if not c.decide(pre_):
        c.cover('other')
        return refuses(c, w, call(c, w, 'fd_prestat_dir_name'), pre, BADF)
    q = name_bytes(c, f)
    c.requires(sym.cmp('>=', args[2], 0))
    if c.decide(sym.cmp('>', q.n, args[2])):
        c.cover('too long')
        return refuses(c, w, call(c, w, 'fd_prestat_dir_name'), pre, NAMETOOLONG)
    c.cover('fits')
    room(c, w, (args[1], q.n))
    out = call(c, w, 'fd_prestat_dir_name')
    ok(c, out)
    holds(c, w, 'the name', args[1], q)
    rest(c, w, (args[1], q.n))
    kept(c, w, pre)


def holds(c, w, what, p, q, n=None):
    """memory at p holds (the first n of) these bytes"""
    now, n = memory_of(c, w), q.n if n is None else n
    if not c.symbolic:
        p, n = con(p), con(n)
        return c.ensure(f'{what} is in the buffer', real_bytes(now)[p:p + n] == real_bytes(q)[:n])
    c.forall(f'{what} is in the buffer', n, lambda k: now.at(sym.idx64(p) + k) == q.at(k))


@contract(PROP, 'path_readlink', K + 'path_readlink', covers=('whole', 'cut'), samples=150)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'path_readlink')
    f = may(c, w, 'path_readlink', 'PATH_READLINK')
    named(c, w)
    c.requires(sym.cmp('>=', args[4], 0))
    room(c, w, (args[3], args[4]), (args[5], 4))
    pre = Snap(c)
    out = call(c, w, 'path_readlink')
    if out.kind == 'raise':
        c.ensure(f'only a path that is no text is refused (got {out!r})', out.exc.cls is UnicodeDecodeError)
        return
    ok(c, out)
    tag, op = host_op(c, w, 'os.readlink')
    dir_fd(c, op, f)
    if c.symbolic:
        q = c.bytes_in(tag + '.text', c.int(tag + '.n', 0, 1 << 16))
    else:
        q = CB(c.choice(tag + '.pick', ['', 'a', 'target/é', 'x' * 40]).encode())
    if c.decide(sym.cmp('<=', q.n, args[4])):
        c.cover('whole')
        n = q.n
    else:
        c.cover('cut')
        n = args[4]
    holds(c, w, 'the target', args[3], q, n)
    field(c, w, 'number of bytes', args[5], 0, 4, n)
    rest(c, w, (args[3], n), (args[5], 4))
    kept(c, w, pre)


# ---------------------------------------------------------------- offsets and sizes

def moves(w):
    """lseek operations that can move the offset"""
    return [e for e in w.host.events() if e[0] == 'os.lseek' and not (concrete(e[1][1]) == 0 and concrete(e[1][2]) == CUR)]


def concrete(v):
    return v if isinstance(v, int) else None


@contract(PROP, 'fd_seek', K + 'fd_seek', covers=('moved', 'refused', 'whence'), samples=150)
def _(c):
    w = world(c)
    args = arguments(c, w, 'fd_seek', **({} if c.symbolic else {'a2': c.int('a2', 0, 4)}))
    f = may(c, w, 'fd_seek', 'FD_SEEK', files=True)
    p = args[3]
    room(c, w, (p, 8))
    pre = Snap(c)
    out = call(c, w, 'fd_seek')
    e = errno(c, out)
    if not c.decide(zor(*[sym.cmp('==', args[2], x) for x in (SET, CUR, END)])):
        c.cover('whence')
        return refuses(c, w, out, pre, INVAL)
    if e is not None and c.decide(sym.cmp('==', e, 0)):
        c.cover('moved')
        m = moves(w)
        tag, op = host_op(c, w, 'os.lseek')
        a = op[1]
        c.ensure('the offset is moved', len(a) == 3 and op == m[-1] if m else zand(sym.cmp('==', args[1], 0), sym.cmp('==', args[2], CUR)))
        on(c, op, f)
        for x in m[:-1]:
            c.ensure(f'the offset is moved once (got {m})', False)
        if m:
            c.ensure('by what the guest asks for', zand(sym.cmp('==', a[1], args[1]), sym.cmp('==', a[2], args[2])))
        field(c, w, 'new offset', p, 0, 8, c.int(tag, 0, (1 << 63) - 1, small=False))
        rest(c, w, (p, 8))
        kept(c, w, pre)
    else:
        c.cover('refused')
        m = moves(w)
        c.ensure(f'a refused seek leaves the offset (got {m})', len(m) <= 1)
        for x in m:
            c.ensure('a refused seek leaves the offset', zand(sym.cmp('==', x[1][1], args[1]), sym.cmp('==', x[1][2], args[2])))
        if e is None:
            c.ensure(f'failures of the host other than EINVAL may surface (got {out!r})', out.kind == 'raise')
        else:
            c.ensure(f'answers EINVAL (got {e!r})', sym.cmp('==', e, INVAL))
        unchanged(c, 'nothing changes', pre, [w.pv, w.m])


@contract(PROP, 'fd_seek: negative', K + 'fd_seek', covers=('refused',), samples=60)
def _(c):
    """the host refuses to move before the start (EINVAL)"""
    w = world(c)
    args = arguments(c, w, 'fd_seek', a2=c.int('a2', 0, 2))
    may(c, w, 'fd_seek', 'FD_SEEK', files=True)
    pre = Snap(c)
    out = call(c, w, 'fd_seek')
    ops = [e for e in w.host.operations()]
    if len(ops) == 1 and c.decide(zand(sym.cmp('==', c.int('ev0.os.lseek.fails', 0, len(ERRORS), small=False), len(ERRORS)),
                                       sym.cmp('==', c.int('ev0.os.lseek.errno', 1, 133, small=False), 22))):
        c.cover('refused')
        ok(c, out, INVAL)
        unchanged(c, 'nothing changes', pre, [w.pv, w.m])


@contract(PROP, 'fd_tell', K + 'fd_tell', covers=('done',), samples=60)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_tell')
    f = may(c, w, 'fd_tell', 'FD_TELL', files=True)
    room(c, w, (args[1], 8))
    pre = Snap(c)
    out = call(c, w, 'fd_tell')
    c.cover('done')
    ok(c, out)
    tag, op = host_op(c, w, 'os.lseek')
    on(c, op, f)
    c.ensure(f'the offset stays (got {moves(w)})', not moves(w))
    field(c, w, 'offset', args[1], 0, 8, c.int(tag, 0, (1 << 63) - 1, small=False))
    rest(c, w, (args[1], 8))
    kept(c, w, pre)


@contract(PROP, 'fd_filestat_set_size', K + 'fd_filestat_set_size', covers=('done',), samples=60)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_filestat_set_size')
    f = may(c, w, 'fd_filestat_set_size', 'FD_FILESTAT_SET_SIZE', files=True)
    pre = Snap(c)
    out = call(c, w, 'fd_filestat_set_size')
    c.cover('done')
    ok(c, out)
    _, op = host_op(c, w, 'os.ftruncate', 'os.truncate')
    on(c, op, f)
    c.ensure('the size is what the guest asks for', sym.cmp('==', op[1][1], args[1]))
    unchanged(c, 'nothing changes', pre, [w.pv, w.m])


# ---------------------------------------------------------------- flags

@contract(PROP, 'fd_fdstat_set_flags', K + 'fd_fdstat_set_flags', covers=('set', 'refused'), samples=150)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'fd_fdstat_set_flags', **({} if c.symbolic else {'a1': c.int('a1', 0, 31)}))
    f = may(c, w, 'fd_fdstat_set_flags', 'FD_FDSTAT_SET_FLAGS')
    was, host = attr(c, f, 'wasm_flag'), attr(c, f, 'host_flag')
    new = args[1]
    pre = Snap(c)
    out = call(c, w, 'fd_fdstat_set_flags')
    changed = sym.bitop('^', was, new)
    if c.decide(sym.cmp('!=', sym.bitop('&', changed, ~5), 0)):
        c.cover('refused')
        return refuses(c, w, out, pre, INVAL)
    c.cover('set')
    ok(c, out)
    _, op = host_op(c, w, 'fcntl.fcntl')
    on(c, op, f)
    c.ensure(f'the flags are set (got {op!r})', len(op[1]) == 3 and op[1][1] == fcntl.F_SETFL)
    h = op[1][2]
    for bit, hb, what in ((1, os.O_APPEND, 'APPEND'), (4, os.O_NONBLOCK, 'NONBLOCK')):
        a, b = sym.cmp('!=', sym.bitop('&', new, bit), 0), sym.cmp('!=', sym.bitop('&', h, hb), 0)
        c.ensure(f'{what} is set as asked', zor(zand(a, b), zand(znot(a), znot(b))))
    keep = ~(os.O_APPEND | os.O_NONBLOCK)
    c.ensure('other host flags stay', sym.cmp('==', sym.bitop('&', h, keep), sym.bitop('&', host, keep)))
    c.ensure('the descriptor has the flags', sym.cmp('==', attr(c, f, 'wasm_flag'), new))
    c.ensure('the host flags are remembered', sym.cmp('==', attr(c, f, 'host_flag'), h))
    unchanged(c, 'nothing else changes', pre, [w.pv, w.m], [(f, 'wasm_flag'), (f, 'host_flag')])


# ---------------------------------------------------------------- times

def has(v, bit):
    return sym.cmp('!=', sym.bitop('&', v, bit), 0)


def set_times(name, ai, mi, fi, right):
    def body(c):
        w = world(c, fails=False)
        args = arguments(c, w, name, **({} if c.symbolic else {f'a{fi}': c.int(f'a{fi}', 0, 15)}))
        f = may(c, w, name, right)
        if name.startswith('path'):
            named(c, w)
        pre = Snap(c)
        out = call(c, w, name)
        flags = args[fi]
        if c.decide(zor(zand(has(flags, 1), has(flags, 2)), zand(has(flags, 4), has(flags, 8)))):
            c.cover('refused')
            return refuses(c, w, out, pre, INVAL)
        if out.kind == 'raise' and name.startswith('path'):
            c.ensure(f'only a path that is no text is refused (got {out!r})', out.exc.cls is UnicodeDecodeError)
            return
        ok(c, out)
        tag, op = host_op(c, w, 'os.utime')
        if name.startswith('path'):
            dir_fd(c, op, f)
            follows(c, op, args[1])
        else:
            on(c, op, f)
        ns = op[2].get('ns')
        c.ensure(f'times in nanoseconds (got {op!r})', isinstance(ns, tuple) and len(ns) == 2)
        for got, given, g, now, k in ((ns[0], args[ai], 1, 2, 'st_atime_ns'), (ns[1], args[mi], 4, 8, 'st_mtime_ns')):
            if c.decide(has(flags, g)):
                c.cover('given')
                c.ensure(f'{k}: the given time', is_num(got) and sym.cmp('==', got, given))
            elif c.decide(has(flags, now)):
                c.cover('now')
                times = [u62(c, f'ev{i}.{e[0]}') for i, e in enumerate(w.host.events()) if e[0] == 'time.time_ns']
                c.ensure(f'{k}: the time now', is_num(got) and bool(times) and zor(*[sym.cmp('==', got, t) for t in times]))
            else:
                c.cover('kept')
                stats = [(f'ev{i}.{e[0]}', e) for i, e in enumerate(w.host.events()) if e[0] in STATS]
                c.ensure(f'{k}: the time it has', is_num(got) and bool(stats) and sym.cmp('==', got, st(c, stats[-1][0], k)))
                if name.startswith('path'):
                    follows(c, stats[-1][1], args[1])
                    dir_fd(c, stats[-1][1], f)
                else:
                    on(c, stats[-1][1], f)
        unchanged(c, 'nothing changes', pre, [w.pv, w.m])
    add(PROP, name, body, K + name, covers=('refused', 'given', 'now', 'kept'), samples=200)


def u62(c, name):
    v = c.uint(name, 62)
    return v if c.symbolic else con(v)


set_times('fd_filestat_set_times', 1, 2, 3, 'FD_FILESTAT_SET_TIMES')
set_times('path_filestat_set_times', 4, 5, 6, 'PATH_FILESTAT_SET_TIMES')
CLOCK = {0: 'time.time_ns', 1: 'time.monotonic_ns', 2: 'time.process_time_ns', 3: 'time.thread_time_ns'}


@contract(PROP, 'clock_time_get', K + 'clock_time_get', covers=tuple(CLOCK.values()), samples=60)
def _(c):
    w = world(c, fails=False)
    k = c.choice('clock', [0, 1, 2, 3])
    args = arguments(c, w, 'clock_time_get', a0=k)
    p = args[2]
    room(c, w, (p, 8))
    pre = Snap(c)
    out = call(c, w, 'clock_time_get')
    c.cover(CLOCK[k])
    ok(c, out)
    tag, _ = host_op(c, w, CLOCK[k])
    field(c, w, 'the time of the clock', p, 0, 8, u62(c, tag))
    rest(c, w, (p, 8))
    kept(c, w, pre)


@contract(PROP, 'clock_res_get', K + 'clock_res_get', covers=('done',), samples=60)
def _(c):
    w = world(c, fails=False)
    k = c.choice('clock', [0, 1, 2, 3])
    args = arguments(c, w, 'clock_res_get', a0=k)
    p = args[1]
    room(c, w, (p, 8))
    pre = Snap(c)
    out = call(c, w, 'clock_res_get')
    c.cover('done')
    ok(c, out)
    c.ensure('a resolution: 64 bits at 0, more than 0', sym.cmp('>', le(c, w, p, 8, memory_of(c, w)), 0))
    rest(c, w, (p, 8))
    kept(c, w, pre)


@contract(PROP, 'random_get', K + 'random_get', covers=('done',), samples=60)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'random_get')
    p, n = args
    c.requires(sym.cmp('>=', n, 0))
    room(c, w, (p, n))
    pre = Snap(c)
    out = call(c, w, 'random_get')
    c.cover('done')
    ok(c, out)
    tag, op = host_op(c, w, 'random.randbytes', 'os.urandom')
    holds(c, w, 'what the host answers', p, c.bytes_in(tag + '.data', n))
    rest(c, w, (p, n))
    kept(c, w, pre)


@contract(PROP, 'fd_sync', K + 'fd_sync', covers=('done',), samples=40)
def _(c):
    w = world(c, fails=False)
    arguments(c, w, 'fd_sync')
    f = may(c, w, 'fd_sync', 'FD_SYNC', files=True)
    pre = Snap(c)
    out = call(c, w, 'fd_sync')
    c.cover('done')
    ok(c, out)
    _, op = host_op(c, w, 'os.fsync')
    on(c, op, f)
    unchanged(c, 'nothing changes', pre, [w.pv, w.m])


@contract(PROP, 'proc_raise', K + 'proc_raise', covers=('none', 'signal'), samples=40)
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'proc_raise')
    pre = Snap(c)
    out = call(c, w, 'proc_raise')
    if c.decide(sym.cmp('==', args[0], 0)):
        c.cover('none')
        ok(c, out)
    else:
        c.cover('signal')
        refuses(c, w, out, pre, INVAL)


# ---------------------------------------------------------------- directory listings

DIRS = {0: [[]], 1: [['é']], 3: [['é', 'a']], 6: [['a']]}      # by cookie


@contract(PROP, 'fd_readdir', K + 'fd_readdir', covers=('whole', 'cut', 'record'), samples=100, bounded='4 listings of up to 2 names, cookies 0 to 6')
def _(c):
    w = world(c, fails=False)
    cookie = c.choice('cookie', list(DIRS))
    w.host.listings = DIRS[cookie]
    args = arguments(c, w, 'fd_readdir', a3=cookie)
    may(c, w, 'fd_readdir', 'FD_READDIR')
    p, n = args[1], args[2]
    c.requires(sym.cmp('>=', n, 0))
    room(c, w, (p, n), (args[4], 4))
    pre = Snap(c)
    out = call(c, w, 'fd_readdir')
    ok(c, out)
    tag, _ = host_op(c, w, 'os.listdir')
    names = ['.', '..', *sorted(c.choice(tag + '.names', DIRS[cookie]))][cookie:]
    stats = [f'ev{i}.{e[0]}' for i, e in enumerate(w.host.events()) if e[0] in STATS]
    at, whole = 0, True
    for i, name in enumerate(names):
        b = name.encode()
        if not c.decide(sym.cmp('<=', at + 24 + len(b), n)):
            whole = False
            break
        c.cover('record')
        q = sym.add(p, at)
        field(c, w, 'next cookie', q, 0, 8, cookie + i + 1)
        c.ensure(f'the entry is looked up ({len(stats)} lookups)', len(stats) > i)
        field(c, w, 'inode', q, 8, 8, st(c, stats[i], 'st_ino'))
        field(c, w, 'length of the name', q, 16, 4, len(b))
        c.ensure('file type: 8 bits at 20', is_kind(c, stats[i], le(c, w, sym.add(q, 20), 1, memory_of(c, w))))
        holds(c, w, f'name {i}', sym.add(q, 24), CB(b))
        at += 24 + len(b)
    c.cover('whole' if whole else 'cut')
    field(c, w, 'bytes used', args[4], 0, 4, at if whole else n)
    rest(c, w, (p, n), (args[4], 4))
    kept(c, w, pre)


# ---------------------------------------------------------------- polling

CLK, RD, WR = 0, 1, 2


@contract(PROP, 'poll_oneoff', K + 'poll_oneoff', covers=('clock', 'read', 'write', 'event', 'none', 'absolute'), samples=150, bounded='one subscription')
def _(c):
    w = world(c, fails=False)
    args = arguments(c, w, 'poll_oneoff', a2=1)
    s, o, n = args[0], args[1], args[3]
    room(c, w, (s, 48), (o, 32), (n, 4))
    kind = c.choice('kind', [CLK, RD, WR])
    if c.symbolic:
        c.requires(sym.cmp('==', le(c, w, sym.add(s, 8), 1), kind))
    else:
        lay = {8: bytes([kind]), 16: struct.pack('<I', c.choice('who', [0, 1, 2, 3])), 24: struct.pack('<Q', c.choice('when', [0, 10, 1 << 61, 5 << 60])),
               40: struct.pack('<H', c.choice('abs', [0, 1])), 42: bytes(2)}
        q = bytearray(real_bytes(w.q))
        for k, b in lay.items():
            q[s + k:s + k + len(b)] = b
        w.q = CB(bytes(q))
        c.eng.wr(attr(c, w.mem, 'data')).seq = w.q
    who, user = le(c, w, sym.add(s, 16), 4), le(c, w, s, 8)
    if kind == CLK:
        c.requires(sym.cmp('<=', who, 3))
    else:
        if not c.symbolic:
            c.requires(con(who) < con(w.nfd))
        c.requires(is_open(c, w, who))
        f = file_at(c, w, who)
        c.requires(znot(lacks(c, f, 'POLL_FD_READWRITE')))
    pre = Snap(c)
    out = call(c, w, 'poll_oneoff')
    ok(c, out)
    tag, op = host_op(c, w, 'select.select')
    evs = [(i, e) for i, e in enumerate(w.host.events())]
    if kind == CLK:
        c.cover('clock')
        at = [i for i, e in evs if e[0] == 'select.select'][-1]
        for k in CLOCK:
            if c.decide(sym.cmp('==', who, k)):
                break
        times = [(i, u62(c, f'ev{i}.{e[0]}')) for i, e in evs if e[0] == CLOCK[k]]
        before, after = [t for i, t in times if i < at], [t for i, t in times if i > at]
        c.ensure('the clock is read before and after waiting', bool(before) and bool(after))
        when = le(c, w, sym.add(s, 24), 8)
        if c.decide(has(le(c, w, sym.add(s, 40), 2), 1)):
            c.cover('absolute')
            ends = when
            wait = None
        else:
            ends = sym.add(before[-1], when)
            wait = when
        happens = c.decide(sym.cmp('>=', after[-1], ends))
        if wait is None:
            wait = sym.sub(ends, before[-1])
            if not c.decide(sym.cmp('>', wait, 0)):
                wait = 0
        got = op[1][3] if len(op[1]) > 3 else None
        c.ensure(f'the host waits for the time left (got {got!r})', waits(c, got, wait))
    else:
        c.cover('read' if kind == RD else 'write')
        happens = c.decide(bterm(c.bool(f'{tag}.{"r" if kind == RD else "w"}0.ready')))
        fds = c.eng.rd(op[1][kind - 1]).segs
        items = [x for sg in fds for x in sg]
        c.ensure(f'the host is asked about the descriptor (got {items})', len(items) == 1 and sym.cmp('==', items[0], attr(c, f, 'host_fd')))
    if happens:
        c.cover('event')
        field(c, w, 'user data', o, 0, 8, user)
        field(c, w, 'error', o, 8, 2, 0)
        field(c, w, 'kind', o, 10, 1, kind)
        field(c, w, 'number of events', n, 0, 4, 1)
        rest(c, w, (o, 32), (n, 4))
    else:
        c.cover('none')
        field(c, w, 'number of events', n, 0, 4, 0)
        rest(c, w, (n, 4))
    kept(c, w, pre)


def waits(c, got, ns):
    """seconds, from nanoseconds"""
    if c.symbolic:
        want = c.eng.fbin('/', c.eng.as_float(ns), sym.as_sfloat(1e9))
        return isinstance(got, (float, sym.SFloat)) and c.eng.as_float(got).fp == want.fp
    return abs(got - con(ns) / 1e9) <= 1e-6 * max(1, abs(got))


# ---------------------------------------------------------------- what modules can import

@contract(PROP, 'bind', K + 'bind', covers=('done',), samples=1)
def _(c):
    """every call is offered under its name, with its documented type"""
    w = world(c, fails=False)
    imports = {}
    if c.symbolic:
        c.eng.contracts = {**c.eng.contracts, 'pywasm.core.Runtime.allocate_func_host': lambda eng, rt, t, f: eng.new_list([t, f])}
    else:
        c.patch(core.Runtime, 'allocate_func_host', lambda rt, t, f: [t, f])
    rt = c.eng.alloc(ObjRec(core.Runtime, {'machine': w.m, 'imports': c.dict(imports)}))
    pre = Snap(c)
    out = c.run(BoundMethod(P1.bind, w.pv), rt)
    c.cover('done')
    c.ensure(f'returns (got {out!r})', out.kind == 'normal')
    mods = c.eng.rd(attr(c, rt, 'imports')).d
    c.ensure(f'one module is offered (got {list(mods)})', list(mods) == ['wasi_snapshot_preview1'])
    funcs = c.eng.rd(mods['wasi_snapshot_preview1']).d
    c.ensure(f'all calls are offered (got {sorted(funcs)})', sorted(funcs) == sorted(SIG))
    num = {S: 0x7f, L: 0x7e}
    for name, sig in SIG.items():
        t, f = c.eng.rd(funcs[name]).segs[0]
        c.ensure(f'{name}: its method (got {f!r})', method_of(c, f, w.pv, name))
        want = [num[b] for b in sig], [] if name == 'proc_exit' else [0x7f]
        got = tuple([attr(c, x, 'data') for s in c.eng.rd(attr(c, t, k)).segs for x in s] for k in ('args', 'rets'))
        c.ensure(f'{name}: its type (got {got})', got == want)


def method_of(c, f, pv, name):
    if isinstance(f, BoundMethod):
        return f.fn is getattr(P1, name) and f.self == pv
    return getattr(f, '__func__', None) is getattr(P1, name)
