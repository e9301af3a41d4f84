"""C19: WASI calls act only on open descriptors holding the required right."""
from .wasi import *

PROP = 'C19'
ASSUMPTIONS = ['a descriptor number is what the guest passed as i32, seen as a signed number',
               'the module calling has a memory of less than 2 GiB',
               'host operations are the functions of os, fcntl, select, time, socket, random and the pipes; nothing else reaches the host']
RIGHT = {
    'fd_advise': ['FD_ADVISE'], 'fd_allocate': ['FD_ALLOCATE'], 'fd_close': [None], 'fd_datasync': ['FD_DATASYNC'],
    'fd_fdstat_get': [None], 'fd_fdstat_set_flags': ['FD_FDSTAT_SET_FLAGS'], 'fd_fdstat_set_rights': [None],
    'fd_filestat_get': ['FD_FILESTAT_GET'], 'fd_filestat_set_size': ['FD_FILESTAT_SET_SIZE'],
    'fd_filestat_set_times': ['FD_FILESTAT_SET_TIMES'], 'fd_pread': ['FD_READ'], 'fd_prestat_dir_name': [None],
    'fd_prestat_get': [None], 'fd_pwrite': ['FD_WRITE'], 'fd_read': ['FD_READ'], 'fd_readdir': ['FD_READDIR'],
    'fd_renumber': [None, None], 'fd_seek': ['FD_SEEK'], 'fd_sync': ['FD_SYNC'], 'fd_tell': ['FD_TELL'], 'fd_write': ['FD_WRITE'],
    'path_create_directory': ['PATH_CREATE_DIRECTORY'], 'path_filestat_get': ['PATH_FILESTAT_GET'],
    'path_filestat_set_times': ['PATH_FILESTAT_SET_TIMES'], 'path_link': ['PATH_LINK_SOURCE', 'PATH_LINK_TARGET'],
    'path_open': ['PATH_OPEN'], 'path_readlink': ['PATH_READLINK'], 'path_remove_directory': ['PATH_REMOVE_DIRECTORY'],
    'path_rename': ['PATH_RENAME_SOURCE', 'PATH_RENAME_TARGET'], 'path_symlink': ['PATH_SYMLINK'],
    'path_unlink_file': ['PATH_UNLINK_FILE'], 'sock_accept': ['SOCK_ACCEPT'], 'sock_recv': ['FD_READ'], 'sock_send': ['FD_WRITE'],
    'sock_shutdown': ['SOCK_SHUTDOWN'],
}
BIT = {n: 1 << i for i, n in enumerate((
    'FD_DATASYNC FD_READ FD_SEEK FD_FDSTAT_SET_FLAGS FD_SYNC FD_TELL FD_WRITE FD_ADVISE FD_ALLOCATE PATH_CREATE_DIRECTORY PATH_CREATE_FILE '
    'PATH_LINK_SOURCE PATH_LINK_TARGET PATH_OPEN FD_READDIR PATH_READLINK PATH_RENAME_SOURCE PATH_RENAME_TARGET PATH_FILESTAT_GET '
    'PATH_FILESTAT_SET_SIZE PATH_FILESTAT_SET_TIMES FD_FILESTAT_GET FD_FILESTAT_SET_SIZE FD_FILESTAT_SET_TIMES PATH_SYMLINK '
    'PATH_REMOVE_DIRECTORY PATH_UNLINK_FILE POLL_FD_READWRITE SOCK_SHUTDOWN SOCK_ACCEPT').split())}


def lacks(c, f, right):
    return sym.cmp('==', sym.bitop('&', attr(c, f, 'wasm_rights_base'), BIT[right]), 0)


def closed(name):
    """some descriptor of the call is not open"""
    def body(c):
        w = world(c)
        args = arguments(c, w, name)
        ok = [is_open(c, w, args[i]) for i in FDS[name]]
        c.requires(not all(ok))
        pre = Snap(c)
        out = call(c, w, name)
        c.cover('closed')
        refuses(c, w, out, pre, BADF)
    add(PROP, f'{name}: descriptor not open', body, K + name, covers=('closed',), samples=30)


def without(name, i, right, when=None, what=''):
    """all descriptors are open, but this one lacks the right"""
    def body(c):
        w = world(c)
        args = arguments(c, w, name)
        c.requires(all([is_open(c, w, args[k]) for k in FDS[name]]))
        if when:
            c.requires(when(args))
        c.requires(lacks(c, file_at(c, w, args[FDS[name][i]]), right))
        pre = Snap(c)
        out = call(c, w, name)
        c.cover('refused')
        refuses(c, w, out, pre)
    add(PROP, f'{name}: without {right}{what}', body, K + name, covers=('refused',), samples=30)


for _n, _r in RIGHT.items():
    closed(_n)
    for _i, _x in enumerate(_r):
        if _x is not None:
            without(_n, _i, _x)


def fails(c, w, out, pre, what=''):
    """the call traps or answers an error number, and has no effect"""
    e = errno(c, out)
    c.ensure(f'the call fails{what}' + (f' (got {out!r})' if e is None else ''), out.kind == 'raise' if e is None else sym.cmp('!=', e, 0))
    ops = w.host.events()
    c.ensure(f'no host operation happens{what}' + (f' (got {[o[0] for o in ops]})' if ops else ''), not ops)
    unchanged(c, f'memory and descriptor table stay as they are{what}', pre, [w.pv, w.m])


def opening(flag, right, what):
    def body(c):
        w = world(c)
        args = arguments(c, w, 'path_open')
        c.requires(is_open(c, w, args[0]))
        c.requires(sym.cmp('!=', sym.bitop('&', args[4], flag), 0))
        c.requires(lacks(c, file_at(c, w, args[0]), right))
        pre = Snap(c)
        out = call(c, w, 'path_open')
        c.cover('refused')
        fails(c, w, out, pre)
    add(PROP, f'path_open: {what} without {right}', body, K + 'path_open', covers=('refused',), samples=100)


opening(1, 'PATH_CREATE_FILE', 'creating')
opening(8, 'PATH_FILESTAT_SET_SIZE', 'truncating')


class Reached(Exception):
    """the call gets to wait for its descriptors"""


def polling(bad):
    def body(c):
        w = world(c)
        h = w.host
        answer = h.call

        def stop(name, args, kw):
            if name.startswith('select.'):
                c.eng.raise_(Reached)
            return answer(name, args, kw)
        h.call = stop
        subs, outs, nout = (c.sint(x, 32) if c.symbolic else c.int(x, 0, 600) for x in ('subs', 'outs', 'nout'))
        n, k = c.choice('nsub', [(1, 0), (2, 0), (2, 1)])
        at = sym.add(subs, 48 * k)
        c.requires(zand(sym.cmp('>=', subs, 0), sym.cmp('<=', sym.add(at, 48), w.n)))
        if not c.symbolic:
            q = bytearray(real_bytes(w.q))
            for i in range(n):
                p = subs + 48 * i
                q[p:p + 20] = bytes(8) + bytes([c.int(f'sub{i}.type', 0, 3)]) + bytes(7) + c.int(f'sub{i}.fd', 0, con(w.nfd) + 1).to_bytes(4, 'little')
            w.q = CB(bytes(q))
            c.eng.wr(attr(c, w.mem, 'data')).seq = w.q
        kind = le(c, w, sym.add(at, 8), 1)
        fd = le(c, w, sym.add(at, 16), 4)
        c.requires(zor(sym.cmp('==', kind, 1), sym.cmp('==', kind, 2)))
        ok = is_open(c, w, fd)
        c.requires(not ok if bad == 'closed' else ok)
        if bad == 'right':
            c.requires(lacks(c, file_at(c, w, fd), 'POLL_FD_READWRITE'))
        w.args = [subs, outs, n, nout]
        pre = Snap(c)
        out = call(c, w, 'poll_oneoff')
        c.cover('refused')
        e = errno(c, out)
        c.ensure(f'the call fails' + (f' (got {out!r})' if e is None else ''),
                 out.kind == 'raise' and out.exc.cls is not Reached if e is None else sym.cmp('!=', e, 0))
        unchanged(c, 'memory and descriptor table stay as they are', pre, [w.pv, w.m])
    add(PROP, f'poll_oneoff: {"descriptor not open" if bad == "closed" else "without POLL_FD_READWRITE"}', body, K + 'poll_oneoff',
        covers=('refused',), samples=60, bounded='1 or 2 subscriptions')


polling('closed')
polling('right')
