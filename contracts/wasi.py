"""WASI worlds: a Preview1 object with any descriptor table, a guest memory, and a host whose answers are arbitrary.

Host operations (os, fcntl, select, time, socket, random, pipes) are external: each is recorded and answers anything its documentation
allows.  Nothing of the real system is touched, in concrete runs either."""
import builtins
import dataclasses
import functools
import io
import os
import random
import socket
import stat
import struct
import types

import z3

import pywasm.wasi as wasi

from pydv import interp, sym
from pydv.interp import BoundMethod, PyRaise, mkbool, MISSING
from pydv.sym import FB

from .common import *
from .binary import con

P1 = wasi.Preview1
K = 'pywasm.wasi.Preview1.'
S, L = 32, 64            # i32 and i64 arguments
SIG = {
    'args_get': [S, S], 'args_sizes_get': [S, S], 'clock_res_get': [S, S], 'clock_time_get': [S, L, S], 'environ_get': [S, S],
    'environ_sizes_get': [S, S], 'fd_advise': [S, L, L, S], 'fd_allocate': [S, L, L], 'fd_close': [S], 'fd_datasync': [S],
    'fd_fdstat_get': [S, S], 'fd_fdstat_set_flags': [S, S], 'fd_fdstat_set_rights': [S, L, L], 'fd_filestat_get': [S, S],
    'fd_filestat_set_size': [S, L], 'fd_filestat_set_times': [S, L, L, S], 'fd_pread': [S, S, S, L, S],
    'fd_prestat_dir_name': [S, S, S], 'fd_prestat_get': [S, S], 'fd_pwrite': [S, S, S, L, S], 'fd_read': [S, S, S, S],
    'fd_readdir': [S, S, S, L, S], 'fd_renumber': [S, S], 'fd_seek': [S, L, S, S], 'fd_sync': [S], 'fd_tell': [S, S],
    'fd_write': [S, S, S, S], 'path_create_directory': [S, S, S], 'path_filestat_get': [S, S, S, S, S],
    'path_filestat_set_times': [S, S, S, S, L, L, S], 'path_link': [S, S, S, S, S, S, S],
    'path_open': [S, S, S, S, S, L, L, S, S], 'path_readlink': [S, S, S, S, S, S], 'path_remove_directory': [S, S, S],
    'path_rename': [S, S, S, S, S, S], 'path_symlink': [S, S, S, S, S], 'path_unlink_file': [S, S, S],
    'poll_oneoff': [S, S, S, S], 'proc_exit': [S], 'proc_raise': [S], 'random_get': [S, S], 'sched_yield': [],
    'sock_accept': [S, S, S], 'sock_recv': [S, S, S, S, S, S], 'sock_send': [S, S, S, S, S], 'sock_shutdown': [S, S],
}
# where the descriptors and the paths (pointer, length) of a call are
FDS = {n: [0] for n in SIG if n.startswith(('fd_', 'path_', 'sock_'))}
FDS.update(fd_renumber=[0, 1], path_link=[0, 4], path_rename=[0, 3], path_symlink=[2])
PATHS = {
    'path_create_directory': [(1, 2)], 'path_filestat_get': [(2, 3)], 'path_filestat_set_times': [(2, 3)], 'path_link': [(2, 3), (5, 6)],
    'path_open': [(2, 3)], 'path_readlink': [(1, 2)], 'path_remove_directory': [(1, 2)], 'path_rename': [(1, 2), (4, 5)],
    'path_symlink': [(0, 1), (3, 4)], 'path_unlink_file': [(1, 2)],
}
BADF = 8
ESCAPING = ['..', '../x', '/', '/etc/x', 'a/../..', 'a/../../b', '../w', './../x', 'a/b/../../..', '../..', '//x', '..//a']
STAYING = ['a', 'a/b', '.', './a', 'a/..', 'a/../b', '..a', '...', 'a/', 'é/x', '..a/b', 'a/./b', 'a..', '']
LISTINGS = [[], ['b'], ['é', 'a'], ['.hidden', 'dir', 'a']]
MODES = [stat.S_IFBLK, stat.S_IFCHR, stat.S_IFDIR, stat.S_IFREG, stat.S_IFSOCK, stat.S_IFLNK, stat.S_IFIFO]


class StatResult:
    """what os.stat answers"""


class HostError(Exception):
    pass


def mode_of(c, tag):
    if c.symbolic:
        return c.uint(f'{tag}.st_mode', 16)
    return con(c.uint(f'{tag}.st_mode', 16)) if f'{tag}.st_mode' in c.assign else MODES[c.int(f'{tag}.st_kind', 0, 6)] | 0o644


class FakePipe:
    def __init__(self, host, nm):
        self.host, self.nm = host, nm

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: self.host.real('pipe.' + name, (self,) + a, kw)


class FakeSocket(FakePipe):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: self.host.real('sock.' + name, (self,) + a, kw)


ERRORS = [(FileNotFoundError, 2), (FileExistsError, 17), (NotADirectoryError, 20), (IsADirectoryError, 21), (PermissionError, 13),
          (BrokenPipeError, 32), (OSError, None)]
MAPPED = (1, 2, 3, 4, 10, 11, 13, 17, 20, 21, 32, 103, 104, 108, 110, 111, 114, 115)
PURE = {'os.path.normpath', 'os.path.join', 'os.path.isabs', 'os.path.split', 'os.path.dirname', 'os.path.basename', 'os.path.commonpath',
        'os.path.commonprefix', 'os.path.splitroot', 'os.fspath', 'os.fsencode', 'os.fsdecode', 'os.path.abspath', 'os.path.relpath',
        'os.path.normcase', 'os.path.splitext'}
CLOCKS = {'time.time_ns', 'time.monotonic_ns', 'time.process_time_ns', 'time.thread_time_ns'}
NOFAIL = CLOCKS | {'time.time', 'time.monotonic', 'platform.system', 'os.path.isdir', 'os.path.isfile', 'os.path.exists', 'os.path.lexists',
                   'os.path.islink', 'random.randbytes', 'sock.fileno', 'sock.detach', 'sock.setblocking', 'sock.close'}
ALIAS = {'posix': 'os', 'posixpath': 'os.path', 'genericpath': 'os.path', '_socket': 'socket', '_io': 'io', '_random': 'random',
         '_stat': 'stat', 'nt': 'os'}


class Host:
    """answers host operations; `fails`: do they fail?"""

    def __init__(self, c, fails=True):
        self.c, self.fails = c, fails
        self.log = []          # concrete runs
        self.lw = None
        self.listings = LISTINGS
        self.roots = None      # [(host name, wasm name)] of the descriptors; None: any text

    # ---------------------------------------------------------------- recording
    def events(self):
        """[(name, positional arguments, keyword arguments)] in order; nested lists stand for the steps of a loop"""
        if not self.c.symbolic:
            return self.log
        return [(e[1], e[2], e[3]) if e[0] == 'os' else ('loop', e, {}) for e in self.c.eng.st.ghost if e[0] in ('os', 'each')]

    def operations(self):
        """host operations other than looking at the clock or the platform"""
        return [e for e in self.events() if e[0] not in CLOCKS and e[0] != 'platform.system']

    def name(self, what):
        """name of an unknown answer"""
        c = self.c
        if c.symbolic and getattr(c.eng, 'in_step', 0):
            return c.eng.fresh_name(what)
        n = len(self.events())
        return f'ev{n}.{what}'

    def call(self, name, args, kw):
        """-> engine value, or raises"""
        c, eng = self.c, self.c.eng
        tag = self.name(name)
        if c.symbolic:
            eng.event('os', name, tuple(args), dict(kw), tag)
        else:
            self.log.append((name, tuple(args), dict(kw)))
        if self.fails and name not in NOFAIL:
            opts = ERRORS
            i = self.pick(tag + '.fails', len(opts) + 1)
            if i:
                cls, no = opts[i - 1]
                if no is None:
                    no = c.int(tag + '.errno', 1, 133, small=False)
                    c.requires(zand(*[sym.cmp('!=', no, x) for x in MAPPED]))
                eng.raise_(cls, no, 'host', errno=no)
        return self.answer(name, args, kw, tag)

    def pick(self, name, n):
        i = self.c.int(name, 0, n - 1, small=False)
        if isinstance(i, int):
            if not self.c.symbolic and self.c.rnd is not None and name not in self.c.assign and self.c.rnd.random() < 0.7:
                i = self.c.used[name] = 0
            return i
        for j in range(n - 1):
            if self.c.decide(sym.cmp('==', i, j)):
                return j
        return n - 1

    def u64(self, name):
        return self.c.uint(name, 64)

    def stat(self, tag):
        a = {k: self.u64(f'{tag}.{k}') for k in ('st_ino', 'st_nlink', 'st_size', 'st_dev', 'st_atime_ns', 'st_mtime_ns', 'st_ctime_ns')}
        c = self.c
        a['st_mode'] = mode_of(c, tag)
        return c.eng.alloc(ObjRec(StatResult, a))

    def data(self, tag, most, exact=False):
        """bytes: at most `most` (a negative number is refused)"""
        c = self.c
        most = c.eng.as_int(most)
        if c.decide(sym.cmp('<', most, 0)):
            c.eng.raise_(ValueError, 'negative size')
        if exact:
            n = most
        else:
            hi = most if isinstance(most, int) else sym.hi(most)
            if not c.symbolic and c.rnd is not None and tag + '.n' not in c.assign and c.rnd.random() < 0.5:
                c.assign = {**c.assign, tag + '.n': con(most)}
            n = c.int(tag + '.n', 0, hi)
            c.requires(sym.cmp('<=', n, most))
        if not c.symbolic and con(n) > 1 << 20:
            raise Reject()
        return c.eng.mk_bytes(c.bytes_in(tag + '.data', n))

    def answer(self, name, args, kw, tag):
        c, eng = self.c, self.c.eng
        arg = lambda i, k=None: args[i] if i < len(args) else kw.get(k)
        if name in CLOCKS:
            return c.uint(tag, 62)
        if name in ('os.stat', 'os.fstat', 'os.lstat'):
            return self.stat(tag)
        if name == 'os.open':
            return c.int(tag, 0, 1 << 20)
        if name == 'os.lseek':
            return c.int(tag, 0, (1 << 63) - 1, small=False)
        if name in ('os.read', 'os.pread'):
            return self.data(tag, arg(1))
        if name == 'pipe.read':
            return self.data(tag, arg(1))
        if name == 'sock.recv':
            return self.data(tag, arg(1))
        if name == 'random.randbytes':
            return self.data(tag, arg(0), exact=True)
        if name in ('os.write', 'os.pwrite', 'pipe.write', 'sock.send'):
            n = eng.bytes_of(arg(1)).n
            k = c.int(tag + '.n', 0, n if isinstance(n, int) else max(sym.hi(n), 0))
            c.requires(sym.cmp('<=', k, n))
            return k
        if name in ('os.path.isdir', 'os.path.isfile', 'os.path.exists', 'os.path.lexists', 'os.path.islink'):
            return c.bool(tag)
        if name == 'os.readlink':
            return self.string(tag)
        if name == 'os.listdir':
            return self.listing(tag)
        if name == 'platform.system':
            return 'Linux'
        if name == 'socket.fromfd':
            return self.socket(tag)
        if name == 'sock.accept':
            return (self.socket(tag), 'peer')
        if name in ('sock.fileno', 'sock.detach'):
            return c.int(tag, 0, 1 << 20)
        if name == 'select.select':
            r, w = self.subset(arg(0), tag + '.r'), self.subset(arg(1), tag + '.w')
            return (r, w, eng.new_list([]))
        if name == 'builtins.isinstance':
            return MISSING
        return None

    def string(self, tag):
        c = self.c
        if c.symbolic:
            q = c.bytes_in(tag + '.text', c.int(tag + '.n', 0, 1 << 16))
            return SStr((tag, 'text'), enc=q, nchars=c.int(tag + '.chars', 0, 1 << 16))
        return c.choice(tag + '.pick', ['', 'a', 'target/é', 'x' * 40])

    def listing(self, tag):
        """bounded: the names of a directory are among these"""
        return self.c.eng.new_list(list(self.c.choice(tag + '.names', self.listings)))

    def socket(self, tag):
        return opaque(self.c, tag, FakeSocket(self, tag), kind='sock')

    def subset(self, ref, tag):
        """those of the descriptors which are ready"""
        c, eng = self.c, self.c.eng
        segs = eng.rd(ref).segs
        if not all(isinstance(s, list) for s in segs):
            raise Unsupported('select over a list of unknown length')
        items = [x for s in segs for x in s]
        return eng.new_list([x for i, x in enumerate(items) if c.decide(bterm(c.bool(f'{tag}{i}.ready')))])

    # ---------------------------------------------------------------- symbolic runs
    def install(self):
        c = self.c
        if c.symbolic:
            c.eng.ext_hook = self.ext
            c.eng.lib_hook = self.lib
            c.eng.str_hook = self.str
            return
        for nm in ('os', 'fcntl', 'select', 'time', 'socket', 'random', 'platform', 'shutil', 'subprocess', 'sys'):
            mod = getattr(wasi, nm, None)
            if isinstance(mod, types.ModuleType) and nm != 'sys':
                c.patch(wasi, nm, maker(self, mod, nm))

    def ext(self, eng, f, args, kw):
        if isinstance(f, tuple):
            recv, name = f
            k = recv.attrs.get('kind')
            if k in ('pipe', 'sock'):
                return self.call(f'{k}.{name}', [recv] + list(args), kw)
            return MISSING
        name = canonical(f)
        if name is None:
            return MISSING
        if name.startswith('stat.'):
            return self.mode(name, args)
        if name in PURE:
            return self.path(name, args)
        return self.call(name, args, kw)

    def lib(self, eng, f, args, kw):
        name = canonical(f)
        if name is None:
            return MISSING
        if f.__qualname__ == 'Random.randbytes':
            return self.call('random.randbytes', args[1:], kw)
        if name in PURE:
            return self.path(name, args)
        return self.call(name, args, kw)

    def mode(self, name, args):
        kinds = {'S_ISBLK': stat.S_IFBLK, 'S_ISCHR': stat.S_IFCHR, 'S_ISDIR': stat.S_IFDIR, 'S_ISREG': stat.S_IFREG, 'S_ISSOCK': stat.S_IFSOCK,
                 'S_ISLNK': stat.S_IFLNK, 'S_ISFIFO': stat.S_IFIFO}
        k = name.split('.')[1]
        m = self.c.eng.as_int(args[0])
        if k == 'S_IFMT':
            return sym.bitop('&', m, 0o170000)
        if k not in kinds:
            raise Unsupported(name)
        return mkbool(sym.cmp('==', sym.bitop('&', m, 0o170000), kinds[k]))

    def path(self, name, args):
        f = {'os': os, 'os.path': os.path}[name.rsplit('.', 1)[0]]
        f = getattr(f, name.rsplit('.', 1)[1])
        if all(isinstance(a, (str, bytes, type(None))) for a in args):
            if name in ('os.path.abspath', 'os.path.relpath') and not str(args[0]).startswith('/'):
                raise Unsupported(name)
            r = f(*args)
            return r
        r = SStr((name, tuple(skey(a) for a in args)))
        if name == 'os.path.isabs':
            return mkbool(self.pred(('isabs', skey(args[0]))))
        return r

    def pred(self, key):
        return z3.Bool(f'str:{key!r}')

    def str(self, eng, op, s, args):
        if op in ('startswith', 'endswith', '==', 'contains'):
            k = [skey(x) for x in (s,) + tuple(args)]
            if op == '==':
                k.sort(key=repr)
            if any(isinstance(x, (SStr, str)) is False for x in (s,) + tuple(args)):
                return MISSING
            return mkbool(self.pred((op, *k)))
        if op == 'lower' and isinstance(s, str):
            return s.lower()
        return MISSING

    # ---------------------------------------------------------------- concrete runs
    def real(self, name, args, kw):
        """a host operation called by the real code"""
        from pydv.harness import Lift
        c = self.c
        lf = Lift(c.eng, c.lower_of_run)
        la = [lf.val(a) for a in args]
        lk = {k: lf.val(v) for k, v in kw.items()}
        try:
            return c.lower_of_run.val(self.call(name, la, lk))
        except PyRaise as e:
            raise e.exc.cls(*[c.lower_of_run.val(a) for a in e.exc.args]) from None


def skey(s):
    return s.key if isinstance(s, SStr) else s


def canonical(f):
    mod = getattr(f, '__module__', None)
    self_ = getattr(f, '__self__', None)
    if isinstance(self_, types.ModuleType):
        mod = self_.__name__
    if f is io.open:
        return 'io.open'
    if isinstance(f, type):
        if f.__module__ in ('socket', '_socket'):
            return 'socket.' + f.__name__
        return None
    if mod in (None, 'builtins') or self_ is not None and not isinstance(self_, types.ModuleType):
        return None
    mod = ALIAS.get(mod, mod)
    if mod.split('.')[0] not in ('os', 'fcntl', 'select', 'time', 'socket', 'random', 'platform', 'io', 'stat', 'shutil', 'subprocess', 'sys',
                                 'tempfile', 'pathlib', 'glob'):
        return None
    return f'{mod}.{getattr(f, "__name__", f)}'


class FakeModule:
    def __init__(self, host, mod, nm):
        self.__dict__.update(host=host, mod=mod, nm=nm)

    def __getattr__(self, a):
        v = getattr(self.mod, a)
        if isinstance(v, types.ModuleType):
            return FakeModule(self.host, v, f'{self.nm}.{a}')
        name = f'{self.nm}.{a}'
        if isinstance(v, type) and issubclass(v, BaseException) or not callable(v) or name == 'os.stat_result':
            return v
        if name in PURE:
            return v
        return lambda *args, **kw: self.host.real(name, args, kw)


def maker(host, mod, nm):
    def make(lw):
        host.c.lower_of_run = lw
        return FakeModule(host, mod, nm)
    make.wants_lower = True
    return make


# ---------------------------------------------------------------- worlds

FILE_INTS = ('host_fd', 'host_flag', 'wasm_fd')


def opaque(c, name, real, **attrs):
    o = Opaque(name, {**attrs, 'real': real} if not c.symbolic else attrs)
    if not c.symbolic:
        c.eng.opaque_real = getattr(c.eng, 'opaque_real', {})
        c.eng.opaque_real[name] = o
    return o


def aim(c, chance=1.0, **values):
    """samples only: take these values for inputs that nothing else determines"""
    if not c.symbolic and c.rnd is not None and c.rnd.random() < chance:
        c.assign = {**values, **c.assign}


def sampling(c):
    return not c.symbolic and c.rnd is not None


def a_file(c, host, nm):
    """any descriptor table entry"""
    if sampling(c):
        aim(c, 0.7, **{nm + '.status': 0, nm + '.host_status': 0})
        aim(c, getattr(c, 'entitled', 0.4), **{nm + '.base': (1 << 30) - 1})
        if getattr(c, 'kinds', None):
            aim(c, 0.9, **{nm + '.type': c.rnd.choice(c.kinds)})
    a = {'host_fd': c.int(nm + '.host_fd', 0, 1 << 20), 'host_flag': c.int(nm + '.host_flag', 0, (1 << 31) - 1),
         'host_status': c.int(nm + '.host_status', 0, 1), 'wasm_fd': c.int(nm + '.wasm_fd', 0, 1 << 20),
         'wasm_flag': c.int(nm + '.wasm_flag', 0, 31, small=False), 'wasm_rights_base': c.uint(nm + '.base', 63),
         'wasm_rights_root': c.uint(nm + '.root', 63), 'wasm_status': c.int(nm + '.status', 0, 1),
         'wasm_type': c.int(nm + '.type', 0, 7, small=False)}
    if host.roots:
        a['host_name'], a['wasm_name'] = c.choice(nm + '.names', host.roots)
    elif c.symbolic:
        a['host_name'], a['wasm_name'] = SStr(('host_name', nm)), SStr(('wasm_name', nm), enc=c.bytes_in(nm + '.wname', c.int(nm + '.wname.n', 0, 4096)))
    else:
        a['host_name'], a['wasm_name'] = '/host/dir', c.choice(nm + '.wpick', ['w', '/w', 'dir/é'])
    piped = bterm(c.bool(nm + '.piped'))
    pipe = opaque(c, nm + '.pipe', FakePipe(host, nm), kind='pipe')
    a['pipe'] = Union([(piped, pipe), (z3.Not(piped), None)]) if c.symbolic else pipe if c.decide(piped) else None
    for f in dataclasses.fields(P1.File) if dataclasses.is_dataclass(P1.File) else ():
        # fields added since: their defaults
        if f.name not in a and f.init:
            v = f.default if f.default is not dataclasses.MISSING else \
                f.default_factory() if f.default_factory is not dataclasses.MISSING else None
            a[f.name] = lifted(c, v)
    return c.eng.alloc(ObjRec(P1.File, a))


def lifted(c, v):
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return v
    if type(v) is list:
        return c.list([lifted(c, x) for x in v])
    if type(v) is dict:
        return c.dict({k: lifted(c, x) for k, x in v.items()})
    return MISSING


@functools.cache
def fresh_attrs():
    """what a Preview1 object that was just made holds"""
    try:
        return vars(P1([], {}, {}))
    except Exception:
        return {}


TEXTS = ['', 'a', 'prog', 'é=ü', 'KEY=value', '日本', 'x' * 40]


def a_text(c, nm):
    """any text; its UTF-8 form is what bytes are made from"""
    if not c.symbolic:
        return c.choice(nm + '.pick', TEXTS)
    n, k = c.int(nm + '.n', 0, 1 << 20), c.int(nm + '.chars', 0, 1 << 20)
    c.requires(zand(sym.cmp('<=', k, n), sym.cmp('<=', n, sym.mul(4, k))))
    return SStr((nm, 'text'), enc=c.bytes_in(nm + '.enc', n), nchars=k)


def texts_list(c, nm):
    return c.seglist(c.seq(nm, c.int(nm + '.len', 0, 1 << 10) if c.symbolic else c.int(nm + '.len', 0, 3), lambda x: a_text(c, x)))


def world(c, fails=True, maxpages=32767, preview=None, mem=None, roots=None, nfd=None):
    """-> w: w.pv Preview1 object, w.m machine calling it, w.mem memory, w.host; every descriptor table"""
    h = Host(c, fails)
    h.roots = roots
    if mem is None:
        mem, q, n = memory(c, maxpages=maxpages if c.symbolic else 2 if c.rnd is not None else 8)
    else:
        mem, q, n = mem
    w = machine(c, [], mem=mem)
    w.host, w.q, w.n = h, q, n
    if sampling(c):
        aim(c, 0.8, nfd=c.rnd.randint(1, 5))
    w.nfd = c.int('nfd', 0, 1 << 16) if nfd is None else nfd
    w.files = c.seq('fd', w.nfd, lambda nm: a_file(c, h, nm))
    w.fd = c.seglist(w.files)
    nd = c.int('ndirs', 0, 1 << 10)
    w.ndirs = nd
    dirs = opaque(c, 'dirs', None if c.symbolic else {f'/d{i}': f'/h{i}' for i in range(nd)}, len=nd)
    attrs = {'args': texts_list(c, 'args'), 'envs': texts_list(c, 'envs'), 'dirs': dirs, 'fd': w.fd, 'return_on_exit': 1}
    for k, v in fresh_attrs().items():
        # attributes added since, as the constructor leaves them
        if k not in attrs and lifted(c, v) is not MISSING:
            attrs[k] = lifted(c, v)
    attrs.update(preview or {})
    w.pv = c.eng.alloc(ObjRec(P1, attrs))
    w.c = c
    h.install()
    if c.symbolic:
        c.eng.contracts = {**c.eng.contracts, **accessors(c)}
        c.eng.flat = True
    w.names = []
    return w


ACCESS = {'i32': (4, True), 'i64': (8, True), 'u8': (1, False), 'u16': (2, False), 'u32': (4, False), 'u64': (8, False)}


def inside(addr, size, n):
    return zand(sym.cmp('>=', addr, 0), sym.cmp('>=', size, 0), sym.cmp('<=', sym.add(addr, size), n))


def accessors(c):
    """the contracts of MemInst.get*/put* (proved in C18): inside of the memory little-endian accesses, elsewhere an exception"""
    eng, out = c.eng, {}

    def blob(m):
        return eng.rd(eng.rd(m).attrs['data']).seq

    def check(m, addr, size):
        q = blob(m)
        if not eng.decide(inside(addr, size, q.n)):
            eng.raise_(AssertionError)
        return q

    def get(eng, m, addr, size):
        addr, size = eng.as_int(addr), eng.as_int(size)
        q = check(m, addr, size)
        return eng.new_bytes(sym.bs_slice(q, addr, sym.add(addr, size)))

    def put(eng, m, addr, data):
        if not (isinstance(data, Ref) and isinstance(eng.rd(data), BytesRec)):
            raise interp.Inline
        addr = eng.as_int(addr)
        src = eng.bytes_of(data)
        q = check(m, addr, src.n)
        eng.wr(eng.rd(m).attrs['data']).seq = sym.bs_store(q, addr, sym.add(addr, src.n), src)

    def num(size, signed):
        def getter(eng, m, addr):
            addr = eng.as_int(addr)
            q = check(m, addr, size)
            k = sym.idx64(addr)
            bs = [q.at(k + i) for i in range(size)]
            t = z3.Concat(*reversed(bs)) if size > 1 else bs[0]
            return sym.sbv(t) if signed else sym.ubv(t)

        def putter(eng, m, addr, v):
            addr, v = eng.as_int(addr), eng.as_int(v)
            lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
            if not eng.decide(zand(sym.cmp('>=', v, lo), sym.cmp('<=', v, hi))):
                eng.raise_(struct.error)
            q = check(m, addr, size)
            t = sym.low(v, 8 * size)
            src = sym.mkcb([z3.Extract(8 * i + 7, 8 * i, t) for i in range(size)])
            eng.wr(eng.rd(m).attrs['data']).seq = sym.bs_store(q, addr, sym.add(addr, size), src)
        return getter, putter
    out['pywasm.core.MemInst.get'], out['pywasm.core.MemInst.put'] = get, put
    for k, (size, signed) in ACCESS.items():
        out[f'pywasm.core.MemInst.get_{k}'], out[f'pywasm.core.MemInst.put_{k}'] = num(size, signed)
    return out


def arguments(c, w, call, texts=None, **fixed):
    """the arguments of a call as the guest passes them (signed numbers); texts: the paths are among these"""
    out = []
    for i, b in enumerate(SIG[call]):
        if f'a{i}' in fixed:
            out.append(fixed[f'a{i}'])
        elif i in FDS.get(call, []):
            out.append(fd_arg(c, w, f'a{i}'))
        elif not c.symbolic and f'a{i}' not in c.assign and c.rnd is not None and c.rnd.random() < 0.7:
            v = c.rnd.choice([0, 1, 2, 3, 8, 16, 24, 64, 100, con(w.n) - 4, con(w.n) - 8, 1 << 10, 1 << 13, 1 << 28, (1 << 28) - 1])
            c.assign = {**c.assign, f'a{i}': v & ((1 << b) - 1)}
            out.append(con(c.sint(f'a{i}', b)))
        else:
            v = c.sint(f'a{i}', b)
            out.append(v if c.symbolic else con(v))
    w.args = out
    if call in PATHS:
        if texts:
            path_texts(c, w, call, texts)
        else:
            path_names(c, w, call)
    return w.args


def fd_arg(c, w, name):
    if not c.symbolic and name not in c.assign and c.rnd is not None and c.rnd.random() < 0.85:
        n = con(w.nfd)
        c.assign = {**c.assign, name: (c.rnd.randrange(n) if n > 0 and c.rnd.random() < 0.8 else c.rnd.randint(-1, n)) & 0xffffffff}
    v = c.sint(name, 32)
    return v if c.symbolic else con(v)


def path_names(c, w, call):
    """the path arguments: text with unknown contents; a path that escapes is told apart by help_escp's contract"""
    eng = c.eng
    w.names = [(w.args[p], w.args[n]) for p, n in PATHS[call]]
    if c.symbolic:
        known = []

        def decode(eng, got):
            for i, (p, n) in enumerate(w.names):
                if got is w.q:
                    continue
                if is_slice(eng, got, w.q, p, n):
                    i = next((j for j in range(i) if same_int(eng, w.names[j][0], p) and same_int(eng, w.names[j][1], n)), i)
                    if c.decide(bterm(c.bool(f'name{i}.bad'))):
                        eng.raise_(UnicodeDecodeError, 'utf-8', b'', 0, 1, 'invalid')
                    return SStr(('name', i), enc=got)
            return SStr(eng.fresh_name('text'), enc=got)
        eng.decode_hook = decode
        eng.contracts = {**eng.contracts, K + 'help_escp': lambda eng, self, *a, **kw: mkbool(escapes(c, kw.get('name', a[-1] if a else '')))}
        return
    # concrete runs: put names where the guest says they are
    pick = []
    q = bytearray(real_bytes(w.q))
    for i, (p, n) in enumerate(w.names):
        if c.decide(bterm(c.bool(f'name{i}.bad'))) and f'name{i}.bad' in c.assign:
            text = b'\xff'
        else:
            text = c.choice(f'name{i}.pick', ESCAPING if c.bool(f'name{i}.escapes') else STAYING).encode()
        room = con(w.n)
        if 0 <= p <= room - len(text) and c.rnd is not None or 0 <= p <= room - len(text) and f'name{i}.escapes' in c.assign:
            q[p:p + len(text)] = text
            w.args[PATHS[call][i][1]] = len(text)
            pick.append(text)
    w.names = [(w.args[p], w.args[n]) for p, n in PATHS[call]]
    w.q = CB(bytes(q))
    eng.wr(attr(c, w.mem, 'data')).seq = w.q


def path_texts(c, w, call, texts):
    """the path arguments are among `texts`, lying in memory"""
    eng = c.eng
    w.texts = [c.choice(f'text{i}', texts) for i in range(len(PATHS[call]))]
    w.names = []
    q = None if c.symbolic else bytearray(real_bytes(w.q))
    for i, t in enumerate(w.texts):
        pi, ni = PATHS[call][i]
        n = len(t.encode())
        w.args[ni] = n
        p = w.args[pi]
        if c.symbolic:
            for j in range(i):
                c.requires(zor(sym.cmp('<=', sym.add(p, n), w.names[j][0]), sym.cmp('<=', sym.add(w.names[j][0], w.names[j][1]), p)))
        else:
            p = w.args[pi] = 64 * i
            q[p:p + n] = t.encode()
        c.requires(zand(sym.cmp('>=', p, 0), sym.cmp('<=', sym.add(p, n), w.n)))
        w.names.append((p, n))
    if not c.symbolic:
        w.q = CB(bytes(q))
        eng.wr(attr(c, w.mem, 'data')).seq = w.q
        return

    def decode(eng, got):
        for i, (p, n) in enumerate(w.names):
            if is_slice(eng, got, w.q, p, n):
                return w.texts[i]
        raise Unsupported('text from elsewhere')
    eng.decode_hook = decode


def is_slice(eng, got, q, p, n):
    """are these the n bytes of q at p?"""
    k = z3.BitVec(eng.fresh_name('at'), 64)
    same = zimp(z3.ULT(k, sym.idx64(n)), got.at(k) == q.at(sym.idx64(p) + k))
    return eng.implied(sym.cmp('==', got.n, n)) and eng.implied(same)


def escapes(c, name):
    """does the path leave the directory? (what help_escp decides)"""
    if isinstance(name, str):
        return lexically_escapes(name)
    k = name.key
    if isinstance(k, tuple) and k[0] == 'name':
        return bterm(c.bool(f'name{k[1]}.escapes'))
    return z3.Bool(f'escapes:{k!r}')


def lexically_escapes(name):
    """a path is absolute, or some prefix of it climbs above where it starts"""
    if name.startswith('/'):
        return True
    depth = 0
    for part in name.split('/'):
        if part in ('', '.'):
            continue
        depth += -1 if part == '..' else 1
        if depth < 0:
            return True
    return False


def real_bytes(q):
    return q.items if isinstance(q, CB) and isinstance(q.items, bytes) else bytes(con(q.at(z3.BitVecVal(i, 64))) for i in range(con(q.n)))


def call(c, w, name):
    """the guest calls `name`"""
    return c.run(BoundMethod(getattr(P1, name), w.pv), w.m, c.list(list(w.args)))


def file_at(c, w, fd):
    """the entry of an open number; None when there is none"""
    if not c.decide(zand(sym.cmp('>=', fd, 0), sym.cmp('<', fd, w.nfd))):
        return None
    return c.eng.list_get(w.fd, fd) if c.symbolic else w.files[fd]


def is_open(c, w, fd):
    f = file_at(c, w, fd)
    return f is not None and c.decide(sym.cmp('==', attr(c, f, 'wasm_status'), 0))


def errno(c, out):
    """the error number a call answers, or None"""
    if out.kind != 'normal' or not isinstance(out.val, Ref):
        return None
    r = c.eng.rd(out.val)
    if not isinstance(r, ListRec) or len(r.segs) != 1 or not isinstance(r.segs[0], list) or len(r.segs[0]) != 1:
        return None
    return r.segs[0][0]


def refuses(c, w, out, pre, want=None, what=''):
    """the call fails with an error number and has no effect"""
    e = errno(c, out)
    c.ensure(f'answers an error number{what}' + ('' if e is not None else f' (got {out!r})'), e is not None)
    c.ensure(f'the call fails{what}' if want is None else f'the call fails with {want}{what}',
             sym.cmp('!=', e, 0) if want is None else sym.cmp('==', e, want))
    ops = w.host.events()
    c.ensure(f'no host operation happens{what}' + (f' (got {[o[0] for o in ops]})' if ops else ''), not ops)
    unchanged(c, f'memory and descriptor table stay as they are{what}', pre, [w.pv, w.m])


def answer(c, w, op, lo, hi):
    """what the host answered the first such operation"""
    for i, e in enumerate(w.host.events()):
        if e[0] == op:
            return c.int(f'ev{i}.{op}', lo, hi)
    return None


def memory_of(c, w):
    """the bytes of guest memory now"""
    return c.eng.rd(attr(c, w.mem, 'data')).seq


class Except:
    """holes: these attributes, or all but these, of any object"""

    def __init__(self, names, only=False):
        self.names, self.only = names, only

    def __contains__(self, k):
        return (k[1] in self.names) != self.only


def le(c, w, p, n, q=None):
    """the unsigned little-endian number in guest memory at p"""
    q = w.q if q is None else q
    if not c.symbolic:
        return int.from_bytes(real_bytes(q)[con(p):con(p) + n], 'little')
    k = sym.idx64(p)
    return sym.ubv(z3.Concat(*reversed([q.at(k + i) for i in range(n)])) if n > 1 else q.at(k))
