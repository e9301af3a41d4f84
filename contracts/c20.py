"""C20: path calls stay inside of the directory."""
import inspect
import itertools

from .c19 import fails
from .wasi import *

PROP = 'C20'
ASSUMPTIONS = ['os.path.normpath, os.path.join, os.path.isabs and str methods are CPython\'s, evaluated on each text of the enumeration',
               'host operations that take dir_fd resolve a relative path from that directory',
               'symbolic links inside of the directory are the host administrator\'s concern: containment is lexical',
               'the module calling has a memory of less than 2 GiB']
# host operations that take paths: (position of the path, keyword of its directory)
SRC, DST = 'src_dir_fd', 'dst_dir_fd'
TWO = {'os.link': [(0, SRC), (1, DST)], 'os.rename': [(0, SRC), (1, DST)], 'os.replace': [(0, SRC), (1, DST)],
       'os.symlink': [(0, None), (1, 'dir_fd')]}


def in_memory(c, w):
    for p, n in w.names:
        c.requires(zand(sym.cmp('>=', p, 0), sym.cmp('>=', n, 0), sym.cmp('<=', sym.add(p, n), w.n)))


def textual(v):
    return isinstance(v, (str, SStr, Ref))


def is_name(c, w, v, i):
    """is this the i-th path the guest passed, unmodified?"""
    if getattr(w, 'texts', None):
        return isinstance(v, str) and v == w.texts[i]
    if c.symbolic:
        return isinstance(v, SStr) and v.enc is not None and is_slice(c.eng, v.enc, w.q, *w.names[i])
    p, n = w.names[i]
    return isinstance(v, str) and v.encode() == real_bytes(w.q)[p:p + n]


def relative(c, w, name, args):
    """every path the host is given is one the guest passed, with the descriptor it came with"""
    eng = c.eng
    fds = [attr(c, file_at(c, w, args[i]), 'host_fd') for i in FDS[name]]
    for op, pos, kw in w.host.operations():
        if op == 'loop':
            c.fail('host operations happen one by one')
        at = TWO.get(op, [(0, 'dir_fd')])
        for j, v in enumerate(pos):
            if not textual(v):
                continue
            if op in ('os.write', 'os.pwrite', 'pipe.write', 'sock.send'):
                continue
            k = next((key for i, key in at if i == j), 'none')
            c.ensure(f'{op}: argument {j} is a path relative to a directory descriptor', k != 'none')
            i = 0 if len(PATHS[name]) == 1 else 1 if k == DST or op == 'os.symlink' and j == 1 else 0
            c.ensure(f'{op}: the path is the one the guest passed (got {v!r})', is_name(c, w, v, i))
            if k is None:
                continue
            d = kw.get(k)
            fd = fds[i] if len(fds) > 1 else fds[0]
            c.ensure(f'{op}: {k} is the descriptor\'s (got {d!r})', d is not None and mkbool(sym.cmp('==', d, fd)) if isinstance(d, (int, sym.SInt)) else False)


def refused(name, i):
    def body(c):
        w = world(c)
        args = arguments(c, w, name)
        in_memory(c, w)
        c.requires(all([is_open(c, w, args[k]) for k in FDS[name]]))
        if not c.symbolic:
            c.requires(f'name{i}.escapes' in c.used and c.bool(f'name{i}.escapes') and real_text(w, i) is not None and lexically_escapes(real_text(w, i)))
        else:
            c.requires(bterm(c.bool(f'name{i}.escapes')))
        pre = Snap(c)
        out = call(c, w, name)
        c.cover('refused')
        fails(c, w, out, pre)
    add(PROP, f'{name}: path {i} leaves the directory', body, K + name, covers=('refused',), samples=60, standin=f'{name}: texts')


def real_text(w, i):
    p, n = w.names[i]
    try:
        return real_bytes(w.q)[p:p + n].decode()
    except UnicodeDecodeError:
        return None


def handed(name):
    def body(c):
        w = world(c)
        args = arguments(c, w, name)
        in_memory(c, w)
        c.requires(all([is_open(c, w, args[k]) for k in FDS[name]]))
        call(c, w, name)
        if w.host.operations():
            c.cover('operates')
        relative(c, w, name, args)
    add(PROP, f'{name}: hands over its paths unmodified', body, K + name, covers=('operates',), samples=60, standin=f'{name}: texts')


ROOTS = [('/h/w', 'w'), ('/h', '.'), ('/', '/')]


def texts(name):
    """paths from a list, everything inlined"""
    def body(c):
        one = len(PATHS[name]) == 1
        w = world(c, fails=False, roots=ROOTS if one else ROOTS[:1])
        args = arguments(c, w, name, texts=SOME if one else FEW)
        c.requires(all([is_open(c, w, args[k]) for k in FDS[name]]))
        pre = Snap(c)
        bad = any(lexically_escapes(t) for t in w.texts)
        out = call(c, w, name)
        if bad:
            c.cover('refused')
            fails(c, w, out, pre, f' for {w.texts}')
        else:
            if w.host.operations():
                c.cover('operates')
            relative(c, w, name, args)
    add(PROP, f'{name}: texts', body, K + name, covers=('refused', 'operates'), samples=100, bounded=f'{len(SOME)} path texts (two-path calls: {len(FEW)} each), 3 directory names', lazy=True)


SOME = ['..', '../x', '/etc/x', 'a/../../b', '../w', '../wx', '..//a', 'a', '.', 'a/../b', '..a', 'a/', '']
FEW = ['../wx', 'a', 'a/..']

for _n in PATHS:
    for _i in range(len(PATHS[_n])):
        refused(_n, _i)
    handed(_n)
    texts(_n)

PARAMS = list(inspect.signature(P1.help_escp).parameters)[1:] if hasattr(P1, 'help_escp') else []
if 'name' in PARAMS:
    def _(c):
        """all texts over . / a up to 7 characters, and the list, for a few directory names"""
        c.cover('asked')
        pv = c.eng.alloc(ObjRec(P1, {}))
        Host(c).install()
        names = [''.join(t) for n in range(8) for t in itertools.product('./a', repeat=n)]
        for root in ('w', '.', '/', '/a/b', 'a'):
            for name in names if root == 'w' else ESCAPING + STAYING + names[:400]:
                out = c.run(BoundMethod(P1.help_escp, pv), **{k: name if k == 'name' else root for k in PARAMS})
                ok = out.kind == 'normal' and isinstance(out.val, (bool, int)) and bool(out.val) == lexically_escapes(name)
                if not ok:
                    c.ensure(f'help_escp({root!r}, {name!r}) tells whether the path leaves the directory (got {out!r})', False)
        c.ensure('help_escp tells whether a path leaves the directory', True)
    add(PROP, 'help_escp: texts', _, K + 'help_escp', covers=('asked',), samples=1, bounded='3280 texts over . / a of up to 7 characters')
