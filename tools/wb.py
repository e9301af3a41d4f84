"""a small WebAssembly module builder for demonstrations"""
import io
import os
import sys

sys.path.insert(0, os.getcwd())
import pywasm  # noqa: E402

I32, I64, F32, F64, V128, FUNCREF, EXTERNREF = 0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f


def u(n):
    out = b''
    while True:
        b, n = n & 0x7f, n >> 7
        if n:
            out += bytes([b | 0x80])
        else:
            return out + bytes([b])


def s(n):
    out = b''
    while True:
        b, n = n & 0x7f, n >> 7
        if n == 0 and not b & 0x40 or n == -1 and b & 0x40:
            return out + bytes([b])
        out += bytes([b | 0x80])


def vec(xs):
    return u(len(xs)) + b''.join(xs)


def name(x):
    x = x.encode()
    return u(len(x)) + x


def sec(i, body):
    return bytes([i]) + u(len(body)) + body


def i32(n):
    return b'\x41' + s(n - (1 << 32) if n >> 31 & 1 and n > 0 else n)


def i64(n):
    return b'\x42' + s(n - (1 << 64) if n >> 63 & 1 and n > 0 else n)


def limits(m, n=None):
    return b'\x00' + u(m) if n is None else b'\x01' + u(m) + u(n)


def module(types=(), imports=(), funcs=(), tables=(), mems=(), globs=(), exports=(), start=None, elems=(), datas=(), count=False):
    """types: [(args, rets)]; imports: [(mod, name, kind, desc bytes)]; funcs: [(type index, [(n, type)], body without end)];
    tables: [(reftype, limits)]; mems: [limits]; globs: [(type, mut, init without end)]; exports: [(name, kind, index)];
    elems and datas: raw segments"""
    out = b'\x00asm\x01\x00\x00\x00'
    if types:
        out += sec(1, vec([b'\x60' + vec([bytes([t]) for t in a]) + vec([bytes([t]) for t in r]) for a, r in types]))
    if imports:
        out += sec(2, vec([name(m) + name(n) + bytes([k]) + d for m, n, k, d in imports]))
    if funcs:
        out += sec(3, vec([u(t) for t, _, _ in funcs]))
    if tables:
        out += sec(4, vec([bytes([t]) + l for t, l in tables]))
    if mems:
        out += sec(5, vec(list(mems)))
    if globs:
        out += sec(6, vec([bytes([t, m]) + e + b'\x0b' for t, m, e in globs]))
    if exports:
        out += sec(7, vec([name(n) + bytes([k]) + u(i) for n, k, i in exports]))
    if start is not None:
        out += sec(8, u(start))
    if elems:
        out += sec(9, vec(list(elems)))
    if count:
        out += sec(12, u(len(datas)))
    if funcs:
        code = []
        for _, loc, body in funcs:
            b = vec([u(n) + bytes([t]) for n, t in loc]) + body + b'\x0b'
            code.append(u(len(b)) + b)
        out += sec(10, vec(code))
    if datas:
        out += sec(11, vec(list(datas)))
    return out


def desc(b):
    return pywasm.core.ModuleDesc.from_reader(io.BytesIO(b))


def load(b, imports=None, rt=None):
    rt = rt or pywasm.core.Runtime()
    if imports:
        rt.imports.update(imports(rt))
    return rt, rt.instance(desc(b))


def call(rt, m, f, *args):
    return rt.invocate(m, f, list(args))


def traps(f):
    try:
        f()
    except Exception:
        return True
    return False


def check(cond, what):
    if not cond:
        print('FAIL:', what)
        sys.exit(1)
