"""C13: decoding of modules."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .binary import *
from .c12 import use_listing

PROP = 'C13'
ASSUMPTIONS = ['LEB128 numbers are decoded by the contract proved in C11, instructions by the contracts proved in C12',
               'listing a decoded expression (debug output) changes nothing, by the contracts of C12',
               'a name is any UTF-8 text; bytes.decode turns its encoding back into it',
               'section mixes: all sections, each section alone, each section left out, with any number of custom sections at every place; '
               'sections with empty vectors count as present']
FUNC, TABLE, MEM, GLOBAL = range(4)


def text(c, nm):
    """-> (text, its encoding)"""
    n = c.int(nm + '.n', 0, 1 << 16)
    q = c.bytes_in(nm, n)
    if c.symbolic:
        s = SStr(('name', nm), enc=q)
        names = getattr(c.eng, 'names', None)
        if names is None:
            names = c.eng.names = []
            c.eng.decode_hook = lambda eng, got: decode_name(eng, got, names)
        names.append((q, s))
        return s, q
    b = bytes(con(q.at(z3.BitVecVal(i, 64))) for i in range(con(n)))
    out = ''
    while len(out.encode()) < len(b):
        k = b[len(out.encode())]
        room = len(b) - len(out.encode())
        out += '\u4e2d' if k % 5 == 0 and room >= 3 else 'é' if k % 5 == 1 and room >= 2 else chr(32 + k % 95)
    return out, CB(out.encode())


def decode_name(eng, got, names):
    for q, s in names:
        if q is got:
            return s
    for q, s in names:
        if eng.implied(eng.bytes_equal(q, got)):
            return s
    raise Unsupported('decoding of bytes that are not one of the names')


def name_toks(q):
    return [u(q.n), Blob(q)]


def decodes(c, fn, toks, want, tail=True, label='decodes'):
    b = Bin(c, toks, tail)
    out = c.run(fn, b.r)
    c.cover('decoded')
    c.ensure(f'{label} (got {out!r})', out.kind == 'normal')
    same(c, 'decoded', out.val, want)
    b.consumed()


def reader(name, target, covers=('decoded',), **kw):
    return contract(PROP, name, K + target, covers=covers, **kw)


# ---------------------------------------------------------------- types

@reader('value type', 'ValType.from_reader')
def valtype(c):
    t = typ(c, 'type')
    decodes(c, core.ValType.from_reader, [Raw([byte_of(attr(c, t, 'data'))])], t)


@reader('invalid value type', 'ValType.from_reader', covers=('rejected',))
def badtype(c):
    d = c.int('byte', 0, 255)
    c.requires(zand(*[sym.cmp('!=', d, t) for t in TYPES]))
    b = Bin(c, [Raw([byte_of(d)])])
    out = c.run(core.ValType.from_reader, b.r)
    c.cover('rejected')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')


def types(c, nm):
    return c.seq(nm, c.int(nm + '.n', 0, 1 << 20), lambda x: typ(c, x))


@reader('function type', 'FuncType.from_reader')
def functype(c):
    a, r = types(c, 'args'), types(c, 'rets')
    t = lambda v: typ_tok(c, v)
    decodes(c, core.FuncType.from_reader, [Raw([0x60])] + vec(c, a, t) + vec(c, r, t), c.new(core.FuncType, c.seglist(a), c.seglist(r)))


@reader('function type: wrong tag', 'FuncType.from_reader', covers=('rejected',))
def functag(c):
    d = c.int('byte', 0, 255)
    c.requires(sym.cmp('!=', d, 0x60))
    b = Bin(c, [Raw([byte_of(d)])])
    out = c.run(core.FuncType.from_reader, b.r)
    c.cover('rejected')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')


def limits(c, nm):
    """-> (value, tokens): declared minimum and maximum (a maximum of 0 is a known finding)"""
    n = idx(c, nm + '.min')
    if c.choice(nm + '.kind', ['open', 'bounded']) == 'open':
        return c.new(core.Limits, n, 0), [Raw([0]), u(n)]
    m = c.int(nm + '.max', 1, U32, small=False)
    return c.new(core.Limits, n, m), [Raw([1]), u(n), u(m)]


@reader('limits', 'Limits.from_reader')
def lims(c):
    v, toks = limits(c, 'limits')
    decodes(c, core.Limits.from_reader, toks, v)


def limits_item(c, nm):
    v, toks = limits(c, nm)
    return v, [Item(K + 'Limits.from_reader', v, lambda: toks)]


@reader('memory type', 'MemType.from_reader')
def memtype(c):
    v, toks = limits_item(c, 'limits')
    decodes(c, core.MemType.from_reader, toks, c.new(core.MemType, v))


def table_type(c, nm):
    t = typ(c, nm + '.type', [FUNCREF, EXTERNREF])
    v, toks = limits_item(c, nm)
    w = c.new(core.TableType, t, v)
    return w, typ_tok(c, t) + toks


@reader('table type', 'TableType.from_reader')
def tabletype(c):
    w, toks = table_type(c, 'table')
    decodes(c, core.TableType.from_reader, toks, w)


def global_type(c, nm):
    t = typ(c, nm + '.type')
    mut = c.int(nm + '.mut', 0, 1)
    return c.new(core.GlobalType, t, mut), typ_tok(c, t) + [Raw([byte_of(mut)])]


@reader('global type', 'GlobalType.from_reader')
def globaltype(c):
    w, toks = global_type(c, 'global')
    decodes(c, core.GlobalType.from_reader, toks, w)


# ---------------------------------------------------------------- definitions

def expr_item(c, nm):
    e = expr_value(c, nm)
    return e, expr_tok(c, e)


@reader('global', 'GlobalDesc.from_reader')
def globaldesc(c):
    w, toks = global_type(c, 'global')
    e, et = expr_item(c, 'init')
    decodes(c, core.GlobalDesc.from_reader, [Item(K + 'GlobalType.from_reader', w, lambda: toks)] + et, c.new(core.GlobalDesc, w, e))


@reader('function declaration', 'FuncDesc.from_reader_type')
def funcdecl(c):
    i = idx(c, 'type')
    decodes(c, core.FuncDesc.from_reader_type, [u(i)], c.new(core.FuncDesc, i, c.list([]), c.new(core.Expr, c.list([]))))


@reader('local declaration', 'LocalsDesc.from_reader')
def localdecl(c):
    n, t = idx(c, 'n'), typ(c, 'type')
    decodes(c, core.LocalsDesc.from_reader, [u(n)] + typ_tok(c, t), c.new(core.LocalsDesc, n, t))


@reader('function body', 'FuncDesc.from_reader_code')
def funccode(c):
    def one(nm):
        return c.new(core.LocalsDesc, idx(c, nm + '.count'), typ(c, nm + '.type'))
    seg = c.seq('locals', c.int('locals.n', 0, 1 << 20), one)
    e, et = expr_item(c, 'body')

    def tok(v):
        return [Item(K + 'LocalsDesc.from_reader', v, lambda: [u(attr(c, v, 'n'))] + typ_tok(c, attr(c, v, 'type')))]
    decodes(c, core.FuncDesc.from_reader_code, vec(c, seg, tok) + et, c.new(core.FuncDesc, 0, c.seglist(seg), e))


@reader('custom section', 'Custom.from_reader')
def custom(c):
    s, q = text(c, 'name')
    n = c.int('data.n', 0, 1 << 16)
    d = c.bytes_in('data', n)
    b = Bin(c, name_toks(q) + [Blob(d)], tail=False)
    out = c.run(core.Custom.from_reader, b.r)
    c.cover('decoded')
    c.ensure(f'decodes (got {out!r})', out.kind == 'normal')
    same(c, 'decoded', out.val, c.new(core.Custom, s, c.bytearray(d)))


def import_desc(c, kind, nm):
    if kind == FUNC:
        i = idx(c, nm + '.type')
        return i, [u(i)]
    if kind == TABLE:
        v, toks = table_type(c, nm)
        return v, [Item(K + 'TableType.from_reader', v, lambda: toks)]
    if kind == MEM:
        l, toks = limits_item(c, nm)
        v = c.new(core.MemType, l)
        return v, [Item(K + 'MemType.from_reader', v, lambda: toks)]
    v, toks = global_type(c, nm)
    return v, [Item(K + 'GlobalType.from_reader', v, lambda: toks)]


for _k, _n in enumerate(('function', 'table', 'memory', 'global')):
    def _imp(c, kind=_k):
        m, mq = text(c, 'module')
        n, nq = text(c, 'name')
        v, toks = import_desc(c, kind, 'desc')
        decodes(c, core.Import.from_reader, name_toks(mq) + name_toks(nq) + [Raw([kind])] + toks, c.new(core.Import, m, n, kind, v))

    def _exp(c, kind=_k):
        n, nq = text(c, 'name')
        i = idx(c, 'index')
        decodes(c, core.ExportDesc.from_reader, name_toks(nq) + [Raw([kind]), u(i)], c.new(core.ExportDesc, n, kind, i))
    add(PROP, f'import of a {_n}', _imp, K + 'Import.from_reader', covers=('decoded',))
    add(PROP, f'export of a {_n}', _exp, K + 'ExportDesc.from_reader', covers=('decoded',))


# ---------------------------------------------------------------- segments

def elem_segment(kind):
    def body(c):
        funcs = kind < 4
        typed = kind in (5, 6, 7)
        active = kind & 1 == 0
        toks = [u(kind)]
        tidx = 0
        if kind in (2, 6):
            tidx = idx(c, 'table')
            toks += [u(tidx)]
        if active:
            off, ot = expr_item(c, 'offset')
            toks += ot
        else:
            off = c.new(core.Expr, c.list([]))
        t = vtype(c, FUNCREF)
        if typed:
            t = typ(c, 'type', [FUNCREF, EXTERNREF])
            toks += typ_tok(c, t)
        elif kind in (1, 2, 3):
            toks += [Raw([0])]
        n = c.int('n', 0, 1 << 20)
        if funcs:
            def one(nm):
                i = idx(c, nm)
                return c.new(core.Expr, c.list([c.new(core.Inst, opc('ref.func'), c.list([i]))]))

            def tok(v):
                inst = c.eng.list_get(attr(c, v, 'data'), 0)
                return [u(c.eng.list_get(attr(c, inst, 'args'), 0))]
        else:
            one, tok = any_expr(c), lambda v: expr_tok(c, v)
        seg = c.seq('init', n, one)
        decodes(c, core.ElemDesc.from_reader, toks + vec(c, seg, tok), c.new(core.ElemDesc, kind, t, tidx, off, c.seglist(seg)))
    return body


for _k in range(8):
    add(PROP, f'element segment {_k}', elem_segment(_k), K + 'ElemDesc.from_reader', covers=('decoded',))


def data_segment(kind):
    def body(c):
        toks = [u(kind)]
        if kind == 2:
            toks += [u(0)]
        if kind == 1:
            off = c.new(core.Expr, c.list([]))
        else:
            off, ot = expr_item(c, 'offset')
            toks += ot
        n = c.int('n', 0, 1 << 20)
        q = c.bytes_in('data', n)
        decodes(c, core.DataDesc.from_reader, toks + [u(n), Blob(q)], c.new(core.DataDesc, kind, 0, off, c.bytearray(q)))
    return body


for _k in range(3):
    add(PROP, f'data segment {_k}', data_segment(_k), K + 'DataDesc.from_reader', covers=('decoded',))


# ---------------------------------------------------------------- modules

HEADER = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]
MAKERS = {}


def raw(c, cls, **attrs):
    """an object known only by its decoder's contract"""
    return c.eng.alloc(ObjRec(cls, attrs))


def items(c, what):
    """-> (factory, tokens) for the elements of a section"""
    sym_ = c.symbolic
    if what == 'type':
        def f(nm):
            if sym_:
                return raw(c, core.FuncType, args=Opaque(nm + '.args'), rets=Opaque(nm + '.rets'))
            return c.new(core.FuncType, c.seglist(types(c, nm + '.args')), c.seglist(types(c, nm + '.rets')))
        g = lambda v: [Raw([0x60])] + sum([vec(c, seg_of(c, attr(c, v, a)), lambda t: typ_tok(c, t)) for a in ('args', 'rets')], [])
        return f, wrap(c, 'FuncType.from_reader', g)
    if what == 'import':
        def f(nm):
            if sym_:
                return raw(c, core.Import, module=Opaque(nm + '.module'), name=Opaque(nm + '.name'), kind=c.int(nm + '.kind', 0, 3),
                           desc=Opaque(nm + '.desc'))
            k = c.choice(nm + '.kind', [0, 1, 2, 3])
            d, toks = import_desc(c, k, nm)
            m, n = text(c, nm + '.m')[0], text(c, nm + '.f')[0]
            o = c.new(core.Import, m, n, k, d)
            side(c)[o.id] = name_toks(CB(m.encode())) + name_toks(CB(n.encode())) + [Raw([k])] + toks
            return o
        return f, wrap(c, 'Import.from_reader', lambda v: side(c)[v.id])
    if what == 'func':
        f = lambda nm: c.new(core.FuncDesc, idx(c, nm + '.type'), c.list([]), c.new(core.Expr, c.list([])))
        return f, lambda v: [Item(K + 'FuncDesc.from_reader_type', v, lambda: [u(attr(c, v, 'type'))])]
    if what == 'table':
        def f(nm):
            if sym_:
                return raw(c, core.TableType, type=Opaque(nm + '.type'), limits=Opaque(nm + '.limits'))
            v, toks = table_type(c, nm)
            side(c)[v.id] = toks
            return v
        return f, wrap(c, 'TableType.from_reader', lambda v: side(c)[v.id])
    if what == 'memory':
        def f(nm):
            if sym_:
                return raw(c, core.MemType, limits=Opaque(nm + '.limits'))
            l, toks = limits_item(c, nm)
            v = c.new(core.MemType, l)
            side(c)[v.id] = toks
            return v
        return f, wrap(c, 'MemType.from_reader', lambda v: side(c)[v.id])
    if what == 'global':
        def f(nm):
            if sym_:
                return raw(c, core.GlobalDesc, type=Opaque(nm + '.type'), init=Opaque(nm + '.init'))
            w, toks = global_type(c, nm)
            e, et = expr_item(c, nm + '.init')
            v = c.new(core.GlobalDesc, w, e)
            side(c)[v.id] = toks + et
            return v
        return f, wrap(c, 'GlobalDesc.from_reader', lambda v: side(c)[v.id])
    if what == 'export':
        def f(nm):
            if sym_:
                return raw(c, core.ExportDesc, name=Opaque(nm + '.name'), kind=c.int(nm + '.kind', 0, 3), desc=Opaque(nm + '.desc'))
            return c.new(core.ExportDesc, text(c, nm)[0], c.int(nm + '.kind', 0, 3), idx(c, nm + '.i'))
        g = lambda v: name_toks(CB(attr(c, v, 'name').encode())) + [Raw([attr(c, v, 'kind')]), u(attr(c, v, 'desc'))]
        return f, wrap(c, 'ExportDesc.from_reader', g)
    if what == 'elem':
        def f(nm):
            if sym_:
                return raw(c, core.ElemDesc, kind=c.int(nm + '.kind', 0, 7), type=Opaque(nm + '.type'), tidx=Opaque(nm + '.t'),
                           offset=Opaque(nm + '.o'), init=Opaque(nm + '.i'))
            e, et = expr_item(c, nm + '.init')
            xs = [idx(c, f'{nm}.f{k}') for k in range(c.int(nm + '.n', 0, 3))]
            k = c.choice(nm + '.kind', [0, 1, 3])
            off = e if k == 0 else c.new(core.Expr, c.list([]))
            init = [c.new(core.Expr, c.list([c.new(core.Inst, opc('ref.func'), c.list([x]))])) for x in xs]
            o = c.new(core.ElemDesc, k, vtype(c, FUNCREF), 0, off, c.list(init))
            side(c)[o.id] = [u(k)] + (et if k == 0 else [Raw([0])]) + [u(len(xs))] + [u(x) for x in xs]
            return o
        return f, wrap(c, 'ElemDesc.from_reader', lambda v: side(c)[v.id])
    if what == 'data':
        def f(nm):
            if sym_:
                return raw(c, core.DataDesc, kind=c.int(nm + '.kind', 0, 2), midx=0, offset=Opaque(nm + '.o'), init=Opaque(nm + '.i'))
            n = c.int(nm + '.n', 0, 20)
            q = c.bytes_in(nm + '.b', n)
            e, et = expr_item(c, nm + '.off')
            k = c.choice(nm + '.kind', [0, 1])
            o = c.new(core.DataDesc, k, 0, e if k == 0 else c.new(core.Expr, c.list([])), c.bytearray(q))
            side(c)[o.id] = [u(k)] + (et if k == 0 else []) + [u(n), Blob(q)]
            return o
        return f, wrap(c, 'DataDesc.from_reader', lambda v: side(c)[v.id])
    if what == 'code':
        def f(nm):
            size = c.int(nm + '.size', 1, U32, small=False)
            if sym_:
                o = c.new(core.FuncDesc, 0, c.list([Opaque(nm + '.locals')]), c.new(core.Expr, c.list([Opaque(nm + '.expr')])))
                c.eng.wr(o).attrs['#size'] = size
                return o
            e, et = expr_item(c, nm + '.body')
            ls = [c.new(core.LocalsDesc, c.int(f'{nm}.l{k}', 0, 9), typ(c, f'{nm}.t{k}')) for k in range(c.int(nm + '.nl', 0, 3))]
            o = c.new(core.FuncDesc, 0, c.list(ls), e)
            lt = sum([[u(attr(c, l, 'n'))] + typ_tok(c, attr(c, l, 'type')) for l in ls], [])
            side(c)[o.id] = [u(len(ls))] + lt + et
            return o

        def tok(v):
            if sym_:
                n = c.eng.rd(v).attrs['#size']
                return [u(n), Block(n, [Item(K + 'FuncDesc.from_reader_code', v, no_expand('function body'))])]
            t = side(c)[v.id]
            return [u(len(streams.encode(t, con)))] + t
        return f, tok
    raise Unsupported(what)


def seg_of(c, ref):
    return c.eng.rd(ref).segs[0] if c.eng.rd(ref).segs else []


def wrap(c, key, expand):
    return lambda v: [Item(K + key, v, no_expand(key) if c.symbolic else (lambda: expand(v)))]


IDS = {'type': 1, 'import': 2, 'func': 3, 'table': 4, 'memory': 5, 'global': 6, 'export': 7, 'start': 8, 'elem': 9, 'count': 12, 'code': 10,
       'data': 11}


def section(c, sid, toks, nm):
    if c.symbolic:
        n = c.int(nm + '.size', 1, U32, small=False)
        return [Raw([sid]), u(n), Block(n, toks)]
    return [Raw([sid]), u(len(streams.encode(toks, con)))] + toks


def customs(c, nm):
    """any number of custom sections"""
    def one(x):
        if c.symbolic:
            o = raw(c, core.Custom, name=Opaque(x + '.name'), data=Opaque(x + '.data'))
            c.eng.wr(o).attrs['#size'] = c.int(x + '.size', 1, U32, small=False)
            return o
        s = text(c, x)[0]
        d = c.bytes_in(x + '.data', c.int(x + '.data.n', 0, 8))
        return c.new(core.Custom, s, c.bytearray(d))

    def tok(v):
        it = Item(K + 'Custom.from_reader', v, no_expand('custom section') if c.symbolic else lambda: name_toks(
            CB(attr(c, v, 'name').encode())) + [Blob(c.eng.rd(attr(c, v, 'data')).seq)])
        if c.symbolic:
            n = c.eng.rd(v).attrs['#size']
            return [Raw([0]), u(n), Block(n, [it])]
        return [Raw([0]), u(len(streams.encode([it], con)))] + it.expand()
    many = c.int(nm + '.n', 0, 1 << 20)
    if not c.symbolic:
        many = min(con(many), 40)
    return Rep(c.seq(nm, many, one), tok)


def module(c, present, with_customs=True):
    """-> (tokens, the expected description)"""
    toks = [Raw(HEADER)]
    want = {k: lambda: c.list([]) for k in IDS}
    star = -1
    nf = 0
    for k in IDS:
        if with_customs:
            toks.append(customs(c, f'custom-{k}'))
        if k not in present:
            continue
        if k == 'start':
            star = idx(c, 'start')
            toks += section(c, IDS[k], [u(star)], k)
            continue
        if k == 'count':
            toks += section(c, IDS[k], [u(idx(c, 'datacount'))], k)
            continue
        f, tok = items(c, k)
        n = nf if k == 'code' else c.int(k + '.n', 0, 1 << 20)
        if k == 'func':
            nf = n
        seg = c.seq(k, n, f)
        toks += section(c, IDS[k], [u(n), Rep(seg, tok)], k)
        want[k] = lambda seg=seg: c.seglist(seg)
        if k == 'code':
            want['func'] = lambda seg=seg: with_bodies(c, fseg, seg)
        elif k == 'func':
            fseg = seg
    if with_customs:
        toks.append(customs(c, 'custom-end'))
    order = ('type', 'func', 'table', 'memory', 'global', 'elem', 'data')
    return toks, lambda: c.new(core.ModuleDesc, *[want[k]() for k in order], star, want['import'](), want['export']())


def with_bodies(c, fseg, cseg):
    """function k: declaration k with the locals and the body of code entry k"""
    if not c.symbolic:
        return c.list([c.new(core.FuncDesc, attr(c, f, 'type'), attr(c, b, 'locals'), attr(c, b, 'expr')) for f, b in zip(fseg, cseg)])

    def value(eng, k):
        f, b = eng.materialise(fseg, k), eng.materialise(cseg, k)
        fa, ba = eng.rd(f).attrs, eng.rd(b).attrs
        return eng.alloc(ObjRec(core.FuncDesc, {'type': fa['type'], 'locals': ba['locals'], 'expr': ba['expr']}))
    return c.eng.alloc(ListRec([streams.GenSeg(fseg.n, value, ('bodies',))]))


def whole(present):
    def body(c):
        toks, want = module(c, present)
        b = Bin(c, toks, tail=False)
        if c.symbolic:
            use_listing(c, 'Expr')
        out = c.run(core.ModuleDesc.from_reader, b.r)
        c.cover('decoded')
        c.ensure(f'decodes (got {out!r})', out.kind == 'normal')
        same(c, 'module', out.val, want())
    return body


ALL = list(IDS)
NEEDS = {'code': ('func',), 'func': ('code',)}
add(PROP, 'module with all sections', whole(ALL), K + 'ModuleDesc.from_reader', covers=('decoded',))
add(PROP, 'module without sections', whole([]), K + 'ModuleDesc.from_reader', covers=('decoded',))
for _s in ALL:
    if _s == 'code':
        continue
    _w = {_s, *NEEDS.get(_s, ())}
    add(PROP, f'module with {_s} section only', whole([s for s in ALL if s in _w]), K + 'ModuleDesc.from_reader', covers=('decoded',))
    add(PROP, f'module without {_s} section', whole([s for s in ALL if s not in _w]), K + 'ModuleDesc.from_reader', covers=('decoded',))


@reader('header', 'ModuleDesc.from_reader', covers=('rejected',))
def header(c):
    bs = [c.int(f'byte{k}', 0, 255) for k in range(8)]
    c.requires(zor(*[sym.cmp('!=', b, h) for b, h in zip(bs, HEADER)]))
    b = Bin(c, [Raw([byte_of(x) for x in bs])])
    out = c.run(core.ModuleDesc.from_reader, b.r)
    c.cover('rejected')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')


@reader('header cut off', 'ModuleDesc.from_reader', covers=('rejected',))
def shortheader(c):
    n = c.choice('length', list(range(8)))
    b = Bin(c, [Raw(HEADER[:n])], tail=False)
    out = c.run(core.ModuleDesc.from_reader, b.r)
    c.cover('rejected')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')


@reader('truncated section', 'ModuleDesc.from_reader', covers=('rejected',))
def truncated(c):
    sid = c.int('section', 0, 12)
    n = idx(c, 'size')
    m = c.int('left', 0, 1 << 16)
    c.requires(sym.cmp('<', m, n))
    q = c.bytes_in('rest', m)
    b = Bin(c, [Raw(HEADER), customs(c, 'custom'), Raw([byte_of(sid)]), u(n), Blob(q)], tail=False)
    out = c.run(core.ModuleDesc.from_reader, b.r)
    c.cover('rejected')
    c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
