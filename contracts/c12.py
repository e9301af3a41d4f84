"""C12: decoding of instructions."""
import z3

from pydv import sym
from pydv.sym import zand, zor, znot

from .binary import *
from .optable import ONE, FC, FD

PROP = 'C12'
RD = 'pywasm.core.Inst.from_reader'
ASSUMPTIONS = ['LEB128 numbers are decoded by the contract proved in C11, at any admissible (also padded) encoding',
               'the instructions nested in a block are decoded by this same contract (induction on the length of the encoding)',
               'at most 2^32 instructions in one block']

NAT = {'i32.load': 2, 'i64.load': 3, 'f32.load': 2, 'f64.load': 3, 'i32.load8_s': 0, 'i32.load8_u': 0, 'i32.load16_s': 1, 'i32.load16_u': 1,
       'i64.load8_s': 0, 'i64.load8_u': 0, 'i64.load16_s': 1, 'i64.load16_u': 1, 'i64.load32_s': 2, 'i64.load32_u': 2, 'i32.store': 2,
       'i64.store': 3, 'f32.store': 2, 'f64.store': 3, 'i32.store8': 0, 'i32.store16': 1, 'i64.store8': 0, 'i64.store16': 1, 'i64.store32': 2,
       'v128.load': 4, 'v128.load8x8_s': 3, 'v128.load8x8_u': 3, 'v128.load16x4_s': 3, 'v128.load16x4_u': 3, 'v128.load32x2_s': 3,
       'v128.load32x2_u': 3, 'v128.load8_splat': 0, 'v128.load16_splat': 1, 'v128.load32_splat': 2, 'v128.load64_splat': 3, 'v128.store': 4,
       'v128.load32_zero': 2, 'v128.load64_zero': 3}
MEMLANE = {}
for _op in ('load', 'store'):
    for _k, _w in enumerate((8, 16, 32, 64)):
        MEMLANE[f'v128.{_op}{_w}_lane'] = (_k, 128 // _w)
LANE = {}
for _n in FD.values():
    if 'extract_lane' in _n or 'replace_lane' in _n:
        LANE[_n] = int(_n.split('.')[0].split('x')[1])
INDEX = {'br': 1, 'br_if': 1, 'call': 1, 'call_indirect': 2, 'local.get': 1, 'local.set': 1, 'local.tee': 1, 'global.get': 1, 'global.set': 1,
         'table.get': 1, 'table.set': 1, 'ref.func': 1, 'data.drop': 1, 'table.init': 2, 'elem.drop': 1, 'table.copy': 2, 'table.grow': 1,
         'table.size': 1, 'table.fill': 1}
ZERO = {'memory.size': 1, 'memory.grow': 1, 'memory.copy': 2, 'memory.fill': 1}
NAMES = list(ENC)


def opcode_toks(name):
    e = ENC[name]
    if len(e) == 1:
        return [Raw(e)]
    n = {**{v: k for k, v in FC.items()}, **{v: k for k, v in FD.items()}}[name]
    return [Raw(e[:1]), u(n)]


class Imm:
    """immediates: tokens and the expected arguments"""

    def __init__(self, toks, args):
        self.toks, self.args = toks, args


def immediates(c, name):
    """None for instructions with nested bodies"""
    if name in NAT:
        a, o = idx(c, 'align', NAT[name]), idx(c, 'offset')
        return Imm([u(a), u(o)], [a, o])
    if name in MEMLANE:
        k, n = MEMLANE[name]
        a, o, l = idx(c, 'align', k), idx(c, 'offset'), idx(c, 'lane', n - 1)
        return Imm([u(a), u(o), Raw([byte_of(l)])], [a, o, l])
    if name in LANE:
        l = idx(c, 'lane', LANE[name] - 1)
        return Imm([Raw([byte_of(l)])], [l])
    if name in INDEX:
        xs = [idx(c, f'index{k}') for k in range(INDEX[name])]
        return Imm([u(x) for x in xs], xs)
    if name in ZERO:
        return Imm([Raw([0] * ZERO[name])], [0] if name in ('memory.size', 'memory.grow') else [])
    if name == 'memory.init':
        x = idx(c, 'index')
        return Imm([u(x), Raw([0])], [x])
    if name == 'i32.const':
        v = c.sint('value', 32)
        return Imm([Num(v, True, 5)], [v])
    if name == 'i64.const':
        v = c.sint('value', 64)
        return Imm([Num(v, True, 10)], [v])
    if name in ('f32.const', 'f64.const'):
        v = c.bv('value', 32 if name == 'f32.const' else 64)
        return Imm([Raw(sym.term_bytes(v))], [sym.sbv(v)])
    if name == 'v128.const':
        v = c.bv('value', 128)
        return Imm([Raw(sym.term_bytes(v))], [c.bytearray(sym.mkcb(sym.term_bytes(v)))])
    if name == 'i8x16.shuffle':
        ls = [idx(c, f'lane{k}', 31) for k in range(16)]
        return Imm([Raw([byte_of(l)]) for l in ls], ls)
    if name == 'ref.null':
        t = c.choice('type', [FUNCREF, EXTERNREF])
        return Imm([Raw([t])], [t])
    if name == 'br_table':
        n = c.int('labels', 0, 1 << 20)
        seg = c.seq('label', n, lambda nm: c.int(nm, 0, U32, small=False))
        d = idx(c, 'default')
        return Imm([u(n), Rep(seg, lambda v: [u(v)]), u(d)], [c.seglist(seg), d])
    if name == 'select_t':
        n = c.int('types', 0, 1 << 20)
        seg = c.seq('type', n, lambda nm: c.choice(nm, [0x7f]) if not c.symbolic else c.int(nm, 0, 0x7f, small=False))
        return Imm([u(n), Rep(seg, lambda v: [u(v)])], [c.seglist(seg)])
    if name in ('block', 'loop', 'if'):
        return None
    return Imm([], [])


def decoded_as(c, name, out, args):
    c.ensure(f'decodes (got {out!r})', out.kind == 'normal')
    c.ensure('an instruction', isinstance(out.val, Ref) and isinstance(c.eng.rd(out.val), ObjRec))
    c.ensure('the opcode of the instruction', bterm(c.eng.compare('==', attr(c, out.val, 'opcode'), opc(name))))
    same(c, 'immediates', attr(c, out.val, 'args'), c.list(args))


def disasm(c, o):
    pre = Snap(c)
    out = c.run(core.Inst.into_disasm, o, 4)
    c.ensure(f'can be listed (got {out!r})', out.kind == 'normal')
    unchanged(c, 'listing changes nothing', pre, [o])


def use_listing(c, *classes):
    """listing by its contract (changes nothing)"""
    for k in classes:
        c.eng.contracts = {**c.eng.contracts, f'pywasm.core.{k}.into_disasm': lambda eng, o, indent: None}


def make(name):
    def body(c):
        im = immediates(c, name)
        b = Bin(c, opcode_toks(name) + im.toks)
        out = c.run(core.Inst.from_reader, b.r)
        c.cover('decoded')
        decoded_as(c, name, out, im.args)
        b.consumed()
        disasm(c, out.val)
    add(PROP, name, body, RD, covers=('decoded',))


for _n in NAMES:
    if _n not in ('block', 'loop', 'if'):
        make(_n)


# ---------------------------------------------------------------- block types and nested bodies

def bype(c):
    """-> (tokens, expected kind, expected data)"""
    k = c.choice('block type', ['empty', 'value', 'index'])
    if k == 'empty':
        return [Raw([0x40])], 0, 0x40
    if k == 'value':
        t = c.choice('type', TYPES)
        return [Raw([t])], 1, t
    i = c.int('index', 0, (1 << 32) - 1, small=False)
    return [Num(i, True, 5)], 2, i


@contract(PROP, 'block types', 'pywasm.core.Bype.from_reader', covers=('decoded',))
def blocktype(c):
    toks, kind, data = bype(c)
    b = Bin(c, toks)
    out = c.run(core.Bype.from_reader, b.r)
    c.cover('decoded')
    c.ensure(f'decodes (got {out!r})', out.kind == 'normal')
    same(c, 'block type', out.val, c.new(core.Bype, kind, data))
    b.consumed()


def nested(name, parts):
    def body(c):
        toks, kind, data = bype(c)
        bt = c.new(core.Bype, kind, data)
        item = Item(K + 'Bype.from_reader', bt, lambda: toks)
        bodies = [insts(c, f'body{k}') for k in range(parts)]
        ts = [Raw(ENC[name]), item, Rep(bodies[0], lambda v: inst_tok(c, v))]
        if parts == 2:
            ts += [Raw([0x05]), Rep(bodies[1], lambda v: inst_tok(c, v))]
        b = Bin(c, ts + [END])
        out = c.run(core.Inst.from_reader, b.r)
        c.cover('decoded')
        args = [bt] + [c.seglist(x) for x in bodies]
        if name == 'if' and parts == 1:
            args.append(c.list([]))
        decoded_as(c, name, out, args)
        b.consumed()
        if c.symbolic:
            use_listing(c, 'Inst')
        disasm(c, out.val)
    add(PROP, name + (' with else' if parts == 2 else ''), body, RD, covers=('decoded',))


nested('block', 1)
nested('loop', 1)
nested('if', 1)
nested('if', 2)


@contract(PROP, 'expression', 'pywasm.core.Expr.from_reader', covers=('decoded',))
def expression(c):
    seg = insts(c, 'body')
    b = Bin(c, [Rep(seg, lambda v: inst_tok(c, v)), END])
    out = c.run(core.Expr.from_reader, b.r)
    c.cover('decoded')
    c.ensure(f'decodes (got {out!r})', out.kind == 'normal')
    same(c, 'expression', out.val, c.new(core.Expr, c.seglist(seg)))
    b.consumed()


# ---------------------------------------------------------------- malformed instructions

def rejected(name, what, build):
    def body(c):
        b = Bin(c, build(c))
        out = c.run(core.Inst.from_reader, b.r)
        c.cover('rejected')
        c.ensure(f'rejected (got {out!r})', out.kind == 'raise')
    add(PROP, f'{name}: {what} rejected', body, RD, covers=('rejected',))


for _n, _m in NAT.items():
    rejected(_n, 'over-large alignment', lambda c, n=_n, m=_m: opcode_toks(n) + [u(c.int('align', m + 1, U32, small=False)), u(idx(c, 'offset'))])
for _n, (_k, _l) in MEMLANE.items():
    rejected(_n, 'over-large alignment', lambda c, n=_n, k=_k, l=_l: opcode_toks(n) + [
        u(c.int('align', k + 1, U32, small=False)), u(idx(c, 'offset')), Raw([byte_of(idx(c, 'lane', l - 1))])])
    rejected(_n, 'over-large lane', lambda c, n=_n, k=_k, l=_l: opcode_toks(n) + [
        u(idx(c, 'align', k)), u(idx(c, 'offset')), Raw([byte_of(c.int('lane', l, 127, small=False))])])
for _n, _l in LANE.items():
    rejected(_n, 'over-large lane', lambda c, n=_n, l=_l: opcode_toks(n) + [Raw([byte_of(c.int('lane', l, 127, small=False))])])


def bad_shuffle(c):
    k = c.choice('which', list(range(16)))
    return opcode_toks('i8x16.shuffle') + [Raw([byte_of(c.int('bad', 32, 127, small=False) if j == k else idx(c, f'l{j}', 31))]) for j in range(16)]


rejected('i8x16.shuffle', 'over-large lane', bad_shuffle)
for _n, _z in ZERO.items():
    rejected(_n, 'nonzero reserved byte', lambda c, n=_n, z=_z: opcode_toks(n) + [
        Raw([byte_of(c.int('reserved', 1, 255, small=False)) if j == k else 0 for j in range(z)])
        for k in [c.choice('which', list(range(z)))]])
rejected('memory.init', 'nonzero reserved byte', lambda c: opcode_toks('memory.init') + [
    u(idx(c, 'index')), Raw([byte_of(c.int('reserved', 1, 255, small=False))])])


def unknown_one(c):
    b = c.int('opcode', 0, 0xfb, small=False)
    if c.symbolic:
        c.requires(zand(*[znot(sym.cmp('==', b, k)) for k in ONE]))
    elif b in ONE:
        raise Reject()
    return [Raw([byte_of(b)])]


def unknown_prefix(table, p):
    def f(c):
        n = c.int('opcode', 0, 4095, small=False)
        if c.symbolic:
            c.requires(zand(*[znot(sym.cmp('==', n, k)) for k in table]))
        elif n in table:
            raise Reject()
        return [Raw([p]), u(n)]
    return f


rejected('unknown opcode', 'one byte', unknown_one)
for _p, _t in ((0xfc, FC), (0xfd, FD), (0xfe, {}), (0xff, {})):
    rejected('unknown opcode', f'prefix {_p:#x}', unknown_prefix(_t, _p))


@contract(PROP, 'every instruction has its own opcode', RD, covers=('distinct',))
def distinct(c):
    c.cover('distinct')
    seen = {}
    for n in NAMES:
        k = opc(n)
        c.ensure(f'{n} is not confused with {seen.get(k)}', k not in seen)
        seen[k] = n
