"""Machine states, frame conditions and value predicates shared by the contracts."""
import io
import sys

import z3

from pydv import sym
from pydv.sym import CB, SInt, SBool, zand, zor, znot, zimp, bterm, is_int, Unsupported
from pydv.interp import (Ref, SBytes, SStr, Union, Opaque, ObjRec, ListRec, BytesRec, DictRec, EnvRec, SymSeg, GenSeg, RevSeg,
                         FoldSeg, ExcVal)
from pydv.harness import Contract, Out, Reject
from pydv.stop import Stop, StopStep

import pywasm
import pywasm.core as core
import pywasm.opcode as opcode

from .optable import ENC, uleb

I32, I64, F32, F64, V128, FUNCREF, EXTERNREF = 0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f
WIDTH = {I32: 32, I64: 64, F32: 32, F64: 64, V128: 128}
TNAME = {I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64', V128: 'v128', FUNCREF: 'funcref', EXTERNREF: 'externref'}
TYPE = {v: k for k, v in TNAME.items()}

ALL = []


def contract(prop, name, target, **kw):
    def deco(f):
        ALL.append(Contract(prop, name, f, target, **kw))
        return f
    return deco


def add(prop, name, body, target, **kw):
    ALL.append(Contract(prop, name, body, target, **kw))


# ---------------------------------------------------------------- internal opcode of an instruction

_OPC = {}
IMM = {'br': b'\x00', 'br_if': b'\x00', 'br_table': b'\x00\x00', 'call': b'\x00', 'call_indirect': b'\x00\x00', 'select_t': b'\x01\x7f',
       'block': b'\x40\x0b', 'loop': b'\x40\x0b', 'if': b'\x40\x0b', 'f32.const': bytes(4), 'f64.const': bytes(8),
       'v128.const': bytes(16)}


def opc(name):
    """the opcode value the decoder of the tree under verification gives the instruction"""
    if name not in _OPC:
        _OPC[name] = core.Inst.from_reader(io.BytesIO(ENC[name] + IMM.get(name, b'') + bytes(64))).opcode
    return _OPC[name]


# ---------------------------------------------------------------- values

def vtype(c, t):
    return c.new(core.ValType, t)


def val_bytes(c, t, items):
    """ValInst of type t with the given bytes, zero-extended to 16"""
    items = list(items)
    return c.new(core.ValInst, vtype(c, t), c.bytearray(sym.mkcb(items + [0] * (16 - len(items)))))


def val(c, t, bits):
    """ValInst of type t holding the bit vector `bits`"""
    return val_bytes(c, t, sym.term_bytes(z3.simplify(bits)))


def anyval(c):
    """unknown stack entry below the operands"""
    return lambda name: val(c, I64, c.bv(name, 64))


def ref_val(c, t, name, null=None):
    """reference value: (ValInst, is-null Bool, address BV32)"""
    null = c.bool(name + '.null') if null is None else null
    a = c.bv(name + '.addr', 32)
    nb = bterm(null)
    a0 = sym.zite(nb, z3.BitVecVal(0, 32), a) if not isinstance(nb, bool) else (z3.BitVecVal(0, 32) if nb else a)
    flag = sym.zite(nb, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)) if not isinstance(nb, bool) else z3.BitVecVal(0 if nb else 1, 8)
    return val_bytes(c, t, sym.term_bytes(a0) + sym.term_bytes(z3.simplify(flag))), nb, a


def attr(c, ref, *path):
    for p in path:
        ref = c.eng.rd(ref).attrs[p]
    return ref


def has_attrs(c, ref, *names):
    return isinstance(ref, Ref) and isinstance(c.eng.rd(ref), ObjRec) and all(n in c.eng.rd(ref).attrs for n in names)


def is_val(c, v, t, bits):
    """v is a ValInst of type t whose bytes are exactly `bits`, zero-extended"""
    if not has_attrs(c, v, 'type', 'data'):
        return False
    ty = attr(c, v, 'type')
    if not has_attrs(c, ty, 'data'):
        return False
    td = attr(c, ty, 'data')
    q = val_seq(c, v)
    if q is None:
        return False
    want = sym.term_bytes(z3.simplify(bits))
    want += [0] * (16 - len(want))
    # group by the natural width so that the solver sees one equality
    w = bits.size() // 8
    lowt = sym.bytes_le_term([x for x in q.items[:w]])
    acc = [sym.cmp('==', td, t) if is_int(td) else False, lowt == bits]
    for x in q.items[w:]:
        acc.append(x == 0 if isinstance(x, int) else x == z3.BitVecVal(0, 8))
    return zand(*acc)


def val_seq(c, v):
    """the 16 bytes of a value, or None"""
    q = c.eng.bytes_of(attr(c, v, 'data'))
    if q is None or sym.concretize(q.n) != 16:
        return None
    if not isinstance(q, CB):
        q = sym.mkcb([z3.simplify(q.at(z3.BitVecVal(k, 64))) for k in range(16)])
    return q


def bits_of(c, v, w):
    """low w bits of a value's bytes as a term"""
    q = val_seq(c, v)
    return sym.bytes_le_term(list(q.items[:w // 8]))


# ---------------------------------------------------------------- frame conditions

class Snap:
    def __init__(self, c):
        eng = c.eng
        eng.st.owned = set()
        self.heap = dict(eng.st.heap)
        self.memo = eng.st.memo
        self.ghost = eng.st.ghost
        self.eng = eng

    def rd(self, ref):
        return self.heap[ref.id]


def canon_segs(eng, heap, segs, exact=True):
    """merge adjacent parts of the same unknown list"""
    memo = {}
    for b, i, v, nm in eng.st.memo:
        if isinstance(v, Ref):
            memo.setdefault(v.id, (b, i))
    flat = []
    for s in segs:
        flat.extend([[x] for x in s] if isinstance(s, list) else [s])

    def asseg(x):
        return SymSeg(*memo[x.id], 1) if isinstance(x, Ref) and x.id in memo else None
    for k in range(len(flat) - 2, -1, -1):
        if isinstance(flat[k], list) and isinstance(flat[k + 1], SymSeg):
            e, n = asseg(flat[k][0]), flat[k + 1]
            if e is not None and e.base is n.base and same_int(eng, sym.add(e.off, 1), n.off):
                flat[k] = e
    out = []
    for s in flat:
        p = out[-1] if out else None
        if isinstance(s, list):
            e = asseg(s[0])
            if e is not None and isinstance(p, SymSeg) and p.base is e.base and same_int(eng, sym.add(p.off, p.n), e.off):
                out[-1] = SymSeg(p.base, p.off, sym.add(p.n, 1))
            elif isinstance(p, list):
                out[-1] = p + s
            else:
                out.append(list(s))
            continue
        n = sym.concretize(s.n)
        if isinstance(n, int) and n == 0:
            continue
        if not isinstance(n, int) and exact is False and eng.implied(sym.cmp('==', n, 0)):
            continue
        if isinstance(s, SymSeg) and isinstance(p, SymSeg) and p.base is s.base and \
                same_int(eng, sym.add(p.off, p.n), s.off):
            out[-1] = SymSeg(p.base, p.off, sym.add(p.n, s.n))
        else:
            out.append(s)
    return out


def same_int(eng, a, b):
    d = sym.const_diff(a, b)
    if d is not None:
        return d == 0
    return eng.implied(sym.cmp('==', a, b))


class Same:
    """deep equality of two heaps' object graphs -> condition.  `ident`: classes whose objects must be the same object"""

    def __init__(self, c, pre, holes=()):
        self.c, self.eng, self.pre = c, c.eng, pre
        self.holes = {(r.id if isinstance(r, Ref) else r, a) for r, a in holes} if isinstance(holes, (list, tuple, set)) else holes
        self.seen = set()
        self.acc = []
        self.why = None

    def bad(self, why):
        self.acc.append(False)
        self.why = self.why or why

    def go(self, a, b, path=''):
        """a in the pre-state, b in the post-state"""
        if isinstance(a, Ref) and isinstance(b, Ref):
            if (a.id, b.id) in self.seen:
                return
            self.seen.add((a.id, b.id))
            ra = self.pre.heap.get(a.id)
            rb = self.eng.st.heap.get(b.id)
            if ra is None or rb is None:
                if a.id == b.id:
                    return
                return self.bad(path)
            if ra is rb and isinstance(ra, BytesRec):
                return
            if type(ra) is not type(rb):
                return self.bad(path)
            if isinstance(ra, ObjRec):
                if ra.cls is not rb.cls:
                    return self.bad(path + '.__class__')
                if ra.cls.__name__ in ('MemInst', 'TableInst', 'GlobalInst', 'FuncInst', 'FuncHost', 'ElemInst', 'DataInst',
                                       'ModuleInst', 'Frame', 'Label') and a.id != b.id:
                    return self.bad(path + ' (another object)')
                for k in ra.attrs:
                    if (a.id, k) in self.holes:
                        continue
                    if k not in rb.attrs:
                        return self.bad(f'{path}.{k}')
                    self.go(ra.attrs[k], rb.attrs[k], f'{path}.{k}')
                return
            if isinstance(ra, ListRec):
                return self.segs(canon_segs(self.eng, None, ra.segs), canon_segs(self.eng, None, rb.segs), path)
            if isinstance(ra, BytesRec):
                return self.bytes(ra.seq, rb.seq, path)
            if isinstance(ra, DictRec):
                if list(ra.d) != list(rb.d):
                    return self.bad(path)
                for k in ra.d:
                    self.go(ra.d[k], rb.d[k], f'{path}[{k!r}]')
                return
            return self.bad(path)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.bad(path)
        if a is b:
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                self.go(x, y, f'{path}[{i}]')
            return
        if isinstance(a, (SStr, Opaque)) or isinstance(b, (SStr, Opaque)):
            if a == b:
                return
            return self.bad(path)
        try:
            r = bterm(self.eng.compare('==', a, b))
        except Unsupported:
            return self.bad(path)
        if r is False:
            return self.bad(path)
        self.acc.append(r)
        if r is not True:
            self.why = self.why or path

    def segs(self, xs, ys, path):
        if len(xs) != len(ys):
            return self.bad(path + ' (length)')
        for i, (s, t) in enumerate(zip(xs, ys)):
            if isinstance(s, list) and isinstance(t, list):
                if len(s) != len(t):
                    return self.bad(path + ' (length)')
                for j, (x, y) in enumerate(zip(s, t)):
                    self.go(x, y, f'{path}[{i}:{j}]')
            elif s is t:
                pass
            elif isinstance(s, SymSeg) and isinstance(t, SymSeg) and s.base is t.base and \
                    same_int(self.eng, s.off, t.off) and same_int(self.eng, s.n, t.n):
                pass
            else:
                return self.bad(path)

    def bytes(self, p, q, path):
        if p is q:
            return
        n = sym.const_diff(p.n, q.n)
        if n is None:
            if not self.eng.implied(sym.cmp('==', p.n, q.n)):
                return self.bad(path + ' (length)')
        elif n != 0:
            return self.bad(path + ' (length)')
        if isinstance(p, CB) and isinstance(q, CB):
            if isinstance(p.items, bytes) and isinstance(q.items, bytes):
                if p.items != q.items:
                    self.bad(path)
                return
            for x, y in zip(p.items, q.items):
                if x is y:
                    continue
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        return self.bad(path)
                    continue
                self.acc.append((sym.bv(x, 8) if isinstance(x, int) else x) == (sym.bv(y, 8) if isinstance(y, int) else y))
            return
        k = z3.BitVec(self.eng.fresh_name('fr'), 64)
        self.acc.append(zimp(z3.ULT(k, sym.idx64(p.n)), p.at(k) == q.at(k)))
        self.why = self.why or path

    def cond(self):
        return zand(*self.acc)


def unchanged(c, name, pre, roots, holes=()):
    """obligation: everything reachable from roots (but the holes) is as in `pre`"""
    s = Same(c, pre, holes)
    for r in roots:
        s.go(r, r)
    # elements of unknown lists handed out since keep their initial contents
    for b, i, v, nm in c.eng.st.memo:
        h = getattr(c.eng, 'memo_heap', {}).get(v.id) if isinstance(v, Ref) else None
        if h is not None and v.id not in pre.heap:
            t = Same(c, FakeSnap(h), holes)
            t.seen = s.seen
            t.go(v, v, nm)
            s.acc += t.acc
            s.why = s.why or t.why
    cond = s.cond()
    c.ensure(name + (f' [{s.why}]' if cond is False else ''), cond)


class FakeSnap:
    def __init__(self, heap):
        self.heap = heap


# ---------------------------------------------------------------- machine states

class World:
    pass


def stop(c, name):
    return c.new(Stop, name)


def machine(c, instrs, operands=(), stack=True, mem=None, tabl=(), glob=None, locals_=None, funcs=(), types=(), elems=(),
            datas=(), arity=0, outer=True, module_extra=None, prefix_min=0, label=None):
    """A running machine about to execute `instrs` in the function on top of the frame stack.
    value stack: an arbitrary number of unknown values, then the operands."""
    w = World()
    w.c = c
    w.operands = list(operands)
    m = w.m = c.new(core.Machine)
    w.store, w.stack = attr(c, m, 'store'), attr(c, m, 'stack')
    mod = w.mod = c.new(core.ModuleInst)
    mods = c.eng.wr(mod).attrs
    sto = c.eng.wr(w.store).attrs
    if mem is not None:
        # another memory of the store sits in front: the module's index space must be used
        w.decoy = mem_inst(c, 1, c.bytes_in('decoymem', 65536))
        sto['mems'] = c.list([w.decoy, mem])
        mods['mems'] = c.list([1])
        w.mem = mem
    # in every index space address 0 of the store belongs to another module: index i of this module is address i + 1
    w.decoys = []

    def space(key, mkey, items, decoy):
        sto[key] = c.list([decoy] + list(items))
        mods[mkey] = c.list(list(range(1, len(items) + 1)))
        w.decoys.append(decoy)
    if tabl:
        space('tabl', 'tabl', tabl, table_inst(c, FUNCREF, [val_bytes(c, FUNCREF, [])]))
    if funcs:
        space('func', 'func', funcs, c.new(core.FuncHost, functype(c, [], []), 'decoy'))
    if types:
        mods['type'] = c.list(list(types))
    if elems:
        space('elem', 'elem', elems, c.new(core.ElemInst, vtype(c, FUNCREF), c.list([val_bytes(c, FUNCREF, [])])))
    if datas:
        space('data', 'data', datas, c.new(core.DataInst, c.bytearray(sym.mkcb([1, 2, 3]))))
    if glob is not None:
        space('glob', 'glob', glob, c.new(core.GlobalInst, val(c, I64, c.bv('decoyglob', 64)), 1))
    if locals_ is None:
        locals_ = c.list([val(c, I64, c.bv('local0', 64))])
    w.locals = c.new(core.LocalsInst, locals_)
    if stack:
        w.nbase = c.int('nstack', prefix_min, 1 << 20)
        w.base = c.seq('stack', w.nbase, anyval(c))
        w.base = w.base if isinstance(w.base, list) else w.base
    else:
        w.nbase, w.base = 0, []
    w.value = c.seglist(w.base, list(operands))
    w.nval = sym.add(w.nbase, len(operands))
    omod = c.new(core.ModuleInst)
    f0 = c.new(core.Frame, omod, c.new(core.LocalsInst, c.list([])), 0, 0, 0)
    w.frame = c.new(core.Frame, mod, w.locals, arity, 1, 0)
    l0 = c.new(core.Label, 0, 1, 0, 1, c.list([stop(c, 'outer')]), 0)
    w.instr = c.list(list(instrs) + [stop(c, 'next')])
    w.label = c.new(core.Label, arity, 2, 0, 1, w.instr, 0)
    st = c.eng.wr(w.stack).attrs
    st['value'] = w.value
    st['label'] = c.list([l0, w.label])
    st['frame'] = c.list([f0, w.frame])
    w.pre = Snap(c)
    return w


def inst(c, name, args=()):
    return c.new(core.Inst, opc(name), c.list(list(args)))


def go(c, w):
    return c.run(core.Machine.evaluate, w.m)


def stack_segs(c, w):
    return canon_segs(c.eng, None, c.eng.rd(attr(c, w.stack, 'value')).segs)


def stack_is(c, w, results):
    """the value stack is the untouched prefix followed by `results` (predicates on values) -> (shape ok, values)"""
    segs = stack_segs(c, w)
    base = canon_segs(c.eng, None, [w.base])
    n = len(results)
    if c.symbolic:
        k = len(base)
        flat = segs
        if k and not (len(segs) >= k and all(seg_same(c, x, y) for x, y in zip(base, segs))):
            return None
        rest = segs[k:]
        if n == 0:
            return [] if not rest else None
        if len(rest) != 1 or not isinstance(rest[0], list) or len(rest[0]) != n:
            return None
        return rest[0]
    xs = [x for s in segs for x in s]
    bs = [x for s in base for x in s]
    if len(xs) != len(bs) + n or xs[:len(bs)] != bs:
        # values may be shared or copied: compare contents
        if len(xs) != len(bs) + n:
            return None
        s = Same(c, w.pre)
        for x, y in zip(bs, xs):
            s.go(x, y)
        if s.cond() is not True:
            return None
    return xs[len(bs):]


def seg_same(c, x, y):
    if isinstance(x, SymSeg) and isinstance(y, SymSeg):
        return x.base is y.base and same_int(c.eng, x.off, y.off) and same_int(c.eng, x.n, y.n)
    return isinstance(x, list) and x == y


def finish(c, w, out, results, holes=(), where='next'):
    """obligations after an instruction that completed: continues at the next instruction, the operands are replaced by
    `results` [(type, bits) | predicate], all else is unchanged"""
    c.ensure(f'completes without a trap and continues at {where}' + ('' if out.kind == 'stop' and out.stop == where else f' (got {out!r})'),
             out.kind == 'stop' and out.stop == where)
    got = stack_is(c, w, results)
    c.ensure('replaces exactly its operands on the value stack', got is not None)
    if got is None:
        return
    for i, (v, e) in enumerate(zip(got, results)):
        if callable(e):
            c.ensure(f'result {i}' if len(results) > 1 else 'result', e(v))
        else:
            c.ensure(f'result {i}' if len(results) > 1 else 'result', is_val(c, v, e[0], e[1]))
    # value objects are shared between the stack, locals, globals and tables: operands must not be modified in place
    unchanged(c, 'nothing else changes', w.pre, [w.m] + w.operands, [(w.stack, 'value'), (w.label, 'index'), *holes])


def traps(c, w, out, holes=()):
    c.ensure('traps' + ('' if out.kind == 'raise' else f' (got {out!r})'),
             out.kind == 'raise' and issubclass(out.exc.cls, Exception))
    unchanged(c, 'a trap changes no memory, table, global or segment', w.pre, [w.store, w.mod] + w.operands, holes)


def functype(c, args, rets):
    return c.new(core.FuncType, c.list([vtype(c, t) for t in args]), c.list([vtype(c, t) for t in rets]))


MODULE = ('type', 'func', 'tabl', 'mems', 'glob', 'elem', 'data', 'star', 'imps', 'exps')


def module_desc(c, **kw):
    """a module description; the lists not given are empty"""
    return c.new(core.ModuleDesc, *[kw.get(k, -1) if k == 'star' else kw[k] if k in kw else c.list([]) for k in MODULE])


def table_inst(c, t, items, limit=0, size=None):
    """TableInst of element type t holding `items` (list or segments), built without running its constructor on them"""
    r = c.new(core.TableInst, c.new(core.TableType, vtype(c, t), c.new(core.Limits, 0, limit)))
    a = c.eng.wr(r).attrs
    if isinstance(items, list):
        a['elem'], a['size'] = c.list(items), len(items)
    else:
        a['elem'], a['size'] = c.seglist(items), size
    return r


def mem_inst(c, pages, seq, limit=None, name='mem'):
    """MemInst of `pages` pages holding seq, built without running its constructor on the contents"""
    r = c.new(core.MemInst, c.new(core.MemType, c.new(core.Limits, 0, 0 if limit is None else limit)))
    a = c.eng.wr(r).attrs
    a['data'], a['size'] = c.bytearray(seq), pages
    return r


def memory(c, name='mem', maxpages=65536):
    """unknown memory -> (MemInst, its bytes, length)"""
    pages = c.int(name + '.pages', 0, maxpages)
    n = sym.mul(pages, 65536) if isinstance(pages, int) else sym.shl(pages, 16)
    q = c.bytes_in(name, n)
    return mem_inst(c, pages, q), q, n


# ---------------------------------------------------------------- lists of unknown length

def refseq(c, name, t, n):
    """unknown list of n references of type t"""
    return c.seq(name, n, lambda nm: ref_val(c, t, nm)[0])


def frozen(c, seg, n):
    """a ghost list holding `seg`: reading it gives the initial elements whatever the code does to its own list"""
    return c.seglist(seg) if not isinstance(seg, list) else c.list(seg)


def below(c, nm, n, most=999):
    """any index below n"""
    i = c.int(nm, 0, most)
    if not c.symbolic and n:
        return i % n
    c.requires(bterm(sym.cmp('<', i, n)))
    return i


def elem_at(c, ref, i):
    return c.eng.list_get(ref, i)


def same_val(c, a, b):
    """equal type and bytes"""
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return True
    if not has_attrs(c, a, 'type', 'data') or not has_attrs(c, b, 'type', 'data'):
        return False
    p, q = val_seq(c, a), val_seq(c, b)
    ta, tb = attr(c, a, 'type'), attr(c, b, 'type')
    if p is None or q is None or not has_attrs(c, ta, 'data') or not has_attrs(c, tb, 'data'):
        return False
    return zand(sym.cmp('==', attr(c, ta, 'data'), attr(c, tb, 'data')),
                sym.bytes_le_term(list(p.items)) == sym.bytes_le_term(list(q.items)))


def list_is(c, name, ref, n, want, near=()):
    """obligation: the list has n elements, and element k is want(k) for every k.  Last obligation of a path: it fixes a generic k"""
    if not isinstance(ref, Ref) or not isinstance(c.eng.rd(ref), ListRec):
        return c.fail(name + ' (not a list)')
    ln = c.eng.list_len(c.eng.rd(ref))
    c.ensure(name + ': length', bterm(sym.cmp('==', ln, n)))
    if c.symbolic:
        if not c.decide(sym.cmp('>', n, 0)):
            return
        k = c.int(c.eng.fresh_name('k'), 0, max(sym.hi(n) - 1, 0), small=False)
        c.requires(bterm(sym.cmp('<', k, n)))
        c.ensure(name, same_val(c, elem_at(c, ref, k), want(k)))
        return
    for k in range(sym.concretize(n)):
        before = len(c.failures)
        c.ensure(name, same_val(c, elem_at(c, ref, k), want(k)))
        if len(c.failures) > before:
            return


# ---------------------------------------------------------------- control flow: states of any depth

def decoded(c, data):
    """the instruction these bytes encode"""
    o = c.run(core.Inst.from_reader, c.eng.instantiate(io.BytesIO, [SBytes(sym.mkcb(list(data)))], {}))
    c.ensure('the instruction decodes', o.kind == 'normal')
    return o.val


STRUCT = {'block': 0x02, 'loop': 0x03, 'if': 0x04}


def structured(c, kind, bt, *bodies):
    """block/loop/if with block type bytes bt, as the decoder builds it, with its bodies replaced"""
    i = decoded(c, [STRUCT[kind], *bt] + ([0x05] if kind == 'if' else []) + [0x0b])
    args = c.eng.wr(attr(c, i, 'args'))
    args.segs = [[elem_at(c, attr(c, i, 'args'), 0)] + [c.list(list(b)) for b in bodies]]
    return i


def branch(c, name, depth):
    return inst(c, name, [depth])


def anylabel(c):
    """an enclosing label the code has no business with"""
    def f(nm):
        h = c.int(nm + '.height', 0, 1 << 20)
        return c.new(core.Label, c.int(nm + '.arity', 0, 1 << 10), 2, h, 1, c.list([stop(c, 'wrong label')]), 0)
    return f


def anyframe(c):
    def f(nm):
        mod = c.new(core.ModuleInst)
        return c.new(core.Frame, mod, c.new(core.LocalsInst, c.list([])), c.int(nm + '.arity', 0, 1 << 10), 0,
                     c.int(nm + '.height', 0, 1 << 20))
    return f


def deep(c, instrs, operands=(), maxframes=400, minframes=0, **kw):
    """a machine at any label and frame depth; operands: segments or lists of values on top of an unknown stack"""
    w = machine(c, instrs, **kw)
    w.nf = c.int('frames below', minframes, maxframes)
    w.nl = c.int('labels below', 0, 1 << 16)
    fseg, lseg = c.seq('fr', w.nf, anyframe(c)), c.seq('lb', w.nl, anylabel(c))
    st = c.eng.wr(w.stack).attrs
    f0, l0 = elem_at(c, st['frame'], 0), elem_at(c, st['label'], 0)
    w.frames = [[f0], fseg, [w.frame]]
    w.labels = [[l0], lseg, [w.label]]
    st['frame'] = c.seglist(*w.frames)
    st['label'] = c.seglist(*w.labels)
    fh, lh = c.int('frame height', 0, 1 << 20), c.int('label height', 0, 1 << 20)
    if not c.symbolic:
        lh = min(lh, w.nbase)
        fh = min(fh, lh)
    c.requires(zand(bterm(sym.cmp('<=', fh, lh)), bterm(sym.cmp('<=', lh, w.nbase))))
    fa, la = c.eng.wr(w.frame).attrs, c.eng.wr(w.label).attrs
    fa['label'], fa['value'] = sym.add(w.nl, 1), fh
    la['frame'], la['value'] = sym.add(w.nf, 2), lh
    st['value'] = c.seglist(w.base, *operands)
    w.operands = []
    w.pre = Snap(c)
    return w


def set_stack(c, w, *segs):
    """what the code in between leaves on the value stack"""
    c.eng.wr(w.stack).attrs['value'] = c.seglist(w.base, *segs)


def push_labels(c, w, n, at=-1):
    """n unknown labels below the innermost one (blocks entered in between)"""
    lst = attr(c, w.stack, 'label')
    segs = c.eng.rd(lst).segs
    top = c.eng.list_get(lst, -1)
    segs = c.eng.rd(lst).segs
    head = [list(s) if isinstance(s, list) else s for s in segs]
    head[-1] = head[-1][:-1]
    c.eng.wr(w.stack).attrs['label'] = c.seglist(*head, c.seq('between', n, anylabel(c)), [top])


def listed(c, ref, segs):
    """the list is exactly these segments (unknown lists by identity, values by object or content)"""
    if not isinstance(ref, Ref) or not isinstance(c.eng.rd(ref), ListRec):
        return False
    got = canon_segs(c.eng, None, c.eng.rd(ref).segs, exact=False)
    want = canon_segs(c.eng, None, c.eng.rd(c.seglist(*segs)).segs, exact=False)
    if c.symbolic:
        if len(got) != len(want):
            return False
        for x, y in zip(got, want):
            if not seg_same(c, x, y):
                if isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and \
                        all(p == q or same_val(c, p, q) is True for p, q in zip(x, y)):
                    continue
                return False
        return True
    xs, ys = [x for s in got for x in s], [x for s in want for x in s]
    return len(xs) == len(ys) and all(x == y or same_val(c, x, y) is True or z3.is_true(z3.simplify(z3.BoolVal(True) if
                                      same_val(c, x, y) is True else zand(same_val(c, x, y)) if not isinstance(same_val(c, x, y), bool)
                                      else z3.BoolVal(same_val(c, x, y)))) for x, y in zip(xs, ys))


def arrives(c, w, out, where, segs, name, holes=()):
    """control is at `where`, the value stack is the unknown prefix followed by segs, nothing else changed"""
    c.ensure(f'{name}: continues at {where}' + ('' if out.kind == 'stop' and out.stop == where else f' (got {out!r})'),
             out.kind == 'stop' and out.stop == where)
    c.ensure(f'{name}: operands', listed(c, attr(c, w.stack, 'value'), [w.base, *segs]))
    unchanged(c, f'{name}: nothing else changes', w.pre, [w.m], [(w.stack, 'value'), (w.label, 'index'), *holes])
