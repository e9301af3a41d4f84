"""Readers over an abstract byte stream: a sequence of tokens instead of bytes.

A token stands for the encoding of something: raw bytes, a LEB128 number (any admissible padding), a run of bytes of unknown length, a
block of tokens of known total length, one item (`key` names the function that decodes it, by its own contract), or `count` repetitions
of items.  The decoders of LEB128 numbers and of items are used by their contracts at such tokens; every other read opens the token into
the bytes it stands for."""
import io
import os

import z3

from . import sym
from .sym import SInt, SBool, SFloat, CB, Unsupported, is_int, zand, zor, znot
from .interp import (Ref, SBytes, SStr, Union, Opaque, ObjRec, ListRec, BytesRec, DictRec, EnvRec, BaseSeq, SymSeg, GenSeg, Brk, Cont,
                     Ret, PyRaise, Budget)


class Raw:
    """concrete number of bytes: list of ints or 8-bit terms"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Num:
    """LEB128 number of at most `maxlen` bytes"""
    __slots__ = ('value', 'signed', 'maxlen')

    def __init__(self, value, signed=False, maxlen=5):
        self.value, self.signed, self.maxlen = value, signed, maxlen


class Blob:
    """bytes of unknown number"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq


class Block:
    """tokens that take n bytes in total"""
    __slots__ = ('n', 'toks')

    def __init__(self, n, toks):
        self.n, self.toks = n, tuple(toks)


class Item:
    """encoding of `value`, decoded by the function `key`; expand() -> tokens"""
    __slots__ = ('key', 'value', 'expand')

    def __init__(self, key, value, expand):
        self.key, self.value, self.expand = key, value, expand


class Rep:
    """one item for each element of a list segment; tok(value) -> tokens"""
    __slots__ = ('seg', 'tok')

    def __init__(self, seg, tok):
        self.seg, self.tok = seg, tok


class Mark:
    """end of a generic item"""
    __slots__ = ()


class TokBytes:
    """the bytes of a block"""
    __slots__ = ('n', 'toks')

    def __init__(self, n, toks):
        self.n, self.toks = n, tuple(toks)


class Toks:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = tuple(t)


class Poison:
    """value of a variable after a loop whose last step is not modelled"""


POISON = Poison()
NOTHING = object()


# ---------------------------------------------------------------- encoding (concrete runs)

def leb(v, signed):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        if (not signed and v == 0) or (signed and (v == 0 and not b & 0x40 or v == -1 and b & 0x40)):
            out.append(b)
            return out
        out.append(b | 0x80)


PAD = None  # concrete runs: () -> how numbers are padded


def padded(b, v, t):
    """the encoding with admissible redundant groups; which ones, the value and the run's padding decide"""
    b = bytearray(b)
    how = PAD() if PAD else 0
    room = t.maxlen - len(b)
    if how and room > 0:
        k = (v * 7 + how * 5 + v // 3) % (room + 2)
        fill = 0x7f if t.signed and v < 0 else 0
        for _ in range(min(k, room)):
            b[-1] |= 0x80
            b.append(fill)
    return bytes(b)


def encode(toks, con):
    """tokens -> bytes; con turns a term into a Python value"""
    out = bytearray()
    for t in toks:
        if isinstance(t, Raw):
            out += bytes(con(x) for x in t.items)
        elif isinstance(t, Num):
            out += padded(leb(con(t.value), t.signed), con(t.value), t)
        elif isinstance(t, Blob):
            out += bytes(con(t.seq.at(z3.BitVecVal(i, 64))) for i in range(con(t.seq.n)))
        elif isinstance(t, Block):
            b = encode(t.toks, con)
            out += b
        elif isinstance(t, Item):
            out += encode(t.expand(), con)
        elif isinstance(t, Rep):
            for v in t.seg:
                out += encode(t.tok(v), con)
        else:
            raise Unsupported('token')
    return bytes(out)


# ---------------------------------------------------------------- streams

def stream(eng, toks):
    eng.has_streams = True
    return eng.alloc(ObjRec(io.BytesIO, {'toks': Toks(toks), 'eaten': Toks(())}))


def is_stream(eng, v):
    return isinstance(v, Ref) and isinstance(eng.rd(v), ObjRec) and 'toks' in eng.rd(v).attrs


def toks_of(eng, o):
    return eng.rd(o).attrs['toks'].t


def put(eng, o, toks, eaten=()):
    r = eng.wr(o)
    r.attrs['toks'] = Toks(toks)
    r.attrs['eaten'] = Toks(eaten)


def open_head(eng, o):
    """replace the head token by what it stands for"""
    t, rest = toks_of(eng, o)[0], toks_of(eng, o)[1:]
    eaten = eng.rd(o).attrs['eaten'].t
    if isinstance(t, Num):
        put(eng, o, (Raw(open_num(eng, t)),) + rest, eaten)
    elif isinstance(t, Item):
        put(eng, o, tuple(t.expand()) + rest, eaten)
    elif isinstance(t, Block):
        put(eng, o, t.toks + rest, eaten)
    elif isinstance(t, Rep):
        n = t.seg.n
        if eng.decide(sym.cmp('==', n, 0)):
            put(eng, o, rest, eaten)
        else:
            v = eng.materialise(t.seg, 0)
            more = SymSeg(t.seg.base, sym.add(t.seg.off, 1), sym.sub(n, 1))
            put(eng, o, tuple(t.tok(v)) + (Rep(more, t.tok),) + rest, eaten)
    else:
        raise Unsupported('read past the end of a generic item')


def open_num(eng, t):
    """the bytes of a LEB128 number: any admissible encoding"""
    W = 80
    for k in range(1, t.maxlen + 1):
        last = k == t.maxlen
        if not last:
            flag = z3.Bool(eng.fresh_name(f'leb{k}'))
            if not eng.decide(flag):
                continue
        bs = [z3.BitVec(eng.fresh_name('lebbyte'), 8) for _ in range(k)]
        v = z3.BitVecVal(0, W)
        for i, b in enumerate(bs):
            v = v | z3.ZeroExt(W - 7, z3.Extract(6, 0, b)) << (7 * i)
        if t.signed:
            v = z3.SignExt(W - 7 * k, z3.Extract(7 * k - 1, 0, v))
        eng.assume(v == sym.low(t.value, W))
        for i, b in enumerate(bs):
            eng.assume(z3.Extract(7, 7, b) == z3.BitVecVal(1 if i < k - 1 else 0, 1))
        return bs


def byte_seq(items):
    return sym.mkcb(list(items))


def read(eng, o, n):
    """r.read(n)"""
    if n is None:
        n = -1
    if isinstance(n, Union):
        n = eng.split_union(n)
    n = sym.concretize(eng.as_int(n))
    toks = toks_of(eng, o)
    if isinstance(n, int) and n >= 0:
        got = []
        while len(got) < n:
            toks = toks_of(eng, o)
            if not toks:
                break
            t = toks[0]
            eaten = eng.rd(o).attrs['eaten'].t
            if isinstance(t, Raw):
                m = min(n - len(got), len(t.items))
                got += t.items[:m]
                put(eng, o, ((Raw(t.items[m:]),) if m < len(t.items) else ()) + toks[1:], (eaten + t.items[:m])[-8:])
            elif isinstance(t, Blob):
                if eng.decide(sym.cmp('==', t.seq.n, 0)):
                    put(eng, o, toks[1:], eaten)
                    continue
                b = t.seq.at(z3.BitVecVal(0, 64))
                put(eng, o, (Raw((b,)), Blob(sym.bs_slice(t.seq, 1, t.seq.n))) + toks[1:], eaten)
            else:
                open_head(eng, o)
        return eng.mk_bytes(byte_seq(got)) if got else b''
    if isinstance(n, int):      # everything that is left
        put(eng, o, ())
        if all(isinstance(t, Raw) for t in toks):
            return eng.mk_bytes(byte_seq([b for t in toks for b in t.items]))
        if len(toks) == 1 and isinstance(toks[0], Blob):
            return eng.mk_bytes(toks[0].seq)
        raise Unsupported('read of everything that is left')
    while toks and isinstance(toks[0], Item):
        open_head(eng, o)
        toks = toks_of(eng, o)
    if toks and isinstance(toks[0], Blob) and eng.implied(sym.cmp('==', n, toks[0].seq.n)):
        put(eng, o, toks[1:])
        return eng.mk_bytes(toks[0].seq)
    if toks and isinstance(toks[0], Block) and eng.implied(sym.cmp('==', n, toks[0].n)):
        t = toks[0]
        put(eng, o, toks[1:])
        return TokBytes(t.n, t.toks)
    if eng.decide(sym.cmp('==', n, 0)):
        return b''
    if not toks:
        return b''
    t = toks[0]
    if isinstance(t, Blob):
        if len(toks) == 1 and not eng.decide(sym.cmp('<=', n, t.seq.n)):
            put(eng, o, ())
            return eng.mk_bytes(t.seq)
        if eng.implied(sym.cmp('==', n, t.seq.n)):
            put(eng, o, toks[1:])
            return eng.mk_bytes(t.seq)
        if eng.implied(sym.cmp('<=', n, t.seq.n)):
            put(eng, o, (Blob(sym.bs_slice(t.seq, n, t.seq.n)),) + toks[1:])
            return eng.mk_bytes(sym.bs_slice(t.seq, 0, n))
    raise Unsupported('read of an unknown number of bytes')


def seek(eng, o, off, whence):
    if whence == 1 and isinstance(off, int) and off < 0:
        eaten = eng.rd(o).attrs['eaten'].t
        if len(eaten) >= -off:
            put(eng, o, (Raw(eaten[off:]),) + toks_of(eng, o), eaten[:off])
            return 0
    raise Unsupported('seek')


def call_at(eng, key, args):
    """use of a decoder's contract at the token it decodes"""
    for a in args:
        if is_stream(eng, a):
            toks = toks_of(eng, a)
            if not toks:
                return NOTHING
            t = toks[0]
            if isinstance(t, Num) and key == ('pywasm.leb128._I.decode_reader' if t.signed else 'pywasm.leb128._U.decode_reader'):
                put(eng, a, toks[1:])
                eng.used_contracts.add(key)
                lv = z3.BitVec(eng.fresh_name('leblen'), 8)
                eng.assume(z3.And(z3.UGE(lv, 1), z3.ULE(lv, t.maxlen)))
                return (t.value, SInt(1, t.maxlen, lambda k: sym.resize_u(lv, k)))
            if isinstance(t, Item) and t.key == key:
                put(eng, a, toks[1:])
                eng.used_contracts.add(key)
                return t.value
            return NOTHING
    return NOTHING


# ---------------------------------------------------------------- loops that decode one item per step

def heads(eng):
    for i, r in eng.st.heap.items():
        if isinstance(r, ObjRec) and 'toks' in r.attrs and r.attrs['toks'].t and isinstance(r.attrs['toks'].t[0], Rep):
            yield Ref(i)


def same_list(a, b):
    return len(a) == len(b) and all(x is y or isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and
                                    all(p is q for p, q in zip(x, y)) for x, y in zip(a, b))


def rep_loop(eng, body, count=None, index=None, commit=True):
    """one loop step decodes one item of the repetition at the head of some stream.
    body(j) runs one step; count: the number of steps of the loop, if bounded.  -> True when the whole repetition was handled"""
    for o in list(heads(eng)):
        rep = toks_of(eng, o)[0]
        if count is not None and not eng.implied(sym.cmp('==', count, rep.seg.n)):
            continue
        if count is None and eng.implied(sym.cmp('==', rep.seg.n, 0)):
            put(eng, o, toks_of(eng, o)[1:])
            return True
        if attempt(eng, o, rep, body):
            return True
        if count is None and eng.decide(sym.cmp('==', rep.seg.n, 0)):
            put(eng, o, toks_of(eng, o)[1:])
            return True
    return False


class Change:
    pass


def one_step(eng, o, rep, body, j, assum, prep):
    st0 = eng.st
    ids0 = dict(st0.heap)
    rest = toks_of(eng, o)[1:]
    mark = Mark()
    cur = []

    def run():
        v = eng.materialise(rep.seg, j)
        cur[:] = [v]
        put(eng, o, tuple(rep.tok(v)) + (mark,) + rest)
        prep()
        try:
            body(j)
        except Cont:
            pass
    saved = eng.st, eng.pc, eng.dec, eng.depth
    try:
        outs = eng.explore(run, assum)
    except Budget:
        raise
    except Unsupported as e:
        eng.st, eng.pc, eng.dec, eng.depth = saved
        eng.st.owned = set()
        eng.why = str(e)
        if os.environ.get('PYDV_WHY'):
            print('step:', e)
        return None
    if len(outs) != 1 or outs[0].kind != 'normal' or outs[0].st.ghost != st0.ghost:
        return None
    x = outs[0]
    t = x.st.heap[o.id].attrs['toks'].t
    if not (len(t) == 1 + len(rest) and t[0] is mark and all(p is q for p, q in zip(t[1:], rest))):
        return None
    c = Change()
    c.out, c.value, c.names, c.lists, c.elems = x, cur[0], {}, {}, {}
    memo = [(b, i, v) for b, i, v, nm in x.st.memo]
    for i in ids0:
        r0, r1 = ids0[i], x.st.heap[i]
        if r0 is r1 or i == o.id:
            continue
        if isinstance(r0, EnvRec):
            c.names[i] = {k for k in r1.v if r1.v[k] is not r0.v.get(k, NOTHING)}
        elif isinstance(r0, ListRec):
            c.lists[i] = r1
        else:
            return None
    # elements of unknown lists created in this step and changed
    for b, i, v in memo:
        if isinstance(v, Ref) and v.id not in ids0 and isinstance(x.st.heap[v.id], ObjRec):
            first = eng.memo_heap.get(v.id, {}).get(v.id)
            if first is not None and first is not x.st.heap[v.id]:
                a, bb = first.attrs, x.st.heap[v.id].attrs
                if set(a) != set(bb) or any(a[k] is not bb[k] for k in a):
                    c.elems[v.id] = (b, i, v)
    return c


def attempt(eng, o, rep, body):
    jv = z3.BitVec(eng.fresh_name('step'), 64)
    n = rep.seg.n
    j = SInt(0, max(sym.hi(n) - 1, 0), lambda k: sym.resize_u(jv, k))
    assum = [c for c in (sym.cmp('<', j, n), z3.ULE(jv, sym.bv(max(sym.hi(n) - 1, 0), 64))) if c is not True]
    c1 = one_step(eng, o, rep, body, j, assum, lambda: None)
    if c1 is None:
        return False
    old, sofar = {}, {}
    memo1 = c1.out.st.memo
    grown = []
    for i, r in c1.lists.items():
        segs0 = eng.st.heap[i].segs
        if len(r.segs) > len(segs0) or (segs0 and isinstance(segs0[-1], list) and len(r.segs) == len(segs0)) or not segs0:
            if element_only(segs0, r.segs, c1):
                continue
            grown.append(i)

    def untouched(e, nm):
        raise Unsupported('the loop body reads what it appends to')
    for i in grown:
        old[i] = eng.st.heap[i].segs
        sofar[i] = SymSeg(BaseSeq(eng.fresh_name('sofar'), untouched), 0, SInt(0, 1 << 32, fresh64(eng)))

    def prep():
        for i in grown:
            eng.wr(Ref(i)).segs = [list(x) if isinstance(x, list) else x for x in old[i]] + [sofar[i]]
        for i, ks in c1.names.items():
            for k in ks:
                eng.wr(Ref(i)).v[k] = POISON
    c2 = one_step(eng, o, rep, body, j, assum, prep)
    if c2 is None:
        return False
    st = c2.out.st
    parts = {}
    for i in c2.lists:
        segs = st.heap[i].segs
        if i in sofar:
            k = len(old[i])
            if not (len(segs) > k and same_list(segs[:k], old[i]) and segs[k] is sofar[i]):
                return False
            parts[i] = segs[k + 1:]
            if len(parts[i]) != 1 or not isinstance(parts[i][0], list) or len(parts[i][0]) != 1:
                return False
        elif not element_only(eng.st.heap[i].segs, segs, c2):
            return False
    # elements changed in place: element j of an unknown list of as many elements
    repl = {}
    for i, (b, idx, v) in c2.elems.items():
        hit = None
        for li, r in eng.st.heap.items():
            if isinstance(r, ListRec) and li not in sofar:
                for q, s in enumerate(r.segs):
                    if isinstance(s, SymSeg) and s.base is b:
                        if hit is not None or len(r.segs) != 1 or not eng.implied(zand(sym.cmp('==', s.n, n))) or \
                                sym.const_diff(sym.add(s.off, j), idx) != 0:
                            return False
                        hit = li
        if hit is None:
            return False
        repl[hit] = (i, v)
    # commit
    eng.st.fresh = max(eng.st.fresh, c2.out.st.fresh)
    ids0 = set(eng.st.heap)
    heap = st.heap
    at_j = [(b, v, nm) for b, idx, v, nm in st.memo if sym.const_diff(sym.sub(idx, base_off(b, eng, rep, repl)), j) == 0]
    names_j = [nm for b, v, nm in at_j]

    def gen(val):
        if val is c2.value or isinstance(val, SInt) and val is c2.value:
            return rep.seg

        def value(en, k):
            m = {}
            subs = []
            for b, v, nm in at_j:
                off = base_off(b, en, rep, repl)
                w = en.materialise(SymSeg(b, off, n), k)
                nm2 = [x for q, _, y, x in en.st.memo if q is b and (y is w)]
                pair(en, heap, v, w, m)
                if nm2:
                    subs.append((nm, nm2[-1]))
            return clone(en, val, heap, ids0, m, subs, jv, k)
        return GenSeg(n, value, ('step', id(val)))
    for i, p in parts.items():
        g = gen(p[0][0])
        eng.wr(Ref(i)).segs = eng.norm_segs([list(x) if isinstance(x, list) else x for x in old[i]] + [g])
    for li, (i, v) in repl.items():
        eng.wr(Ref(li)).segs = [gen_elem(eng, v, heap, ids0, at_j, rep, repl, n, jv)]
    for i, ks in list(c1.names.items()) + list(c2.names.items()):
        for k in ks:
            eng.wr(Ref(i)).v[k] = POISON
    put(eng, o, toks_of(eng, o)[1:])
    return True


def gen_elem(eng, v, heap, ids0, at_j, rep, repl, n, jv):
    def value(en, k):
        m, subs = {}, []
        for b, w0, nm in at_j:
            if w0 is v:
                w = en.materialise(SymSeg(b, base_off(b, en, rep, repl), n), k)
                rec, rec0 = en.rd(w), heap[v.id]
                # attributes the step left alone stay those of element k
                first = en.memo_heap[v.id][v.id]
                for a in first.attrs:
                    if rec0.attrs.get(a) is first.attrs[a]:
                        pairv(en, heap, first.attrs[a], rec.attrs[a], m)
                continue
            w = en.materialise(SymSeg(b, base_off(b, en, rep, repl), n), k)
            pair(en, heap, w0, w, m)
            nm2 = [x for q, _, y, x in en.st.memo if q is b and y is w]
            if nm2:
                subs.append((nm, nm2[-1]))
        return clone(en, v, heap, ids0, m, subs, jv, k)
    return GenSeg(n, value, ('step', v.id))


def base_off(b, eng, rep, repl):
    if b is rep.seg.base:
        return rep.seg.off
    return 0


def element_only(segs0, segs1, c):
    """the list only had an element looked at"""
    flat = []
    for s in segs1:
        if isinstance(s, list) and len(s) == 1 and isinstance(s[0], Ref) and any(s[0] == v for b, i, v, nm in c.out.st.memo):
            flat.append('e')
        elif isinstance(s, SymSeg):
            flat.append(s.base)
        else:
            return same_list(segs0, segs1)
    bases = [s.base for s in segs0 if isinstance(s, SymSeg)]
    return len(segs0) == 1 and len(bases) == 1 and all(x == 'e' or x is bases[0] for x in flat) and flat.count('e') == 1


def fresh64(eng):
    v = z3.BitVec(eng.fresh_name('n'), 64)
    return lambda k: sym.resize_u(v, k)


def pairv(en, heap, v, w, m):
    if isinstance(v, Ref):
        pair(en, heap, v, w, m)
    elif not isinstance(v, (int, str, bytes, type(None))):
        m[id(v)] = (v, w)


def pair(en, heap, v, w, m):
    """m: what every part of v corresponds to in w (two values built by the same factory)"""
    if not isinstance(v, Ref):
        if not isinstance(v, (int, str, bytes, type(None))):
            m[id(v)] = (v, w)
        return
    if ('ref', v.id) in m:
        return
    m[('ref', v.id)] = w
    a, b = heap[v.id], en.rd(w)
    if isinstance(a, ObjRec) and isinstance(b, ObjRec):
        for k in a.attrs:
            if k in b.attrs:
                pair(en, heap, a.attrs[k], b.attrs[k], m)


def clone(en, val, heap, ids0, m, subs, jv, k):
    if isinstance(val, Ref):
        if ('ref', val.id) in m:
            return m[('ref', val.id)]
        if val.id in ids0:
            return val
        rec = heap[val.id]
        r = en.alloc(rec.copy())
        m[('ref', val.id)] = r
        w = en.wr(r)
        go = lambda x: clone(en, x, heap, ids0, m, subs, jv, k)
        if isinstance(w, ObjRec):
            w.attrs = {a: go(x) for a, x in w.attrs.items()}
        elif isinstance(w, ListRec):
            out = []
            for s in w.segs:
                if isinstance(s, list):
                    out.append([go(x) for x in s])
                else:
                    out.append(go_seg(s, m, subs))
            w.segs = out
        elif isinstance(w, DictRec):
            w.d = {a: go(x) for a, x in w.d.items()}
        elif isinstance(w, BytesRec):
            w.seq = go_bytes(w.seq, subs, jv, k, m)
        return r
    if id(val) in m and m[id(val)][0] is val:
        return m[id(val)][1]
    if isinstance(val, tuple):
        return tuple(clone(en, x, heap, ids0, m, subs, jv, k) for x in val)
    if isinstance(val, SInt):
        return SInt(val.lo, val.hi, lambda w: rename(val.low(w), subs, jv, k))
    if isinstance(val, SBool):
        return SBool(rename(val.t, subs, jv, k))
    if isinstance(val, SBytes):
        return SBytes(go_bytes(val.seq, subs, jv, k, m))
    if val is None or isinstance(val, (int, float, str, bytes, type)) or callable(val):
        return val
    raise Unsupported(f'copying {type(val).__name__} from a generic step')


def go_seg(s, m, subs):
    raise Unsupported('list of unknown length built in a generic step')


def go_bytes(q, subs, jv, k, m):
    if isinstance(q, CB):
        if isinstance(q.items, bytes):
            return q
        return sym.mkcb([x if isinstance(x, int) else rename(x, subs, jv, k) for x in q.items])
    if id(q) in m:
        return m[id(q)][1]
    raise Unsupported('bytes of unknown length built in a generic step')


def rename(t, subs, jv, k):
    """the term for element k"""
    seen, vs, work = set(), [], [t]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs.append(x)
        work.extend(x.children())
    reps = []
    for x in vs:
        nm = x.decl().name()
        if nm == jv.decl().name():
            reps.append((x, sym.idx64(k)))
            continue
        for a, b in subs:
            if nm.startswith(a) and (len(nm) == len(a) or not nm[len(a)].isalnum()):
                reps.append((x, z3.Const(b + nm[len(a):], x.sort())))
                break
    return z3.substitute(t, *reps) if reps else t
