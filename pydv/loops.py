"""Loops with an unknown number of steps.

The body runs once at a generic step j from the state the invariant gives, and must lead back to the invariant:
  * lists the loop appends to: old contents followed by one element per step (map), or by the elements of the steps that append
    (filter); the elements appended so far are never looked at, only their number
  * names assigned in the body: either x0 + c * j (counters), or never read before they are assigned in the step
  * where the contract allows it (havoc): numbers that change by bounded amounts, about which nothing else is kept, and bytes
    with unknown contents and a length that stays or changes by bounded amounts
  * nothing else changes; host calls and other ghost events are recorded per step
A step that can raise, return or break makes the loop do so at some step.  Element k of a list built by the loop is what the body, run again at
step k, appends; doing so also yields that step k did not raise."""
import os

import z3

from . import sym
from .sym import SInt, SBool, is_int, Unsupported, zand, zor, znot
from .interp import (Ref, ListRec, BytesRec, DictRec, EnvRec, ObjRec, IterRec, BaseSeq, SymSeg, GenSeg, RevSeg, FoldSeg, Brk, Cont, Ret,
                     PyRaise, Infeasible, ExcVal, Budget, State, SStr)
from . import streams

POISON = streams.POISON
WHY = os.environ.get('PYDV_WHY')


class LoopBase(BaseSeq):
    """the steps of a loop: element k is what step k does"""

    def __init__(self, name):
        super().__init__(name, None)


class ProjBase(BaseSeq):
    """what the steps of a loop append to one list"""

    def __init__(self, name, steps, i):
        super().__init__(name, None)
        self.steps, self.i = steps, i

    def at(self, eng, idx):
        return eng.materialise(SymSeg(self.steps, 0, 1 << 62), idx)[1][self.i]


def untouched(e, nm):
    raise Unsupported('the loop body reads what it appends to')


def canon(eng, st, segs):
    """segments with elements of unknown lists put back in place"""
    memo = {}
    for b, i, v, nm in st.memo:
        if not isinstance(v, (int, str, bytes, type(None))):
            memo[('ref', v.id) if isinstance(v, Ref) else id(v)] = (b, i)
    out = []
    for s in segs:
        for x in ([[y] for y in s] if isinstance(s, list) else [s]):
            if isinstance(x, list):
                e = memo.get(('ref', x[0].id) if isinstance(x[0], Ref) else id(x[0]))
                if e is not None:
                    x = SymSeg(e[0], e[1], 1)
            p = out[-1] if out else None
            if isinstance(x, list):
                if isinstance(p, list):
                    p.append(x[0])
                else:
                    out.append(list(x))
                continue
            if sym.concretize(x.n) == 0:
                continue
            if isinstance(x, SymSeg) and isinstance(p, SymSeg) and p.base is x.base and \
                    sym.const_diff(sym.add(p.off, p.n), x.off) == 0:
                out[-1] = SymSeg(p.base, p.off, sym.add(p.n, x.n))
            else:
                out.append(x)
    return out


def same_item(x, y):
    return x is y or isinstance(x, Ref) and isinstance(y, Ref) and x.id == y.id or \
        type(x) is type(y) and isinstance(x, (int, str, bytes, bool, float)) and x == y or \
        is_int(x) and is_int(y) and sym.const_diff(x, y) == 0


def same_seg(x, y):
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same_item(p, q) for p, q in zip(x, y))
    if isinstance(x, SymSeg) and isinstance(y, SymSeg):
        return x.base is y.base and sym.const_diff(x.off, y.off) == 0 and sym.const_diff(x.n, y.n) == 0
    return x is y


def same_segs(eng, st, xs, ys):
    a, b = canon(eng, st, xs), canon(eng, st, ys)
    return len(a) == len(b) and all(same_seg(x, y) for x, y in zip(a, b))


def grown(eng, st, before, after):
    """after = before + extra -> the list of extra elements (at most one), or None"""
    if same_segs(eng, st, before, after):
        return []
    if after and isinstance(after[-1], list) and after[-1] and same_segs(eng, st, before, after[:-1] + [after[-1][:-1]]):
        return [after[-1][-1]]
    return None


class Step:
    """one outcome of the body"""
    __slots__ = ('out', 'names', 'lists', 'ghost', 'bytes')


def analyse(eng, o, heap0, memo0, ghost0, havoc):
    """effects of one outcome, or None when they do not fit"""
    s = Step()
    s.out, s.names, s.lists, s.bytes = o, {}, {}, {}
    st = o.st
    if st.ghost[:len(ghost0)] != ghost0:
        return None
    s.ghost = st.ghost[len(ghost0):]
    for i, r0 in heap0.items():
        r1 = st.heap[i]
        if r0 is r1 or i in (BEGIN, END):
            continue
        if isinstance(r0, EnvRec):
            for k in set(r0.v) | set(r1.v):
                if r0.v.get(k, POISON) is not r1.v.get(k, POISON):
                    s.names[i, k] = (r0.v.get(k, POISON), r1.v.get(k, POISON))
        elif isinstance(r0, ListRec):
            g = grown(eng, st, r0.segs, r1.segs)
            if g is None:
                return why(f'list {i} changes')
            if g:
                s.lists[i] = g
        elif isinstance(r0, ObjRec):
            if set(r0.attrs) != set(r1.attrs) or not all(same_item(r0.attrs[k], r1.attrs[k]) for k in r0.attrs):
                return why(f'{r0.cls.__name__} object changes')
        elif isinstance(r0, BytesRec):
            if r0.seq is not r1.seq:
                if not havoc:
                    return why('bytes change')
                s.bytes[i] = (r0.seq.n, r1.seq.n)
        elif isinstance(r0, DictRec):
            if set(r0.d) != set(r1.d) or not all(same_item(r0.d[k], r1.d[k]) for k in r0.d):
                return why('dict changes')
        elif isinstance(r0, IterRec):
            return why('iterator')
        else:
            return why(type(r0).__name__)
    # elements of unknown lists first looked at in this step must not change
    for b, i, v, nm in st.memo[len(memo0):]:
        for q in refs(v):
            h = eng.memo_heap.get(q.id)
            if h is None:
                continue
            for oid, r0 in h.items():
                if oid in heap0 or oid < eng.memo_born.get(q.id, 0):
                    continue
                r1 = st.heap.get(oid)
                if r1 is None or r0 is r1:
                    continue
                if isinstance(r0, ObjRec) and set(r0.attrs) == set(r1.attrs) and all(same_item(r0.attrs[k], r1.attrs[k]) for k in r0.attrs):
                    continue
                if isinstance(r0, ListRec) and grown(eng, st, r0.segs, r1.segs) == []:
                    continue
                if isinstance(r0, BytesRec) and r0.seq is r1.seq:
                    continue
                return why('an element changes')
    return s


def least(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return sym.ite(sym.cmp('<=', a, b), a, b)


class Sums:
    """prefix sums of f(element) over an unknown list: S(0) = 0, S(j + 1) = S(j) + f(element j), f >= 0, hence S(j + 1) <= S(n).
    Loops over as many steps may use `initial value + S(j)` as the invariant of a counter; `on_step(plan, outcome)` states what each
    step does."""
    CAP = 1 << 40

    def __init__(self, eng, seg, f, on_step):
        self.seg, self.f, self.n, self.on_step = seg, f, seg.n, on_step
        self.fn = z3.Function(eng.fresh_name('prefix'), z3.BitVecSort(64), z3.BitVecSort(64))
        eng.assume(self.fn(sym.bv(0, 64)) == 0)
        eng.assume(z3.ULE(self.fn(sym.idx64(self.n)), sym.bv(self.CAP, 64)))

    def at(self, idx):
        idx = sym.concretize(idx)
        if isinstance(idx, int) and idx == 0:
            return 0
        t = self.fn(sym.idx64(idx))
        return SInt(0, self.CAP, lambda k: sym.resize_u(t, k))

    @property
    def total(self):
        return self.at(self.n)

    def enter(self, eng, idx):
        x = self.f(eng.materialise(self.seg, idx))
        eng.assume(z3.ULE(self.fn(sym.idx64(idx)), sym.bv(self.CAP, 64)))
        eng.assume(sym.cmp('<=', sym.add(self.at(idx), x), self.total))

    def cap(self):
        """counters may stop at this number"""

    def keeps(self, eng, blobs, idx):
        """what every step leaves as it is (on_step shows it), for step idx"""

    def item(self, st, idx):
        """the element looked at in step idx of a state"""
        for b, i, v, nm in st.memo:
            if b is self.seg.base and (i is idx or sym.const_diff(i, idx) == 0):
                return v
        raise Unsupported('prefix sums: element of the step')

    def after(self, st, idx):
        return sym.add(self.at(idx), self.f(self.item(st, idx)))


class Steps(Sums):
    """prefix sums of f(0), f(1), ..., f(n - 1); `known(j)` is assumed in step j"""

    def __init__(self, eng, n, f, on_step, known=lambda j: True, kept=None):
        super().__init__(eng, SymSeg(None, 0, n), f, on_step)
        self.known, self.kept = known, kept

    def keeps(self, eng, blobs, idx):
        if self.kept is not None:
            self.kept(eng, blobs, idx)

    def enter(self, eng, idx):
        eng.assume(self.known(idx))
        eng.assume(z3.ULE(self.fn(sym.idx64(idx)), sym.bv(self.CAP, 64)))
        eng.assume(sym.cmp('<=', sym.add(self.at(idx), self.f(idx)), self.total))

    def after(self, st, idx):
        return sym.add(self.at(idx), self.f(idx))


BEGIN, END = -7, -8     # heap entries: byte arrays at the beginning of a step, and after the loop


def refs(v):
    if isinstance(v, Ref):
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from refs(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from refs(x)


def why(text):
    if WHY:
        print('loop:', text)
    return None


def generic(eng, n, body, over=(), label='loop', havoc=False):
    """run `for j in range(n): body(j)`; -> True when the rules above cover it"""
    if getattr(eng, 'in_generic', 0) > 4:
        return False
    eng.in_generic = getattr(eng, 'in_generic', 0) + 1
    try:
        plan = prepare(eng, n, body, label, havoc)
    finally:
        eng.in_generic -= 1
    if plan is None or set(over) & set(plan.maps + plan.filters):
        return bool(why(f'gave up {label}'))
    commit(eng, plan)
    return True


def pieces(eng, it):
    """the parts of what a loop goes through: [(length, k -> item)], or None"""
    if it.kind == 'list':
        out = []
        for s in eng.rd(it.data).segs:
            if isinstance(s, list):
                out.append((len(s), lambda k, s=tuple(s): s[k]))
            else:
                out.append((s.n, lambda k, s=s: eng.materialise(s, k)))
        return out
    if it.kind == 'enumerate' and isinstance(it.data[0], SymIterBase()):
        ps = pieces(eng, it.data[0])
        if ps is None:
            return None
        out, off = [], it.data[1]
        for n, f in ps:
            out.append((n, lambda k, f=f, off=off: (sym.add(off, k), f(k))))
            off = sym.add(off, n)
        return out
    if it.kind == 'zip' and all(isinstance(x, SymIterBase()) for x in it.data):
        each = [pieces(eng, x) for x in it.data]
        if any(p is None or len(p) != len(each[0]) for p in each):
            return None
        for row in zip(*each):
            for n, _ in row[1:]:
                d = sym.const_diff(n, row[0][0])
                if d != 0 if d is not None else not eng.implied(sym.cmp('==', n, row[0][0])):
                    return None
        return [(row[0][0], lambda k, row=row: tuple(f(k) for _, f in row)) for row in zip(*each)]
    return None


def SymIterBase():
    from .interp import SymIter
    return SymIter


def parts(eng, it):
    """the parts a loop goes through one after the other, when there are several"""
    ps = pieces(eng, it)
    if ps is None or len(ps) < 2 or sum(n for n, _ in ps if isinstance(n, int)) > 64:
        return None
    return ps


def piecewise(eng, it, ps, item):
    """run item(value) over each part; -> False when an unknown part is out of reach"""
    over = it.sources()
    segs = {i: eng.st.heap[i].segs for i in over}
    for n, f in ps:
        if isinstance(n, int):
            for q in range(n):
                try:
                    item(f(q))
                except Cont:
                    pass
        elif not generic(eng, n, lambda k, f=f: item(f(k)), over=over):
            raise Unsupported('part of a loop without invariant')
        for i, old in segs.items():
            if not (eng.st.heap[i].segs is old or same_segs(eng, eng.st, old, eng.st.heap[i].segs)):
                raise Unsupported('the list gone through changes')
    return True


class Plan:
    pass


def explore_at(eng, body, j, assum, prep):
    def run():
        prep()
        try:
            body(j)
        except Cont:
            pass
    saved = eng.st, eng.pc, eng.dec, eng.depth
    eng.in_step = getattr(eng, 'in_step', 0) + 1
    try:
        return eng.explore(run, assum)
    except Budget:
        raise
    except Unsupported as e:
        eng.st, eng.pc, eng.dec, eng.depth = saved
        eng.st.owned = set()
        why(str(e))
        eng.why = str(e)
        return None
    finally:
        eng.in_step -= 1


def is_num(v):
    return is_int(v) and not isinstance(v, (bool, SBool))


def spread(a, b):
    """bounds of b - a as the intervals give them"""
    d = sym.sub(b, a)
    return (d, d) if isinstance(d, int) else (sym.lo(d), sym.hi(d))


def reach(x, lo, hi, k):
    """interval of x plus at most k increments from [lo, hi]"""
    a, b = (x, x) if isinstance(x, int) else (sym.lo(x), sym.hi(x))
    return a + min(lo, 0) * k, b + max(hi, 0) * k


def unknown_int(eng, name, lo, hi):
    if lo == hi:
        return lo
    w = max(lo.bit_length(), hi.bit_length()) + 1
    v = z3.BitVec(eng.fresh_name(name), w)
    eng.assume(z3.And(v >= sym.bv(lo, w), v <= sym.bv(hi, w)))
    return sym.mk(lo, hi, lambda k: sym.resize_s(v, k))


def unknown_bytes(eng, n):
    arr = z3.Array(eng.fresh_name('changed'), z3.BitVecSort(64), z3.BitVecSort(8))
    return sym.FB(n, lambda k: z3.Select(arr, k))


def prepare(eng, n, body, label, havoc):
    name = eng.fresh_name('step')
    jv = z3.BitVec(name, 64)
    hi = max(sym.hi(n) - 1, 0)
    j = SInt(0, hi, lambda k: sym.resize_u(jv, k))
    assum = [c for c in (sym.cmp('<', j, n), z3.ULE(jv, sym.bv(hi, 64))) if c is not True]
    if any(c is False for c in assum):
        return None
    heap0, memo0, ghost0 = dict(eng.st.heap), eng.st.memo, eng.st.ghost
    p = Plan()
    p.n, p.j, p.jv, p.assum, p.body, p.heap0, p.memo0, p.label = n, j, jv, assum, body, heap0, memo0, label
    names, counts, blobs = {}, {}, {}
    p.names, p.blobs = names, blobs
    p.maps, p.filters = [], []
    p.sums = getattr(eng, 'sums', None) if havoc and not getattr(eng, 'in_step', 0) else None
    if p.sums is not None and sym.const_diff(p.sums.n, n) != 0:
        p.sums = None
    p.nosum, p.nocap = set(), set()
    p.cap = p.sums.cap() if p.sums is not None else None
    sofar_name = eng.fresh_name('sofar')
    fvars = {}

    def prep_at(idx):
        if p.sums is not None:
            p.sums.enter(eng, idx)
        for i in p.maps + p.filters:
            ln = idx
            if i in fvars:
                v = fvars[i]
                ln = SInt(0, max(sym.hi(n), 1), lambda k, v=v: sym.resize_u(v, k))
                eng.assume(z3.ULE(v, sym.idx64(idx)))
            eng.wr(Ref(i)).segs = eng.norm_segs([list(x) if isinstance(x, list) else x for x in heap0[i].segs] +
                                                [SymSeg(BaseSeq(f'{sofar_name}.{i}', untouched), 0, ln)])
        for (e, k), d in names.items():
            eng.wr(Ref(e)).v[k] = value_at(eng, p, e, k, d, idx)
        for i, d in blobs.items():
            eng.wr(Ref(i)).seq = unknown_bytes(eng, length_at(eng, p, i, d, idx))
        if p.sums is not None:
            p.sums.keeps(eng, blobs, idx)
            eng.st.heap[BEGIN] = {i: eng.st.heap[i].seq for i in blobs}
    p.prep_at = prep_at
    heap1 = {}

    def prep():
        if counts is not None:
            prep_at(j)
        heap1.clear()
        heap1.update(eng.st.heap)
        eng.st.owned = set()
    for attempt in range(5):
        outs = explore_at(eng, body, j, assum, prep)
        if not outs:
            return why('no outcome')
        if any(o.kind not in ('normal', 'raise', 'return', 'break') for o in outs):
            return why(f'{[o.kind for o in outs]} in the loop')
        normal = [o for o in outs if o.kind == 'normal']
        if attempt:
            r = settled(eng, p, normal, heap0, heap1, memo0, ghost0, sofar_name, havoc)
            if r is None:
                return None
            if r:
                break
        steps = []
        for o in normal:
            s = analyse(eng, o, rebase(heap1, o.st.heap, p, heap0, sofar_name), memo0, ghost0, havoc)
            if s is None:
                return None
            steps.append(s)
        if not learn(eng, p, steps, normal, heap0, counts, havoc, attempt):
            return None
        for i in p.filters:
            fvars.setdefault(i, z3.BitVec(eng.fresh_name('count'), 64))
    else:
        return why('no invariant found')
    p.ghost0 = ghost0
    p.exits = [o for o in outs if o.kind != 'normal']
    p.ghost = any(s.ghost for s in p.normal)
    return p


def value_at(eng, p, e, k, d, idx):
    if d is None:
        return POISON
    x0 = p.heap0[e].v[k]
    if isinstance(d, tuple) and d[0] == 'sum':
        return sym.add(x0, p.sums.at(idx))
    if isinstance(d, tuple) and d[0] == 'cap':
        return least(sym.add(x0, p.sums.at(idx)), p.cap)
    if isinstance(d, tuple):
        v = unknown_int(eng, k, *reach(x0, d[1], d[2], max(sym.hi(p.n), 0)))
        eng.assume(zor(sym.cmp('!=', idx, 0), sym.cmp('==', v, x0)))
        return v
    return sym.add(x0, sym.mul(d, idx))


def length_at(eng, p, i, d, idx):
    n0 = p.heap0[i].seq.n
    if d == 0:
        return n0
    if d[0] == 'sum':
        return sym.add(n0, p.sums.at(idx))
    v = unknown_int(eng, 'size', *[max(x, 0) for x in reach(n0, d[1], d[2], max(sym.hi(p.n), 0))])
    eng.assume(zor(sym.cmp('!=', idx, 0), sym.cmp('==', v, n0)))
    return v


def learn(eng, p, steps, normal, heap0, counts, havoc, attempt):
    """what changes, from one round of the body; -> False to give up"""
    found = {}
    for s in steps:
        for k, (a, b) in s.names.items():
            found.setdefault(k, []).append((s, a, b))
    for k, fs in found.items():
        ds = [sym.const_diff(b, a) if is_num(a) and is_num(b) else None for s, a, b in fs]
        every = len(fs) == len(steps)
        old = p.names.get(k, 'new')
        if old is None:
            continue
        if every and ds[0] is not None and all(d == ds[0] for d in ds) and (old == 'new' or old == ds[0]):
            p.names[k] = ds[0]
        elif havoc and all(is_num(a) and is_num(b) for s, a, b in fs) and k[1] in heap0[k[0]].v and is_num(heap0[k[0]].v[k[1]]):
            bs = [spread(a, b) for s, a, b in fs]
            if isinstance(old, int):
                bs.append((old, old))
            elif isinstance(old, tuple):
                bs.append(old[1:])
            kind = 'int' if p.sums is None else 'sum' if k not in p.nosum else 'cap' if p.cap is not None and k not in p.nocap else 'int'
            p.names[k] = (kind, min(0, min(x for x, y in bs)), max(0, max(y for x, y in bs)))
        else:
            p.names[k] = None
    for k, d in list(p.names.items()):
        if d is not None and k not in found and steps and isinstance(d, int) and d != 0:
            p.names[k] = ('int', min(d, 0), max(d, 0)) if havoc else None
    for s in steps:
        for i in s.lists:
            counts.setdefault(i, set()).add(len(s.lists[i]))
        for i, (a, b) in s.bytes.items():
            old = p.blobs.get(i)
            lo, hi = spread(a, b)
            if (lo, hi) == (0, 0) and old in (None, 0):
                p.blobs[i] = 0
            else:
                q = old[1:] if isinstance(old, tuple) else (0, 0)
                kind = 'sum' if p.sums is not None and i not in p.nosum else 'len'
                p.blobs[i] = (kind, min(lo, q[0], 0), max(hi, q[1], 0))
    for i in counts:
        if sum(1 for s in steps if i in s.lists) < len(steps):
            counts[i].add(0)
        if not counts[i] <= {0, 1}:
            return bool(why('several elements per step'))
    # a list only appended to on steps that leave the loop is not grown
    p.maps = [i for i in counts if counts[i] == {1}]
    p.filters = [i for i in counts if counts[i] != {1}]
    return True


def settled(eng, p, normal, heap0, heap1, memo0, ghost0, sofar_name, havoc):
    """does the body lead from the invariant back to it?  -> None: never, False: the invariant has to be weakened"""
    p.normal = []
    for o in normal:
        # the base of the prepared list differs from one outcome to the next: compare with what this outcome started from
        s = analyse(eng, o, rebase(heap1, o.st.heap, p, heap0, sofar_name), memo0, ghost0, havoc)
        if s is None:
            return None
        for k, (a, b) in s.names.items():
            if k not in p.names:
                return False
            d = p.names[k]
            if isinstance(d, tuple) and d[0] in ('sum', 'cap'):
                want = sym.add(p.heap0[k[0]].v[k[1]], p.sums.after(o.st, p.j))
                c = is_num(b) and sym.cmp('==', b, want if d[0] == 'sum' else least(want, p.cap))
                if not (c is True or c is not False and eng.check(p.assum + o.conds + [znot(c)]) == 'unsat'):
                    (p.nosum if d[0] == 'sum' else p.nocap).add(k)
                    return False
            elif isinstance(d, tuple):
                if not is_num(b) or not between(eng, o, sym.sub(b, a), d[1], d[2]):
                    return False
            elif d is not None and not (is_int(b) and is_int(a) and sym.const_diff(b, a) == d):
                return False
        for k, d in p.names.items():
            if d is not None and k not in s.names and (isinstance(d, int) and d != 0 or isinstance(d, tuple) and d[0] == 'sum'):
                p.nosum.add(k)
                return False
            if isinstance(d, tuple) and d[0] == 'cap' and k not in s.names:
                p.nocap.add(k)
                return False
        for i, (a, b) in s.bytes.items():
            d = p.blobs.get(i)
            if d is None:
                return False
            if d != 0 and d[0] == 'sum':
                c = sym.cmp('==', b, sym.add(p.heap0[i].seq.n, p.sums.after(o.st, p.j)))
                if not (c is True or c is not False and eng.check(p.assum + o.conds + [znot(c)]) == 'unsat'):
                    p.nosum.add(i)
                    return False
            lo, hi = (0, 0) if d == 0 else d[1:]
            if not between(eng, o, sym.sub(b, a), lo, hi):
                return False
        for i in s.lists:
            if i not in p.maps + p.filters or len(s.lists[i]) != 1:
                return False
        if any(i not in s.lists for i in p.maps):
            return False
        p.normal.append(s)
    return True


def between(eng, o, d, lo, hi):
    c = zand(sym.cmp('>=', d, lo), sym.cmp('<=', d, hi))
    return c is True or c is not False and eng.check(o.conds + [znot(c)]) == 'unsat'


def rebase(h, heap, p, heap0, sofar_name):
    """the prepared lists of this outcome: same bases as found in its heap"""
    out = dict(h)
    for i in p.maps + p.filters:
        bases = [s for s in heap[i].segs if isinstance(s, SymSeg) and s.base.name == f'{sofar_name}.{i}']
        if len(bases) == 1:
            segs = []
            for s in h[i].segs:
                if isinstance(s, SymSeg) and s.base.name == f'{sofar_name}.{i}':
                    s = bases[0]
                segs.append(s)
            out[i] = ListRec(segs)
    return out


def run_at(eng, p, k):
    """what step k does -> (normal outcome data); the state it ran in is left behind except for what it created"""
    cur = eng.st
    st = State()
    st.heap = dict(p.heap0)
    for b, i, v, nm in cur.memo:
        for q in refs(v):
            for oid, r in eng.memo_heap.get(q.id, {}).items():
                if oid not in st.heap:
                    st.heap[oid] = r
    st.memo, st.ghost, st.fresh, st.loops = cur.memo, (), cur.fresh, cur.loops
    eng.st = st
    nid0 = eng.nid
    try:
        eng.assume(zand(sym.cmp('>=', k, 0), sym.cmp('<', k, p.n)))
        p.prep_at(k)
        before = {i: eng.st.heap[i] for i in p.maps + p.filters}
        eng.st.owned = set()
        eng.in_step = getattr(eng, 'in_step', 0) + 1
        try:
            p.body(k)
        except Cont:
            pass
        except (PyRaise, Brk, Ret):
            raise Infeasible()
        finally:
            eng.in_step -= 1
        st = eng.st
        vals = {}
        for i in p.maps + p.filters:
            g = grown(eng, st, before[i].segs, st.heap[i].segs)
            if g is None or len(g) > 1 or i in p.maps and len(g) != 1:
                raise Unsupported('the loop body behaves differently at another step')
            if g:
                vals[i] = g[0]
    finally:
        st = eng.st
        eng.st = cur
    cur.heap.update({i: r for i, r in st.heap.items() if i >= nid0})
    cur.owned -= {i for i in cur.owned if i >= nid0}
    cur.memo, cur.fresh, cur.loops = st.memo, st.fresh, st.loops
    return vals, st.ghost


class AnyOf:
    """steps that leave the loop in the same way and differ in nothing but the condition"""
    __slots__ = ('st', 'val', 'conds', 'kind')


def way_out(o, p):
    """a key that tells different ways of leaving the loop apart, or None"""
    if o.kind == 'break':
        return ('break',)
    v = o.val
    if o.kind == 'raise':
        return ('raise', v.cls) if isinstance(v, ExcVal) and not v.args and not v.attrs else None
    if v is None or type(v) in (int, bool, str):
        return ('return', type(v), v)
    if isinstance(v, Ref) and v.id not in p.heap0:
        r = o.st.heap[v.id]
        if isinstance(r, ListRec) and len(r.segs) == 1 and isinstance(r.segs[0], list) and all(type(x) is int for x in r.segs[0]):
            return ('return', 'list', tuple(r.segs[0]))
    return None


def merged(eng, p):
    """the ways out of the loop, those that end alike and have no further effects taken together; what such a step leaves in the
    variables and lists the loop changes is forgotten"""
    groups, out = {}, []
    for o in p.exits:
        key = way_out(o, p)
        same = key is not None and o.st.ghost == eng.st.ghost and len(o.st.loops) == len(eng.st.loops)
        names = {k: 0 for k in p.names}
        for i, r0 in p.heap0.items():
            r1 = o.st.heap[i]
            if r0 is r1 or i in (BEGIN, END) or i in p.maps or i in p.filters:
                continue
            if isinstance(r0, EnvRec):
                names.update({(i, k): 0 for k in set(r0.v) | set(r1.v) if r0.v.get(k, POISON) is not r1.v.get(k, POISON)})
            elif isinstance(r0, BytesRec) and i in p.blobs and sym.const_diff(r0.seq.n, r1.seq.n) == 0:
                pass
            else:
                same = False
        if not same:
            out.append(o)
            continue
        groups.setdefault(key, []).append((o, names))
    for key, os_ in groups.items():
        if len(os_) == 1:
            out.append(os_[0][0])
            continue
        a = AnyOf()
        a.kind = key[0]
        cur = eng.st
        st = a.st = cur.copy()
        st.fresh = max(o.st.fresh for o, _ in os_)
        eng.st = st
        if a.kind == 'raise':
            a.val = os_[0][0].val
        elif a.kind == 'return' and key[1] == 'list':
            a.val = eng.new_list(list(key[2]))
        else:
            a.val = os_[0][0].val
        for o, names in os_:
            for e, k in names:
                eng.wr(Ref(e)).v[k] = POISON
        for i in p.maps + p.filters:
            eng.wr(Ref(i)).segs = [SymSeg(BaseSeq(eng.fresh_name('forgotten'), untouched), 0, unknown_int(eng, 'left', 0, 1 << 62))]
        for i in p.blobs:
            eng.wr(Ref(i)).seq = unknown_bytes(eng, p.heap0[i].seq.n)
        eng.st = cur
        st.owned = set()
        a.conds = [zor(*[zand(*o.conds) for o, _ in os_])]
        out.append(a)
    return out


def commit(eng, p):
    n = p.n
    steps = LoopBase(eng.fresh_name(p.label))

    def at(en, k):
        vals, ghost = run_at(en, p, k)
        return ('step', vals, ghost)
    steps.at = at
    steps.plan = p
    for o in merged(eng, p):
        flag = z3.Bool(eng.fresh_name(o.kind))
        if eng.decide(flag):
            fresh = eng.st.fresh
            ghost0 = eng.st.ghost
            eng.st = o.st.copy()
            eng.st.fresh = max(fresh, eng.st.fresh)
            if p.ghost:
                eng.st.ghost = ghost0 + (('each', steps, p.j),) + eng.st.ghost[len(ghost0):]
            eng.st.loops = eng.st.loops + ((None, steps, p.j),)
            for c in p.assum + o.conds:
                eng.assume(c)
            if eng.check([]) == 'unsat':
                raise Infeasible()
            if o.kind == 'break':
                return
            raise Ret(o.val) if o.kind == 'return' else PyRaise(o.val)
    if p.sums is not None and p.blobs:
        for s in p.normal:
            if eng.decide(z3.Bool(eng.fresh_name('step'))):
                eng.st = s.out.st.copy()
                for c in p.assum + s.out.conds:
                    eng.assume(c)
                if eng.check([]) != 'unsat':
                    p.sums.on_step(p, s.out)
                raise Infeasible()
    if not p.normal:
        eng.assume(sym.cmp('==', n, 0))
    if p.exits:
        eng.st.fresh = max([eng.st.fresh] + [o.st.fresh for o in p.exits])
    eng.st.fresh = max([eng.st.fresh] + [s.out.st.fresh for s in p.normal])
    for i in p.maps:
        b = ProjBase(f'{steps.name}.{i}', steps, i)
        eng.wr(Ref(i)).segs = eng.norm_segs([list(x) if isinstance(x, list) else x for x in p.heap0[i].segs] + [SymSeg(b, 0, n)])
    for i in p.filters:
        seg = filter_seg(eng, p, i)
        eng.wr(Ref(i)).segs = eng.norm_segs([list(x) if isinstance(x, list) else x for x in p.heap0[i].segs] + [seg])
    for (e, k), d in p.names.items():
        eng.wr(Ref(e)).v[k] = value_at(eng, p, e, k, d, n)
    for i, d in p.blobs.items():
        eng.wr(Ref(i)).seq = unknown_bytes(eng, length_at(eng, p, i, d, n))
    if p.sums is not None:
        eng.st.heap[END] = {i: eng.st.heap[i].seq for i in p.blobs}
    if p.ghost:
        eng.event('each', steps, n)
    eng.st.loops = eng.st.loops + ((None, steps, n),)


def text(t, p, o):
    s = z3.simplify(t).sexpr() if not isinstance(t, bool) else str(t)
    s = s.replace(p.jv.decl().name(), 'J')
    for b, i, v, nm in o.st.memo:
        if sym.const_diff(i, p.j) == 0 if not isinstance(i, int) else False:
            s = s.replace(nm + '.', b.name + '@J.')
    return s


def filter_key(eng, p, i):
    """what a filter keeps, in terms of the element of the list it goes through"""
    parts = []
    for s in p.normal:
        if i in s.lists:
            v = s.lists[i][0]
            if not is_int(v):
                return None
            o = s.out
            conds = [c for c in o.conds if not any(c is a or isinstance(a, z3.ExprRef) and isinstance(c, z3.ExprRef) and
                                                   c.eq(z3.simplify(a)) for a in p.assum)]
            vt = str(v) if isinstance(v, int) else text(v.low(64), p, o)
            parts.append((tuple(sorted(text(c, p, o) for c in conds)), vt))
    return (str(p.n) if isinstance(p.n, int) else z3.simplify(p.n.low(64)).sexpr(), tuple(sorted(parts)))


def filter_seg(eng, p, i):
    key = filter_key(eng, p, i)
    if key is not None:
        for k, b, n in eng.st.loops:
            if k == key:
                return SymSeg(b, 0, n)
    b = BaseSeq(eng.fresh_name('filtered'), None)
    tv = z3.BitVec(eng.fresh_name('kept'), 64)
    n = SInt(0, max(sym.hi(p.n), 0), lambda k: sym.resize_u(tv, k))
    eng.assume(zand(z3.ULE(tv, sym.bv(max(sym.hi(p.n), 0), 64)), sym.cmp('<=', n, p.n)))
    if not any(i in s.lists for s in p.normal):
        eng.assume(tv == 0)

    def at(en, idx):
        kv = z3.BitVec(en.fresh_name('source'), 64)
        k = SInt(0, max(sym.hi(p.n) - 1, 0), lambda w: sym.resize_u(kv, w))
        en.assume(zand(z3.ULE(kv, sym.bv(max(sym.hi(p.n) - 1, 0), 64)), sym.cmp('<', k, p.n)))
        vals, ghost = run_at(en, p, k)
        if i not in vals:
            raise Infeasible()
        return vals[i]
    b.at = at
    eng.st.loops = eng.st.loops + ((key, b, n),)
    return SymSeg(b, 0, n)


def steps_of(eng):
    """the loops of this path"""
    return [(b, n) for k, b, n in eng.st.loops if isinstance(b, LoopBase)]


def instantiate(eng, k):
    """use that step k of every loop so far (of more than k steps) completed normally"""
    for b, n in steps_of(eng):
        if eng.implied(sym.cmp('<', k, n)):
            eng.materialise(SymSeg(b, 0, n), k)
