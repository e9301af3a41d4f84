"""Symbolic interpreter for the Python source of /repo (AST), with explicit heap, local exploration and state merging."""
import ast
import builtins
import ctypes
import dataclasses
import io
import operator
import os
import sys
import time
import types

import z3

from . import sym
from .sym import (SInt, SBool, SFloat, Unsupported, CB, FB, BSeq, mkbool, bterm, zand, zor, znot, is_int)

REPO = os.environ.get('PYDV_REPO', '/repo')


# ---------------------------------------------------------------- values

class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f'Ref{self.id}'

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return self.id


class SBytes:
    """immutable bytes with symbolic content"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq


class SStr:
    """opaque string: a term in an uninterpreted sort plus its UTF-8 encoding"""
    __slots__ = ('key', 'enc', 'nchars', 'meta')

    def __init__(self, key, enc=None, nchars=None, meta=None):
        self.key, self.enc, self.nchars, self.meta = key, enc, nchars, meta

    def __repr__(self):
        return f'SStr({self.key})'

    def __eq__(self, o):
        return isinstance(o, SStr) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Union:
    """value depending on a condition with alternatives of different immutable types"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts  # [(z3 Bool, value)], conditions exhaustive and exclusive


class Opaque:
    """a host value the code only passes around"""
    __slots__ = ('name', 'attrs')

    def __init__(self, name, attrs=None):
        self.name, self.attrs = name, attrs or {}

    def __repr__(self):
        return f'Opaque({self.name})'


class Closure:
    __slots__ = ('node', 'env', 'ctx', 'name')

    def __init__(self, node, env, ctx, name):
        self.node, self.env, self.ctx, self.name = node, env, ctx, name


class BoundMethod:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class BuiltinMethod:
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ExcVal:
    """a raised exception"""
    __slots__ = ('cls', 'args', 'attrs')

    def __init__(self, cls, args=(), attrs=None):
        self.cls, self.args, self.attrs = cls, args, attrs or {}

    def __repr__(self):
        return f'{self.cls.__name__}{self.args}'


# ---------------------------------------------------------------- heap records

class ObjRec:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def copy(self):
        return ObjRec(self.cls, dict(self.attrs))


class BaseSeq:
    """unknown list: `factory(eng, name)` builds a fresh unknown element; `memo` lives in the state"""

    def __init__(self, name, factory):
        self.name, self.factory = name, factory


class SymSeg:
    __slots__ = ('base', 'off', 'n')

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n


class GenSeg:
    """n elements, element j given by value(eng, j) (immutable values only)"""
    __slots__ = ('n', 'value', 'tag')

    def __init__(self, n, value, tag=None):
        self.n, self.value, self.tag = n, value, tag


class FoldSeg:
    """concatenation of count lists: part j is `segs` (over the heap at the end of step j, where the loop variable is `elem`,
    under the assumptions `assum` about j); n is the total length"""
    __slots__ = ('n', 'count', 'src', 'j', 'elem', 'segs', 'assum')

    def __init__(self, n, count, src, j, elem, segs, assum):
        self.n, self.count, self.src, self.j, self.elem, self.segs, self.assum = n, count, src, j, elem, segs, assum


class ListRec:
    __slots__ = ('segs',)   # list of segments: python list (concrete) | SymSeg | GenSeg

    def __init__(self, segs):
        self.segs = segs

    def copy(self):
        return ListRec([list(s) if isinstance(s, list) else s for s in self.segs])


class BytesRec:
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq

    def copy(self):
        return BytesRec(self.seq)


class DictRec:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def copy(self):
        return DictRec(dict(self.d))


class EnvRec:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def copy(self):
        return EnvRec(dict(self.v))


class IterRec:
    """a Python iterator over a list of already computed values, or a lazily indexed sequence"""
    __slots__ = ('items', 'pos')

    def __init__(self, items, pos=0):
        self.items, self.pos = items, pos

    def copy(self):
        return IterRec(self.items, self.pos)


class State:
    __slots__ = ('heap', 'owned', 'memo', 'ghost', 'fresh', 'loops')

    def __init__(self):
        self.loops = ()     # loops over unknown numbers of steps that ran on this path (loops.py)
        self.heap = {}
        self.owned = set()
        self.memo = ()      # materialised elements of unknown lists: (base, index SInt, value, name)
        self.ghost = ()     # event trace
        self.fresh = 0

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        self.owned = set()
        s.memo, s.ghost, s.fresh, s.loops = self.memo, self.ghost, self.fresh, self.loops
        return s


# ---------------------------------------------------------------- control flow

class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Inline(Exception):
    """a contract does not cover this call: its body is followed"""


class Infeasible(Exception):
    pass


class Unmergeable(Exception):
    pass


class Budget(Unsupported):
    pass


class Dec:
    __slots__ = ('prefix', 'trail', 'alts')

    def __init__(self, prefix):
        self.prefix, self.trail, self.alts = prefix, [], []


class Outcome:
    __slots__ = ('kind', 'val', 'st', 'conds', 'assumed')

    def __init__(self, kind, val, st, conds, assumed=False):
        self.kind, self.val, self.st, self.conds = kind, val, st, conds
        self.assumed = assumed      # conds hold facts assumed on the way, not only choices


# ---------------------------------------------------------------- source index

_SRC = {}


def source_index(path):
    if path not in _SRC:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = min(d.lineno for d in n.decorator_list)
                idx.setdefault((ln, n.name if isinstance(n, ast.FunctionDef) else '<lambda>'), n)
        _SRC[path] = idx
    return _SRC[path]


def fn_node(fn):
    c = fn.__code__
    p = c.co_filename
    if not (p.startswith(REPO + '/') or p.startswith(VERIF + '/')):
        return None
    return source_index(p).get((c.co_firstlineno, c.co_name))


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MISSING = object()
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|',
          ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.Div: '/', ast.Pow: '**'}
CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
          ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
PYOP = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '%': operator.mod,
        '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
        '/': operator.truediv, '**': operator.pow}
PYCMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq,
         '!=': operator.ne}
CONC = (int, float, str, bytes, bool, type(None))


def conc(v):
    """is v a fully concrete host value the interpreter can hand to native code"""
    if isinstance(v, CONC):
        return True
    if isinstance(v, tuple):
        return all(conc(x) for x in v)
    return False


class Ctx:
    """static context of a running function"""
    __slots__ = ('globals', 'qual')

    def __init__(self, globals, qual):
        self.globals, self.qual = globals, qual


class Engine:
    def __init__(self, contracts=None, feas_timeout=4000, max_paths=1000000, max_seconds=200):
        self.st = State()
        self.pc = []
        self.assumed = 0
        self.dec = Dec([])
        self.nid = 1
        self.contracts = contracts or {}
        self.disabled = set()
        self.flat = self.flat_next = False     # flat: the outcomes of a contract's call are not merged
        self.has_streams = False
        self.depth = 0
        self.feas_timeout = feas_timeout
        self.feas_cache = {}
        self.keep = []
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = time.time() + max_seconds
        self.solver_time = 0.0
        self.queries = 0
        self.steps = 0
        self.used_contracts = set()
        self.inlined = set()
        self.models_used = set()
        self.axioms = []
        self.divs = []
        self.hyps = []
        self.memo_heap = {}
        self.memo_born = {}
        sym.ENGINE = self
        from . import models
        self.models = models

    # ------------------------------------------------------------ solver
    def check(self, extra, timeout=None, pc=None):
        """sat/unsat/unknown of pc + extra"""
        pc = self.pc if pc is None else pc
        fs = [f for f in list(pc) + self.axioms + list(extra) if not (isinstance(f, bool) and f)]
        if any(isinstance(f, bool) and not f for f in fs):
            return 'unsat'
        key = tuple(sorted({f.get_id() for f in fs}))
        if key in self.feas_cache:
            return self.feas_cache[key]
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.feas_timeout)
        s.add(*fs)
        r = str(s.check())
        self.solver_time += time.time() - t
        self.queries += 1
        self.keep.append(fs)
        self.feas_cache[key] = r
        return r

    def divide(self, x, y, k):
        """quotient and remainder of unsigned k-bit magnitudes, y != 0.  Both are uninterpreted; the axioms are instances of
        facts about Euclidean division over the integers (proved in /verif/proofs/Div.lean):
          r < y, q <= x, r <= x;  x < y -> q = 0, r = x;  y = 1 -> q = x, r = 0;  y >= 2 -> q <= x >> 1;
          same x, y -> same q, r;  same y, x2 = x1 - r1 -> q2 = q1, r2 = 0."""
        for X, Y, q, r, kk in self.divs:
            if kk == k and X.get_id() == x.get_id() and Y.get_id() == y.get_id():
                return q, r
        B = z3.BitVecSort(k)
        q = z3.Function(f'pyquot{k}', B, B, B)(x, y)
        r = z3.Function(f'pyrem{k}', B, B, B)(x, y)
        ax = [z3.Implies(y != 0, z3.And(z3.ULT(r, y), z3.ULE(q, x), z3.ULE(r, x))),
              z3.Implies(z3.ULT(x, y), z3.And(q == 0, r == x)),
              z3.Implies(y == 1, z3.And(q == x, r == 0)),
              z3.Implies(z3.UGE(y, 2), z3.ULE(q, z3.LShR(x, 1)))]
        for X, Y, Q, R, kk in self.divs:
            m = max(k, kk)
            e = lambda t: sym.resize_u(t, m)
            x1, y1, q1, r1, x2, y2, q2, r2 = map(e, (X, Y, Q, R, x, y, q, r))
            ax.append(z3.Implies(z3.And(y1 == y2, x1 == x2), z3.And(q1 == q2, r1 == r2)))
            ok = z3.And(y1 == y2, y1 != 0)
            ax.append(z3.Implies(z3.And(ok, x2 == x1 - r1), z3.And(q1 == q2, r2 == 0)))
            ax.append(z3.Implies(z3.And(ok, x1 == x2 - r2), z3.And(q1 == q2, r1 == 0)))
        self.axioms += ax
        self.divs.append((x, y, q, r, k))
        return q, r

    def implied(self, cond):
        if isinstance(cond, bool):
            return cond
        return self.check(self.hyps + [z3.Not(cond)]) == 'unsat'

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.pc.append(cond)
        self.assumed += 1

    def decide(self, cond):
        """truth of cond on this path (forks when both are possible)"""
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        d = self.dec
        i = len(d.trail)
        if i < len(d.prefix):
            ch = d.prefix[i]
        else:
            if time.time() > self.deadline:
                raise Budget('time budget')
            f = self.check([z3.Not(cond)]) != 'unsat'
            t = self.check([cond]) != 'unsat' if f else True
            if not t and not f:
                raise Infeasible()
            ch = t
            if t and f:
                d.alts.append(d.trail + [False])
        d.trail.append(ch)
        self.pc.append(cond if ch else z3.Not(cond))
        return ch

    def pick(self, conds):
        """index of the alternative taken; conds exhaustive"""
        for i, c in enumerate(conds[:-1]):
            if self.decide(c):
                return i
        return len(conds) - 1

    # ------------------------------------------------------------ exploration
    def explore(self, thunk, conds0=()):
        """run thunk from the current state under every feasible decision sequence -> [Outcome]"""
        st0, pc0, dec0 = self.st, self.pc, self.dec
        work = [[]]
        outs = []
        while work:
            pre = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget('path budget')
            self.st = st0.copy()
            self.pc = list(pc0)
            self.dec = Dec(pre)
            try:
                for c in conds0:
                    self.assume(c)
                n0 = self.assumed
                v = thunk()
                kind, val = 'normal', v
            except PyRaise as e:
                kind, val = 'raise', e.exc
            except Ret as e:
                kind, val = 'return', e.v
            except Brk:
                kind, val = 'break', None
            except Cont:
                kind, val = 'continue', None
            except Infeasible:
                work.extend(self.dec.alts)
                continue
            outs.append(Outcome(kind, val, self.st, self.pc[len(pc0):], self.assumed != n0))
            work.extend(self.dec.alts)
        st0.owned = set()
        self.st, self.pc, self.dec = st0, pc0, dec0
        return outs

    def branch(self, alts):
        """alts: [(cond, thunk)], conditions exclusive and exhaustive under pc.  Runs every feasible alternative, merges
        outcomes of the same kind and continues with one of the merged groups (forking if several)."""
        st0 = self.st
        outs = []
        for c, th in alts:
            if isinstance(c, bool):
                if c:
                    outs += self.explore(th)
                continue
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                outs += self.explore(th)
                continue
            if len(alts) > 1 and self.check([c]) == 'unsat':
                continue
            outs += self.explore(th, (c,))
        if not outs:
            raise Infeasible()
        return self.settle(st0, outs)

    def settle(self, st0, outs):
        if len(outs) == 1:
            o = outs[0]
            self.st = o.st
            self.pc = self.pc + o.conds
            return self.finish(o)
        groups = []
        for o in outs:
            for g in groups:
                if g.kind != o.kind:
                    continue
                try:
                    m = self.merge(st0, g, o)
                except Unmergeable:
                    continue
                g.val, g.st, g.conds, g.assumed = m.val, m.st, m.conds, m.assumed
                break
            else:
                groups.append(o)
        if len(groups) == 1:
            o = groups[0]
            self.st = o.st
            # all feasible alternatives merged: their disjunction is implied by pc and what was assumed on the way
            if o.assumed:
                self.pc = self.pc + o.conds
            return self.finish(o)
        i = self.pick([zand(*g.conds) for g in groups])
        self.st = groups[i].st
        if groups[i].assumed:
            self.pc = self.pc + groups[i].conds
        return self.finish(groups[i])

    def finish(self, o):
        self.st.owned = set()
        if o.kind == 'normal':
            return o.val
        if o.kind == 'raise':
            raise PyRaise(o.val)
        if o.kind == 'return':
            raise Ret(o.val)
        if o.kind == 'break':
            raise Brk()
        raise Cont()

    # ------------------------------------------------------------ merging
    def merge(self, st0, a, b):
        c = zand(*a.conds)
        if c is True:
            raise Unmergeable()
        m = Merger(self, st0, a.st, b.st, c)
        if a.kind == 'raise':
            if a.val.cls is not b.val.cls or len(a.val.args) != len(b.val.args) or a.val.attrs or b.val.attrs:
                raise Unmergeable()
            val = ExcVal(a.val.cls, tuple(m.val(x, y) for x, y in zip(a.val.args, b.val.args)))
        else:
            val = m.val(a.val, b.val)
        st = m.finish()
        disj = zor(c, zand(*b.conds))
        return Outcome(a.kind, val, st, [] if disj is True else [z3.simplify(disj)], a.assumed or b.assumed)

    # ------------------------------------------------------------ heap
    def alloc(self, rec):
        i = self.nid
        self.nid += 1
        self.st.heap[i] = rec
        self.st.owned.add(i)
        return Ref(i)

    def rd(self, ref):
        return self.st.heap[ref.id]

    def wr(self, ref):
        h = self.st.heap
        r = h[ref.id]
        if ref.id not in self.st.owned:
            r = h[ref.id] = r.copy()
            self.st.owned.add(ref.id)
        return r

    def fresh_name(self, base):
        self.st.fresh += 1
        return f'{base}!{self.st.fresh}'

    def new_list(self, items):
        return self.alloc(ListRec([list(items)]))

    def new_bytes(self, seq):
        return self.alloc(BytesRec(seq))

    def event(self, *e):
        self.st.ghost = self.st.ghost + (e,)

    def raise_(self, cls, *args, **attrs):
        raise PyRaise(ExcVal(cls, args, attrs))

    # ------------------------------------------------------------ lists with unknown parts
    def seg_len(self, s):
        return len(s) if isinstance(s, list) else s.n

    def list_len(self, rec):
        n = 0
        for s in rec.segs:
            n = sym.add(n, self.seg_len(s))
        return n

    def materialise(self, seg, j):
        """the value at offset j of an unknown segment"""
        if isinstance(seg, GenSeg):
            return seg.value(self, j)
        if isinstance(seg, RevSeg):
            return self.materialise(seg.inner, sym.sub(sym.sub(seg.n, 1), j))
        if isinstance(seg, FoldSeg):
            raise Unsupported('element of a concatenation of unknown length')
        idx = sym.add(seg.off, j)
        for b, i, v, nm in self.st.memo:
            if b is seg.base and self.decide(sym.cmp('==', i, idx)):
                return v
        nm = f'{seg.base.name}@{sum(1 for m in self.st.memo if m[0] is seg.base)}'
        at = getattr(seg.base, 'at', None)
        born = self.nid
        if at is not None:
            v = at(self, idx)
            for q in self.models.loops.refs(v):
                self.memo_heap.setdefault(q.id, dict(self.st.heap))
                self.memo_born.setdefault(q.id, born)
            self.st.owned = set()
        else:
            v = seg.base.factory(self, nm)
        if isinstance(v, Ref) and at is None:
            self.memo_heap[v.id] = dict(self.st.heap)
            self.memo_born[v.id] = born
            self.st.owned = set()
        self.st.memo = self.st.memo + ((seg.base, idx, v, nm),)
        return v

    def split_seg(self, seg, j):
        """unknown segment -> (before j, element j, after j)"""
        v = self.materialise(seg, j)
        if isinstance(seg, GenSeg):
            j1 = sym.add(j, 1)
            return [GenSeg(j, seg.value, seg.tag), [v],
                    GenSeg(sym.sub(seg.n, j1), lambda e, k, f=seg.value: f(e, sym.add(k, j1)), seg.tag)]
        if isinstance(seg, RevSeg):
            a, _, b = self.split_seg(seg.inner, sym.sub(sym.sub(seg.n, 1), j))
            return [RevSeg(b), [v], RevSeg(a)]
        return [SymSeg(seg.base, seg.off, j), [v],
                SymSeg(seg.base, sym.add(seg.off, sym.add(j, 1)), sym.sub(seg.n, sym.add(j, 1)))]

    def norm_segs(self, segs):
        out = []
        for s in segs:
            n = sym.concretize(self.seg_len(s))
            if isinstance(n, int) and n == 0:
                continue
            if isinstance(s, list) and out and isinstance(out[-1], list):
                out[-1] = out[-1] + s
            else:
                out.append(s)
        return out

    def list_locate(self, ref, i, read=False):
        """make element i (0 <= i < len established) concrete; -> (segment number, offset)"""
        rec = self.rd(ref)
        off = 0
        last = len(rec.segs) - 1
        for k, s in enumerate(rec.segs):
            n = self.seg_len(s)
            end = sym.add(off, n)
            if k == last or self.decide(sym.cmp('<', i, end)):
                j = sym.concretize(sym.sub(i, off))
                if not isinstance(j, int):
                    d = sym.const_diff(i, off)
                    j = j if d is None else d
                if isinstance(s, list):
                    if isinstance(j, int):
                        return k, j
                    for q in range(len(s) - 1):
                        if self.decide(sym.cmp('==', j, q)):
                            return k, q
                    return k, len(s) - 1
                if read:
                    return None, self.materialise(s, j)
                parts = self.split_seg(s, j)
                rec = self.wr(ref)
                rec.segs[k:k + 1] = parts
                return k + 1, 0
            off = end
        raise Unsupported('empty list')

    def norm_index(self, i, n, exc=IndexError):
        """Python index normalisation with bounds check"""
        if isinstance(i, SBool):
            i = sym.ite(i.t, 1, 0)
        if isinstance(i, bool):
            i = int(i)
        if not is_int(i):
            self.raise_(TypeError, 'index')
        if self.decide(sym.cmp('<', i, 0)):
            i = sym.add(n, i)
            if self.decide(sym.cmp('<', i, 0)):
                self.raise_(exc, 'index out of range')
            return i
        if not self.decide(sym.cmp('<', i, n)):
            self.raise_(exc, 'index out of range')
        return i

    def list_get(self, ref, i):
        rec = self.rd(ref)
        if isinstance(i, int) and rec.segs:
            if len(rec.segs) == 1 and isinstance(rec.segs[0], list):
                s = rec.segs[0]
                if -len(s) <= i < len(s):
                    return s[i]
                self.raise_(IndexError, 'list index out of range')
            if i < 0 and isinstance(rec.segs[-1], list) and -i <= len(rec.segs[-1]):
                return rec.segs[-1][i]
            if i >= 0 and isinstance(rec.segs[0], list) and i < len(rec.segs[0]):
                return rec.segs[0][i]
        i = self.norm_index(i, self.list_len(rec))
        if self.numeric_list(rec) and not isinstance(i, int):
            s = rec.segs[0]
            t = i.low(max(i.w, len(s).bit_length() + 1))
            r = s[-1]
            for j in range(len(s) - 2, -1, -1):
                r = self.models.choose(self, t == j, s[j], r)
            return r
        k, j = self.list_locate(ref, i, True)
        return j if k is None else self.rd(ref).segs[k][j]

    def numeric_list(self, rec):
        """one explicit run of integers, or of floats"""
        if len(rec.segs) != 1 or not isinstance(rec.segs[0], list) or not 1 < len(rec.segs[0]) <= 64:
            return False
        s = rec.segs[0]
        return all(is_int(x) for x in s) or all(isinstance(x, (float, SFloat)) for x in s)

    def list_set(self, ref, i, v):
        rec = self.rd(ref)
        i = self.norm_index(i, self.list_len(rec))
        if not isinstance(i, int) and self.numeric_list(rec) and (is_int(v) and is_int(rec.segs[0][0]) or isinstance(
                v, (float, SFloat)) and isinstance(rec.segs[0][0], (float, SFloat))):
            s = rec.segs[0]
            t = i.low(max(i.w, len(s).bit_length() + 1))
            self.wr(ref).segs[0] = [self.models.choose(self, t == j, v, x) for j, x in enumerate(s)]
            return
        k, j = self.list_locate(ref, i)
        self.wr(ref).segs[k][j] = v

    def list_append(self, ref, v):
        rec = self.wr(ref)
        if rec.segs and isinstance(rec.segs[-1], list):
            rec.segs[-1] = rec.segs[-1] + [v]
        else:
            rec.segs = rec.segs + [[v]]

    def list_pop(self, ref, i=-1):
        rec = self.rd(ref)
        if i == -1 and rec.segs and isinstance(rec.segs[-1], list) and rec.segs[-1]:
            rec = self.wr(ref)
            v = rec.segs[-1][-1]
            rec.segs[-1] = rec.segs[-1][:-1]
            if not rec.segs[-1]:
                rec.segs.pop()
            return v
        n = self.list_len(rec)
        if self.decide(sym.cmp('==', n, 0)):
            self.raise_(IndexError, 'pop from empty list')
        i = self.norm_index(i, n)
        k, j = self.list_locate(ref, i)
        rec = self.wr(ref)
        v = rec.segs[k][j]
        rec.segs[k] = rec.segs[k][:j] + rec.segs[k][j + 1:]
        rec.segs = self.norm_segs(rec.segs)
        return v

    def list_cut(self, segs, x):
        """split a segment list at position x (0 <= x <= len) -> (before, after)"""
        off = 0
        for k, s in enumerate(segs):
            n = self.seg_len(s)
            end = sym.add(off, n)
            if self.decide(sym.cmp('<=', x, end)):
                j = sym.concretize(sym.sub(x, off))
                if not isinstance(j, int):
                    d = sym.const_diff(x, off)
                    j = j if d is None else d
                if isinstance(s, list):
                    if not isinstance(j, int):
                        for q in range(len(s)):
                            if self.decide(sym.cmp('==', j, q)):
                                j = q
                                break
                        else:
                            j = len(s)
                    a, b = s[:j], s[j:]
                elif isinstance(s, GenSeg):
                    a = GenSeg(j, s.value, s.tag)
                    b = GenSeg(sym.sub(s.n, j), lambda e, q, f=s.value, j=j: f(e, sym.add(q, j)), s.tag)
                elif isinstance(s, RevSeg):
                    y, x = self.list_cut([s.inner], sym.sub(s.n, j))
                    a = [RevSeg(q) for q in x]
                    b = [RevSeg(q) for q in y]
                    return self.norm_segs(segs[:k] + a), self.norm_segs(b + segs[k + 1:])
                elif isinstance(s, FoldSeg):
                    if self.implied(sym.cmp('==', j, n)):
                        return self.norm_segs(segs[:k + 1]), self.norm_segs(segs[k + 1:])
                    if self.implied(sym.cmp('==', j, 0)):
                        return self.norm_segs(segs[:k]), self.norm_segs(segs[k:])
                    raise Unsupported('part of a concatenation of unknown length')
                else:
                    a = SymSeg(s.base, s.off, j)
                    b = SymSeg(s.base, sym.add(s.off, j), sym.sub(s.n, j))
                return self.norm_segs(segs[:k] + [a]), self.norm_segs([b] + segs[k + 1:])
            off = end
        return list(segs), []

    def clamp(self, x, n, default):
        if x is None:
            return default
        if isinstance(x, Union):
            x = self.split_union(x)
        if not is_int(x):
            self.raise_(TypeError, 'slice index')
        if self.decide(sym.cmp('<', x, 0)):
            x = sym.add(n, x)
            if self.decide(sym.cmp('<', x, 0)):
                return 0
            return x
        if self.decide(sym.cmp('<=', x, n)):
            return x
        return n

    def slice_bounds(self, lo, hi, n):
        a = self.clamp(lo, n, 0)
        b = self.clamp(hi, n, n)
        if not self.decide(sym.cmp('<=', a, b)):
            b = a
        return a, b

    # ------------------------------------------------------------ misc helpers
    def split_union(self, u):
        """fork on the alternatives of a Union and return the chosen value"""
        while isinstance(u, Union):
            i = self.pick([c for c, _ in u.alts])
            u = u.alts[i][1]
        return u

    def lift(self, f, *args):
        """apply f with Unions distributed and the results merged"""
        for i, a in enumerate(args):
            if isinstance(a, Union):
                return self.branch([(c, (lambda v=v: self.lift(f, *args[:i], v, *args[i + 1:]))) for c, v in a.alts])
        return f(*args)

    def truth(self, v):
        """-> bool or z3 Bool"""
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, z3.ExprRef):
            raise Unsupported('a bare term where a value is expected')
        if isinstance(v, SInt):
            return sym.cmp('!=', v, 0)
        if isinstance(v, SFloat):
            return sym.fcmp_int('!=', v, 0)
        if isinstance(v, Union):
            return zor(*[zand(c, self.truth(x)) for c, x in v.alts])
        if isinstance(v, Ref):
            r = self.rd(v)
            if isinstance(r, ListRec):
                return sym.cmp('!=', self.list_len(r), 0)
            if isinstance(r, BytesRec):
                return sym.cmp('!=', r.seq.n, 0)
            if isinstance(r, DictRec):
                return bool(r.d)
            if isinstance(r, ObjRec):
                for nm in ('__bool__', '__len__'):
                    if hasattr(r.cls, nm):
                        return self.truth(self.call(self.getattr_(v, nm), []))
                return True
            return True
        if isinstance(v, SBytes):
            return sym.cmp('!=', v.seq.n, 0)
        if isinstance(v, SStr):
            return sym.cmp('!=', self.str_len(v), 0)
        if isinstance(v, Opaque):
            if 'truth' in v.attrs:
                return v.attrs['truth']
            return True
        if isinstance(v, (Closure, BoundMethod, BuiltinMethod)):
            return True
        return bool(v)

    def str_len(self, s):
        if isinstance(s, SStr):
            if s.nchars is None:
                raise Unsupported('len of opaque string')
            return s.nchars
        return len(s)

    # ------------------------------------------------------------ function calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        self.steps += 1
        if isinstance(f, Union):
            f = self.split_union(f)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, BuiltinMethod):
            return self.models.call_method(self, f.recv, f.name, list(args), kw)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.wrap_real(f.__self__)] + list(args), kw)
        if isinstance(f, types.FunctionType):
            key = f'{f.__module__}.{f.__qualname__}'
            m = self.models.FUNCS.get(f)
            if m is not None:
                return m(self, *args, **kw)
            if self.has_streams:
                v = self.models.streams.call_at(self, key, args)
                if v is not self.models.streams.NOTHING:
                    return v
            ct = self.contracts.get(key)
            if ct is not None and key not in self.disabled:
                self.used_contracts.add(key)
                try:
                    return ct(self, *args, **kw)
                except Inline:
                    pass
            lib = getattr(self, 'lib_hook', None)
            if lib is not None and not (f.__module__ or '').startswith(('pywasm', 'contracts', 'pydv')):
                r = lib(self, f, args, kw)
                if r is not self.models.MISSING:
                    return r
            node = fn_node(f)
            if node is None:
                return self.models.call_external(self, f, list(args), kw)
            self.inlined.add(key)
            return self.call_node(node, Ctx(f.__globals__, key), None, list(args), kw, f.__defaults__, f)
        if isinstance(f, type):
            return self.instantiate(f, list(args), kw)
        return self.models.call_external(self, f, list(args), kw)

    def wrap_real(self, x):
        return x

    def call_closure(self, c, args, kw):
        return self.call_node(c.node, c.ctx, c.env, list(args), kw, None, None)

    def bind(self, node, args, kw, defaults, fn, ctx):
        a = node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            self.raise_(TypeError, 'too many arguments')
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        rest = {}
        for k, v in kw.items():
            if k in env:
                self.raise_(TypeError, 'multiple values')
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.raise_(TypeError, 'unexpected keyword')
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(DictRec(rest))
        if defaults is None and fn is None:
            defaults = tuple(self.eval(d, Frame({}, None, ctx, self)) for d in a.defaults) if a.defaults else ()
        defaults = defaults or ()
        off = len(names) - len(defaults)
        for i, n in enumerate(names):
            if n not in env:
                if i >= off:
                    env[n] = self.lift_const(defaults[i - off])
                else:
                    self.raise_(TypeError, f'missing argument {n}')
        for i, x in enumerate(a.kwonlyargs):
            if x.arg not in env:
                d = (fn.__kwdefaults__ or {}).get(x.arg, MISSING) if fn else MISSING
                if d is MISSING:
                    self.raise_(TypeError, 'missing keyword argument')
                env[x.arg] = self.lift_const(d)
        return env

    def lift_const(self, v):
        return v

    def call_node(self, node, ctx, parent, args, kw, defaults, fn):
        env = self.bind(node, args, kw, defaults, fn, ctx)
        fr = Frame(env, parent, ctx, self)
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        depth = self.depth = getattr(self, 'depth', 0) + 1
        if depth > 150:
            self.depth = 0
            raise Unsupported('recursion too deep')

        def body():
            try:
                self.block(node.body, fr)
            except Ret as r:
                return r.v
            return None
        flat, self.flat_next = self.flat_next, False
        try:
            return body() if flat else self.branch([(True, body)])
        finally:
            self.depth = depth - 1

    def instantiate(self, cls, args, kw):
        m = self.models.CLASSES.get(cls)
        if m is not None:
            return m(self, *args, **kw)
        if issubclass(cls, BaseException):
            return ExcVal(cls, tuple(args))
        mod = sys.modules.get(cls.__module__)
        f = getattr(mod, '__file__', '') or ''
        if not (f.startswith(REPO + '/') or f.startswith(VERIF + '/')):
            return self.models.call_external(self, cls, args, kw)
        ref = self.alloc(ObjRec(cls, {}))
        if dataclasses.is_dataclass(cls) and '__init__' in cls.__dict__ and fn_node(cls.__init__) is None:
            flds = dataclasses.fields(cls)
            vals = dict(zip([x.name for x in flds], args))
            for k, v in kw.items():
                if k in vals or k not in [x.name for x in flds]:
                    self.raise_(TypeError, 'bad argument')
                vals[k] = v
            for x in flds:
                if x.name not in vals:
                    if x.default is not dataclasses.MISSING:
                        vals[x.name] = x.default
                    elif x.default_factory is not dataclasses.MISSING:
                        vals[x.name] = self.call(x.default_factory, [], {})
                    else:
                        self.raise_(TypeError, f'missing {x.name}')
            self.wr(ref).attrs.update(vals)
            return ref
        init = cls.__init__
        if init is object.__init__:
            if args or kw:
                self.raise_(TypeError, 'no arguments expected')
            return ref
        self.call(init, [ref] + args, kw)
        return ref

    # ------------------------------------------------------------ attributes
    def getattr_(self, v, name):
        if isinstance(v, Union):
            v = self.split_union(v)
        if isinstance(v, Ref):
            r = self.rd(v)
            if isinstance(r, ObjRec):
                if name in r.attrs:
                    return r.attrs[name]
                cls = r.cls
                for k in cls.__mro__:
                    if name in k.__dict__:
                        d = k.__dict__[name]
                        if isinstance(d, staticmethod):
                            return d.__func__
                        if isinstance(d, classmethod):
                            return BoundMethod(d.__func__, cls)
                        if isinstance(d, property):
                            return self.call(d.fget, [v])
                        if isinstance(d, types.FunctionType):
                            return BoundMethod(d, v)
                        if k is object:
                            break
                        if isinstance(d, types.MethodDescriptorType):
                            return BuiltinMethod(v, name)
                        return self.lift_const(d)
                if name == '__class__':
                    return cls
                if self.models.has_method(r, name):
                    return BuiltinMethod(v, name)
                self.raise_(AttributeError, name)
            if name == '__class__':
                return {ListRec: list, BytesRec: bytearray, DictRec: dict}[type(r)]
            return BuiltinMethod(v, name)
        if isinstance(v, ExcVal):
            if name == 'args':
                return tuple(v.args)
            if name in v.attrs:
                return v.attrs[name]
            self.raise_(AttributeError, name)
        if isinstance(v, Opaque):
            if name in v.attrs:
                return v.attrs[name]
            return BuiltinMethod(v, name)
        if isinstance(v, (SInt, SFloat, SBool, SBytes, SStr)) or isinstance(v, (str, bytes, int, float, tuple)):
            return BuiltinMethod(v, name)
        if isinstance(v, type):
            for k in v.__mro__:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, classmethod):
                        return BoundMethod(d.__func__, v)
                    if isinstance(d, staticmethod):
                        return d.__func__
                    if isinstance(d, types.ClassMethodDescriptorType):
                        return getattr(v, name)
                    return d
            try:
                return getattr(v, name)
            except AttributeError:
                self.raise_(AttributeError, name)
        try:
            r = getattr(v, name)
        except AttributeError:
            self.raise_(AttributeError, name)
        return r

    def setattr_(self, v, name, x):
        if isinstance(v, Union):
            v = self.split_union(v)
        if isinstance(v, Ref):
            r = self.rd(v)
            if isinstance(r, ObjRec):
                self.wr(v).attrs[name] = x
                return
        raise Unsupported(f'attribute assignment on {v!r}')

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unsupported('global')

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            fr.set(a.asname or a.name.split('.')[0], sys.modules[a.name] if a.asname else m)

    def s_ImportFrom(self, s, fr):
        m = __import__(s.module, fromlist=[a.name for a in s.names])
        for a in s.names:
            fr.set(a.asname or a.name, getattr(m, a.name))

    def s_FunctionDef(self, s, fr):
        fr.set(s.name, Closure(s, fr.ref, fr.ctx, s.name))

    def s_Return(self, s, fr):
        raise Ret(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = fr.get(t.id)
            fr.set(t.id, self.augop(op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.augop(op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported('augassign')

    def augop(self, op, cur, v):
        if op == '+' and isinstance(cur, Ref):
            r = self.rd(cur)
            if isinstance(r, (ListRec, BytesRec)):
                self.models.call_method(self, cur, 'extend', [v], {})
                return cur
        return self.binop(op, cur, v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.delete(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval_index(t.slice, fr)
                self.delitem(o, k)
            else:
                raise Unsupported('del')

    def s_Assert(self, s, fr):
        if not self.test(s.test, fr):
            self.raise_(AssertionError)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.handling is None:
                raise Unsupported('bare raise')
            raise PyRaise(fr.handling)
        v = self.eval(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v)
        if not isinstance(v, ExcVal):
            raise Unsupported('raise of non-exception')
        raise PyRaise(v)

    def test(self, node, fr):
        """evaluate a condition and decide it (forks)"""
        return self.decide(self.truth(self.eval(node, fr)))

    def s_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if isinstance(c, bool):
            self.block(s.body if c else s.orelse, fr)
            return
        self.branch([(c, lambda: self.block(s.body, fr)), (z3.Not(c), lambda: self.block(s.orelse, fr))])

    def s_While(self, s, fr):
        n = 0
        while True:
            if not self.test(s.test, fr):
                self.block(s.orelse, fr)
                return
            if self.has_streams and self.models.streams.rep_loop(self, lambda j: self.loop_step(s, fr)):
                continue
            n += 1
            if n > 5000:
                raise Unsupported('loop bound')
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cont:
                pass

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        items = self.iterate(it)
        if isinstance(items, SymIter):
            if self.models.symbolic_for(self, s, items, fr):
                return
            items = items.unroll(self)
        n = 0
        many = isinstance(items, range) and len(items) >= 1 << 31
        for x in items:
            while self.has_streams and many and self.models.streams.rep_loop(self, lambda j: self.for_step(s, fr)):
                pass
            n += 1
            if n > 200000:
                raise Unsupported('loop bound')
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cont:
                pass
        self.block(s.orelse, fr)

    def loop_step(self, s, fr):
        if not self.test(s.test, fr):
            raise Brk()
        self.block(s.body, fr)

    def for_step(self, s, fr):
        self.assign(s.target, self.models.streams.POISON, fr)
        self.block(s.body, fr)

    def s_With(self, s, fr):
        raise Unsupported('with')

    def s_Try(self, s, fr):
        def run():
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(issubclass(e.exc.cls, x) for x in ts)
                    if ok:
                        if h.name:
                            fr.set(h.name, e.exc)
                        old, fr.handling = fr.handling, e.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling = old
                        return
                raise
            self.block(s.orelse, fr)
        if not s.finalbody:
            run()
            return
        try:
            run()
        except (PyRaise, Ret, Brk, Cont) as e:
            self.block(s.finalbody, fr)
            raise e
        self.block(s.finalbody, fr)

    def s_Match(self, s, fr):
        v = self.eval(s.subject, fr)
        if isinstance(v, Union):
            v = self.split_union(v)
        if not conc(v) and isinstance(v, (SInt, SBool)):
            # symbolic subject: decide case by case
            pass
        self.match_from(s, v, fr, 0)

    def match_from(self, s, v, fr, i):
        while i < len(s.cases):
            c = s.cases[i]
            i += 1
            r = self.match_pattern(c.pattern, v, fr)
            if r is False:
                continue
            if not self.decide(r):
                continue
            if c.guard is not None:
                g = self.truth(self.eval(c.guard, fr))
                g = z3.simplify(g) if not isinstance(g, bool) else g
                if isinstance(g, bool) or z3.is_true(g) or z3.is_false(g):
                    if g is False or not isinstance(g, bool) and z3.is_false(g):
                        continue
                else:
                    self.branch([(g, lambda: self.block(c.body, fr)), (z3.Not(g), lambda: self.match_from(s, v, fr, i))])
                    return
            self.block(c.body, fr)
            return

    def match_pattern(self, p, v, fr):
        """-> bool | z3 Bool"""
        if isinstance(p, ast.MatchValue):
            x = self.eval(p.value, fr)
            if isinstance(x, int) and isinstance(v, int):
                return x == v
            return bterm(self.compare('==', v, x))
        if isinstance(p, ast.MatchSingleton):
            return bterm(self.compare('is', v, p.value))
        if isinstance(p, ast.MatchAs):
            r = True if p.pattern is None else self.match_pattern(p.pattern, v, fr)
            if p.name and r is not False:
                fr.set(p.name, v)
            return r
        if isinstance(p, ast.MatchOr):
            return zor(*[self.match_pattern(q, v, fr) for q in p.patterns])
        raise Unsupported('match pattern')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate_concrete(v))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_(ValueError, 'unpack')
                parts = items[:i] + [self.new_list(items[i:len(items) - k])] + items[len(items) - k:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != len(t.elts):
                self.raise_(ValueError, 'unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        t = type(n)
        if t is ast.Name:
            return fr.get(n.id)
        if t is ast.Constant:
            return n.value
        if t is ast.Attribute:
            return self.getattr_(self.eval(n.value, fr), n.attr)
        m = getattr(self, 'e_' + t.__name__, None)
        if m is None:
            raise Unsupported(f'expression {t.__name__}')
        return m(n, fr)

    def e_Call(self, n, fr):
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate_concrete(self.eval(a.value, fr)))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp(a, fr, lambda e: self.eval(a.elt, e)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                kw.update(self.rd(d).d if isinstance(d, Ref) else d)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def e_BinOp(self, n, fr):
        return self.binop(BINOPS.get(type(n.op), '?'), self.eval(n.left, fr), self.eval(n.right, fr))

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return mkbool(znot(self.truth(v)))
        return self.lift(lambda x: self.unary(n.op, x), v)

    def unary(self, op, v):
        if isinstance(v, (SBool, bool)):
            v = self.as_int(v)
        if isinstance(op, ast.USub):
            if is_int(v):
                return sym.neg(v)
            if isinstance(v, float):
                return -v
            if isinstance(v, SFloat):
                return sym.fneg(v)
        if isinstance(op, ast.UAdd):
            if is_int(v) or isinstance(v, (float, SFloat)):
                return v
        if isinstance(op, ast.Invert) and is_int(v):
            return sym.inv(v)
        raise Unsupported('unary')

    def e_BoolOp(self, n, fr):
        return self.boolop(isinstance(n.op, ast.And), n.values, fr)

    def boolop(self, is_and, values, fr):
        v = self.eval(values[0], fr)
        if len(values) == 1:
            return v
        c = self.truth(v)
        if not isinstance(c, bool):
            c = z3.simplify(c)
            c = True if z3.is_true(c) else False if z3.is_false(c) else c
        if isinstance(c, bool):
            if c == is_and:
                return self.boolop(is_and, values[1:], fr)
            return v
        rest = lambda: self.boolop(is_and, values[1:], fr)
        if is_and:
            return self.branch([(c, rest), (z3.Not(c), lambda: False if isinstance(v, SBool) else v)])
        return self.branch([(c, lambda: True if isinstance(v, SBool) else v), (z3.Not(c), rest)])

    def e_IfExp(self, n, fr):
        c = self.truth(self.eval(n.test, fr))
        if not isinstance(c, bool):
            c = z3.simplify(c)
            c = True if z3.is_true(c) else False if z3.is_false(c) else c
        if isinstance(c, bool):
            return self.eval(n.body if c else n.orelse, fr)
        return self.branch([(c, lambda: self.eval(n.body, fr)), (z3.Not(c), lambda: self.eval(n.orelse, fr))])

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        acc = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, fr)
            r = self.compare(CMPOPS[type(op)], left, right)
            if len(n.ops) == 1:
                return r
            acc = zand(acc, bterm(r))
            if acc is False:
                return False
            left = right
        return mkbool(acc)

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate_concrete(self.eval(e.value, fr)))
            else:
                out.append(self.eval(e, fr))
        return out

    def e_List(self, n, fr):
        return self.new_list(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return frozenset(self.elts(n.elts, fr))

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            kk = self.eval(k, fr)
            vv = self.eval(v, fr)
            if not conc(kk):
                raise Unsupported('symbolic dict key')
            d[kk] = vv
        return self.alloc(DictRec(d))

    def e_Lambda(self, n, fr):
        return Closure(n, fr.ref, fr.ctx, '<lambda>')

    def e_JoinedStr(self, n, fr):
        # formatted text is only ever logged or put into messages; its content is not modelled
        return SStr(('fstr', n.lineno, n.col_offset))

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        return self.getitem(o, self.eval_index(n.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*[None if x is None else self.eval(x, fr) for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, lambda e: self.eval(n.elt, e))

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, lambda e: self.eval(n.elt, e))

    def e_SetComp(self, n, fr):
        r = self.comp(n, fr, lambda e: self.eval(n.elt, e))
        return frozenset(self.iterate_concrete(r))

    def e_DictComp(self, n, fr):
        out = self.new_list([])
        r = self.comp(n, fr, lambda e: (self.eval(n.key, e), self.eval(n.value, e)))
        d = {}
        for k, v in self.iterate_concrete(r):
            if not conc(k):
                raise Unsupported('symbolic dict key')
            d[k] = v
        return self.alloc(DictRec(d))

    def comp(self, n, fr, elt):
        out = self.new_list([])
        inner = Frame({}, fr.ref, fr.ctx, self)
        g0 = n.generators[0]
        first = self.iterate(self.eval(g0.iter, fr))
        if isinstance(first, SymIter):
            if len(n.generators) == 1 and not g0.ifs:
                r = self.models.symbolic_comp(self, n, first, inner, elt, out)
                if r is not None:
                    return r
            if len(n.generators) == 1:
                def body(j):
                    self.assign(g0.target, first.at(self, j), inner)
                    if all(self.test(c, inner) for c in g0.ifs):
                        self.list_append(out, elt(inner))
                ps = self.models.loops.parts(self, first)
                if ps is not None:
                    def item(x):
                        self.assign(g0.target, x, inner)
                        if all(self.test(c, inner) for c in g0.ifs):
                            self.list_append(out, elt(inner))
                    self.models.loops.piecewise(self, first, ps, item)
                    return out
                if self.models.loops.generic(self, first.n, body, over=first.sources(), label='comp'):
                    return out
            first = first.unroll(self)

        def gen(i, items):
            g = n.generators[i]
            for x in items:
                self.assign(g.target, x, inner)
                if all(self.test(c, inner) for c in g.ifs):
                    if i + 1 < len(n.generators):
                        gen(i + 1, self.iterate_concrete(self.eval(n.generators[i + 1].iter, inner)))
                    else:
                        self.list_append(out, elt(inner))
        gen(0, first)
        return out

    # ------------------------------------------------------------ operators
    def as_int(self, v):
        if isinstance(v, SBool):
            return sym.ite(v.t, 1, 0)
        if isinstance(v, bool):
            return int(v)
        return v

    def binop(self, op, a, b):
        if isinstance(a, Union) or isinstance(b, Union):
            return self.lift(lambda x, y: self.binop(op, x, y), a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                if op in ('<<',) and isinstance(b, int) and b > 100000:
                    raise Unsupported('huge shift')
                return PYOP[op](a, b)
            except (ZeroDivisionError, ValueError, OverflowError, TypeError) as e:
                self.raise_(type(e), str(e))
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and op in '&|^':
            x, y = bterm(a), bterm(b)
            return mkbool({'&': zand(x, y), '|': zor(x, y), '^': z3.Xor(sym.zite(True, x, x) if not isinstance(x, bool)
                          else z3.BoolVal(x), y if not isinstance(y, bool) else z3.BoolVal(y))}[op])
        a, b = self.as_int(a), self.as_int(b)
        if is_int(a) and is_int(b):
            if op == '+':
                return sym.add(a, b)
            if op == '-':
                return sym.sub(a, b)
            if op == '*':
                return sym.mul(a, b)
            if op in '&|^':
                return sym.bitop(op, a, b)
            if op in ('<<', '>>'):
                if self.decide(sym.cmp('<', b, 0)):
                    self.raise_(ValueError, 'negative shift count')
                return sym.shl(a, b) if op == '<<' else sym.shr(a, b)
            if op in ('//', '%'):
                if self.decide(sym.cmp('==', b, 0)):
                    self.raise_(ZeroDivisionError)
                return sym.divmod_(a, b)[0 if op == '//' else 1]
            if op == '/':
                if self.decide(sym.cmp('==', b, 0)):
                    self.raise_(ZeroDivisionError)
                return SFloat(fp=z3.FP(self.fresh_name('ratio'), sym.FP64), nanb=sym.bv(0, 64))
            raise Unsupported(f'int {op}')
        fa, fb = isinstance(a, (float, SFloat)), isinstance(b, (float, SFloat))
        if (fa or is_int(a)) and (fb or is_int(b)) and (fa or fb):
            return self.fbin(op, self.as_float(a), self.as_float(b))
        r = self.models.binop(self, op, a, b)
        if r is MISSING:
            raise Unsupported(f'{op} on {a!r}, {b!r}')
        return r

    def as_float(self, a):
        if isinstance(a, (float, SFloat)):
            return sym.as_sfloat(a)
        if isinstance(a, SInt):
            return sym.int_to_float(a)
        return sym.as_sfloat(float(a))

    def fbin(self, op, a, b):
        if op == '/':
            if self.decide(sym.fcmp('==', b, sym.as_sfloat(0.0))):
                self.raise_(ZeroDivisionError)
        fn = {'+': ('add', z3.fpAdd), '-': ('sub', z3.fpSub), '*': ('mul', z3.fpMul), '/': ('div', z3.fpDiv)}.get(op)
        if fn is None:
            raise Unsupported(f'float {op}')
        r = fn[1](sym.RNE, a.fp, b.fp)
        nb = self.nan_result([a, b])
        o = (fn[0], [a.f32, b.f32]) if a.f32 is not None and b.f32 is not None else None
        return SFloat(fp=r, nanb=nb, op=o)

    def nan_result(self, xs):
        """bit pattern of a NaN produced by an arithmetic operation: a quieted input NaN, or the default NaN of either
        sign (left open, as by IEEE-754 and WebAssembly)"""
        c = z3.Bool(self.fresh_name('nansign'))
        q = sym.bv(sym.QUIET64, 64)
        r = z3.If(c, sym.bv(0xfff8 << 48, 64), sym.bv(0x7ff8 << 48, 64))
        for x in reversed(xs):
            ch = z3.Bool(self.fresh_name('nanpick')) if len(xs) > 1 and x is xs[0] else None
            cond = x.isnan()
            if ch is not None:
                cond = z3.And(cond, z3.Or(ch, z3.Not(xs[1].isnan())))
            r = z3.If(cond, x.nanb | q, r)
        return r

    def compare(self, op, a, b):
        if isinstance(a, Union) or isinstance(b, Union):
            if op in ('is', 'is not') or True:
                return self.lift(lambda x, y: self.compare(op, x, y), a, b)
        if op in ('is', 'is not'):
            r = self.is_(a, b)
            return r if op == 'is' else (not r)
        if op in ('in', 'not in'):
            r = self.contains(b, a)
            return r if op == 'in' else mkbool(znot(bterm(r)))
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and op in ('==', '!='):
            x, y = bterm(a), bterm(b)
            if isinstance(x, bool) and isinstance(y, bool):
                return PYCMP[op](x, y)
            if isinstance(x, bool):
                x, y = y, x
            e = x if y is True else z3.Not(x) if y is False else x == y
            return mkbool(e if op == '==' else z3.Not(e))
        a, b = self.as_int(a), self.as_int(b)
        if is_int(a) and is_int(b):
            return mkbool(sym.cmp(op, a, b))
        fa, fb = isinstance(a, (float, SFloat)), isinstance(b, (float, SFloat))
        if fa and fb:
            if isinstance(a, float) and isinstance(b, float):
                return PYCMP[op](a, b)
            return mkbool(sym.fcmp(op, sym.as_sfloat(a), sym.as_sfloat(b)))
        if fa and is_int(b) or fb and is_int(a):
            if fb:
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if isinstance(b, SInt):
                if isinstance(b, sym.FInt):
                    return mkbool(sym.fcmp(op, sym.as_sfloat(a), b.g))
                if b.w <= 54:
                    return mkbool(sym.fcmp(op, sym.as_sfloat(a), sym.int_to_float(b)))
                raise Unsupported('float/int comparison')
            if isinstance(a, float):
                return PYCMP[op](a, b)
            return mkbool(sym.fcmp_int(op, a, b))
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else mkbool(znot(bterm(r)))
        if conc(a) and conc(b):
            try:
                return PYCMP[op](a, b)
            except TypeError as e:
                self.raise_(TypeError, str(e))
        raise Unsupported(f'compare {op} {a!r} {b!r}')

    def is_(self, a, b):
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a == b
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, SBool)) and isinstance(b, bool):
            return a is b if isinstance(a, bool) else mkbool(a.t if b else z3.Not(a.t))
        if conc(a) and conc(b):
            return a is b or (type(a) is type(b) and a == b)
        return a is b

    def equal(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return True
        if isinstance(a, Ref) or isinstance(b, Ref):
            ra = self.rd(a) if isinstance(a, Ref) else None
            rb = self.rd(b) if isinstance(b, Ref) else None
            if isinstance(ra, ObjRec) and '__eq__' in ra.cls.__dict__ or \
                    isinstance(ra, ObjRec) and ra.cls.__eq__ is not object.__eq__ and not dataclasses.is_dataclass(ra.cls):
                return mkbool(self.truth(self.call(ra.cls.__eq__, [a, b])))
            if isinstance(ra, ObjRec) and dataclasses.is_dataclass(ra.cls):
                if not isinstance(rb, ObjRec) or rb.cls is not ra.cls:
                    return False
                return mkbool(zand(*[bterm(self.compare('==', ra.attrs[f.name], rb.attrs[f.name]))
                                     for f in dataclasses.fields(ra.cls)]))
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                return self.list_equal(a, b)
            if isinstance(ra, BytesRec) or isinstance(rb, BytesRec):
                x, y = self.bytes_of(a), self.bytes_of(b)
                if x is None or y is None:
                    return False
                return self.bytes_equal(x, y)
            if isinstance(ra, DictRec) and isinstance(rb, DictRec):
                if set(ra.d) != set(rb.d):
                    return False
                return mkbool(zand(*[bterm(self.compare('==', ra.d[k], rb.d[k])) for k in ra.d]))
            if ra is not None and rb is not None and isinstance(ra, ObjRec) and isinstance(rb, ObjRec):
                return False
            if ra is None and not isinstance(a, (Opaque, SStr, SBytes)) or rb is None and not isinstance(b, (Opaque, SStr, SBytes)):
                return False
            raise Unsupported(f'equality {a!r} {b!r}')
        if isinstance(a, SBytes) or isinstance(b, SBytes):
            x, y = self.bytes_of(a), self.bytes_of(b)
            if x is None or y is None:
                return False
            return self.bytes_equal(x, y)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return mkbool(zand(*[bterm(self.compare('==', x, y)) for x, y in zip(a, b)]))
        if isinstance(a, SStr) or isinstance(b, SStr):
            return self.models.str_equal(self, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            return self.models.opaque_equal(self, a, b)
        if (is_int(a) or isinstance(a, (float, SFloat, bool, SBool))) != (is_int(b) or isinstance(b, (float, SFloat, bool, SBool))):
            return False
        return a == b

    def segs_equal(self, s, t):
        """condition for two unknown runs of elements of the same length to be equal"""
        if s.base is t.base and sym.const_diff(s.off, t.off) == 0:
            return True
        # the same everywhere if the same at a position about which nothing is known
        jv = z3.BitVec(self.fresh_name('pos'), 64)
        j = SInt(0, max(sym.hi(s.n) - 1, 0), lambda k: sym.resize_u(jv, k))
        saved = self.st, self.pc, self.dec, self.depth
        try:
            outs = self.explore(lambda: bterm(self.compare('==', self.materialise(s, j), self.materialise(t, j))),
                                [sym.cmp('<', j, s.n), z3.ULE(jv, sym.bv(max(sym.hi(s.n) - 1, 0), 64))])
        except Budget:
            raise
        except Unsupported:
            self.st, self.pc, self.dec, self.depth = saved
            self.st.owned = set()
            outs = None
        if outs is not None and all(o.kind == 'normal' and (o.val is True or self.check(o.conds + [znot(o.val)]) == 'unsat') for o in outs):
            return True
        # otherwise an unknown truth value, the same every time the same lists are compared
        key = tuple(sorted((x.base.name, str(x.off)) for x in (s, t)))
        r = z3.Bool('listeq!' + '!'.join(f'{x}.{y}' for x, y in key))
        self.assume(zor(r, sym.cmp('!=', s.n, 0)))
        return r

    def list_equal(self, a, b):
        ra, rb = self.rd(a), self.rd(b)
        na, nb = self.list_len(ra), self.list_len(rb)
        if not self.decide(sym.cmp('==', na, nb)):
            return False
        if all(isinstance(s, list) for s in ra.segs) and all(isinstance(s, list) for s in rb.segs):
            xs = [x for s in ra.segs for x in s]
            ys = [x for s in rb.segs for x in s]
            acc = True
            for x, y in zip(xs, ys):
                acc = zand(acc, bterm(self.compare('==', x, y)))
                if acc is False:
                    return False
            return mkbool(acc)
        if len(ra.segs) == len(rb.segs) and all(sym.const_diff(self.seg_len(s), self.seg_len(t)) == 0 for s, t in zip(ra.segs, rb.segs)):
            acc = True
            for s, t in zip(ra.segs, rb.segs):
                if isinstance(s, list) and isinstance(t, list):
                    for x, y in zip(s, t):
                        acc = zand(acc, bterm(self.compare('==', x, y)))
                elif isinstance(s, SymSeg) and isinstance(t, SymSeg):
                    acc = zand(acc, self.segs_equal(s, t))
                else:
                    raise Unsupported('list equality')
            return mkbool(acc)
        if len(ra.segs) == len(rb.segs) == 1 and isinstance(ra.segs[0], SymSeg) and isinstance(rb.segs[0], SymSeg):
            return mkbool(self.segs_equal(ra.segs[0], rb.segs[0]))
        acc = True
        for x, y in self.aligned(ra.segs, rb.segs):
            if isinstance(x, list):
                ys = y if isinstance(y, list) else [self.materialise(y, q) for q in range(len(x))]
            elif isinstance(y, list):
                ys, x = y, [self.materialise(x, q) for q in range(len(y))]
            else:
                acc = zand(acc, self.segs_equal(x, y))
                continue
            for p, q in zip(x, ys):
                acc = zand(acc, bterm(self.compare('==', p, q)))
        return mkbool(acc)

    def aligned(self, xs, ys):
        """cut two lists of parts of the same total length so that the parts correspond"""
        xs, ys, out = list(xs), list(ys), []
        while xs and ys:
            n, m = self.seg_len(xs[0]), self.seg_len(ys[0])
            d = sym.const_diff(n, m)
            if d is None:
                d = 0 if self.decide(sym.cmp('==', n, m)) else -1 if self.decide(sym.cmp('<', n, m)) else 1
            if d and self.decide(sym.cmp('==', m if d > 0 else n, 0)):
                (ys if d > 0 else xs).pop(0)
                continue
            if d > 0:
                a, b = self.list_cut([xs[0]], m)
                xs[:1] = a + b
            elif d < 0:
                a, b = self.list_cut([ys[0]], n)
                ys[:1] = a + b
            out.append((xs.pop(0), ys.pop(0)))
        return out

    def bytes_of(self, v):
        if isinstance(v, bytes):
            return CB(v)
        if isinstance(v, bytearray):
            return CB(bytes(v))
        if isinstance(v, SBytes):
            return v.seq
        if isinstance(v, Ref):
            r = self.rd(v)
            if isinstance(r, BytesRec):
                return r.seq
        return None

    def bytes_equal(self, x, y):
        if not self.decide(sym.cmp('==', x.n, y.n)):
            return False
        if isinstance(x, CB) or isinstance(y, CB):
            n = x.n if isinstance(x, CB) else y.n
            acc = True
            for j in range(n):
                p, q = sym.bs_elem(x, sym.bv(j, 64)), sym.bs_elem(y, sym.bv(j, 64))
                acc = zand(acc, p == q if isinstance(p, int) and isinstance(q, int) else
                           (p if not isinstance(p, int) else sym.bv(p, 8)) == (q if not isinstance(q, int) else sym.bv(q, 8)))
                if acc is False:
                    return False
            return mkbool(acc)
        raise Unsupported('equality of unbounded byte strings')

    def contains(self, c, x):
        if isinstance(c, Ref):
            r = self.rd(c)
            if isinstance(r, ListRec):
                acc = False
                for s in r.segs:
                    if not isinstance(s, list):
                        raise Unsupported('in on unknown list')
                    for e in s:
                        acc = zor(acc, bterm(self.compare('==', x, e)))
                        if acc is True:
                            return True
                return mkbool(acc)
            if isinstance(r, DictRec):
                if conc(x):
                    return x in r.d
                acc = False
                for k in r.d:
                    acc = zor(acc, bterm(self.compare('==', x, k)))
                return mkbool(acc)
            if isinstance(r, BytesRec):
                raise Unsupported('in on bytes')
        if isinstance(c, (tuple, frozenset, list, set)) or isinstance(c, dict):
            if conc(x):
                try:
                    if all(conc(k) for k in c):
                        return x in c
                except TypeError:
                    pass
            acc = False
            for e in c:
                acc = zor(acc, bterm(self.compare('==', x, e)))
                if acc is True:
                    return True
            return mkbool(acc)
        if isinstance(c, range) and is_int(x):
            if c.step == 1:
                return mkbool(zand(sym.cmp('<=', c.start, x), sym.cmp('<', x, c.stop)))
            return mkbool(zor(*[sym.cmp('==', x, e) for e in c]))
        if isinstance(c, (str, SStr)):
            return self.models.str_contains(self, c, x)
        raise Unsupported(f'in {c!r}')

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        if isinstance(o, Union):
            return self.lift(lambda x: self.getitem(x, k), o)
        if isinstance(k, Union):
            return self.lift(lambda x: self.getitem(o, x), k)
        if isinstance(o, Ref):
            r = self.rd(o)
            if isinstance(r, ListRec):
                if isinstance(k, Slice):
                    return self.list_slice(o, k)
                return self.list_get(o, self.as_int(k))
            if isinstance(r, BytesRec):
                if isinstance(k, Slice):
                    return self.new_bytes(self.bytes_slice(r.seq, k))
                return self.bytes_get(r.seq, self.as_int(k))
            if isinstance(r, DictRec):
                return self.dict_get(r.d, k)
            if isinstance(r, ObjRec) and hasattr(r.cls, '__getitem__'):
                return self.call(self.getattr_(o, '__getitem__'), [k])
        if isinstance(o, SBytes) or isinstance(o, bytes) and not conc(k) or isinstance(o, bytes) and isinstance(k, Slice):
            q = self.bytes_of(o)
            if isinstance(k, Slice):
                return self.mk_bytes(self.bytes_slice(q, k))
            return self.bytes_get(q, self.as_int(k))
        if isinstance(o, (tuple, str, bytes, range)) or isinstance(o, list):
            if isinstance(k, Slice):
                if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                    r = o[slice(k.lo, k.hi, k.step)]
                    return self.new_list(r) if isinstance(r, list) else r
                if isinstance(o, str):
                    return self.models.str_slice(self, o, k)
                raise Unsupported('slice')
            k = self.as_int(k)
            if isinstance(k, int):
                try:
                    return o[k]
                except (IndexError, TypeError) as e:
                    self.raise_(type(e), str(e))
            i = self.norm_index(k, len(o))
            for j in range(len(o) - 1):
                if self.decide(sym.cmp('==', i, j)):
                    return o[j]
            return o[len(o) - 1]
        if isinstance(o, dict):
            return self.dict_get(o, k)
        if isinstance(o, SStr):
            return self.models.str_slice(self, o, k)
        if isinstance(o, (types.GenericAlias, type)):
            return o
        raise Unsupported(f'subscript of {o!r}')

    def dict_get(self, d, k):
        if conc(k) or isinstance(k, (types.FunctionType, type)):
            if k in d:
                return d[k]
            self.raise_(KeyError, k)
        for key in d:
            if self.decide(bterm(self.compare('==', k, key))):
                return d[key]
        self.raise_(KeyError)

    def mk_bytes(self, seq):
        if isinstance(seq, CB) and isinstance(seq.items, bytes):
            return seq.items
        return SBytes(seq)

    def bytes_get(self, q, i):
        i = self.norm_index(i, q.n)
        return sym.bs_get(q, i)

    def strided(self, q, k):
        """the positions of an extended slice"""
        if isinstance(q.n, int) and q.n <= 256 and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)) and k.step != 0:
            return range(q.n)[slice(k.lo, k.hi, k.step)]
        raise Unsupported('bytes step')

    def bytes_slice(self, q, k):
        if k.step is not None and k.step != 1:
            r = self.strided(q, k)
            xs = [q.items[i] if isinstance(q, CB) else q.at(sym.bv(i, 64)) for i in r]
            return CB(bytes(xs) if all(isinstance(x, int) for x in xs) else tuple(xs))
        a, b = self.slice_bounds(k.lo, k.hi, q.n)
        return sym.bs_slice(q, a, b)

    def list_slice(self, o, k):
        rec = self.rd(o)
        if k.step is not None and k.step != 1:
            segs = rec.segs
            if k.step == -1 and k.lo is None and k.hi is None:
                if all(isinstance(s, list) for s in segs):
                    return self.alloc(ListRec([list(reversed(s)) for s in reversed(segs)]))
                out = []
                for s in reversed(segs):
                    if isinstance(s, list):
                        out.append(list(reversed(s)))
                    elif isinstance(s, RevSeg):
                        out.append(s.inner)
                    else:
                        out.append(RevSeg(s))
                return self.alloc(ListRec(out))
            if all(isinstance(s, list) for s in segs) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                xs = [x for s in segs for x in s]
                return self.new_list(xs[slice(k.lo, k.hi, k.step)])
            raise Unsupported('list step')
        if len(rec.segs) <= 1 and all(isinstance(s, list) for s in rec.segs) and \
                all(x is None or isinstance(x, int) for x in (k.lo, k.hi)):
            xs = rec.segs[0] if rec.segs else []
            return self.new_list(xs[slice(k.lo, k.hi)])
        n = self.list_len(rec)
        a, b = self.slice_bounds(k.lo, k.hi, n)
        segs = self.rd(o).segs
        first, _ = self.list_cut(segs, b)
        _, mid = self.list_cut(first, a)
        return self.alloc(ListRec([list(s) if isinstance(s, list) else s for s in mid]))

    def setitem(self, o, k, v):
        if isinstance(o, Union):
            o = self.split_union(o)
        if isinstance(k, Union):
            k = self.split_union(k)
        if isinstance(o, Ref):
            r = self.rd(o)
            if isinstance(r, ListRec):
                if isinstance(k, Slice):
                    return self.list_setslice(o, k, v)
                return self.list_set(o, self.as_int(k), v)
            if isinstance(r, BytesRec):
                if isinstance(k, Slice):
                    return self.bytes_setslice(o, k, v)
                if isinstance(v, Union):
                    v = self.split_union(v)
                v = self.as_int(v)
                if not is_int(v):
                    self.raise_(TypeError, 'byte value')
                i = self.norm_index(self.as_int(k), r.seq.n)
                if not self.decide(zand(sym.cmp('<=', 0, v), sym.cmp('<=', v, 255))):
                    self.raise_(ValueError, 'byte must be in range(0, 256)')
                b = v if isinstance(v, int) else v.low(8)
                self.wr(o).seq = sym.bs_store(r.seq, i, sym.add(i, 1), CB((b,) if not isinstance(b, int) else bytes([b])))
                return
            if isinstance(r, DictRec):
                if not conc(k):
                    raise Unsupported('symbolic dict key')
                self.wr(o).d[k] = v
                return
        raise Unsupported(f'item assignment on {o!r}')

    def bytes_setslice(self, o, k, v):
        src = self.models.to_bseq(self, v)
        q = self.rd(o).seq
        if k.step is not None and k.step != 1:
            r = self.strided(q, k)
            if not isinstance(src.n, int):
                raise Unsupported('bytes step')
            if src.n != len(r):
                if src.n == 0:
                    raise Unsupported('bytes step')
                self.raise_(ValueError, 'attempt to assign bytes of another size to extended slice')
            xs = [q.items[i] if isinstance(q, CB) else q.at(sym.bv(i, 64)) for i in range(q.n)]
            for i, j in enumerate(r):
                xs[j] = src.items[i] if isinstance(src, CB) else src.at(sym.bv(i, 64))
            self.wr(o).seq = CB(bytes(xs) if all(isinstance(x, int) for x in xs) else tuple(xs))
            return
        a, b = self.slice_bounds(k.lo, k.hi, q.n)
        d = sym.const_diff(b, a)
        same = sym.cmp('==', sym.sub(b, a), src.n) if not (isinstance(src.n, int) and d is not None) else d == src.n
        if self.decide(same):
            self.wr(o).seq = sym.bs_store(q, a, b, src)
            return
        # replaces a range by one of another length
        self.wr(o).seq = sym.bs_concat(sym.bs_concat(sym.bs_slice(q, 0, a), src), sym.bs_slice(q, b, q.n))

    def list_setslice(self, o, k, v):
        src = self.list_segs(v)
        if k.step is not None and k.step != 1:
            segs = self.rd(o).segs
            if not (all(isinstance(s, list) for s in list(segs) + list(src)) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step))):
                raise Unsupported('list step')
            xs, ys = [x for s in segs for x in s], [x for s in src for x in s]
            r = range(len(xs))[slice(k.lo, k.hi, k.step)]
            if len(r) != len(ys):
                raise Unsupported('list step')
            for i, j in enumerate(r):
                xs[j] = ys[i]
            self.wr(o).segs = [xs]
            return
        n = self.list_len(self.rd(o))
        a, b = self.slice_bounds(k.lo, k.hi, n)
        segs = self.rd(o).segs
        first, rest = self.list_cut(segs, b)
        first, _ = self.list_cut(first, a)
        self.wr(o).segs = self.norm_segs([list(s) if isinstance(s, list) else s for s in first + src + rest])

    def list_segs(self, v):
        if isinstance(v, Ref):
            r = self.rd(v)
            if isinstance(r, ListRec):
                return [list(s) if isinstance(s, list) else s for s in r.segs]
        return [list(self.iterate_concrete(v))]

    def delitem(self, o, k):
        if isinstance(o, Ref):
            r = self.rd(o)
            if isinstance(r, ListRec):
                if isinstance(k, Slice):
                    return self.list_setslice(o, k, ())
                self.list_pop(o, self.as_int(k))
                return
            if isinstance(r, BytesRec) and isinstance(k, Slice):
                return self.bytes_setslice(o, k, b'')
            if isinstance(r, DictRec):
                if conc(k):
                    if k not in r.d:
                        self.raise_(KeyError, k)
                    del self.wr(o).d[k]
                    return
        raise Unsupported('del item')

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """-> iterable of values (host side), or SymIter"""
        if isinstance(v, Union):
            v = self.split_union(v)
        if isinstance(v, Ref):
            r = self.rd(v)
            if isinstance(r, ListRec):
                if all(isinstance(s, list) for s in r.segs):
                    return self.live_list(v)
                return SymIter('list', self.list_len(r), v)
            if isinstance(r, BytesRec):
                return self.iter_bytes(r.seq)
            if isinstance(r, DictRec):
                return list(r.d)
            if isinstance(r, IterRec):
                return r.items if not isinstance(r.items, (list, tuple)) else list(r.items[r.pos:])
        if isinstance(v, SBytes):
            return self.iter_bytes(v.seq)
        if isinstance(v, SymIter):
            return v
        if isinstance(v, (tuple, list, str, bytes, range, frozenset, dict, set)):
            return v
        if isinstance(v, (type({}.items()), type({}.keys()), type({}.values()))):
            return list(v)
        if v is None or isinstance(v, (int, float, SInt, SFloat)):
            self.raise_(TypeError, 'not iterable')
        raise Unsupported(f'iteration over {v!r}')

    def live_list(self, ref):
        """iterate a list that the loop body may change"""
        i = 0
        while True:
            r = self.rd(ref)
            xs = r.segs
            if len(xs) == 1:
                xs = xs[0]
            elif not xs:
                return
            else:
                if not all(isinstance(s, list) for s in xs):
                    raise Unsupported('list changed under iteration')
                xs = [x for s in xs for x in s]
            if i >= len(xs):
                return
            yield xs[i]
            i += 1

    def iter_bytes(self, q):
        if isinstance(q, CB):
            return [sym.byte_int(x) for x in q.items]
        return SymIter('bytes', q.n, q)

    def iterate_concrete(self, v):
        r = self.iterate(v)
        if isinstance(r, SymIter):
            return r.unroll(self)
        return r


class RevSeg:
    __slots__ = ('inner', 'n')

    def __init__(self, inner):
        self.inner, self.n = inner, inner.n


class Slice:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SymIter:
    """iteration with a symbolic number of steps: kind 'range' (data=(start, step)), 'list', 'bytes', 'enumerate', 'zip'"""

    def __init__(self, kind, n, data):
        self.kind, self.n, self.data = kind, n, data

    def at(self, eng, j):
        if self.kind == 'range':
            return sym.add(self.data[0], sym.mul(self.data[1], j))
        if self.kind == 'list':
            return eng.list_get(self.data, j)
        if self.kind == 'bytes':
            return sym.bs_get(self.data, j)
        if self.kind == 'enumerate':
            return (sym.add(self.data[1], j), self.data[0].at(eng, j))
        if self.kind == 'zip':
            return tuple(x.at(eng, j) if isinstance(x, SymIter) else x[j] for x in self.data)
        raise Unsupported(self.kind)

    def sources(self):
        """the lists gone through"""
        if self.kind == 'list':
            return {self.data.id}
        if self.kind == 'enumerate':
            return self.data[0].sources()
        if self.kind == 'zip':
            return set().union(*(x.sources() for x in self.data if isinstance(x, SymIter)))
        return set()

    def unroll(self, eng, limit=64):
        """bounded unrolling by case split; exceeding the limit makes the obligation undecided"""
        j = 0
        while eng.decide(sym.cmp('<', j, self.n)):
            if j >= limit:
                raise Unsupported('unbounded loop without invariant')
            yield self.at(eng, j)
            j += 1


class Frame:
    """a running function's variables (kept in the heap so that states can be copied and merged)"""
    __slots__ = ('ref', 'parent', 'ctx', 'eng', 'handling')

    def __init__(self, env, parent, ctx, eng):
        self.eng = eng
        if parent is not None:
            env = dict(env)
            env['__parent__'] = parent
        self.ref = eng.alloc(EnvRec(env))
        self.parent, self.ctx = parent, ctx
        self.handling = None

    def get(self, name):
        h = self.eng.st.heap
        r = self.ref
        while r is not None:
            v = h[r.id].v
            if name in v:
                x = v[name]
                if x is self.eng.models.streams.POISON:
                    raise Unsupported(f'{name} after a loop over unknown items')
                if x is UNBOUND:
                    self.eng.raise_(UnboundLocalError, name)
                return x
            r = v.get('__parent__')
        g = self.ctx.globals
        if name in g:
            return self.eng.lift_const(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.eng.raise_(NameError, name)

    def set(self, name, val):
        self.eng.wr(self.ref).v[name] = val

    def delete(self, name):
        v = self.eng.wr(self.ref).v
        if name not in v:
            self.eng.raise_(NameError, name)
        del v[name]


UNBOUND = object()


class Merger:
    """merge two states reached from st0: result = c ? a : b"""

    def __init__(self, eng, st0, a, b, c):
        self.eng, self.st0, self.a, self.b, self.c = eng, st0, a, b, c
        self.out = State()
        self.pairs = {}
        self.left, self.right = {}, {}
        self.queue = []
        self.heap = {}

    def val(self, x, y):
        if x is y:
            return x
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.id == y.id:
                return x
            if x.id in self.st0.heap or y.id in self.st0.heap:
                raise Unmergeable()
            key = (x.id, y.id)
            if key in self.pairs:
                return self.pairs[key]
            if x.id in self.left or y.id in self.right:
                raise Unmergeable()
            nid = self.eng.nid
            self.eng.nid += 1
            r = Ref(nid)
            self.pairs[key] = r
            self.left[x.id] = self.right[y.id] = nid
            self.heap[nid] = self.rec(self.a.heap[x.id], self.b.heap[y.id])
            return r
        if isinstance(x, Ref) or isinstance(y, Ref):
            raise Unmergeable()
        tx, ty = type(x), type(y)
        if tx is ty and isinstance(x, (int, str, bytes, bool)) and x == y:
            return x
        if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
            return mkbool(sym.zite(self.c, bterm(x), bterm(y)))
        if is_int(x) and is_int(y):
            return sym.ite(self.c, x, y)
        if isinstance(x, (float, SFloat)) and isinstance(y, (float, SFloat)):
            if isinstance(x, float) and isinstance(y, float) and sym.f64_bits(x) == sym.f64_bits(y):
                return x
            return sym.fite(self.c, sym.as_sfloat(x), sym.as_sfloat(y))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.val(p, q) for p, q in zip(x, y))
        if isinstance(x, (bytes, SBytes)) and isinstance(y, (bytes, SBytes)):
            q = sym.bs_ite(self.c, self.eng.bytes_of(x), self.eng.bytes_of(y))
            if q is None:
                raise Unmergeable()
            return SBytes(q)
        if isinstance(x, BoundMethod) and isinstance(y, BoundMethod) and x.fn is y.fn and x.self == y.self:
            return x
        imm = (int, float, bool, SInt, SFloat, SBool, type(None), Union)
        if isinstance(x, imm) and isinstance(y, imm):
            ax = [(zand(self.c, k), v) for k, v in x.alts] if isinstance(x, Union) else [(self.c, x)]
            nc = z3.Not(self.c)
            ay = [(zand(nc, k), v) for k, v in y.alts] if isinstance(y, Union) else [(nc, y)]
            return self.join(ax + ay)
        try:
            if x == y:
                return x
        except Exception:
            pass
        raise Unmergeable()

    def join(self, alts):
        """combine alternatives of the same type class"""
        out = []
        for c, v in alts:
            for i, (d, w) in enumerate(out):
                if is_int(v) and is_int(w):
                    out[i] = (zor(d, c), sym.ite(d, w, v))
                    break
                if isinstance(v, (float, SFloat)) and isinstance(w, (float, SFloat)):
                    out[i] = (zor(d, c), sym.fite(d, sym.as_sfloat(w), sym.as_sfloat(v)))
                    break
                if isinstance(v, (bool, SBool)) and isinstance(w, (bool, SBool)):
                    out[i] = (zor(d, c), mkbool(sym.zite(d, bterm(w), bterm(v))))
                    break
                if v is None and w is None:
                    out[i] = (zor(d, c), None)
                    break
            else:
                out.append((c, v))
        if len(out) == 1:
            return out[0][1]
        return Union(out)

    def rec(self, p, q):
        if p is q:
            return p
        if type(p) is not type(q):
            raise Unmergeable()
        if isinstance(p, ObjRec):
            if p.cls is not q.cls or set(p.attrs) != set(q.attrs):
                raise Unmergeable()
            return ObjRec(p.cls, {k: self.val(v, q.attrs[k]) for k, v in p.attrs.items()})
        if isinstance(p, ListRec):
            if len(p.segs) != len(q.segs):
                raise Unmergeable()
            segs = []
            for s, t in zip(p.segs, q.segs):
                if isinstance(s, list) and isinstance(t, list):
                    if len(s) != len(t):
                        raise Unmergeable()
                    segs.append([self.val(x, y) for x, y in zip(s, t)])
                elif s is t:
                    segs.append(s)
                elif isinstance(s, SymSeg) and isinstance(t, SymSeg) and s.base is t.base and \
                        sym.const_diff(s.off, t.off) == 0 and sym.const_diff(s.n, t.n) == 0:
                    segs.append(s)
                else:
                    raise Unmergeable()
            return ListRec(segs)
        if isinstance(p, BytesRec):
            if p.seq is q.seq:
                return p
            s = sym.bs_ite(self.c, p.seq, q.seq)
            if s is None:
                raise Unmergeable()
            return BytesRec(s)
        if isinstance(p, DictRec):
            if list(p.d) != list(q.d):
                raise Unmergeable()
            return DictRec({k: self.val(v, q.d[k]) for k, v in p.d.items()})
        if isinstance(p, EnvRec):
            v = {}
            for k in p.v:
                if k in q.v:
                    try:
                        v[k] = self.val(p.v[k], q.v[k])
                    except Unmergeable:
                        raise
                else:
                    v[k] = MaybeUnbound
            for k in q.v:
                if k not in p.v:
                    v[k] = MaybeUnbound
            if any(x is MaybeUnbound for x in v.values()):
                # a variable bound on one side only: keep precise by not merging
                raise Unmergeable()
            return EnvRec(v)
        raise Unmergeable()

    def finish(self):
        a, b = self.a, self.b
        if len(a.ghost) != len(b.ghost) or any(x is not y for x, y in zip(a.ghost, b.ghost)):
            raise Unmergeable()
        if len(a.memo) != len(b.memo) or any(x is not y for x, y in zip(a.memo, b.memo)):
            raise Unmergeable()
        if a.loops is not b.loops:
            raise Unmergeable()
        heap = self.heap
        out = {}
        for i, p in self.st0.heap.items():
            pa, pb = a.heap[i], b.heap[i]
            out[i] = pa if pa is pb else self.rec(pa, pb)
        for i, p in a.heap.items():
            if i not in out:
                out[i] = p
        for i, p in b.heap.items():
            if i not in out:
                out[i] = p
        out.update(heap)
        s = self.out
        s.heap = out
        s.ghost, s.memo, s.loops = a.ghost, a.memo, a.loops
        s.fresh = max(a.fresh, b.fresh)
        return s


class MaybeUnbound:
    pass
