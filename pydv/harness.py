"""Contracts as executable harnesses, run in two modes.

symbolic  the body runs in the engine on symbolic inputs; every `ensure` becomes an obligation (path condition => claim)
concrete  inputs come from an assignment (a counterexample model, or a sample); the pre-state built in the engine's heap is
          lowered to real Python objects, the real function runs under CPython, and the post-state is lifted back.
"""
import ctypes
import io
import random
import signal
import sys
import time
import traceback
import types

import z3

from . import sym, interp, streams
from .sym import SInt, SBool, SFloat, Unsupported, CB, FB, mkbool, bterm, zand, zor, znot, zimp, is_int
from .interp import (Engine, Ref, SBytes, SStr, Union, Opaque, Closure, ExcVal, ObjRec, ListRec, BytesRec, DictRec,
                     BaseSeq, SymSeg, GenSeg, RevSeg, PyRaise, Infeasible, Budget, Dec, State, MISSING)
from .stop import Stop, StopStep


class Reject(Exception):
    """a concrete sample outside the contract's precondition"""


class Stopped(Exception):
    """stop the path after a failed obligation"""


class Out:
    __slots__ = ('kind', 'val', 'exc', 'stop')

    def __init__(self, kind, val=None, exc=None, stop=None):
        self.kind, self.val, self.exc, self.stop = kind, val, exc, stop

    def __repr__(self):
        return f'{self.kind}:{self.val if self.kind == "normal" else self.exc or self.stop}'


class Obl:
    __slots__ = ('name', 'status', 'backend', 'secs', 'model', 'note')

    def __init__(self, name, status, backend, secs, model=None, note=''):
        self.name, self.status, self.backend, self.secs, self.model, self.note = name, status, backend, secs, model, note


class MemIn(FB):
    """named input bytes"""
    __slots__ = ('name', 'arr', 'default', 'd')


def boundary(w, rnd):
    m = (1 << w) - 1
    k = rnd.random()
    if k < 0.35:
        return rnd.choice([0, 1, 2, 3, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, m >> 2, w, w - 1, 7, 0x80 & m,
                           0x7f & m, 0xff & m])
    if k < 0.5:
        return rnd.randrange(0, min(m, 70) + 1)
    if k < 0.6 and w in (32, 64):
        return rnd.choice(FLOATS32 if w == 32 else FLOATS64)
    if k < 0.7:
        return (1 << rnd.randrange(w)) & m
    if k < 0.8:
        return (m << rnd.randrange(w)) & m
    return rnd.getrandbits(w)


FLOATS32 = [0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7fa00000,
            0xffa00001, 0x00000001, 0x80000001, 0x7f7fffff, 0xff7fffff, 0x3f000000, 0xbf000000, 0x3fc00000, 0x40200000,
            0xbfc00000, 0x4f000000, 0xcf000000, 0x4effffff, 0x4f800000, 0x4f7fffff, 0x5f000000, 0xdf000000, 0x5f7fffff,
            0x5f800000, 0x3effffff, 0xbeffffff, 0x4b000001, 0x4b800000, 0x00800000, 0x007fffff, 0xbf7fffff, 0x3f7fffff]
FLOATS64 = [sym.f64_bits(x) for x in (0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), 0.5, -0.5, 1.5, 2.5, -1.5, -2.5,
            2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9223372036854775808.0,
            -9223372036854775808.0, 9223372036854774784.0, 18446744073709551616.0, 18446744073709549568.0, 5e-324,
            -5e-324, 1.7976931348623157e308, 0.49999999999999994, -0.49999999999999994, 4503599627370497.5, -0.9,
            2147483647.9, -2147483648.9, 4294967295.9, 3.4028235677973366e38, 1e39, 3.4028235e38)] + \
           [0x7ff8000000000000, 0xfff8000000000000, 0x7ff4000000000000, 0xfff0000000000001, 0x7fffffffffffffff]


def conc_int(x):
    if isinstance(x, z3.ExprRef):
        x = z3.simplify(x)
        return x.as_long() if z3.is_bv_value(x) else None
    x = sym.concretize(x)
    return x if isinstance(x, int) else None


class Ctx:
    def __init__(self, contract, mode, tier='quick', assignment=None, rnd=None, registry=None, timeout=None, disabled=()):
        self.contract, self.mode, self.tier = contract, mode, tier
        self.symbolic = mode == 'symbolic'
        self.assign = assignment or {}
        self.rnd = rnd
        self.used = {}           # name -> value actually used (concrete) / z3 term (symbolic)
        self.soft = []
        self.obls = []
        self.covers = {}
        self.timeout = timeout or (45000 if tier == 'quick' else 120000)
        self.eng = Engine(contracts=registry or {}, max_seconds=contract.max_seconds * (1 if tier == 'quick' else 5))
        self.eng.disabled = set(disabled)
        self.eng.ctx = self
        self.failures = []
        self.weak = False
        self.hints = set()
        self.patches = []

    # ------------------------------------------------------------ inputs
    def bv(self, name, w, near=(), below=None):
        """w-bit input; samples prefer the neighbourhood of `near`, and stay below `below`"""
        if self.symbolic:
            t = z3.BitVec(name, w)
            self.used[name] = t
            return t
        if name in self.used:
            return z3.BitVecVal(self.used[name], w)
        if name in self.assign:
            v = self.assign[name] & ((1 << w) - 1)
        elif self.rnd is not None:
            near = [x for x in map(conc_int, near) if x is not None]
            if near and self.rnd.random() < 0.8:
                v = (self.rnd.choice(near) + self.rnd.choice([0, 0, 1, -1, self.rnd.randint(-40, 40)])) & ((1 << w) - 1)
            else:
                v = self.draw(name, w)
            if below is not None and v >= below:
                v = self.rnd.randrange(below)
        else:
            v = 0
        self.used[name] = v
        return z3.BitVecVal(v, w)

    def draw(self, name, w):
        r = self.rnd
        if self.used and r.random() < 0.15:
            # related to an earlier input
            o = r.choice([x for x in self.used.values() if isinstance(x, int)] or [0])
            return (o + r.choice([0, 0, 1, -1])) & ((1 << w) - 1)
        if w == 128:
            k = r.choice([8, 16, 32, 64])
            v = 0
            for i in range(128 // k):
                v |= boundary(k, r) << (i * k)
            return v
        return boundary(w, r)

    def sint(self, name, w):
        return sym.sbv(self.bv(name, w))

    def uint(self, name, w):
        return sym.ubv(self.bv(name, w))

    def int(self, name, lo, hi, small=True):
        """integer input in [lo, hi]; concrete samples and replays prefer small values"""
        if lo == hi:
            return lo
        w = max(lo.bit_length(), hi.bit_length()) + 1
        if self.symbolic:
            t = self.bv(name, w)
            if lo >= 0:
                self.eng.assume(z3.And(z3.ULE(t, sym.bv(hi, w)), z3.UGE(t, sym.bv(lo, w))))
            else:
                self.eng.assume(z3.And(t <= sym.bv(hi, w), t >= sym.bv(lo, w)))
            if small:
                self.soft.append(z3.ULE(t - sym.bv(lo, w), sym.bv(min(hi - lo, 4), w)))
            return sym.mk(lo, hi, lambda k: sym.resize_s(t, k))
        if name in self.used:
            v = self.used[name]
        elif name in self.assign:
            v = self.assign[name]
            if lo < 0:
                v = v - (1 << w) if v >> (w - 1) & 1 else v
        elif self.rnd is not None:
            r = self.rnd
            if small:
                v = r.randint(lo, min(hi, lo + 6))
            else:
                v = r.choice([lo, hi, r.randint(lo, hi), min(hi, lo + r.randrange(20)), max(lo, hi - r.randrange(20))])
                if r.random() < 0.3:
                    p = 1 << r.randrange(max(1, hi.bit_length()))
                    v = min(max(p + r.choice([-1, 0, 1]), lo), hi)
        else:
            v = lo
        if not lo <= v <= hi:
            raise Reject()
        self.used[name] = v
        return v

    def bool(self, name):
        if self.symbolic:
            t = z3.Bool(name)
            self.used[name] = t
            return SBool(t)
        if name in self.used:
            return bool(self.used[name])
        if name in self.assign:
            v = bool(self.assign[name])
        else:
            v = bool(self.rnd.random() < 0.5) if self.rnd is not None else False
        self.used[name] = v
        return v

    def code(self, name, options):
        """one of a set of numbers, as a choice in concrete runs"""
        if not self.symbolic and name in self.assign and self.assign[name] in options:
            self.assign[name] = list(options).index(self.assign[name])
        return self.choice(name, options)

    def choice(self, name, options):
        """one of a finite set of Python values (forks in symbolic mode)"""
        i = self.int(name, 0, len(options) - 1, small=False)
        if isinstance(i, int):
            return options[i]
        for j in range(len(options) - 1):
            if self.eng.decide(sym.cmp('==', i, j)):
                return options[j]
        return options[-1]

    def bytes_in(self, name, n):
        """named input byte sequence of length n (int or SInt)"""
        n = sym.concretize(n)
        if self.symbolic:
            arr = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8))
            self.used[name] = arr
            if isinstance(n, int) and n <= 4096:
                return sym.mkcb([z3.Select(arr, z3.BitVecVal(i, 64)) for i in range(n)])
            q = MemIn(n, lambda k: z3.Select(arr, k), src=name)
            return q
        if name in self.used:
            default, d = self.used[name]
        elif name in self.assign:
            v = self.assign[name]
            default, d = v[0], {int(k): x for k, x in v[1].items()} if isinstance(v[1], dict) else dict(v[1])
        else:
            default, d = 0, {}
            if self.rnd is not None:
                r = self.rnd
                default = r.choice([0, 0xa5, 0x11])
                for k in range(min(n, 2200 if n >= 65536 else 600)):
                    d[k] = r.getrandbits(8)
                for k in range(max(0, n - 40), n):
                    d[k] = r.getrandbits(8)
        self.used[name] = (default, d)
        b = bytearray([default]) * n
        for k, x in d.items():
            if k < n:
                b[k] = x
        return CB(bytes(b))

    # ------------------------------------------------------------ building values
    def new(self, cls, *args, **kw):
        return self.eng.instantiate(cls, list(args), kw)

    def dict(self, d):
        return self.eng.alloc(DictRec(dict(d)))

    def list(self, items):
        return self.eng.new_list(items)

    def seq(self, name, n, factory):
        """unknown list segment of n elements"""
        n = sym.concretize(n)
        if self.symbolic:
            base = BaseSeq(name, lambda eng, nm: factory(nm))
            self.eng.ctx_bases = getattr(self.eng, 'ctx_bases', {})
            return SymSeg(base, 0, n)
        return [factory(f'{name}[{i}]') for i in range(n)]

    def seglist(self, *segs):
        return self.eng.alloc(ListRec(self.eng.norm_segs([list(s) if isinstance(s, list) else s for s in segs])))

    def bytearray(self, seq):
        return self.eng.new_bytes(seq)

    # ------------------------------------------------------------ logic
    def requires(self, cond):
        cond = bterm(cond) if isinstance(cond, (SBool, bool)) else cond
        if self.symbolic:
            self.eng.assume(cond)
            return
        if not isinstance(cond, bool):
            cond = z3.is_true(z3.simplify(cond))
        if not cond:
            raise Reject()

    def decide(self, cond):
        return self.eng.decide(bterm(cond) if isinstance(cond, (SBool, bool)) else cond)

    def prefer(self, cond):
        """soft preference for counterexamples"""
        if self.symbolic and not isinstance(cond, bool):
            self.soft.append(cond)

    def cover(self, label):
        if self.covers.get(label):
            return
        if self.symbolic:
            r = self.eng.check([], timeout=8000)
            self.covers[label] = r != 'unsat'
        else:
            self.covers[label] = True

    def ensure(self, name, cond):
        """obligation: path condition => cond"""
        if isinstance(cond, SBool):
            cond = cond.t
        if self.symbolic:
            self.obls.append(self.discharge(name, cond))
            if self.obls[-1].status != 'proved':
                raise Stopped()
            return
        if not isinstance(cond, bool):
            v = z3.simplify(cond)
            if not (z3.is_true(v) or z3.is_false(v)):
                raise Unsupported(f'concrete obligation does not evaluate: {name}')
            cond = z3.is_true(v)
        if not cond:
            self.failures.append(name)

    def fail(self, name, note=''):
        self.ensure(name, False)

    def forall(self, name, n, fn, hints=()):
        """claim fn(k) for every index 0 <= k < n: a skolem constant symbolically, sampled positions concretely"""
        if self.symbolic:
            k = z3.BitVec(self.eng.fresh_name('k_' + name), 64)
            cond = fn(k)
            self.ensure(name, zimp(z3.ULT(k, sym.idx64(n)), bterm(cond) if isinstance(cond, (SBool, bool)) else cond))
            return
        ks = set()
        n = sym.concretize(n)
        base = [0, 1, n - 1, n - 2] + [int(sym.concretize(h)) for h in hints if isinstance(sym.concretize(h), int)]
        base += [v & 0xffffffff for v in self.used.values() if isinstance(v, int)]
        for b in base:
            for d in range(-17, 18):
                ks.add(b + d)
        for b in list(self.hints):
            ks.add(b)
        r = random.Random(1)
        if n:
            for _ in range(40):
                ks.add(r.randrange(n))
        for k in ks:
            if 0 <= k < n:
                before = len(self.failures)
                self.ensure(name, fn(z3.BitVecVal(k, 64)))
                if len(self.failures) > before:
                    return

    # ------------------------------------------------------------ solving
    def discharge(self, name, cond):
        t0 = time.time()
        if isinstance(cond, bool):
            if cond:
                return Obl(name, 'proved', 'trivial', 0.0)
            cond = z3.BoolVal(False)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return Obl(name, 'proved', 'simplifier', time.time() - t0)
        goal = list(self.eng.pc) + list(self.eng.axioms) + [z3.Not(c)]
        st, backend, model = solve(goal, self.timeout)
        if st == 'sat' and self.soft:
            # look for a small counterexample
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*goal)
            keep = []
            for f in self.soft:
                s.push()
                s.add(f)
                if s.check() == z3.sat:
                    keep.append(f)
                    model = s.model()
                else:
                    s.pop()
        secs = time.time() - t0
        if st == 'unsat':
            return Obl(name, 'proved', backend, secs)
        if st == 'sat':
            return Obl(name, 'failed', backend, secs, self.extract(model))
        return Obl(name, 'unknown', backend, secs)

    def extract(self, m):
        """model -> assignment by input name (elements of unknown lists renamed by their index)"""
        out = {}
        ren = {}
        for b, idx, v, nm in self.eng.st.memo:
            i = sym.concretize(idx)
            if not isinstance(i, int):
                i = m.eval(idx.low(64), model_completion=True).as_long()
            ren[nm] = f'{b.name}[{i}]'
        for name, t in self.used.items():
            key = name
            changed = True
            while changed:
                changed = False
                for nm, to in ren.items():
                    if key.startswith(nm) and (len(key) == len(nm) or not key[len(nm)].isdigit()):
                        key = to + key[len(nm):]
                        changed = True
            if z3.is_array(t):
                out[key] = array_value(m, t)
            elif z3.is_bool(t):
                out[key] = z3.is_true(m.eval(t, model_completion=True))
            else:
                v = m.eval(t, model_completion=True)
                try:
                    out[key] = v.as_long()
                except Exception:
                    pass
        return out

    # ------------------------------------------------------------ running the code under contract
    def run(self, fn, *args, **kw):
        if self.symbolic:
            self.eng.flat_next = self.eng.flat
            try:
                v = self.eng.call(fn, list(args), kw)
                return Out('normal', v)
            except PyRaise as e:
                return self.classify(e.exc)
        return self.run_real(fn, args, kw)

    def classify(self, exc):
        if exc.cls is StopStep:
            r = exc.args[0]
            return Out('stop', stop=self.eng.rd(r).attrs['name'] if isinstance(r, Ref) else r.name)
        return Out('raise', exc=exc)

    def run_real(self, fn, args, kw):
        lw = Lower(self.eng)
        rargs = [lw.val(a) for a in args]
        rkw = {k: lw.val(v) for k, v in kw.items()}
        if isinstance(fn, interp.BoundMethod):
            rfn = types.MethodType(fn.fn, lw.val(fn.self)) if isinstance(fn.self, Ref) else types.MethodType(fn.fn, fn.self)
        else:
            rfn = fn
        undo = []
        for mod, attr, val in self.patches:
            undo.append((mod, attr, getattr(mod, attr)))
            setattr(mod, attr, val(lw) if callable(val) and getattr(val, 'wants_lower', False) else val)
        self.lower = lw

        def onalarm(*a):
            raise TimeoutError('real run exceeded its time limit')
        old = signal.signal(signal.SIGALRM, onalarm)
        t0, before = time.time(), signal.setitimer(signal.ITIMER_REAL, 10)
        try:
            try:
                v = rfn(*rargs, **rkw)
                kind = 'normal'
            except StopStep as e:
                kind, v = 'stop', e
            except TimeoutError:
                raise Reject()
            except Reject:
                raise
            except BaseException as e:
                kind, v = 'raise', e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if before[0]:
                signal.setitimer(signal.ITIMER_REAL, max(before[0] - (time.time() - t0), 0.01), before[1])
            for mod, attr, val in undo:
                setattr(mod, attr, val)
        lf = Lift(self.eng, lw)
        lf.update_all()
        if kind == 'normal':
            return Out('normal', lf.val(v))
        if kind == 'stop':
            return Out('stop', stop=v.args[0].name)
        self.last_exc = v
        return Out('raise', exc=ExcVal(type(v), tuple(lf.val(a) for a in v.args)))

    def patch(self, mod, attr, val):
        self.patches.append((mod, attr, val))


# ---------------------------------------------------------------- lowering / lifting

class Lower:
    """engine heap -> real Python objects (all terms must be constants)"""

    def __init__(self, eng):
        self.eng, self.objs, self.hold = eng, {}, []

    def int(self, v):
        v = sym.concretize(v)
        if not isinstance(v, int):
            raise Unsupported('lowering a symbolic integer')
        return v

    def bytes(self, q):
        if isinstance(q, CB):
            if isinstance(q.items, bytes):
                return q.items
            out = []
            for x in q.items:
                x = x if isinstance(x, int) else z3.simplify(x)
                if not isinstance(x, int):
                    if not z3.is_bv_value(x):
                        raise Unsupported('lowering symbolic bytes')
                    x = x.as_long()
                out.append(x)
            return bytes(out)
        n = self.int(q.n)
        if q.store is not None:
            b = bytearray(self.bytes(q.store[0]))
            a = self.int(q.store[1])
            s = self.bytes(q.store[2])
            b[a:a + len(s)] = s
            return bytes(b)
        return bytes(z3.simplify(q.at(z3.BitVecVal(i, 64))).as_long() for i in range(n))

    def val(self, v):
        if isinstance(v, Ref):
            return self.obj(v)
        if isinstance(v, SInt):
            return self.int(v)
        if isinstance(v, SBool):
            t = z3.simplify(v.t)
            if not (z3.is_true(t) or z3.is_false(t)):
                raise Unsupported('lowering a symbolic bool')
            return z3.is_true(t)
        if isinstance(v, SFloat):
            t = z3.simplify(v.bits())
            if not z3.is_bv_value(t):
                raise Unsupported('lowering a symbolic float')
            return sym.bits_f64(t.as_long())
        if isinstance(v, SBytes):
            return self.bytes(v.seq)
        if isinstance(v, SStr):
            if v.enc is not None:
                return self.bytes(v.enc).decode()
            raise Unsupported('lowering an opaque string')
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, Opaque):
            if 'real' in v.attrs:
                return v.attrs['real']
            raise Unsupported('lowering an opaque value')
        if isinstance(v, interp.BoundMethod):
            return types.MethodType(v.fn, self.val(v.self))
        return v

    def obj(self, ref):
        if ref.id in self.objs:
            return self.objs[ref.id]
        r = self.eng.rd(ref)
        if isinstance(r, ObjRec):
            if r.cls is io.BytesIO:
                o = io.BytesIO(self.bytes(r.attrs['buf']))
                o.seek(self.int(r.attrs['pos']))
                self.objs[ref.id] = o
                return o
            o = r.cls.__new__(r.cls)
            self.objs[ref.id] = o
            for k, x in r.attrs.items():
                object.__setattr__(o, k, self.val(x))
            return o
        if isinstance(r, ListRec):
            o = []
            self.objs[ref.id] = o
            for s in r.segs:
                if isinstance(s, list):
                    o.extend(self.val(x) for x in s)
                elif isinstance(s, GenSeg):
                    o.extend(self.val(s.value(self.eng, j)) for j in range(self.int(s.n)))
                else:
                    raise Unsupported('lowering an unknown list')
            return o
        if isinstance(r, BytesRec):
            o = bytearray(self.bytes(r.seq))
            self.objs[ref.id] = o
            return o
        if isinstance(r, DictRec):
            o = {}
            self.objs[ref.id] = o
            for k, x in r.d.items():
                o[k] = self.val(x)
            return o
        raise Unsupported(f'lowering {type(r).__name__}')


class Lift:
    """real objects -> engine heap"""

    def __init__(self, eng, lw):
        self.eng, self.lw = eng, lw
        self.ids = {id(o): i for i, o in lw.objs.items()}
        self.hold = []

    def update_all(self):
        for i, o in list(self.lw.objs.items()):
            self.fill(i, o)

    def fill(self, i, o):
        st = self.eng.st
        st.owned.add(i)
        if isinstance(o, list):
            st.heap[i] = ListRec([[self.val(x) for x in o]] if o else [])
        elif isinstance(o, bytearray):
            st.heap[i] = BytesRec(CB(bytes(o)))
        elif isinstance(o, dict):
            st.heap[i] = DictRec({k: self.val(x) for k, x in o.items()})
        elif isinstance(o, io.BytesIO):
            st.heap[i] = ObjRec(io.BytesIO, {'buf': CB(o.getvalue()), 'pos': o.tell()})
        else:
            st.heap[i] = ObjRec(type(o), {k: self.val(x) for k, x in vars(o).items()})

    def val(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if id(v) in self.ids:
            return Ref(self.ids[id(v)])
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, frozenset, set, range)):
            return v
        if isinstance(v, types.MethodType):
            return interp.BoundMethod(v.__func__, self.val(v.__self__))
        for k, o in getattr(self.eng, 'opaque_real', {}).items():
            if o.attrs.get('real') is v:
                return o
        if isinstance(v, (list, bytearray, dict, io.BytesIO)) or hasattr(v, '__dict__'):
            ref = self.eng.alloc(None)
            self.ids[id(v)] = ref.id
            self.hold.append(v)
            self.fill(ref.id, v)
            return ref
        return Opaque(f'real:{type(v).__name__}', {'real': v})


# ---------------------------------------------------------------- models

def array_value(m, arr):
    v = m.eval(arr, model_completion=True)
    d = {}
    default = 0
    while True:
        k = v.decl().kind()
        if k == z3.Z3_OP_STORE:
            i, x = v.arg(1).as_long(), v.arg(2).as_long()
            d.setdefault(i, x)
            v = v.arg(0)
        elif k == z3.Z3_OP_CONST_ARRAY:
            default = v.arg(0).as_long()
            break
        elif k == z3.Z3_OP_AS_ARRAY:
            fi = m[z3.get_as_array_func(v)]
            for e in fi.as_list()[:-1]:
                d[e[0].as_long()] = e[1].as_long()
            e = fi.else_value()
            default = e.as_long() if e is not None and z3.is_bv_value(e) else 0
            break
        else:
            break
    return [default, d]


def has_fp(fs):
    seen = set()
    work = list(fs)
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if isinstance(x, z3.FPRef) or z3.is_fp(x):
            return True
        work.extend(x.children())
    return False


def solve(goal, timeout):
    """-> (unsat|sat|unknown, back end, model)"""
    goal = [g for g in goal if not isinstance(g, bool)]
    s = z3.Solver()
    s.set('timeout', min(timeout, 4000))
    s.add(*goal)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', 'z3', None
    if r == z3.sat:
        return 'sat', 'z3', s.model()
    if any(is_fp_goal(g) for g in goal):
        # floating point only: bit-blast
        try:
            t = z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'propagate-values', 'elim-uncnstr', 'max-bv-sharing',
                        'bit-blast', 'sat')
            s = t.solver()
            s.set('timeout', timeout)
            s.add(*goal)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', 'z3/fpa2bv', None
            if r == z3.sat:
                return 'sat', 'z3/fpa2bv', s.model()
        except z3.Z3Exception:
            pass
    # two solvers at the same time: what one cannot do in minutes the other often does at once
    race = Race(goal, timeout)
    try:
        for limit in (min(timeout, 8000), timeout):
            r = tactic_check(goal, limit, race)
            if r is not None:
                return r
            if race.unsat:
                return 'unsat', 'cvc5', None
        race.thread.join(timeout / 1000)
        if race.unsat:
            return 'unsat', 'cvc5', None
    finally:
        race.close()
    return 'unknown', 'z3+cvc5', None


class Race:
    """cvc5 in a process of its own; as soon as it refutes the goal the z3 solver at work is interrupted"""

    def __init__(self, goal, timeout):
        import subprocess
        import threading
        self.unsat, self.done, self.solver, self.lock = False, False, None, threading.Lock()
        s = z3.Solver()
        s.add(*no_ieee_bv(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        self.p = None
        try:
            self.p = subprocess.Popen(['cvc5', '--lang=smt2', f'--tlimit={timeout}', '--fp-exp', '-'], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        except OSError:
            pass
        self.thread = threading.Thread(target=self.wait, args=(txt.encode(),), daemon=True)
        self.thread.start()

    def wait(self, txt):
        try:
            out = self.p.communicate(txt)[0].decode().split() if self.p else []
        except Exception:
            return
        with self.lock:
            self.unsat = bool(out) and out[0] == 'unsat' and not self.done
            if self.unsat and self.solver is not None:
                self.solver.interrupt()

    def watch(self, solver):
        with self.lock:
            self.solver = solver
            return not self.unsat

    def close(self):
        with self.lock:
            self.done, self.solver = True, None
        if self.p and self.p.poll() is None:
            self.p.kill()


def tactic_check(goal, timeout, race):
    try:
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'smt')
        s = t.solver()
        s.set('timeout', timeout)
        s.add(*goal)
        if not race.watch(s):
            return None
        try:
            r = s.check()
        finally:
            race.watch(None)
        if r == z3.unsat:
            return 'unsat', 'z3/solve-eqs', None
        if r == z3.sat:
            return 'sat', 'z3/solve-eqs', s.model()
    except z3.Z3Exception:
        pass
    return None


def subterms(ts):
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        yield t
        todo.extend(t.children())


def is_fp_goal(g):
    return any(z3.is_fp_sort(t.sort()) for t in subterms([g]))


def no_ieee_bv(goal):
    """fp.to_ieee_bv (a z3 extension) as a fresh bit vector that denotes the float"""
    subs, extra = [], []
    for t in subterms(goal):
        if t.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
            b = z3.BitVec(f'ieee!{len(subs)}', t.size())
            subs.append((t, b))
            extra.append((b, t.arg(0)))
    if not subs:
        return goal
    # innermost first: the arguments may contain conversions themselves
    out = [z3.substitute(g, *subs) for g in goal]
    return out + [z3.fpBVToFP(b, x.sort()) == z3.substitute(x, *subs) for b, x in extra]


# ---------------------------------------------------------------- contracts

class Contract:
    def __init__(self, prop, name, body, target, covers=(), max_seconds=200, samples=None, heavy=1, known=None,
                 bounded=None, optional=False, standin=None, lazy=False):
        self.prop, self.name, self.body, self.target = prop, name, body, target
        self.covers, self.max_seconds, self.samples, self.heavy = covers, max_seconds, samples, heavy
        self.known, self.bounded, self.optional = known, bounded, optional
        self.lazy = lazy           # run only where another contract needs it as stand-in
        self.standin = standin     # name of the bounded contract that speaks for this one when the verifier cannot decide it
        self.registry = None
        self.direct = None

    @property
    def id(self):
        return f'{self.prop}:{self.name}'


class Result:
    def __init__(self, cid):
        self.id = cid
        self.obls = []          # (name, status, backend, secs)
        self.paths = 0
        self.status = 'proved'  # proved | failed | unknown | unsupported
        self.failure = None     # dict
        self.notes = []
        self.secs = 0.0
        self.solver_secs = 0.0
        self.inlined, self.contracts_used, self.models = set(), set(), set()
        self.covers = {}
        self.samples = 0
        self.sample_fail = None


def run_symbolic(ct, tier='quick', registry=None, disabled=()):
    res = Result(ct.id)
    t0 = time.time()
    c = None
    failed = None
    try:
        c = Ctx(ct, 'symbolic', tier, registry=registry, disabled=disabled)
        eng = c.eng
        st0 = eng.st
        work = [[]]
        while work:
            pre = work.pop()
            if time.time() > eng.deadline:
                raise Budget('time budget')
            eng.st, eng.pc, eng.dec = st0.copy(), [], Dec(pre)
            eng.depth = 0
            eng.flat = eng.flat_next = False
            c.soft = []
            c.used = {}
            try:
                ct.body(c)
                res.paths += 1
            except Infeasible:
                pass
            except Stopped:
                res.paths += 1
                failed = c.obls[-1]
                break
            except PyRaise as e:
                if str(eng.check([])) != 'unsat':  # else: assumptions that exclude each other, no path at all
                    raise Unsupported(f'exception escaped the contract harness: {e.exc!r}')
            work.extend(eng.dec.alts)
    except Unsupported as e:
        res.status = 'unsupported'
        res.notes.append(f'{type(e).__name__}: {e}')
        tb = traceback.extract_tb(e.__traceback__)
        res.notes.append(' <- '.join(f'{f.name}:{f.lineno}' for f in tb[-6:]))
    except RecursionError:
        res.status = 'unsupported'
        res.notes.append('recursion limit of the verifier')
    except z3.Z3Exception as e:
        res.status = 'unsupported'
        res.notes.append(f'z3: {e}')
    except Exception as e:
        res.status = 'unsupported'
        res.notes.append('verifier: ' + ''.join(traceback.format_exception_only(e)).strip() + ' @ ' +
                         ' <- '.join(f'{f.name}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[-5:]))
    if c is not None:
        res.obls = [(o.name, o.status, o.backend, o.secs) for o in c.obls]
        res.solver_secs = c.eng.solver_time + sum(o.secs for o in c.obls)
        res.inlined, res.contracts_used, res.models = c.eng.inlined, c.eng.used_contracts, c.eng.models_used
        res.covers = dict(c.covers)
    if failed is not None:
        # after a loop summarised by a weak invariant, a counterexample that does not replay decides nothing
        res.status = 'failed' if failed.status == 'failed' and not c.weak else 'unknown'
        res.failure = {'obligation': failed.name, 'status': failed.status, 'assignment': failed.model, 'backend': failed.backend}
    elif res.status == 'proved':
        missing = [l for l in ct.covers if not res.covers.get(l)]
        if not res.obls:
            res.status = 'unsupported'
            res.notes.append('no obligation was generated')
        elif missing:
            res.status = 'unsupported'
            res.notes.append(f'vacuity: no feasible path for {missing}')
    res.secs = time.time() - t0
    return res


def run_concrete(ct, assignment=None, rnd=None, registry=None):
    """-> (failed obligation names, values used, ctx) or raises Reject/Unsupported"""
    c = Ctx(ct, 'concrete', assignment=assignment, rnd=rnd, registry=registry)
    streams.PAD = lambda: c.int('padding', 0, 4)
    try:
        ct.body(c)
    except Infeasible:
        raise Reject()
    except Reject:
        raise
    except PyRaise as e:
        if not c.failures:
            raise Unsupported(f'exception escaped the contract harness: {e.exc!r}')
    except Exception:
        # what follows a failed obligation may rely on it
        if not c.failures:
            raise
    return c.failures, c.used, c
