"""Floating-point results as WebAssembly defines them: correctly rounded values, and the permitted set of NaN patterns."""
import z3

from pydv import sym
from pydv.sym import zand

from .common import V128, WIDTH, attr, has_attrs, is_val, bits_of, val_seq

SORT = {32: sym.FP32, 64: sym.FP64}
MANT = {32: 23, 64: 52}


def tofp(b):
    return z3.fpBVToFP(b, SORT[b.size()])


def quiet(w):
    return z3.BitVecVal(1 << (MANT[w] - 1), w)


def payload(b):
    return b & z3.BitVecVal((1 << MANT[b.size()]) - 1, b.size())


def isnan_bits(b):
    w = b.size()
    e = z3.BitVecVal(((1 << (w - 1 - MANT[w])) - 1) << MANT[w], w)
    return z3.And((b & e) == e, payload(b) != 0)


def canonical(b):
    return payload(b) == quiet(b.size())


def nan_ok(r, inputs):
    """r is an arithmetic NaN, canonical when every NaN input is"""
    allc = zand(*[z3.Or(z3.Not(isnan_bits(x)), canonical(x)) for x in inputs]) if inputs else z3.BoolVal(True)
    return z3.And(isnan_bits(r), (r & quiet(r.size())) != 0, z3.Implies(allc, canonical(r)))


def float_is(r, res, inputs):
    """the bits r are a permitted encoding of the result `res` (FP term) of an operation on `inputs` (bits)"""
    return z3.If(z3.fpIsNaN(res), nan_ok(r, inputs), z3.And(z3.Not(isnan_bits(r)), tofp(r) == res))


def is_float(c, v, t, res, inputs):
    w = WIDTH[t]
    if not has_attrs(c, v, 'type', 'data'):
        return False
    if val_seq(c, v) is None:
        return False
    r = bits_of(c, v, w)
    return zand(is_val(c, v, t, r), float_is(r, res, inputs))


def lanes(x, lw):
    return [z3.simplify(z3.Extract(lw * i + lw - 1, lw * i, x)) for i in range(x.size() // lw)]


def unlanes(ls):
    return z3.Concat(*reversed(ls))


def vec_bits(c, v):
    return bits_of(c, v, 128)


def is_vec(c, v):
    if not has_attrs(c, v, 'type', 'data'):
        return False
    if val_seq(c, v) is None:
        return False
    return is_val(c, v, V128, vec_bits(c, v))
