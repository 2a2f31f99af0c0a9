"""P21: conversions between doubles and integers."""
import z3

from ..interp import CppThrow
from ..machine import MachineWorld, XR
from ..theory import I as INT, R

SOURCES = ['dreal/util/math.cc']
TRUSTED = ['IEEE 754 comparison, modf, and conversion of integers up to 2^53 (dvc/machine.py)',
           'throwing std::runtime_error reports an error (the message is not modelled)']
ASSUMPTIONS = ['the int and int64_t types have 32 and 64 bits (this platform)']


def world(prog):
    return MachineWorld(prog)


def call(I, prog, q, v):
    try:
        return I.load(I.alloc(I.inline(prog.find(q)[0], None, [I.alloc(v)], None))), False
    except CppThrow:
        return None, True


def tasks(prog, w):
    lo32, hi32 = -2 ** 31, 2 ** 31 - 1

    def isint(I):
        v = I.fresh(XR, 'v')
        if I.branch(XR.is_fin(v)):
            v = XR.fin(I.fresh(R, 'r'))
        r, thrown = call(I, prog, 'dreal::is_integer', v)
        I.oblige(z3.BoolVal(not thrown), 'no error')
        if not thrown:
            x = XR.re(v)
            I.oblige(r == z3.And(XR.is_fin(v), w.whole(x), x >= lo32, x <= hi32),
                     'true exactly for whole numbers in the range of int')

    def to_int(I):
        v = w.fresh_int(I, 'int64_t', 'v')
        r, thrown = call(I, prog, 'dreal::convert_int64_to_int', v)
        ok = z3.And(v >= lo32, v <= hi32)
        if thrown:
            I.oblige(z3.Not(ok), 'an error is reported only for numbers out of range')
        else:
            I.oblige(r == v, 'the returned int is the given number')

    def to_double(I):
        v = w.fresh_int(I, 'int64_t', 'v')
        r, thrown = call(I, prog, 'dreal::convert_int64_to_double', v)
        ok = z3.And(v >= -2 ** 53, v <= 2 ** 53)
        if thrown:
            I.oblige(z3.Not(ok), 'an error is reported only outside the contiguous integers')
        else:
            I.oblige(z3.And(XR.is_fin(r), XR.re(r) == z3.ToReal(v)),
                     'the returned double is the given number')
    return [('is_integer', isint), ('convert_int64_to_int', to_int),
            ('convert_int64_to_double', to_double)]
