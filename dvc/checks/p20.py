"""P20: OptionValue keeps the value from the strongest source."""
import os

import z3

from ..interp import Obj
from ..world import World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = [HERE + '/tu/option_value.cc']
TRUSTED = ['the template is proved for an element type about which nothing is known but that '
           'copying it gives an equal value']
Q = 'dreal::OptionValue::'


def world(prog):
    w = World(prog)
    w.T = w.th.sort('VElem')
    w.scalar_types['VElem'] = w.T
    w.TY = {}
    for k in ('DEFAULT', 'FROM_FILE', 'FROM_COMMAND_LINE', 'FROM_CODE'):
        w.TY[k] = [v for q, v in prog.enums.items() if q.endswith('OptionValue::Type::' + k)][0]
    w.nonlinear = False
    return w


def tasks(prog, w):
    T = w.TY
    order = ['DEFAULT', 'FROM_FILE', 'FROM_COMMAND_LINE', 'FROM_CODE']

    def prio(t):
        return z3.If(t == T['DEFAULT'], 0, z3.If(t == T['FROM_FILE'], 1, z3.If(
            t == T['FROM_COMMAND_LINE'], 2, 3)))

    def setter(q, sig, source):
        def run(I):
            val, ty = I.fresh(w.T, 'best'), I.fresh(z3.IntSort(), 'source')
            I.assume(z3.Or(*[ty == x for x in T.values()]))
            this = I.alloc(Obj('dreal::OptionValue', {'value_': val, 'type_': ty}))
            v = I.fresh(w.T, 'v')
            fn = prog.find(Q + q, sig)[0]
            I.inline(fn, this, [I.alloc(v)], None)
            o = I.load(this)
            wins = prio(z3.IntVal(T[source])) >= prio(ty)
            I.oblige(o.fields['type_'] == z3.If(wins, T[source], ty),
                     'the strongest source so far is remembered')
            I.oblige(o.fields['value_'] == z3.If(wins, v, val),
                     'the value is the latest one from the strongest source')
        return run

    def getter(I):
        val, ty = I.fresh(w.T, 'best'), I.fresh(z3.IntSort(), 'source')
        this = I.alloc(Obj('dreal::OptionValue', {'value_': val, 'type_': ty}))
        r = I.inline(prog.find(Q + 'get')[0], this, [], None)
        I.oblige(w.ld(I, r) == val, 'get returns the value held')
        I.oblige(z3.And(I.load(this).fields['value_'] == val,
                        I.load(this).fields['type_'] == ty), 'get changes nothing')

    def ctor(I):
        v = I.fresh(w.T, 'v')
        rec = [r for r in prog.records['dreal::OptionValue'] if any(
            c['kind'] == 'CXXConstructorDecl' and 'VElem' in c['type']['qualType']
            for c in r.get('inner', ()))][0]
        c = w.find_ctor(rec, 'void (dreal::VElem)', 1) or w.find_ctor(rec, 'void (VElem)', 1)
        if c is None:
            c = [x for x in prog.byname[Q + 'OptionValue'] if 'VElem' in x['type']['qualType'] and
                 'OptionValue' not in x['type']['qualType']][0]
        o = I.construct_record(rec, c, [I.alloc(v)], None)
        I.oblige(z3.And(o.fields['value_'] == v, o.fields['type_'] == T['DEFAULT']),
                 'a new option holds the default value from the default source')
    return [('OptionValue::OptionValue', ctor), ('OptionValue::get', getter),
            ('OptionValue::operator=(const T&)', setter('operator=', r'\(const (dreal::)?VElem &\)', 'FROM_CODE')),
            ('OptionValue::operator=(T&&)', setter('operator=', r'\((dreal::)?VElem &&\)', 'FROM_CODE')),
            ('OptionValue::set_from_command_line', setter('set_from_command_line', None, 'FROM_COMMAND_LINE')),
            ('OptionValue::set_from_file', setter('set_from_file', None, 'FROM_FILE'))]
