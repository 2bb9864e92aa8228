"""Triggers"""
from .real import *
B = z3.BoolSort()


def schmitt(two):
    def f(ctx):
        tu = ctx.tu('#include "trigger.hh"\ntemplate class DSP::SchmittTrigger<double>;\n')
        e = ctx.engine(tu)
        rec = 'SchmittTrigger<double>'
        lo, hi, t, p0 = z3.Real('lo0'), z3.Real('hi0'), z3.Real('t0'), z3.Bool('p0')
        flt = lambda m: len(tu.params(m)) == (3 if two else 2)

        def make(st):
            return ctx.new(e, st, rec, [lo, hi, p0] if two else [t, p0], pred=flt)

        def step(st, o, g):
            x = e.fresh_real('x')
            r = Z(tobool(ctx.method(e, st, o, rec, 'operator()', [x])))
            n = z3.If(g['on'], z3.Not(x < g['low']), x > g['high'])
            return [('output is on exactly after exceeding the upper and until falling below the lower threshold', r == n)], {'on': n, 'low': g['low'], 'high': g['high']}
        simulate(ctx, e, rec, make, {'on': B, 'low': R, 'high': R}, {'on': p0, 'low': lo if two else -t, 'high': hi if two else t}, step)
    return f


def schmitt_default(ctx):
    tu = ctx.tu('#include "trigger.hh"\ntemplate class DSP::SchmittTrigger<double>;\nnamespace DSP_drv { void use() { DSP::SchmittTrigger<double> a; } }\n')
    e = ctx.engine(tu)
    st = ctx.state()
    ctx.cover(st)
    rec = 'SchmittTrigger<double>'
    a = ctx.new(e, st, rec, [], pred=lambda m: len(tu.params(m)) == 2)
    b = ctx.new(e, st, rec, [Fraction(1, 3), False], pred=lambda m: len(tu.params(m)) == 2)
    for (p, x), (_, y) in zip(leaves(e.read(st, a)), leaves(e.read(st, b))):
        e.oblige('default threshold is one third, default state off (%s)' % '.'.join(map(str, p)), st, cmp('==', x, y))


def edge(cls, fall):
    def f(ctx):
        tu = ctx.tu('#include "trigger.hh"\n')
        e = ctx.engine(tu)
        p0 = z3.Bool('p0')

        def step(st, o, g):
            x = e.fresh('x', B)
            r = Z(tobool(ctx.method(e, st, o, cls, 'operator()', [x])))
            want = z3.And(g['prev'], z3.Not(x)) if fall else z3.And(z3.Not(g['prev']), x)
            return [('true exactly at %s' % ('on-to-off' if fall else 'off-to-on'), r == want)], {'prev': x}
        simulate(ctx, e, cls, lambda st: ctx.new(e, st, cls, [p0], nparams=1), {'prev': B}, {'prev': p0}, step)
    return f


UNITS = [Unit('SchmittTrigger(low, high)', schmitt(True), ['SchmittTrigger<TYPE>::SchmittTrigger', 'SchmittTrigger<TYPE>::operator()'], STEPS),
         Unit('SchmittTrigger(threshold)', schmitt(False), ['SchmittTrigger<TYPE>::SchmittTrigger', 'SchmittTrigger<TYPE>::operator()'], STEPS),
         Unit('SchmittTrigger()', schmitt_default, ['SchmittTrigger<TYPE>::SchmittTrigger'], STEPS),
         Unit('FallingEdgeTrigger', edge('FallingEdgeTrigger', True), ['FallingEdgeTrigger::FallingEdgeTrigger', 'FallingEdgeTrigger::operator()'], STEPS),
         Unit('RisingEdgeTrigger', edge('RisingEdgeTrigger', False), ['RisingEdgeTrigger::RisingEdgeTrigger', 'RisingEdgeTrigger::operator()'], STEPS)]
ASSUME = ['inputs and thresholds are not NaN']
NATIVE = 'P26'
