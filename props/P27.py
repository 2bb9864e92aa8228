"""Integrator and differentiator"""
from .real import *
HDR = '#include "calculus.hh"\ntemplate class DSP::Integrator<double>;\ntemplate class DSP::Differentiator<double>;\nnamespace DSP_drv { void use() { DSP::Integrator<double> a; DSP::Differentiator<double> b; } }\n'


def integ(ctx):
    e = ctx.engine(ctx.tu(HDR))
    rec = 'Integrator<double>'
    s0 = z3.Real('s0')

    def step(st, o, g):
        x = e.fresh_real('x')
        r = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
        return [('returns initial value plus the sum of all inputs so far', r == g['S'] + x)], {'S': g['S'] + x}
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, [s0]), {'S': R}, {'S': s0}, step)


def diff(ctx):
    e = ctx.engine(ctx.tu(HDR))
    rec = 'Differentiator<double>'
    p0 = z3.Real('p0')

    def step(st, o, g):
        x = e.fresh_real('x')
        r = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
        return [('returns input minus previous input', r == x - g['P'])], {'P': x}
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, [p0]), {'P': R}, {'P': p0}, step)


def defaults(ctx):
    e = ctx.engine(ctx.tu(HDR))
    st = ctx.state()
    ctx.cover(st)
    for rec in ('Integrator<double>', 'Differentiator<double>'):
        a = ctx.new(e, st, rec)
        x = e.fresh_real('x')
        e.oblige('%s starts at zero' % rec, st, Z(ctx.method(e, st, a, rec, 'operator()', [x]), R) == x)


def both(ctx):
    """composition by the step contracts: related states S = P stay related and the signal comes back"""
    e = ctx.engine(ctx.tu(HDR))
    st = ctx.state()
    S, P, x = z3.Reals('S P x')
    st.assume(S == P)
    ctx.cover(st)

    def icall(st, s, x):
        return s + x, s + x

    def dcall(st, p, x):
        return x - p, x
    y, S1 = icall(st, S, x)
    z, P1 = dcall(st, P, y)
    e.oblige('differentiating the integral gives the signal back', st, And(z == x, S1 == P1), 'lemma')
    y, P1 = dcall(st, P, x)
    z, S1 = icall(st, S, y)
    e.oblige('integrating the difference gives the signal back', st, And(z == x, S1 == P1), 'lemma')


UNITS = [Unit('Integrator', integ, ['Integrator<TYPE>::Integrator', 'Integrator<TYPE>::operator()'], STEPS),
         Unit('Differentiator', diff, ['Differentiator<TYPE>::Differentiator', 'Differentiator<TYPE>::operator()'], STEPS),
         Unit('default initial values', defaults, ['Integrator<TYPE>::Integrator', 'Differentiator<TYPE>::Differentiator'], STEPS),
         Unit('composition', both, [])]
ASSUME = ['exact real arithmetic (as the statement says)']
NATIVE = 'P27'
