"""Phasor"""
from .drv import *
HDR = 'namespace DSP { using std::sqrt; using std::atan2; using std::sin; using std::cos; }\n#include "complex.hh"\n#include "phasor.hh"\ntemplate class DSP::Phasor<DSP::Complex<double>>;\n'
C = 'Complex<double>'
rec = 'Phasor<Complex<double>>'


def phasor(ctx):
    e = ctx.engine(ctx.tu(HDR))
    consts(e)
    uc(e)
    one = {'pr': z3.RealVal(1), 'pq': z3.RealVal(0), 'dr': z3.RealVal(1), 'di': z3.RealVal(0)}
    isv = lambda m: e.tu.params(m) and e.nty(e.tu.params(m)[0])[0] == 'float'

    def reim(st, v):
        o = e.alloc(st, 'res', v, None, ('rec', C))
        g = lambda n: Z(ctx.method(e, st, o, C, n, []), R)
        return g('real'), g('imag')

    def pyth(st, x):
        S, K = SIN(x), COS(x)
        st.assume(S * S + K * K == 1)

    def call(st, o, g):
        r, i = reim(st, ctx.method(e, st, o, rec, 'operator()', []))
        a, b, c, d = g['pr'], g['pq'], g['dr'], g['di']
        n = {'pr': a * c - b * d, 'pq': a * d + b * c, 'dr': c, 'di': d}
        # (a^2+b^2)(c^2+d^2) = 1, the magnitude the code divides by is one
        st.assume(n['pr'] * n['pr'] + n['pq'] * n['pq'] == (a * a + b * b) * (c * c + d * d))
        return [('returns the current phase factor', z3.And(r == a, i == b)), ('output has unit magnitude', r * r + i * i == 1)], n

    def turn(st, o, g):
        n, N = e.fresh_int('n'), e.fresh_int('N')
        st.assume(N > 0, n >= -N, n <= N, N <= 1 << 26)
        ctx.method(e, st, o, rec, 'omega', [n, N])
        x = 2 * PI * z3.ToReal(n) / z3.ToReal(N)
        pyth(st, x)
        return [], dict(g, dr=app(e, st, 'cos', x), di=app(e, st, 'sin', x))

    def omega(st, o, g):
        v = e.fresh_real('v')
        ctx.method(e, st, o, rec, 'omega', [v], nparams=1)
        pyth(st, v)
        return [], dict(g, dr=app(e, st, 'cos', v), di=app(e, st, 'sin', v))

    def freq(st, o, g):
        v = e.fresh_real('v')
        ctx.method(e, st, o, rec, 'freq', [v])
        x = 2 * PI * v
        pyth(st, x)
        return [], dict(g, dr=app(e, st, 'cos', x), di=app(e, st, 'sin', x))

    def reset(st, o, g):
        ctx.method(e, st, o, rec, 'reset', [])
        return [], dict(g, pr=one['pr'], pq=one['pq'])
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, []), {k: R for k in one}, one,
             [('call', call), ('omega(n, N)', turn), ('omega(v)', omega), ('freq', freq), ('reset', reset)],
             inv=lambda g: z3.And(g['pr'] * g['pr'] + g['pq'] * g['pq'] == 1, g['dr'] * g['dr'] + g['di'] * g['di'] == 1))


UNITS = [Unit('Phasor', phasor, ['Phasor<TYPE>::' + m for m in ('Phasor', 'omega(n,N)', 'omega(v)', 'freq', 'reset', 'operator()')])]
ASSUME = ['exact real arithmetic; sin and cos are the mathematical functions with sin^2+cos^2=1', 'UnitCircle is exact (accuracy is P18)', '|n| <= N <= 2^26']
NATIVE = 'P31'
