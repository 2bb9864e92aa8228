"""Trigonometric functions on the unit circle"""
from math import factorial
from .drv import *
from .approx import *

HDR = 'namespace DSP { using std::abs; }\n#include "unit_circle.hh"\n'
FN = {'vcos': 'double vcos(int n, int N) { return UnitCircle<double>::cos(n, N); }', 'vsin': 'double vsin(int n, int N) { return UnitCircle<double>::sin(n, N); }',
      'vrad': 'double vrad(int n, int N) { return UnitCircle<double>::rad(n, N); }'}
TOL = Fraction(1, 10 ** 15)
Q = 'Taylor polynomials of sine and cosine are within the first omitted term of the functions'


def taylor(cosine, y, terms=10):
    """(polynomial, bound of the remainder for |y| <= 4/5)"""
    d = 0 if cosine else 1
    p = sum(z3.RealVal(Fraction((-1) ** k, factorial(2 * k + d))) * power(y, 2 * k + d) for k in range(terms))
    return p, Fraction(4, 5) ** (2 * terms + d) / factorial(2 * terms + d)


def power(y, n):
    r = z3.RealVal(1)
    for i in range(n):
        r = r * y
    return r


def trig(name):
    def f(ctx):
        d = Drv(ctx, HDR, FN)
        e = d.e
        st = ctx.state()
        n, N = z3.Ints('n N')
        st.assume(N > 0, N < 1 << 28, n >= -N, n <= N)
        facts(st)
        ctx.cover(st)
        r = Z(d(st, 'v' + name, n, N), R)
        y = z3.Real('y')
        dropped = set()
        for m in range(-4, 5):
            # within an eighth of a turn of m quarters: 2*pi*n/N = m*pi/2 + y
            s = st.copy()
            s.assume(8 * n <= (2 * m + 1) * N, 8 * n >= (2 * m - 1) * N, y == 2 * PI * z3.ToReal(n) / z3.ToReal(N) - m * PI / 2)
            k = m % 4 if name == 'cos' else (m - 1) % 4      # sin is cos a quarter later
            t, rem = taylor(k % 2 == 0, y)
            t = {0: t, 1: -t, 2: -t, 3: t}[k]
            e.oblige('lemma: distance to %d quarters is at most an eighth of a turn' % m, s.copy(), z3.And(y <= q('0.78539817'), y >= -q('0.78539817')), 'lemma')
            for g, p in cases(e, s, r, y):
                # a case at the border only is left to the neighbour that takes it as an ordinary case
                b = next((b for b in (2 * m - 1, 2 * m + 1) if g and valid(e, s.pc + list(g), 8 * n == b * N)), None)
                if b is not None and b not in dropped:
                    w = s.copy()
                    w.assume(*g)
                    e.oblige('lemma: case of the border between eighths', w, 8 * n == b * N, 'lemma')
                    dropped.add(b)
                    continue
                w = s.copy()
                w.pc = [z3.And(y <= q('0.78539817'), y >= -q('0.78539817'))]
                close_to(e, w, '%s within 1e-15 around %d quarter turns' % (name, m), p, t, TOL - rem, y)
                w = s.copy()
                w.assume(4 * n == m * N, *g)
                e.oblige('%s exact at %d quarter turns' % (name, m), w, r == {0: 1, 1: 0, 2: -1, 3: 0}[k])
    return f


def rad(ctx):
    d = Drv(ctx, HDR, FN)
    st = ctx.state()
    n, N = z3.Ints('n N')
    st.assume(N != 0)
    ctx.cover(st)
    r = Z(d(st, 'vrad', n, N), R)
    d.e.oblige('rad is 2*pi*n/N', st, r == 2 * PI * z3.ToReal(n) / z3.ToReal(N))


UNITS = [Unit('cos', trig('cos'), ['UnitCircle<TYPE>::cos', 'UnitCircle<TYPE>::cosine_approx', 'UnitCircle<TYPE>::sine_approx']), Unit('sin', trig('sin'), ['UnitCircle<TYPE>::sin']), Unit('rad', rad, ['UnitCircle<TYPE>::rad'])]
ASSUME = ['exact real arithmetic (rounding of the evaluation is measured natively only)', '|n| <= N < 2^28', Q, 'Const<TYPE>::TwoPi() is 2*pi (P38)']
NATIVE = 'P18'
