"""FIR prototypes: ideal impulse responses and their rational-cutoff variants"""
from .drv import *
from .approx import find

HDR = '#include <cmath>\nnamespace DSP { using std::sin; using std::cos; }\n#include "filter.hh"\n'
FN = {'low': 'double low(int n, int N, double c, double d) { LowPass<double> f(c); return f(n, N); }',
      'high': 'double high(int n, int N, double c, double d) { HighPass<double> f(c); return f(n, N); }',
      'band': 'double band(int n, int N, double c, double d) { BandPass<double> f(c, d); return f(n, N); }',
      'hilbert': 'double hilbert(int n, int N, double c, double d) { HilbertTransform<double> f; return f(n, N); }',
      'low2': 'double low2(int n, int N, int c, int d) { LowPass2<double> f(c, d); return f(n, N); }',
      'high2': 'double high2(int n, int N, int c, int d) { HighPass2<double> f(c, d); return f(n, N); }'}


def turn(e, st, A, B):
    """sine of the fraction A/B of a turn (integers), identified with the code's uses at arguments a whole number of turns away"""
    x = 2 * PI * z3.ToReal(A) / z3.ToReal(B)
    r = SIN(x)
    for n, N, res in e.turns:
        s = st.copy()
        ws = [Z(0)]
        for t in find(n, lambda u: z3.is_app_of(u, z3.Z3_OP_MOD)):
            # division with remainder, the quotient gives the number of turns
            u, v = t.children()
            s.assume(z3.Implies(v > 0, z3.And(u == v * (u / v) + t, t >= 0, t < v)))
            ws += [-(u / v), u / v]
        s.pc = [c for c in s.pc if not any(y.decl().name() == 'c_sin' for y in find(c, lambda u: z3.is_app(u)))]
        for k in ws:
            g = z3.And(N == B, n - A == B * k)
            if valid(e, s.pc, g, 4000):
                e.oblige('lemma: the unit circle is read at the specified angle, up to full turns', s, g, 'lemma')
                st.assume(res == r)
                break
    return r


def spec(e, st, kind, n, N, c, d):
    """the ideal impulse response at x = n - (N-1)/2, in the case where x is zero / not zero"""
    t = 2 * n - (N - 1)
    x = z3.ToReal(t) / 2
    zero = valid(e, st.pc, t == 0, 2000)
    if kind in ('low2', 'high2'):
        f = 2 * z3.ToReal(c) / z3.ToReal(d)
        if zero:
            return f if kind == 'low2' else 1 - f
        lp = turn(e, st, t * c, 2 * d) / (PI * x)
        return lp if kind == 'low2' else turn(e, st, t, Z(4)) / (PI * x) - lp

    def sc(f):
        if zero:
            return Z(f, R)
        return app(e, st, 'sin', PI * f * x) / (PI * x)
    if kind == 'low':
        return sc(2 * c)
    if kind == 'high':
        return sc(z3.RealVal(1)) - sc(2 * c)
    if kind == 'band':
        return sc(2 * d) - sc(2 * c)


def design(kind):
    def f(ctx):
        rat = kind.endswith('2')
        for nm, case in (('centre', lambda t: t == 0), ('right of it', lambda t: t > 0), ('left of it', lambda t: t < 0)):
            d = Drv(ctx, HDR, FN)
            e = d.e
            uc(e)
            e.turns = []
            if rat:
                sin = e.contracts['UnitCircle::sin']

                def wrap(e, st, fr, obj, vals, sin=sin):
                    r = sin(e, st, fr, obj, vals)
                    e.turns.append((Z(vals[0]), Z(vals[1]), r))
                    return r
                e.contracts['UnitCircle::sin'] = wrap
            st = ctx.state()
            facts(st)
            n, N = z3.Ints('n N')
            c, c1 = z3.Ints('num den') if rat else z3.Reals('c c1')
            t = 2 * n - (N - 1)
            st.assume(N >= 1, N < 1 << 24, n >= 0, n < N, case(t))
            if rat:
                st.assume(c > 0, c1 > 0, c1 < 1 << 24, 2 * c <= c1, t * c < 1 << 31, t * c > -(1 << 31))
                st.assume(t * c >= 0 if nm != 'left of it' else t * c < 0)
            else:
                st.assume(c > 0, c1 > 0, 2 * c <= 1, 2 * c1 <= 1)
            ctx.cover(st)
            r = Z(d(st, kind, n, N, c, c1), R)
            w = spec(e, st, kind, n, N, c, c1)
            e.oblige('equals the ideal impulse response, %s' % nm, st, r == w)
    return f


def symmetry(kind):
    """the tap mirrored at (N-1)/2; the sine is odd"""
    def f(ctx):
        d = Drv(ctx, HDR, FN)
        e = d.e
        uc(e)
        st = ctx.state()
        facts(st)
        n, N = z3.Ints('n N')
        c, c1 = z3.Reals('c c1')
        st.assume(N >= 1, N < 1 << 24, n >= 0, n < N, c > 0, c1 > 0, 2 * c <= 1, 2 * c1 <= 1)
        ctx.cover(st)
        r = Z(d(st, kind, n, N, c, c1), R)
        k = len(e.trans)
        m = Z(d(st, kind, N - 1 - n, N, c, c1), R)
        for nm, v, x in e.trans[k:]:
            for nm2, v2, x2 in e.trans[:k]:
                g = Z(v[0], R) == -Z(v2[0], R)
                if nm == nm2 == 'sin' and valid(e, st.pc, g, 2000):
                    e.oblige('lemma: opposite arguments', st.copy(), g, 'lemma')
                    st.assume(x == -x2)
        for nm, case in (('centre', 2 * n == N - 1), ('elsewhere', 2 * n != N - 1)):
            s = st.copy()
            s.assume(case)
            e.oblige('symmetric, ' + nm, s, m == r)
    return f


def hilbert(ctx):
    for nm, odd in (('even length', 0), ('odd length', 1)):
        d = Drv(ctx, HDR, FN)
        e = d.e
        st = ctx.state()
        facts(st)
        h, n = z3.Ints('h n')
        N = 2 * h + odd
        st.assume(N >= 1, N < 1 << 30, n >= 0, n < N)
        ctx.cover(st)
        r = Z(d(st, 'hilbert', n, N, Fraction(0), Fraction(0)), R)
        t = 2 * n - (N - 1)
        x = z3.ToReal(t) / 2
        if odd:
            w = z3.If((n - h) % 2 == 0, z3.RealVal(0), 2 / (PI * z3.ToReal(n - h)))
        else:
            w = 1 / (PI * x)
        s = st.copy()
        e.oblige('equals the ideal impulse response, ' + nm, s, r == w)
        m = Z(d(st, 'hilbert', N - 1 - n, N, Fraction(0), Fraction(0)), R)
        e.oblige('antisymmetric, ' + nm, st, m == -r)


def sinc(ctx):
    d = Drv(ctx, HDR, {'sn': 'double sn(double x) { return sinc(x); }', 'de': 'double de(double x) { return delta(x); }'})
    e = d.e
    st = ctx.state()
    facts(st)
    x = z3.Real('x')
    ctx.cover(st)
    r = Z(d(st, 'sn', x), R)
    for nm, g in (('zero', x == 0), ('not zero', x != 0)):
        s = st.copy()
        s.assume(g)
        w = z3.RealVal(1) if nm == 'zero' else app(e, s, 'sin', PI * x) / (PI * x)
        e.oblige('sinc, argument ' + nm, s, r == w)
    e.oblige('unit impulse', st, Z(d(st, 'de', x), R) == z3.If(x == 0, z3.RealVal(1), z3.RealVal(0)))


NAMES = {'low': 'LowPass', 'high': 'HighPass', 'band': 'BandPass', 'low2': 'LowPass2', 'high2': 'HighPass2'}
UNITS = [Unit(k, design(k), ['%s<TYPE>::%s' % (v, v), '%s<TYPE>::operator()' % v]) for k, v in NAMES.items()] + \
    [Unit(k + ' symmetry', symmetry(k), ['%s<TYPE>::operator()' % NAMES[k]]) for k in ('low', 'high', 'band')] + \
    [Unit('hilbert', hilbert, ['HilbertTransform<TYPE>::operator()']), Unit('sinc', sinc, ['sinc', 'delta'])]
ASSUME = ['exact real arithmetic', 'N < 2^24, 0 < cutoff <= 1/2, den < 2^24, num*(2n-N+1) representable', 'the sine is odd and has period 2*pi',
          'UnitCircle<TYPE> is sine and cosine (P18), Const<TYPE> the constants (P38)',
          'symmetry of the rational variants follows from their equality with the ideal response']
NATIVE = 'P29'
