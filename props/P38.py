"""Scalar helpers and constants"""
import mpmath
from .drv import *

HDR = '#include "utils.hh"\n'
F = {
    'f_signum': 'int f_signum(double v) { return signum(v); }',
    'f_signumi': 'int f_signumi(int v) { return signum(v); }',
    'f_lerp': 'double f_lerp(double a, double b, double x) { return lerp(a, b, x); }',
    'f_clamp': 'double f_clamp(double x, double a, double b) { return clamp(x, a, b); }',
    'f_clampi': 'int f_clampi(int x, int a, int b) { return clamp(x, a, b); }',
    'f_pdf': 'double f_pdf(double x, double m, double s) { return normal_pdf(x, m, s); }',
    'f_sinc': 'double f_sinc(double x) { return sinc(x); }',
    'f_delta': 'double f_delta(double x) { return delta(x); }',
}


def unit(which):
    def f(ctx):
        d = Drv(ctx, HDR, {k: v for k, v in F.items() if k in which})
        e, st = d.e, ctx.state()
        x, a, b, s = z3.Reals('x a b s')
        i, j, k = z3.Ints('i j k')
        for t in (i, j, k):
            st.assume(t >= -2**31, t < 2**31)
        facts(st)
        ctx.cover(st)
        I = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        r = lambda *v: Z(v[0])
        if 'f_signum' in which:
            e.oblige('signum of a double', st, Z(d(st, 'f_signum', x)) == I(x > 0) - I(x < 0))
            e.oblige('signum of an int', st, Z(d(st, 'f_signumi', i)) == I(i > 0) - I(i < 0))
        if 'f_lerp' in which:
            e.oblige('lerp is (1-x)*a + x*b', st, Z(d(st, 'f_lerp', a, b, x)) == (1 - x) * a + x * b)
            e.oblige('lerp at 0 is a', st, Z(d(st, 'f_lerp', a, b, Fraction(0))) == a)
            e.oblige('lerp at 1 is b', st, Z(d(st, 'f_lerp', a, b, Fraction(1))) == b)
        if 'f_clamp' in which:
            s2 = st.copy()
            s2.assume(a <= b, i <= j)
            ctx.cover(s2)
            e.oblige('clamp limits to [a, b]', s2, Z(d(s2, 'f_clamp', x, a, b)) == z3.If(x < a, a, z3.If(x > b, b, x)))
            e.oblige('clamp limits integers to [i, j]', s2, Z(d(s2, 'f_clampi', k, i, j)) == z3.If(k < i, i, z3.If(k > j, j, k)))
        if 'f_pdf' in which:
            s2 = st.copy()
            s2.assume(s > 0)
            v = Z(d(s2, 'f_pdf', x, a, s))
            w = app(e, s2, 'exp', -((x - a) * (x - a)) / (2 * s * s))
            e.oblige('normal_pdf is the normal density', s2, v * (SQRT2 * SQRTPI * s) == w)
        if 'f_sinc' in which:
            v = Z(d(st, 'f_sinc', x))
            w = app(e, st, 'sin', PI * x)
            e.oblige('sinc(0) is 1', st, Implies(x == 0, v == 1))
            e.oblige('sinc(x) is sin(pi x)/(pi x)', st, Implies(x != 0, v * (PI * x) == w))
        if 'f_delta' in which:
            e.oblige('delta is one at zero, zero elsewhere', st, Z(d(st, 'f_delta', x)) == z3.If(x == 0, z3.RealVal(1), z3.RealVal(0)))
    return f


CONST = {'EighthPi': lambda m: m.pi / 8, 'FourthPi': lambda m: m.pi / 4, 'HalfPi': lambda m: m.pi / 2, 'Pi': lambda m: +m.pi, 'TwoPi': lambda m: 2 * m.pi,
         'FourPi': lambda m: 4 * m.pi, 'SqrtPi': lambda m: m.sqrt(m.pi), 'SqrtTwoPi': lambda m: m.sqrt(2 * m.pi), 'InvSqrtTwo': lambda m: 1 / m.sqrt(m.mpf(2))}


def frac(x):
    s, m, ex, _ = x._mpf_ if hasattr(x, '_mpf_') else x
    v = Fraction(int(m)) * (Fraction(2) ** ex)
    return -v if s else v


def consts_unit(ctx):
    iv = mpmath.iv
    iv.prec = 400
    d = Drv(ctx, HDR, {n: 'long double c_%s() { return Const<long double>::%s(); }' % (n, n) for n in CONST}, con=False)
    e, st = d.e, ctx.state()
    ctx.cover(st)
    for n, f in CONST.items():
        t = f(iv)
        lo, hi = frac(t._mpi_[0]), frac(t._mpi_[1])
        v = d(st, 'c_' + n)
        if const_of(v) is None:
            raise Unsupported('constant is not a literal')
        v = Fraction(const_of(v))
        eps = Fraction(1, 1 << 63)
        e.oblige('Const::%s agrees with its mathematical value to one unit of extended precision' % n, st, v >= lo * (1 - eps) and v <= hi * (1 + eps))


UNITS = [Unit('signum', unit(['f_signum', 'f_signumi']), ['signum'], [{}]), Unit('lerp', unit(['f_lerp']), ['lerp'], [{}]), Unit('clamp', unit(['f_clamp', 'f_clampi']), ['clamp'], [{}]),
         Unit('normal_pdf', unit(['f_pdf']), ['normal_pdf']), Unit('sinc', unit(['f_sinc']), ['sinc']), Unit('delta', unit(['f_delta']), ['delta'], [{}]),
         Unit('constants', consts_unit, ['Const<T>::' + n for n in CONST], assume=['conversion of the long double literal to float and double rounds to nearest'])]
ASSUME = ['exact real arithmetic; exp and sin are the mathematical functions', 'interval enclosures of pi and square roots by mpmath.iv (400 bits)']
NATIVE = 'P38'
