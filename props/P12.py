"""Complex numbers"""
from .drv import *

HDR = '#include "complex.hh"\ntypedef DSP::Complex<double> C;\n'
a, b, c, d = z3.Reals('a b c d')      # z = a + ib, w = c + id, real operand c
N = c * c + d * d
# name -> (expression on z(a,b), w(c,d), s(c), spec re, spec im, precondition)
ARITH = {
    'add': ('z + w', a + c, b + d, None), 'sub': ('z - w', a - c, b - d, None), 'mul': ('z * w', a * c - b * d, a * d + b * c, None),
    'neg': ('-z', -a, -b, None), 'pos': ('+z', a, b, None), 'smul': ('s * z', c * a, c * b, None),
    'div': ('z / w', (a * c + b * d) / N, (b * c - a * d) / N, N != 0), 'divs': ('z / s', a / c, b / c, c != 0),
    'sdiv': ('t / w', a * c / N, -a * d / N, N != 0),
    'addeq': ('(z += w)', a + c, b + d, None), 'subeq': ('(z -= w)', a - c, b - d, None), 'muleq': ('(z *= w)', a * c - b * d, a * d + b * c, None),
    'smuleq': ('(z *= s)', a * c, b * c, None), 'divseq': ('(z /= s)', a / c, b / c, c != 0), 'diveq': ('(z /= w)', (a * c + b * d) / N, (b * c - a * d) / N, N != 0),
    'addeq2': ('(z += w, z)', a + c, b + d, None), 'subeq2': ('(z -= w, z)', a - c, b - d, None), 'muleq2': ('(z *= w, z)', a * c - b * d, a * d + b * c, None),
    'smuleq2': ('(z *= s, z)', a * c, b * c, None), 'divseq2': ('(z /= s, z)', a / c, b / c, c != 0), 'diveq2': ('(z /= w, z)', (a * c + b * d) / N, (b * c - a * d) / N, N != 0),
    'addself': ('(z += z, z)', 2 * a, 2 * b, None), 'mulself': ('(z *= z, z)', a * a - b * b, 2 * a * b, None),
    'assign': ('(z = s, z)', c, z3.RealVal(0), None), 'assignr': ('(z = s)', c, z3.RealVal(0), None), 'copy': ('(z = w, z)', c, d, None),
    'real': ('C(s)', c, z3.RealVal(0), None), 'zero': ('C()', z3.RealVal(0), z3.RealVal(0), None), 'make': ('C(s, t)', c, a, None),
    'setre': ('(z.real(s), z)', c, b, None), 'setim': ('(z.imag(s), z)', a, c, None),
    'conj': ('conj(z)', a, -b, None),
}
GROUPS = {'sum and difference': 'add sub neg pos', 'product': 'mul smul', 'quotient': 'div divs sdiv', 'compound sum': 'addeq subeq addeq2 subeq2 addself',
          'compound product': 'muleq smuleq muleq2 smuleq2 mulself', 'compound quotient': 'divseq diveq divseq2 diveq2', 'construction and access': 'assign assignr copy real zero make setre setim',
          'conjugate': 'conj'}
FUN = {'conjugate': ['conj']}


def arith(names):
    def f(ctx):
        fs = {}
        for n in names:
            x = ARITH[n][0]
            for p in ('real', 'imag'):
                fs[n + p] = 'double %s_%s(double a, double b, double c, double d) { C z(a, b), w(c, d); double s = c, t = a; return (%s).%s(); }' % (n, p, x, p)
        D = Drv(ctx, HDR, fs)
        e = D.e
        for n in names:
            x, re, im, pre = ARITH[n]
            st = ctx.state()
            if pre is not None:
                st.assume(pre)
            ctx.cover(st)
            for p, w in (('real', re), ('imag', im)):
                s = st.copy()
                r = Z(D(s, '%s_%s' % (n, p), a, b, c, d), R)
                if n in ('div', 'diveq', 'diveq2', 'sdiv', 'divs', 'divseq', 'divseq2'):
                    # multiplied out: the divisor is not zero
                    den = N if n.startswith('div') and 's' not in n or n == 'sdiv' else c
                    num = {'div': (a * c + b * d, b * c - a * d), 'sdi': (a * c, -a * d)}[n[:3]] if den is N else (a, b)
                    e.oblige('%s: %s part' % (x, p), s, r * den == num[p == 'imag'])
                else:
                    e.oblige('%s: %s part' % (x, p), s, r == w)
    return f


def rest(ctx):
    fs = {
        'eq': 'bool f_eq(double a, double b, double c, double d) { return C(a, b) == C(c, d); }',
        'ne': 'bool f_ne(double a, double b, double c, double d) { return C(a, b) != C(c, d); }',
        'norm': 'double f_norm(double a, double b) { return norm(C(a, b)); }',
        'abs': 'double f_abs(double a, double b) { return abs(C(a, b)); }',
        'arg': 'double f_arg(double a, double b) { return arg(C(a, b)); }',
        'pr': 'double f_pr(double a, double b) { return polar(a, b).real(); }',
        'pi': 'double f_pi(double a, double b) { return polar(a, b).imag(); }'}
    D = Drv(ctx, HDR, fs)
    e, st = D.e, ctx.state()
    ctx.cover(st)
    B = lambda v: Z(tobool(v))
    e.oblige('equality is component-wise', st, B(D(st, 'f_eq', a, b, c, d)) == z3.And(a == c, b == d))
    e.oblige('inequality is its negation', st, B(D(st, 'f_ne', a, b, c, d)) == z3.Not(z3.And(a == c, b == d)))
    e.oblige('norm is the squared magnitude', st, Z(D(st, 'f_norm', a, b)) == a * a + b * b)
    r = Z(D(st, 'f_abs', a, b))
    e.oblige('abs is the non-negative root of the norm', st, z3.And(r >= 0, r * r == a * a + b * b))
    r = Z(D(st, 'f_arg', a, b))
    e.oblige('arg is the angle of (re, im)', st, r == app(e, st, 'atan2', b, a))
    r, i = Z(D(st, 'f_pr', a, b)), Z(D(st, 'f_pi', a, b))
    e.oblige('polar: real part', st, r == a * app(e, st, 'cos', b))
    e.oblige('polar: imaginary part', st, i == a * app(e, st, 'sin', b))


OPS = {'sum and difference': ['operator+', 'operator-'], 'product': ['operator*'], 'quotient': ['operator/'], 'compound sum': ['Complex<T>::operator+=', 'Complex<T>::operator-='],
       'compound product': ['Complex<T>::operator*='], 'compound quotient': ['Complex<T>::operator/='], 'construction and access': ['Complex<T>::Complex', 'Complex<T>::operator=', 'Complex<T>::real', 'Complex<T>::imag'], 'conjugate': ['conj']}
UNITS = [Unit(g, arith(n.split()), OPS[g], [{}]) for g, n in GROUPS.items()] + [Unit('comparison, norm, abs, arg, polar', rest, ['operator==', 'operator!=', 'norm', 'abs', 'arg', 'polar'])]
ASSUME = ['exact real arithmetic (as the statement says); sin, cos, atan2 of the C library are the mathematical functions', 'divisors are not zero']
NATIVE = 'P12'
