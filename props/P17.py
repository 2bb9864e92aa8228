"""Cubic Hermite spline"""
from .drv import *
HDR = '#include <algorithm>\n#include "spline.hh"\ntypedef DSP::CubicHermiteSpline<double, double> S;\n'
FS = {'seg': 'double seg(const double *Y, double t, int k, int n) { return S::eval(Y, t, k, n); }',
      'uni': 'double uni(const double *Y, double x, int n, double x0, double dx) { return S::eval(Y, x, n, x0, dx); }',
      'dflt': 'double dflt(const double *Y, double x, int n) { return S::eval(Y, x, n); }',
      'gseg': 'double gseg(const double *X, const double *Y, double t, int k, int n) { return S::eval(X, Y, t, k, n); }',
      'gen': 'double gen(const double *X, const double *Y, double x, int n) { return S::eval(X, Y, x, n); }'}
AR = z3.ArraySort(z3.IntSort(), R)


def env(ctx, names):
    D = Drv(ctx, HDR, FS)
    e = D.e
    e.contracts['std::lower_bound'] = lower_bound
    st = ctx.state()
    n = ctx.sizes['n'] if ctx.sizes is not None else z3.Int('n')
    st.assume(Z(n) >= 3, Z(n) <= 1 << 28)
    ty = ('float', 'double')
    ps, fs = [], []
    for nm in names:
        if isinstance(n, int):
            a = CArr(ty, [z3.Real('%s%d' % (nm, i)) for i in range(n)])
            f = (lambda a: lambda i: Z(e.arr_get(a, simp(Z(i))), R))(a)
        else:
            A = z3.Const(nm, AR)
            a = Arr(ty, n, {(): A})
            f = (lambda A: lambda i: A[Z(i)])(A)
        ps.append(Ptr(e.alloc(st, nm, a, None, ('arr', ty, n)), 0))
        fs.append(f)
    return D, e, st, n, ps, fs


def lower_bound(e, st, fr, obj, vals):
    """std::lower_bound on a sorted range: first element not less than the value"""
    b, en, x = vals
    k = e.fresh_int('lb')
    arr = e.read(st, b.lv)
    x = Z(x, R)
    b0, e0 = Z(b.idx or 0), Z(en.idx)
    st.assume(k >= b0, k <= e0)
    g = lambda i: Z(e.arr_get(arr, i), R)
    st.assume(z3.Implies(k < e0, g(k) >= x), z3.Implies(k > b0, g(k - 1) < x))
    if isinstance(arr, CArr):
        e.approx = False
    return Ptr(b.lv, k)


PV = z3.Function('segment_value', z3.IntSort(), R, R)


def by_contract(e, n, ps):
    """the segment functions as proved in the segment units: value of segment clamp(k) at t"""
    def con(e, st, fr, obj, vals):
        ptr = [v for v in vals if isinstance(v, Ptr)]
        if len(ptr) != len(ps) or len(vals) != len(ps) + 3:
            return NotImplemented
        t, k, m = vals[len(ps):]
        e.approx = True
        e.oblige('segment is evaluated on the whole arrays', st, And(*[And(p.lv.root == q.lv.root, cmp('==', p.idx or 0, 0)) for p, q in zip(ptr, ps)], cmp('==', m, n)))
        return PV(clampi(Z(k), n), Z(t, R))
    e.contracts['CubicHermiteSpline::eval'] = con


def basis(t):
    return (1 + 2 * t) * (1 - t) * (1 - t), t * (1 - t) * (1 - t), t * t * (3 - 2 * t), t * t * (t - 1)


def tangent(n, Y, X=None):
    """finite-difference tangents at sample i"""
    def dq(i):      # difference quotient of the interval ending at i
        return (Y(i) - Y(i - 1)) / (X(i) - X(i - 1)) if X else Y(i) - Y(i - 1)

    def m(i):
        return z3.If(i == 0, dq(i + 1), z3.If(i == Z(n) - 1, dq(i), (dq(i) + dq(i + 1)) / 2))
    return m


def poly(n, s, t, Y, X=None):
    m, b = tangent(n, Y, X), basis(t)
    w = X(s + 1) - X(s) if X else 1
    return b[0] * Y(s) + b[1] * w * m(s) + b[2] * Y(s + 1) + b[3] * w * m(s + 1)


def clampi(k, n):
    return z3.If(k < 0, 0, z3.If(k > Z(n) - 2, Z(n) - 2, k))


def cases(e, st, n, k, goal):
    """split by segment kind: first, inner, last"""
    for nm, c in (('first segment', k <= 0), ('inner segment', z3.And(k > 0, k < Z(n) - 2)), ('last segment', k >= Z(n) - 2)):
        s = st.copy()
        s.assume(c)
        e.oblige('%s: Hermite polynomial with finite-difference tangents' % nm, s, goal(c))


def at(n, k, f):
    """goal of one case, with the segment substituted"""
    return lambda c: f(z3.IntVal(0)) if c.eq(k <= 0) else f(Z(n) - 2) if c.eq(k >= Z(n) - 2) else f(k)


def seg(ctx):
    D, e, st, n, (py,), (Y,) = env(ctx, ['Y'])
    t, k = z3.Real('t'), z3.Int('k')
    ctx.cover(st)
    st.assume(k >= -(1 << 30), k <= 1 << 30)
    r = Z(D(st, 'seg', py, t, k, n), R)
    cases(e, st, n, k, at(n, k, lambda s: r == poly(n, s, t, Y)))


def pick(n, tx):
    return z3.If(tx < 0, 0, z3.If(tx >= z3.ToReal(Z(n) - 1), Z(n) - 2, z3.ToInt(tx)))


def uni(name):
    def f(ctx):
        D, e, st, n, (py,), (Y,) = env(ctx, ['Y'])
        x, x0, dx = z3.Reals('x x0 dx')
        if name == 'dflt':
            x0, dx = z3.RealVal(0), z3.RealVal(1)
        tx = z3.Real('tx')
        st.assume(dx != 0, tx * dx == x - x0, tx > -(1 << 30), tx < 1 << 30)
        ctx.cover(st)
        if name == 'dflt':
            st.assume(tx == x)
        else:
            st.assume((x - x0) / dx == tx)
        by_contract(e, n, [py])
        r = Z(D(st, name, py, x, n, x0, dx) if name == 'uni' else D(st, name, py, x, n), R)
        k = e.fresh_int('seg')
        st.assume(k == pick(n, tx))
        e.oblige('value of the segment containing the point, end segments outside', st, r == PV(k, tx - z3.ToReal(k)))
    return f


def gseg(ctx):
    D, e, st, n, (px, py), (X, Y) = env(ctx, ['X', 'Y'])
    t, k = z3.Real('t'), z3.Int('k')
    increasing(st, n, X)
    ctx.cover(st)
    st.assume(k >= -(1 << 30), k <= 1 << 30)
    r = Z(D(st, 'gseg', px, py, t, k, n), R)
    cases(e, st, n, k, at(n, k, lambda s: r == poly(n, s, t, Y, X)))


def increasing(st, n, X):
    if isinstance(n, int):
        st.assume(*[X(i) < X(i + 1) for i in range(n - 1)])
    else:
        i = z3.Int(fresh_name('q'))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - 1), X(i) < X(i + 1)), patterns=[X(i)]))


def gen(ctx):
    D, e, st, n, (px, py), (X, Y) = env(ctx, ['X', 'Y'])
    x = z3.Real('x')
    increasing(st, n, X)
    ctx.cover(st)
    s = e.fresh_int('seg')
    # the segment: the one containing x, the end segments outside
    st.assume(s >= 0, s <= Z(n) - 2, z3.Or(s == 0, X(s) < x), z3.Or(s == Z(n) - 2, x <= X(s + 1)))
    if not isinstance(n, int):
        i, j = z3.Ints('qi qj')
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), X(i) < X(j)), patterns=[z3.MultiPattern(X(i), X(j))]))
    else:
        st.assume(*[X(i) < X(j) for i in range(n) for j in range(i + 1, n)])
    by_contract(e, n, [px, py])
    r = Z(D(st, 'gen', px, py, x, n), R)
    e.oblige('value of the segment containing the point, end segments outside', st, r == PV(s, (x - X(s)) / (X(s + 1) - X(s))))


def shape(ctx):
    """a cubic with these basis functions has the given end values and end derivatives"""
    e = Drv(ctx, HDR, FS).e
    st = ctx.state()
    ctx.cover(st)
    t, p0, p1, m0, m1 = z3.Reals('t p0 p1 m0 m1')
    b = basis(t)
    P = b[0] * p0 + b[1] * m0 + b[2] * p1 + b[3] * m1
    c2, c3 = 3 * (p1 - p0) - 2 * m0 - m1, 2 * (p0 - p1) + m0 + m1
    e.oblige('lemma: coefficients of the Hermite polynomial', st, z3.simplify(P - (p0 + m0 * t + c2 * t * t + c3 * t * t * t), som=True) == 0, 'lemma')
    e.oblige('lemma: passes through both samples', st, z3.And(p0 + m0 * 0 + c2 * 0 + c3 * 0 == p0, p0 + m0 + c2 + c3 == p1), 'lemma')
    e.oblige('lemma: derivatives at both ends are the tangents', st, z3.And(m0 + 2 * c2 * 0 + 3 * c3 * 0 == m0, m0 + 2 * c2 + 3 * c3 == m1), 'lemma')


C = 'CubicHermiteSpline<OTYPE,ITYPE>::'
B = [C + m for m in ('h00', 'h10', 'h01', 'h11')]
SM = [{'n': 3}, {'n': 4}, {'n': 5}]
UNITS = [Unit('uniform segment', seg, B + [C + 'left(Y)', C + 'right(Y)', C + 'central(Y)', C + 'eval(Y,t,k,n)'], SM),
         Unit('uniform', uni('uni'), [C + 'eval(Y,x,n,x0,dx)'], SM), Unit('uniform defaults', uni('dflt'), [C + 'eval(Y,x,n)'], SM),
         Unit('grid segment', gseg, [C + 'left(X,Y)', C + 'right(X,Y)', C + 'central(X,Y)', C + 'eval(X,Y,t,k,n)'], SM),
         Unit('grid', gen, [C + 'eval(X,Y,x,n)'], SM), Unit('shape', shape, [])]
ASSUME = ['exact real arithmetic', 'std::lower_bound returns the first element not less than the value of a sorted range', '3 <= n <= 2^28, |(x-x0)/dx| < 2^30',
          'strictly increasing abscissae: ordering of neighbours is used also between distant ones (transitivity)']
NATIVE = 'P17'
