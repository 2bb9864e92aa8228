"""Simple linear regression"""
from .sums import *
HDR = '#include "regression.hh"\ntemplate class DSP::SimpleLinearRegression<double>;\nnamespace DSP_drv { void use(const double *y) { DSP::SimpleLinearRegression<double> a(y, 3); } }\n'
rec = 'SimpleLinearRegression<double>'
AR = z3.ArraySort(z3.IntSort(), R)


def fit(grid):
    def f(ctx):
        e = ctx.engine(ctx.tu(HDR))
        st = ctx.state()
        small = ctx.sizes is not None
        n = ctx.sizes['LEN'] if small else z3.Int('LEN')
        if not small:
            st.assume(n >= 2, n <= 1 << 28)
        XA, YA = z3.Const('x', AR), z3.Const('y', AR)
        x0, dx = z3.Reals('x0 dx')
        rn = Z(n, R)

        def arr(A):
            if small:
                return CArr(('float', 64), [z3.Real('%s%d' % (A.decl().name(), i)) for i in range(n)])
            return Arr(('float', 64), n, {(): A})
        ya = arr(YA)
        yl = e.alloc(st, 'y', ya, None)
        y = lambda i: Z(e.arr_get(ya, i), R)
        pred = lambda k: (lambda m: len(e.tu.params(m)) == k)
        if grid:
            st.assume(dx != 0)
            x = lambda i: x0 + Z(i, R) * dx
            ctx.cover(st)
            o = ctx.new(e, st, rec, [Ptr(yl, 0), n, x0, dx], pred=pred(4))
        else:
            xa = arr(XA)
            xl = e.alloc(st, 'x', xa, None)
            x = lambda i: Z(e.arr_get(xa, i), R)
            a, b = z3.Ints('ia ib')
            if small:
                st.assume(z3.Or(*[x(i) != x(0) for i in range(1, n)]))
            else:
                st.assume(a >= 0, a < n, b >= 0, b < n, x(a) != x(b))
            ctx.cover(st)
            o = ctx.new(e, st, rec, [Ptr(xl, 0), Ptr(yl, 0), n], pred=pred(3))
        m = lambda nm, *v: Z(ctx.method(e, st, o, rec, nm, list(v)), R)
        t = z3.Real('t')
        slope, yint, xint, at = m('slope'), m('yint'), m('xint'), m('operator()', t)
        if small:
            SX, SY, SXX, SXY = [sum([g(i) for i in range(n)], z3.RealVal(0)) for g in (x, y, lambda i: x(i) * x(i), lambda i: x(i) * y(i))]
        else:
            fx, fy, fxx, fxy = [spec_sum(e, g) for g in (x, y, lambda i: x(i) * x(i), lambda i: x(i) * y(i))]
            SX, SY, SXX, SXY = fx(n), fy(n), fxx(n), fxy(n)
            terms = [slope, yint, xint] + st.pc
            relate(e, st, n, [fx, fy], terms)
            if grid:
                pinduct(e, st, 'sum of the grid', n, lambda k: fx(k) == z3.ToReal(k) * x0 + dx * z3.ToReal(k) * (z3.ToReal(k) - 1) / 2)
            aX, aY = z3.Reals('meanx meany')
            st.assume(aX == SX / rn, aY == SY / rn)
            fv, fc = spec_sum(e, lambda i: (x(i) - aX) * (x(i) - aX)), spec_sum(e, lambda i: (x(i) - aX) * (y(i) - aY))
            if grid:
                e.oblige('lemma: mean of the grid', st, aX == x0 + dx * (rn - 1) / 2, 'lemma')
                st.assume(aX == x0 + dx * (rn - 1) / 2)
            relate(e, st, n, [fv, fc], terms)
            tr = z3.ToReal
            pinduct(e, st, 'variance by moments', n, lambda k: fv(k) == fxx(k) - 2 * aX * fx(k) + tr(k) * aX * aX, hyps=[n >= 2])
            pinduct(e, st, 'covariance by moments', n, lambda k: fc(k) == fxy(k) - aX * fy(k) - aY * fx(k) + tr(k) * aX * aY, hyps=[n >= 2])
            V, K = z3.Reals('variance covariance')
            st.assume(V == fv(n), K == fc(n))
            for i in (a, b) if not grid else (z3.IntVal(0), z3.IntVal(1)):
                pinduct(e, st, 'variance is at least one squared deviation', n, lambda k: fv(k) >= z3.If(i < k, (x(i) - aX) * (x(i) - aX), z3.RealVal(0)), hyps=[n >= 2, i >= 0])
            if grid:
                st.assume(x(z3.IntVal(0)) == x0, x(z3.IntVal(1)) == x0 + dx)
            e.oblige('lemma: variance is positive', st, V > 0, 'lemma')
            st.assume(V > 0)
            e.oblige('slope is covariance over variance', st, slope * V == K)
            s2 = st.copy()
            s2.assume(slope * V == K)
            e.oblige('intercept is mean y minus slope times mean x', s2, yint == aY - slope * aX)
            # the normal equations from here on are algebra over the means and moments
            s3 = ctx.state()
            s3.assume(n >= 2, V > 0, slope * V == K, yint == aY - slope * aX, rn * aX == SX, rn * aY == SY,
                      V == SXX - 2 * aX * SX + rn * aX * aX, K == SXY - aX * SY - aY * SX + rn * aX * aY)
            ab = []
            for i_, nm in enumerate((slope, yint, SX, SY, SXX, SXY)):
                v = z3.Real('abs%d' % i_)
                ab.append((nm, v))
            sub_ = lambda g: z3.substitute(g, *ab)
            s3.pc = [sub_(c) for c in s3.pc]
            ctx.cover(s3)
            e.oblige('residuals sum to zero', s3, sub_(SY - rn * yint - slope * SX == 0))
            e.oblige('residuals are orthogonal to the abscissae', s3, sub_(SXY - yint * SX - slope * SXX == 0))
        if small:
            e.oblige('residuals sum to zero', st, SY - rn * yint - slope * SX == 0)
            e.oblige('residuals are orthogonal to the abscissae', st, SXY - yint * SX - slope * SXX == 0)
            e.oblige('x-intercept is a root', st, Implies(slope != 0, yint + slope * xint == 0))
        else:
            s4 = st.copy()
            s4.assume(slope * V == K, yint == aY - slope * aX)
            e.oblige('lemma: x-intercept formula', s4, Implies(K != 0, xint * K == aX * K - aY * V), 'lemma')
            s5 = State(pc=[sub_(c) for c in [V > 0, slope * V == K, yint == aY - slope * aX, slope != 0]])
            xi = z3.Real('xi')
            s5.assume(z3.Implies(K != 0, xi * K == aX * K - aY * V))
            e.oblige('x-intercept is a root', s5, sub_(yint + slope * xi == 0))
        e.oblige('evaluation is yint + slope*x', st, at == yint + slope * t)
    return f


SM = [{'LEN': 2}, {'LEN': 3}]
UNITS = [Unit('fit of (x, y)', fit(False), ['SimpleLinearRegression<TYPE>::' + m for m in ('SimpleLinearRegression(x,y,LEN)', 'xint', 'yint', 'slope', 'operator()')], SM),
         Unit('fit on the grid x0 + i*dx', fit(True), ['SimpleLinearRegression<TYPE>::' + m for m in ('SimpleLinearRegression(y,l,x0,dx)', 'xint', 'yint', 'slope', 'operator()')], SM)]
ASSUME = ['exact real arithmetic (as the statement says)', '2 <= LEN <= 2^28, abscissae not all equal (dx != 0)', 'induction over the discharged base and step lemmas']
NATIVE = 'P11'
