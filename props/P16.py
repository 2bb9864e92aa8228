"""Uniform natural cubic spline"""
from .drv import *
from dspv.loops import get, FA
AR = z3.ArraySort(z3.IntSort(), R)


class Env:
    def __init__(self, ctx):
        S = ctx.size('KNOTS', 1000003, lo=3, hi=1 << 20)
        self.N, self.ctx = S.v, ctx
        T = 'DSP::UniformNaturalCubicSpline<%s, double, double>' % S
        self.rec = 'UniformNaturalCubicSpline<%s,double,double>' % S
        self.e = ctx.engine(ctx.tu('#include "spline.hh"\ntemplate class %s;\nnamespace DSP_drv { double use(const double *y) { %s a(y); return a(0); } }\n' % (T, T)))

    def data(self, st, stride):
        e, N = self.e, self.N
        ty = ('float', 'double')
        if isinstance(N, int):
            stride = stride if isinstance(stride, int) else 2
            n = (N - 1) * stride + 1
            a = CArr(ty, [z3.Real('y%d' % i) for i in range(n)])
            Y = lambda i: Z(a.el[const_of(simp(Z(i)))  * stride], R)
        else:
            n = z3.Int('len')
            st.assume(n == (Z(N) - 1) * Z(stride) + 1)
            A = z3.Const('Y', AR)

            def view(z):
                # the knots are the elements at multiples of the stride
                if isinstance(stride, int):
                    return z
                i = z3.simplify(z3.substitute(z, (stride, z3.IntVal(1))))
                if not z3.is_true(z3.simplify(i * stride == z, som=True)) and not z3.is_true(z3.simplify(z3.simplify(i * stride - z, som=True) == 0)):
                    raise Unsupported('element between the knots')
                return i
            a = Arr(ty, n, {(): A}, view)
            Y = lambda i: A[simp(Z(i))]
        return Ptr(e.alloc(st, 'Y', a, None, ('arr', ty, n)), 0), Y, stride

    def ctor(self, m):
        return len(self.e.tu.params(m)) == 4

    def roles(self):
        """which field holds the coefficient of which power: probed on the evaluation of a constant object"""
        if hasattr(self, '_r'):
            return self._r
        e, ctx = self.e, self.ctx
        e.silent += 1
        try:
            st = ctx.state()
            o = ctx.obj(e, st, self.rec)
            v = e.read(st, o)
            arrs = [k for k, x in v.f.items() if isinstance(x, (Arr, CArr))]
            scal = [k for k, x in v.f.items() if not isinstance(x, (Arr, CArr))]
            r = {}
            for a in arrs:
                s = st.copy()
                for k in arrs:
                    c = z3.RealVal(1 if k == a else 0)
                    e.write(s, o.f(k), CArr(v.f[k].ety, [c] * len(v.f[k].el)) if isinstance(v.f[k], CArr) else Arr(v.f[k].ety, v.f[k].size, {(): z3.K(z3.IntSort(), c)}))
                # start 0 and spacing 1, whichever field is which: decided by the value at 1/2
                got = None
                for z, one in ((scal + [None])[:2], (scal[::-1] + [None])[:2]):
                    s2 = s.copy()
                    e.write(s2, o.f(z), Fraction(0))
                    e.write(s2, o.f(one), Fraction(1))
                    try:
                        w = Z(ctx.method(e, s2, o, self.rec, 'operator()', [q('1/2')]), R)
                    except (Unsupported, ZeroDivisionError):
                        continue
                    got = next((p for p in range(4) if valid(e, s2.pc, w == q('1/%d' % (1 << p)))), None)
                    if got is not None:
                        break
                if got is None or got in r:
                    raise Unsupported('coefficient fields of the spline')
                r[got] = a
        finally:
            e.silent -= 1
        if sorted(r) != [0, 1, 2, 3]:
            raise Unsupported('coefficient fields of the spline')
        self._r = r
        return r

    def co(self, st, o, p, i):
        a = self.e.read(st, o).f[self.roles()[p]]
        return Z(self.e.arr_get(a, simp(Z(i))), R)


def templates(lv):
    """array values stay in [0, 1/3]"""
    out = []
    for k in [k for k in lv.mods if isinstance(k[-1], tuple) and k[-1][0] == 'leaf']:
        j = z3.Int(fresh_name('j'))
        out.append(('stays in [0, 1/3]', lambda st, kk, k=k, j=j: FA([j], z3.Implies(z3.And(j >= 0, j <= kk), z3.And(get(st, k)[j] >= 0, get(st, k)[j] <= q('1/3'))), patterns=[get(st, k)[j]])))
    return out


def built(E, st, dflt=False):
    e, ctx = E.e, E.ctx
    stride = 1 if dflt else z3.Int('stride') if not isinstance(E.N, int) else 2
    st.assume(Z(stride) >= 1, Z(stride) <= 1 << 10)
    p, Y, stride = E.data(st, stride)
    x0, dx = z3.Reals('x0 dx')
    if not dflt:
        st.assume(dx != 0)
    ctx.cover(st)
    e.templates.append(templates)
    o = ctx.new(e, st, E.rec, [p] if dflt else [p, x0, dx, stride], pred=E.ctor)
    return o, Y, x0, dx


def coeffs(ctx):
    E = Env(ctx)
    e, N = E.e, E.N
    st = ctx.state()
    o, Y, x0, dx = built(E, st)
    seg = range(N - 1) if isinstance(N, int) else [e.fresh_int('i')]
    for i in seg:
        zi = Z(i)
        s = st.copy() if isinstance(N, int) else ground(st, [zi - 1, zi, zi + 1, N - 1 - zi, N - 2 - zi, N - 3 - zi])
        s.assume(zi >= 0, zi < Z(N) - 1)
        a, b, c, d = [E.co(s, o, p, zi) for p in range(4)]
        nm = 'segment %s: ' % (i if isinstance(N, int) else 'i')
        e.oblige(nm + 'starts at its knot', s, a == Y(zi))
        e.oblige(nm + 'ends at the next knot', s, a + b + c + d == Y(zi + 1))
        if not isinstance(N, int) or i < N - 2:
            s2 = s.copy()
            s2.assume(zi < Z(N) - 2)
            b1, c1 = E.co(s2, o, 1, zi + 1), E.co(s2, o, 2, zi + 1)
            e.oblige(nm + 'second derivative is continuous', s2, 2 * c + 6 * d == 2 * c1)
            e.oblige(nm + 'first derivative is continuous', s2, b + 2 * c + 3 * d == b1)
    st = st if isinstance(N, int) else ground(st, [0, N - 2])
    e.oblige('second derivative vanishes at the first knot', st, E.co(st, o, 2, 0) == 0)
    e.oblige('second derivative vanishes at the last knot', st, 2 * E.co(st, o, 2, Z(N) - 2) + 6 * E.co(st, o, 3, Z(N) - 2) == 0)


def divisions(t, out=None):
    out = [] if out is None else out
    if z3.is_div(t) and not z3.is_rational_value(t.arg(1)) and not any(t.eq(x) for x in out):
        out.append(t)
    for c in t.children():
        divisions(c, out)
    return out


def value(dflt):
    def f(ctx):
        E = Env(ctx)
        e, N = E.e, E.N
        st = ctx.state()
        if dflt:
            o, Y, x0, dx = built(E, st, True)
            x0, dx = z3.RealVal(0), z3.RealVal(1)
        else:
            o, Y, x0, dx = built(E, st)
        x, tx = z3.Reals('x tx')
        st.assume(tx == (x - x0) / dx, tx > -(1 << 30), tx < 1 << 30)
        # the coefficients are those of an arbitrary spline here: their values are the other unit's business
        A = []
        for p in range(4):
            v = e.read(st, o).f[E.roles()[p]]
            v = CArr(v.ety, [e.fresh_real('co%d' % p) for x in v.el]) if isinstance(v, CArr) else Arr(v.ety, v.size, {(): z3.Const(fresh_name('co%d' % p), AR)})
            e.write(st, o.f(E.roles()[p]), v)
            A.append(v)
        st = ground(st, [])
        r = Z(ctx.method(e, st, o, E.rec, 'operator()', [x]), R)
        # the code's scaled point is tx: proved, then named
        st2 = st.copy()
        for d in divisions(r):
            if valid(e, st.pc, d == tx):
                e.oblige('lemma: scaled point', st.copy(), d == tx, 'lemma')
                r = z3.substitute(r, (d, tx))
                st2.pc = [z3.substitute(c, (d, tx)) for c in st2.pc]
        st = st2
        k = e.fresh_int('seg')
        st.assume(k == z3.If(tx < 0, 0, z3.If(tx >= z3.ToReal(Z(N) - 1), Z(N) - 2, z3.ToInt(tx))))
        t = tx - z3.ToReal(k)
        if isinstance(N, int):
            for j in range(N - 1):
                s = st.copy()
                s.assume(k == j)
                c = [Z(A[p].el[j], R) for p in range(4)]
                e.oblige('value of the polynomial of segment %d' % j, s, r == c[0] + t * (c[1] + t * (c[2] + t * c[3])))
            return
        for nm, g, k in (('before the first knot', tx < 0, 0), ('inside', z3.And(tx >= 0, tx < z3.ToReal(Z(N) - 1)), k), ('after the last knot', tx >= z3.ToReal(Z(N) - 1), N - 2)):
            c = [Z(e.arr_get(A[p], k), R) for p in range(4)]
            t = tx - z3.ToReal(Z(k))
            s = st.copy()
            s.assume(g)
            e.oblige('value of the polynomial of the segment: point ' + nm, s, r == c[0] + t * (c[1] + t * (c[2] + t * c[3])))
    return f


C = 'UniformNaturalCubicSpline<KNOTS,OTYPE,ITYPE>::'
SM = [{'KNOTS': 3}, {'KNOTS': 4}]
UNITS = [Unit('coefficients', coeffs, [C + 'UniformNaturalCubicSpline'], SM), Unit('evaluation', value(False), [C + 'operator()'], SM), Unit('defaults', value(True), [C + 'UniformNaturalCubicSpline', C + 'operator()'], SM)]
ASSUME = ['exact real arithmetic', '3 <= KNOTS <= 2^20, 1 <= STRIDE <= 2^10, |(x-x0)/dx| < 2^30']
NATIVE = 'P16'
