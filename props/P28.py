"""Window functions"""
from math import factorial
from .drv import *
from .approx import find, symbols, rational

HDR = 'namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; using std::cos; }\n#include "window.hh"\n'
W = {'rect': 'Rect<double> w', 'hann': 'Hann<double> w', 'hamming': 'Hamming<double> w', 'lanczos': 'Lanczos<double> w', 'blackman': 'Blackman<double> w', 'gauss': 'Gauss<double> w(a)',
     'blackman1': 'Blackman<double> w(a)', 'blackman3': 'Blackman<double> w(a, b, c)', 'kaiser': 'Kaiser<double> w(a)'}
FN = {k: 'double %s(int n, int N, double a, double b, double c) { %s; return w(n, N); }' % (k, v) for k, v in W.items()}
I0 = z3.Function('bessel_i0', R, R)
SQ = z3.Function('sqrt', R, R)


def i0(e, st, fr, obj, vals):
    x = Z(vals[0], R)
    r = I0(x)
    st.assume(r >= 1)
    e.approx = True
    e.trans.append(('i0', [x], r))
    return r


def env(ctx):
    d = Drv(ctx, HDR, FN)
    uc(d.e)
    d.e.contracts['Kaiser::i0'] = i0
    st = ctx.state()
    n, N = z3.Ints('n N')
    a, b, c = z3.Reals('a b c')
    st.assume(N >= 2, N < 1 << 26)
    facts(st)
    return d, st, n, N, a, b, c


def formula(kind):
    """(window value, position in [-1, 1]) -> specified value"""
    def f(e, st, n, N, a, b, c):
        M = N - 1
        ph = 2 * PI * z3.ToReal(n) / z3.ToReal(M)
        z = 2 * z3.ToReal(n) / z3.ToReal(M) - 1
        cos = lambda: app(e, st, 'cos', ph)
        if kind == 'hann':
            return (1 - cos()) / 2
        if kind == 'hamming':
            return q('0.54') - q('0.46') * cos()
        if kind == 'lanczos':
            return z3.If(z == 0, z3.RealVal(1), app(e, st, 'sin', PI * z) / (PI * z))
        if kind.startswith('blackman'):
            c0, c1, c2 = {'blackman': (q('7938/18608'), q('9240/18608'), q('1430/18608')), 'blackman1': ((1 - a) / 2, q('1/2'), a / 2), 'blackman3': (a, b, c)}[kind]
            # the second harmonic is periodic
            c2v = app(e, st, 'cos', 2 * ph)
            return c0 - c1 * cos() + c2 * c2v
        if kind == 'gauss':
            u = (z3.ToReal(n) - z3.ToReal(M) / 2) / (a * z3.ToReal(M) / 2)
            return app(e, st, 'exp', -u * u / 2)
        if kind == 'kaiser':
            t = 1 - z * z
            return bes(e, st, PI * a * SQ(t)) / bes(e, st, PI * a)
    return f


def bes(e, st, x):
    """specified Bessel value, identified with the code's where the arguments are equal"""
    r = I0(x)
    for nm, vals, res in e.trans:
        if nm == 'i0' and not res.eq(r):
            g = vals[0] == x
            if z3.is_true(z3.simplify(g, som=True)) or valid(e, st.pc, g, 3000):
                e.oblige('lemma: the Bessel function is applied to the specified argument', st.copy(), g, 'lemma')
                st.assume(res == r)
    return r


def roots(e, st, want):
    """square roots of the code with the specified radicand"""
    for t in {x.get_id(): x for nm, vals, res in e.trans for v in vals for x in find(Z(v), lambda u: u.decl().name() == 'sqrt')}.values():
        if not t.arg(0).eq(want) and valid(e, st.pc, t.arg(0) == want, 3000):
            e.oblige('lemma: the root is taken of the specified radicand', st.copy(), t.arg(0) == want, 'lemma')
            st.assume(t == SQ(want))


def window(kind):
    def f(ctx):
        d, st, n, N, a, b, c = env(ctx)
        e = d.e
        st.assume(n >= 0, n < N)
        if kind == 'gauss':
            st.assume(a != 0)
        ctx.cover(st)
        k = e.fresh_int('m')
        M = N - 1
        if kind.startswith('blackman'):
            # 2n mod (N-1) differs from 2n by a multiple of the period
            r2 = (2 * n) % M
            fx = [COS(2 * PI * z3.ToReal(r2) / z3.ToReal(M)) == COS(2 * (2 * PI * z3.ToReal(n) / z3.ToReal(M))), r2 >= 0, r2 < M]
            st.assume(*fx)
        r = Z(d(st, kind, n, N, a, b, c), R)
        if kind == 'kaiser':
            z = 2 * z3.ToReal(n) / z3.ToReal(M) - 1
            roots(e, st, 1 - z * z)
            e.oblige('radicand is not negative', st.copy(), 1 - z * z >= 0)
        w = formula(kind)(e, st, n, N, a, b, c)
        if kind == 'lanczos':
            for nm, g in (('centre', 2 * n == M), ('off centre', 2 * n != M)):
                s = st.copy()
                s.assume(g)
                e.oblige('equals its formula, ' + nm, s, r == w)
        else:
            e.oblige('equals its formula', st.copy(), r == w)
        # values that follow with the function values cos 0 = 1, cos pi = -1, I0 even: on the code
        s = st.copy()
        if kind == 'hann':
            s.assume(n == 0, COS(z3.RealVal(0)) == 1)
            e.oblige('ends at zero', s, r == 0)
        if kind == 'hamming':
            s.assume(n == 0, COS(z3.RealVal(0)) == 1)
            e.oblige('ends at 0.08', s, r == q('0.08'))
        if kind in ('hann', 'hamming', 'blackman', 'blackman1'):
            x = 2 * PI * z3.ToReal(n) / z3.ToReal(M)
            s = st.copy()
            s.assume(2 * n == M, z3.Implies(x == PI, COS(x) == -1), z3.Implies(2 * x == 2 * PI, COS(2 * x) == 1))
            e.oblige('lemma: phase at the centre', s.copy(), x == PI, 'lemma')
            s.assume(x == PI)
            e.oblige('peaks at one in the centre', s, r == 1)
        if kind == 'lanczos':
            s = st.copy()
            s.assume(2 * n == M)
            e.oblige('peaks at one in the centre', s, r == 1)
        if kind == 'gauss':
            s = st.copy()
            s.assume(2 * n == M)
            u = [v[0] for nm, v, rr in e.trans if nm == 'exp' and rr.eq(r)]
            if len(u) == 1:
                e.oblige('peaks at one in the centre: exponent is zero', s, u[0] == 0)
    return f


def rect(ctx):
    d, st, n, N, a, b, c = env(ctx)
    ctx.cover(st)
    r = Z(d(st, 'rect', n, N, a, b, c), R)
    d.e.oblige('rectangular window', st, r == z3.If(z3.And(n >= 0, n < N), z3.RealVal(1), z3.RealVal(0)))


def bessel(ctx):
    """series: exactly the leading terms ((x/2)^m/m!)^2, enough of them"""
    d = Drv(ctx, HDR + 'template class DSP::Kaiser<double>;\n', {})
    e = d.e
    st = ctx.state()
    ctx.cover(st)
    x = z3.Real('x')
    m = [e.tu.method('Kaiser<double>', 'i0', 1)]

    def ksame(e, st, fr, obj, vals):
        # sum.same(v): adds v; true if nothing changed (exact arithmetic: v is zero)
        v = e.read(st, obj)
        s = Z(v.f['$s'], R) + Z(vals[0], R)
        e.write(st, obj, v.set('$s', s))
        return z3.simplify(Z(vals[0], R)) == 0

    def kctor(e, st, fr, obj, vals):
        v = e.read(st, obj)
        e.write(st, obj, StructVal(v.ty if hasattr(v, 'ty') else 'Kahan', {'$s': Z(vals[0], R) if vals else z3.RealVal(0)}))

    def kcall(e, st, fr, obj, vals):
        v = e.read(st, obj)
        if vals:
            v = v.set('$s', Z(v.f['$s'], R) + Z(vals[0], R))
            e.write(st, obj, v)
        return v.f['$s']
    e.contracts['Kahan::ctor'] = e.contracts['Kahan::Kahan'] = kctor
    e.contracts['Kahan::same'] = ksame
    e.contracts['Kahan::operator()'] = kcall
    s = st.copy()
    s.assume(x != 0)
    r = Z(ctx.call(e, s, m[0], None, [x]), R)
    # nonzero argument: no term vanishes
    conds = {c.get_id(): c for t in find(r, lambda u: z3.is_app_of(u, z3.Z3_OP_ITE)) for c in [t.arg(0)]}
    full = r
    for g in range(200):
        t = find(full, lambda u: z3.is_app_of(u, z3.Z3_OP_ITE))
        if not t:
            break
        v = False
        for val, br in ((True, 1), (False, 2)):
            if decided(t[0].arg(0), x) is val:
                full = z3.substitute(full, (t[0], t[0].arg(br)))
                v = True
                break
        if not v:
            raise Unsupported('early return of the series')
    P = rational(full, x)
    c = [v / P.d[0] for v in P.n]
    if len(P.d) != 1:
        raise Unsupported('series with a pole')
    deg = len(c) - 1
    e.approx = True
    e.oblige('enough terms for |x| <= 3*pi', st, z3.BoolVal(deg >= 50))
    for k in range(deg + 1):
        w = Fraction(1, 4 ** (k // 2) * factorial(k // 2) ** 2) if k % 2 == 0 else Fraction(0)
        e.oblige('coefficient of x^%d' % k, st, z3.RealVal(c[k]) == z3.RealVal(w))
    z = st.copy()
    r0 = Z(ctx.call(e, z, m[0], None, [Fraction(0)]), R)
    e.oblige('one at zero', z, r0 == 1)


def decided(c, x):
    """truth of a condition 'monomial of x is zero' (or combinations) for x != 0"""
    k = c.decl().kind()
    if z3.is_true(c) or z3.is_false(c):
        return z3.is_true(c)
    if k == z3.Z3_OP_NOT:
        v = decided(c.arg(0), x)
        return None if v is None else not v
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        vs = [decided(t, x) for t in c.children()]
        if k == z3.Z3_OP_AND:
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    if k == z3.Z3_OP_EQ and z3.is_real(c.arg(0)):
        P = rational(c.arg(0) - c.arg(1), x)
        nz = [i for i, v in enumerate(P.n) if v]
        return True if not nz else (False if len(nz) == 1 else None)
    return None


UNITS = [Unit('rectangular', rect, ['Rect<TYPE>::operator()'])] + [Unit(k, window(k), [v]) for k, v in (
    ('hann', 'Hann<TYPE>::operator()'), ('hamming', 'Hamming<TYPE>::operator()'), ('lanczos', 'Lanczos<TYPE>::operator()'), ('blackman', 'Blackman<TYPE>::Blackman()'), ('blackman1', 'Blackman<TYPE>::Blackman(a)'),
    ('blackman3', 'Blackman<TYPE>::operator()'), ('gauss', 'Gauss<TYPE>::operator()'), ('kaiser', 'Kaiser<TYPE>::operator()'))] + [Unit('bessel series', bessel, ['Kaiser<TYPE>::i0'])]
ASSUME = ['exact real arithmetic', '2 <= N < 2^26', 'UnitCircle<TYPE> is sine and cosine (P18), Const<TYPE> the constants (P38), Kahan<TYPE> the sum (P22)',
          'cosine has period 2*pi, cos(0) = 1, cos(pi) = -1; the Bessel function is its power series (truncated after at least 25 terms, remainder below 2^-53 for |x| <= 3*pi)']
NATIVE = 'P28'
