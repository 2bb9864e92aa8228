"""Coefficient arrays"""
from .sums import *

DRV = ('namespace DSP { using std::abs; }\n#include "coeffs.hh"\nnamespace DSP_drv { struct F { double operator()(int, int); }; struct G { double operator()(int, int); };\n'
       'void use(F *f, G *g) { DSP::Coeffs<%s, double, %s> a(f), b(f, g); a.normalize(); const double *p = a; } }\ntemplate class DSP::Coeffs<%s, double, %s>;\n')
IS = z3.IntSort()
FF, GG = z3.Function('func', IS, IS, R), z3.Function('func1', IS, IS, R)


class Env:
    def __init__(self, ctx, norm):
        N = ctx.size('TAPS', 1000003)
        nm = 'true' if norm else 'false'
        self.N = N.v
        self.e = e = ctx.engine(ctx.tu(DRV % (N, nm, N, nm)), opaque={'F': IS, 'G': IS})
        e.ext_methods['operator()'] = self.call
        self.rec = 'Coeffs<%s,double,%s>' % (N, nm)
        self.ctx = ctx

    def call(self, e, st, fr, obj, args, node):
        a, b = [Z(e.val(x, st, fr)) for x in args]
        return (FF if 'F' in obj.root else GG)(a, b)

    def ptrs(self, st):
        e = self.e
        f, g = e.alloc(st, 'F', z3.Int('fobj'), None, ('rec', 'F')), e.alloc(st, 'G', z3.Int('gobj'), None, ('rec', 'G'))
        return Ptr(f, None), Ptr(g, None)


def tap(E, st, o, n):
    return Z(E.ctx.method(E.e, st, o, E.rec, 'operator()', [n]), R)


def total(E, f):
    if isinstance(E.N, int):
        return lambda n: sum([f(z3.IntVal(i)) for i in range(const_of(simp(Z(n))))], z3.RealVal(0))
    return spec_sum(E.e, f)


def ctor(two, norm):
    def f(ctx):
        E = Env(ctx, norm)
        e, N = E.e, E.N
        st = ctx.state()
        pf, pg = E.ptrs(st)
        w = (lambda i: FF(i, Z(N)) * GG(i, Z(N))) if two else (lambda i: FF(i, Z(N)))
        S = total(E, w)
        SN = S(N)
        if norm:
            st.assume(SN != 0)
        ctx.cover(st)
        k = 2 if two else 1
        c = e.tu.method(E.rec, 'ctor', k, lambda m: e.tu.body(m) is not None)
        o = e.alloc(st, 'obj', e.fresh_val(('rec', e.tu.record(E.rec).name), 'uninit'), None, ('rec', E.rec))
        ctx.call(e, st, c, o, [pf, pg][:k])
        n = e.fresh_int('n')
        i = e.fresh_int('n')
        st.assume(i >= 0, i < Z(N))
        s1 = st.copy()
        v = tap(E, s1, o, i)
        if norm:
            if not isinstance(N, int):
                relate(e, s1, N, [S], [v] + s1.pc)
            A = z3.If(SN >= 0, SN, -SN)
            e.oblige('tap i is its value over the magnitude of the sum', s1, v * A == w(i))
        else:
            e.oblige('tap i holds func(i, TAPS)%s' % (' * func1(i, TAPS)' if two else ''), s1, v == w(i))
        outside(E, st, o)
    return f


def outside(E, st, o):
    e = E.e
    m = e.fresh_int('m')
    s2 = st.copy()
    s2.assume(z3.Or(m < 0, m >= Z(E.N)), m >= -2**31, m < 2**31)
    e.oblige('zero outside [0, TAPS)', s2, tap(E, s2, o, m) == 0)


def access(ctx):
    E = Env(ctx, False)
    e, N = E.e, E.N
    st = ctx.state()
    o = ctx.obj(e, st, E.rec)
    ctx.cover(st)
    i = e.fresh_int('n')
    st.assume(i >= 0, i < Z(N))
    r = e.tu.record(E.rec)
    conv = [c for c in r.node.get('inner', []) if c.get('kind') == 'CXXConversionDecl' and e.tu.body(c)]
    if len(conv) != 1:
        raise Unsupported('conversion operator')
    p = ctx.call(e, st, conv[0], o, [])
    arr = e.read(st, p.lv)
    v = Z(e.arr_get(arr, add(p.idx or 0, i)), R)
    e.oblige('the pointer conversion exposes tap i', st, v == tap(E, st, o, i))
    outside(E, st, o)


def normalize(ctx):
    E = Env(ctx, False)
    e, N = E.e, E.N
    st = ctx.state()
    o = ctx.obj(e, st, E.rec)
    d = z3.Real('d')
    arr0 = [x for x in e.read(st, o).f.values()][0]
    w = lambda i: Z(e.arr_get(arr0, i), R)
    S = total(E, w)
    SN = S(N)
    st.assume(d != 0, SN != 0)
    ctx.cover(st)
    i = e.fresh_int('n')
    st.assume(i >= 0, i < Z(N))
    s0 = st.copy()
    old = tap(E, s0, o, i)
    e.oblige('taps before are the stored ones', s0, old == w(i))
    ctx.method(e, st, o, E.rec, 'normalize', [d])
    v = tap(E, st, o, i)
    if not isinstance(N, int):
        relate(e, st, N, [S], [v] + st.pc)
    A = z3.If(SN >= 0, SN, -SN)
    e.oblige('tap i becomes its value over divisor*|sum|', st, v * d * A == w(i))
    outside(E, st, o)
    if not isinstance(N, int):
        # consequence for the new sum
        W1 = z3.Const('w1', z3.ArraySort(IS, R))
        T = spec_sum(e, lambda k: W1[k])
        s = ctx.state()
        s.assume(d != 0, SN != 0)
        for sg in (1, -1):
            s2 = s.copy()
            s2.assume(SN * sg > 0)
            kk = e.fresh_int('ind')
            e.oblige('lemma: taps sum to +-1/divisor (base)', s2, T(z3.IntVal(0)) * d * (SN * sg) == S(z3.IntVal(0)), 'lemma')
            s3 = s2.copy()
            s3.assume(kk >= 0, kk < N, T(kk) * d * (SN * sg) == S(kk), W1[kk] * d * (SN * sg) == w(kk))
            e.oblige('lemma: taps sum to +-1/divisor (step)', s3, T(kk + 1) * d * (SN * sg) == S(kk + 1), 'lemma')
            s4 = s2.copy()
            s4.assume(T(N) * d * (SN * sg) == S(N))
            t, u = z3.Reals('t u')
            s4.pc = [z3.substitute(c, (T(N), t), (SN, u)) for c in s4.pc]
            e.oblige('lemma: taps sum to %s1/divisor' % ('+' if sg > 0 else '-'), s4, t * d == sg, 'lemma')


def default_div(ctx):
    """NORMALIZE and normalize() without argument use divisor one"""
    E = Env(ctx, False)
    e, N = E.e, E.N
    st = ctx.state()
    o = ctx.obj(e, st, E.rec)
    ctx.cover(st)
    s1, s2 = st.copy(), st.copy()
    i = e.fresh_int('n')
    for s in (s1, s2):
        s.assume(i >= 0, i < Z(N))
    m = e.tu.method(E.rec, 'normalize', 1)
    ctx.call(e, s1, m, o, [])
    ctx.call(e, s2, m, o, [Fraction(1)])
    a, b = tap(E, s1, o, i), tap(E, s2, o, i)
    s1.pc = s1.pc + s2.pc[len(st.pc):]
    e.oblige('default divisor is one', s1, a == b)


M = 'Coeffs<TAPS,TYPE,NORMALIZE>::'
SM = [{'TAPS': 1}, {'TAPS': 3}]
UNITS = [Unit('Coeffs(func)', ctor(False, False), [M + 'Coeffs(func)', M + 'operator()'], SM), Unit('Coeffs(func0, func1)', ctor(True, False), [M + 'Coeffs(func0,func1)', M + 'operator()'], SM),
         Unit('Coeffs(func) normalised', ctor(False, True), [M + 'Coeffs(func)', M + 'normalize'], SM), Unit('Coeffs(func0, func1) normalised', ctor(True, True), [M + 'Coeffs(func0,func1)', M + 'normalize'], SM),
         Unit('access', access, [M + 'operator()', M + 'operator const TYPE *'], SM), Unit('normalize', normalize, [M + 'normalize'], SM), Unit('normalize()', default_div, [M + 'normalize'], SM)]
ASSUME = ['exact real arithmetic; func is a pure function of its arguments', 'sum of the taps and divisor are not zero when normalising', '1 <= TAPS <= 2^28', 'induction over the discharged base and step lemmas']
NATIVE = 'P36'
