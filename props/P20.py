"""Power of two scaling, powers of ten and decibel"""
from .drv import *
from .approx import *
from .P19 import split

HDR = 'namespace DSP { using std::nearbyint; using std::sqrt; }\n#include "exp.hh"\n#include "decibel.hh"\n'
FN = {'vldexp': 'double vldexp(double x, int n) { return DSP::ldexp(x, n); }', 'vexp10': 'double vexp10(double x) { return DSP::exp10(x); }',
      'vdb': 'double vdb(double v) { return DSP::decibel(v); }', 'vidb': 'double vidb(double v) { return DSP::idecibel(v); }'}
LIM = 200
LN10 = Fraction('2.302585092994045684017991454684364207601101488628772976033327900967572609677352480235997205')
LG2 = Fraction('0.301029995663981195213738894724493026768189881462108541310427461127108189274424509486927252')
E40 = Fraction(1, 10 ** 40)      # the constants above are correct to this
EXP2 = z3.Function('power_of_two', z3.IntSort(), R)
TOL = Fraction(1, 10 ** 15)


def ldexp(ctx):
    d = Drv(ctx, HDR, FN)
    e = d.e
    st = ctx.state()
    ctx.cover(st)
    x = z3.Real('x')
    for n in range(-LIM, LIM + 1):
        s = st.copy()
        r = Z(d(s, 'vldexp', x, n), R)
        e.oblige('ldexp(x, %d) is x*2^%d' % (n, n), s, r == x * z3.RealVal(Fraction(2) ** n))


def exp10(ctx):
    d = Drv(ctx, HDR, FN)
    e = d.e
    e.approx = True
    st = ctx.state()
    x, w = z3.Reals('x w')
    st.assume(x >= -60, x <= 60)
    ctx.cover(st)
    got = []

    def scale(e, st, fr, obj, vals):
        v, n = Z(vals[0], R), Z(vals[1])
        e.oblige('precondition of ldexp: |n| <= %d' % LIM, st, z3.And(n <= LIM, n >= -LIM), 'precondition')
        got.append((v, n))
        return v * EXP2(n)
    e.contracts['ldexp'] = scale
    r = Z(d(st, 'vexp10', x), R)
    if len(got) != 1:
        raise Unsupported('exp10 does not scale by ldexp once')
    v, n = got[0]
    e.oblige('the result is the scaled approximation', st, r == v * EXP2(n))
    # reduced argument: the code's x after the reduction, found as the linear term the approximation depends on
    c = [t for t in find_all(v) if t.sort() == R and 'x' in symbols(t) and not t.eq(x) and z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SUB, z3.Z3_OP_ADD)]
    c = [t for t in sorted(c, key=depth) if 'x' not in symbols(z3.substitute(v, (t, w))) and not find(z3.substitute(v, (t, w)), lambda u: u.decl().name() == 'nearbyint')]
    if not c:
        raise Unsupported('reduced argument of exp10')
    red = c[-1] if len(c) == 1 else c[0]
    p = z3.substitute(v, (red, w))
    i = z3.ToReal(n)
    M = Fraction(151, 1000)
    e.oblige('the reduced argument is in range', st.copy(), z3.And(red <= z3.RealVal(M), red >= -z3.RealVal(M)))
    # 10^x = 2^n * 10^(x - n*log10(2)): the reduction uses log10(2) up to a negligible error
    dl = Fraction(1, 10 ** 17)
    e.oblige('the reduced argument is x - n*log10(2)', st.copy(), z3.And(red - (x - i * z3.RealVal(LG2)) <= z3.RealVal(dl), (x - i * z3.RealVal(LG2)) - red <= z3.RealVal(dl)))
    by_derivative(e, st, 'approximation of 10^w', p, w, ([LN10], [Fraction(1)]), -M, M, Rat([Fraction(1)]), Fraction(9, 10 ** 16), logd=True)


def find_all(t, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t.get_id() not in seen:
        seen.add(t.get_id())
        out.append(t)
        for c in t.children():
            find_all(c, out, seen)
    return out


def depth(t):
    return 1 + max([depth(c) for c in t.children()] or [0])


def decibel(ctx):
    d = Drv(ctx, HDR, FN)
    e = d.e
    e.approx = True
    st = ctx.state()
    v, w = z3.Reals('v w')
    st.assume(v >= z3.RealVal(Fraction(1, 10 ** 100)), v <= z3.RealVal(10 ** 100))
    ctx.cover(st)
    r = Z(d(st, 'vdb', v), R)
    # chain of square roots
    chain = sorted(find_all2(r, lambda t: t.decl().name() == 'sqrt'), key=depth)
    k = len(chain)
    SQ = z3.Function('sqrt', R, R)
    lo, hi = Fraction(1, 10 ** 100), Fraction(10 ** 100)
    prev = v
    for j, t in enumerate(chain):
        if not t.arg(0).eq(prev):
            raise Unsupported('chain of square roots')
        lo, hi = isq(lo, False), isq(hi, True)
        s = st.copy()
        s.pc = [t >= 0, t * t == prev, prev >= z3.RealVal(lo * lo), prev <= z3.RealVal(hi * hi)]
        e.oblige('lemma: range of root %d' % (j + 1), s, z3.And(t >= z3.RealVal(lo), t <= z3.RealVal(hi)), 'lemma')
        e.oblige('lemma: root %d is a square root' % (j + 1), after(st, prev), z3.And(t >= 0, t * t == prev), 'lemma')
        st.assume(t >= z3.RealVal(lo), t <= z3.RealVal(hi))
        prev = t
    # ln(v) = 2^k ln(root); ln(root) = 2 atanh((root-1)/(root+1))
    m = z3.substitute(r, (prev, z3.Real('s')))
    s_ = z3.Real('s')
    a = [t for t in find_all(m) if z3.is_div(t) and 's' in symbols(t) and 's' not in symbols(z3.substitute(m, (t, w)))]
    a = [t for t in a if sure2(e, s_, t, lo, hi)]
    if not a:
        raise Unsupported('argument of the series')
    p = z3.substitute(m, (a[0], w))
    M = (hi - 1) / (hi + 1) + Fraction(1, 10000)
    s = st.copy()
    s.pc = [s_ >= z3.RealVal(lo), s_ <= z3.RealVal(hi)]
    e.oblige('argument of the series is (s-1)/(s+1), in range', s, z3.And(a[0] == (s_ - 1) / (s_ + 1), a[0] <= z3.RealVal(M), a[0] >= -z3.RealVal(M)))
    by_derivative(e, st, 'series of 10*log10', p, w, ([Fraction(10) / LN10 * 2 ** (k + 1)], [Fraction(1), Fraction(0), Fraction(-1)]), -M, M, Rat([Fraction(0)]), Fraction(6, 10 ** 12), order=15)
    s = st.copy()
    s.pc = [w == 0]
    e.oblige('decibel(1) is 0: the series vanishes at 0', s, p == 0)


def after(st, prev):
    s = st.copy()
    if not z3.is_const(prev):
        s.assume(prev >= 0)
    return s


def sure2(e, s, t, lo, hi):
    return valid(e, [s >= z3.RealVal(lo), s <= z3.RealVal(hi)], t == (s - 1) / (s + 1))


def isq(x, up):
    import math
    b = 10 ** 120 if x < 1 else 10 ** 18
    f = math.isqrt(int(x * b * b))
    return Fraction(f + (1 if up else 0), b)


def find_all2(t, pred):
    return [x for x in find_all(t) if pred(x)]


def idecibel(ctx):
    d = Drv(ctx, HDR, FN)
    e = d.e
    st = ctx.state()
    x = z3.Real('x')
    ctx.cover(st)
    P10 = z3.Function('lib_exp10', R, R)
    e.contracts['exp10'] = lambda e, st, fr, obj, vals: P10(Z(vals[0], R))
    r = Z(d(st, 'vidb', x), R)
    e.oblige('idecibel(x) is exp10(x/10)', st, r == P10(x / 10))


UNITS = [Unit('ldexp', ldexp, ['ldexp']), Unit('exp10', exp10, ['exp10']), Unit('decibel', decibel, ['decibel']), Unit('idecibel', idecibel, ['idecibel'])]
ASSUME = ['exact real arithmetic (rounding of the evaluation is measured natively only)', '|n| <= 200 for ldexp (every n enumerated), |x| <= 60 for exp10, 1e-100 <= v <= 1e100 for decibel',
          'mean value theorem; (10^w)\'/10^w = ln(10), atanh\' = 1/(1-w^2), ln(s) = 2 atanh((s-1)/(s+1)), ln(sqrt(v)) = ln(v)/2; ln(10) and log10(2) to 90 digits',
          'rational normal form and derivative of the evaluated term computed by the tool (exact rational arithmetic)']
NATIVE = 'P20'
