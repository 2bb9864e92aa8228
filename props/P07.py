"""Moving averages: sum of the last NUM inputs over NUM."""
from .common import *
from . import callee
from .callee import X as HX, induct
from dspv.loops import sum_fn

R = z3.RealSort()


def setup(ctx, cls, extra=''):
    N = ctx.size('NUM', 1000003)
    tu = ctx.tu('#include <cmath>\nnamespace DSP { using std::abs; }\n#include "sma.hh"\ntemplate class DSP::%s<double, double, %s%s>;\n' % (cls, N, extra))
    e = ctx.engine(tu)
    callee.delay(e)
    callee.swa_sum(e)
    return N.v, e, '%s<double,double,%s%s>' % (cls, N, extra.replace(' ', ''))


def rn(N):
    return Z(N, R)


def total(e, arr, N):
    """function n -> sum of the first n elements"""
    if isinstance(N, int):
        return lambda n: sum([Z(e.arr_get(arr, i)) for i in range(const_of(n))], z3.RealVal(0))
    i = z3.Int('#k')
    return sum_fn(e, arr.lf[()][i], i)


class A1:
    """abstraction of SMA1: a ring of the last NUM inputs and the average"""
    def __init__(self, e, st, o, N):
        v = e.read(st, o)
        self.e, self.N, self.a, self.avg, self.pos = e, N, v.f['hist_inp'], v.f['hist_avg'], v.f['hist_pos']

    def inv(self):
        return And(cmp('>=', self.pos, 0), cmp('<', self.pos, self.N))

    def h(self, j):
        x = sub(sub(self.pos, 1), j)
        return self.e.arr_get(self.a, ite(cmp('<', x, 0), add(x, self.N), x))

    def sum(self):
        return total(self.e, self.a, self.N)(Z(self.N))


def relate(e, st, N, arrs, terms):
    """sums over the ring computed by the code, in whichever direction and from whichever start, equal the
    specification's sum: candidate lemmas, kept when inductive, each discharged"""
    from dspv.loops import LoopVerifier
    names = {}

    def visit(x):
        if z3.is_app(x):
            if x.decl().name() in e.sum_info:
                names[x.decl().name()] = x
            for c in x.children():
                visit(c)
    for t in terms:
        visit(Z(t))
    class V: pass
    lv = V()
    lv.e = e
    for nm, app in names.items():
        F, body, ph, phs = e.sum_info[nm]
        if app.num_args() != 1:
            continue
        for T in arrs:
            done = False
            for c in (0, 1):
                for P in (lambda k: F(k) == T(k + c) - T(z3.IntVal(c)), lambda k: F(k) == T(Z(N) - c) - T(Z(N) - c - k)):
                    k = e.fresh_int('ind')
                    if done or not LoopVerifier.valid(lv, st.pc + [k >= 0, k < Z(N), P(k)], P(k + 1), 2000):
                        continue
                    kk = e.fresh_int('ind')
                    s = st.copy()
                    e.oblige('lemma: sum in the code is the sum of the ring (base)', s, P(z3.IntVal(0)), 'lemma')
                    s.assume(kk >= 0, kk < Z(N), P(kk))
                    e.oblige('lemma: sum in the code is the sum of the ring (step)', s, P(kk + 1), 'lemma')
                    for t in (app.arg(0), Z(N), Z(N) - 1):
                        st.assume(z3.Implies(z3.And(t >= 0, t <= Z(N)), P(t)))
                    done = True


def sma1_ctor(ctx):
    N, e, rec = setup(ctx, 'SMA1')
    st = ctx.state()
    ctx.cover(st)
    o = ctx.new(e, st, rec)
    a = A1(e, st, o, N)
    e.oblige('constructor establishes the position invariant', st, a.inv())
    e.oblige('constructor: remembered inputs are zero', st, forall(e, N, lambda j: cmp('==', a.h(j), 0)))
    if not isinstance(N, int):
        T = total(e, a.a, N)
        q = z3.Int(fresh_name('q'))
        st.assume(*[])
        kk = e.fresh_int('ind')
        s = st.copy()
        e.oblige('lemma: sum of the empty ring (base)', s, T(z3.IntVal(0)) == 0, 'lemma')
        s.assume(kk >= 0, kk < N, T(kk) == 0)
        e.oblige('lemma: sum of the empty ring (step)', s, T(kk + 1) == 0, 'lemma')
        st.assume(T(N) == 0)
    e.oblige('constructor: average is the mean of the ring', st, mul(rn(N), Z(a.avg, R)) == a.sum())


def sma1_call(ctx):
    N, e, rec = setup(ctx, 'SMA1')
    st = ctx.state()
    o = ctx.obj(e, st, rec)
    a = A1(e, st, o, N)
    st.assume(a.inv())
    ctx.cover(st)
    x = e.fresh_real('x')
    r = Z(ctx.method(e, st, o, rec, 'operator()', [x]))
    b = A1(e, st, o, N)
    e.oblige('call keeps the position invariant', st, b.inv())
    e.oblige('call remembers the input as newest', st, b.h(0) == x)
    e.oblige('call keeps the other remembered inputs', st, forall(e, sub(N, 1), lambda j: b.h(add(j, 1)) == a.h(j)))
    if not isinstance(N, int):
        T0, T1 = total(e, a.a, N), total(e, b.a, N)
        p = Z(a.pos)
        induct(e, st, 'sum after replacing one element', lambda k: T1(k) == T0(k) + z3.If(k > p, x - a.a.lf[()][p], 0), [Z(N), z3.IntVal(1)])
        relate(e, st, N, [T1, T0], [r])
    e.oblige('call returns (old sum + input - input NUM calls ago) / NUM', st, r * rn(N) == a.sum() + x - a.h(sub(N, 1)))
    e.oblige('average kept is the value returned', st, Z(b.avg) == r)


def sma1_dev(ctx):
    N, e, rec = setup(ctx, 'SMA1')
    st = ctx.state()
    o = ctx.obj(e, st, rec)
    a = A1(e, st, o, N)
    st.assume(a.inv())
    ctx.cover(st)
    r = Z(ctx.method(e, st, o, rec, 'abs_dev'))
    b = A1(e, st, o, N)
    f = lambda v: z3.If(Z(v) - Z(a.avg) >= 0, Z(v) - Z(a.avg), Z(a.avg) - Z(v))
    if isinstance(N, int):
        want = sum([f(e.arr_get(a.a, i)) for i in range(N)], z3.RealVal(0))
    else:
        i = z3.Int('#k')
        T = sum_fn(e, f(a.a.lf[()][i]), i)
        relate(e, st, N, [T], [r])
        want = T(N)
    e.oblige('abs_dev is the mean absolute deviation from the average over the ring', st, r * rn(N) == want)
    e.oblige('abs_dev leaves the state alone', st, And(cmp('==', b.pos, a.pos), cmp('==', b.avg, a.avg), forall(e, N, lambda j: e.arr_get(b.a, j) == e.arr_get(a.a, j))))


def exact1(ctx):
    """from the constructor, arbitrary inputs"""
    N, e, rec = setup(ctx, 'SMA1')
    st = ctx.state()
    o = ctx.new(e, st, rec)
    xs = [Fraction(0)] * N
    for t in range(2 * N + 1):
        x = e.fresh_real('x%d' % t)
        xs = xs[1:] + [x]
        r = Z(ctx.method(e, st, o, rec, 'operator()', [x]))
        S = sum([Z(y, R) for y in xs], z3.RealVal(0))
        e.oblige('call %d returns the mean of the last %d inputs' % (t + 1, N), st, r * N == S)
        d = Z(ctx.method(e, st, o, rec, 'abs_dev'))
        dev = sum([z3.If(Z(y, R) * N - S >= 0, Z(y, R) * N - S, S - Z(y, R) * N) for y in xs], z3.RealVal(0))
        e.oblige('absolute deviation after call %d' % (t + 1), st, d * N * N == dev)


def other(cls, norm):
    """SMA2..4: running sum S of the window as abstraction; S = sum of the last NUM inputs"""
    extra = ', true' if norm else ', false'

    def view(e, st, o):
        v = e.read(st, o)
        sums, hs = [], []

        def go(x):
            if isinstance(x, StructVal):
                if '$X' in x.f:
                    hs.append(x)
                if '$S' in x.f:
                    sums.append(Z(x.f['$S']))
                if 'high' in x.f and 'low' in x.f:
                    sums.append(Z(x.f['high'], R))
                    sums.append(('zero', Z(x.f['low'], R)))
                for y in x.f.values():
                    go(y)
        go(v)
        if 'sum' in v.f and not isinstance(v.f['sum'], StructVal):
            sums.append(Z(v.f['sum'], R))
        return sums, hs

    def inv(sums, S):
        return And(*[(x[1] == 0) if isinstance(x, tuple) else x == S for x in sums])

    def f(ctx):
        N, e, rec = setup(ctx, cls, extra)
        st = ctx.state()
        s0 = st.copy()
        o = ctx.new(e, s0, rec)
        sums, hs = view(e, s0, o)
        if len(hs) != 1 or not sums:
            raise Unsupported('representation not recognised')
        j = e.fresh_int('j')
        e.oblige('constructor: empty history', s0, And(hs[0].f['$t'] == 0, Implies(j < 0, HX(hs[0])[j] == 0)))
        e.oblige('constructor: sums are zero', s0, inv(sums, z3.RealVal(0)))
        # step
        h0 = e.read(s0, o)
        v = e.fresh_val(('rec', e.tu.record(rec).name), 'obj', st)
        o = e.alloc(st, 'obj', v, None, ('rec', rec))
        Xa, t, S, x = z3.Const('X', z3.ArraySort(z3.IntSort(), R)), z3.Int('t'), z3.Real('S'), z3.Real('x')
        for fn, fv in h0.f.items():
            if isinstance(fv, StructVal) and '$X' in fv.f:
                callee.hist(e, st, o.f(fn), Xa, t, **({'$S': S} if '$S' in fv.f else {}))
        st.assume(t >= 0)
        sums, hs = view(e, st, o)
        st.assume(inv(sums, S))
        ctx.cover(st)
        r = Z(ctx.method(e, st, o, rec, 'operator()', [x]))
        sums, hs = view(e, st, o)
        S1 = S + x - Xa[t - Z(N)]
        e.oblige('history is extended by the input', st, And(hs[0].f['$t'] == t + 1, HX(hs[0])[t] == x, Implies(j < t, HX(hs[0])[j] == Xa[j])))
        e.oblige('sum of the window is maintained', st, inv(sums, S1))
        e.oblige('result is the %s of the window' % ('mean' if norm else 'sum'), st, (r * rn(N) if norm else r) == S1)

    def exact(ctx):
        N, e, rec = setup(ctx, cls, extra)
        e.contracts.clear()
        st = ctx.state()
        o = ctx.new(e, st, rec)
        xs = [Fraction(0)] * N
        for t in range(2 * N + 1):
            x = e.fresh_real('x%d' % t)
            xs = xs[1:] + [x]
            r = Z(ctx.method(e, st, o, rec, 'operator()', [x]))
            S = sum([Z(y, R) for y in xs], z3.RealVal(0))
            e.oblige('call %d returns the %s of the last %d inputs' % (t + 1, 'mean' if norm else 'sum', N), st, (r * N if norm else r) == S)
    return f, exact


def lemma(ctx):
    """the recurrence S' = S + x - x_old started at 0 is the sum of the last NUM inputs"""
    N = ctx.size('NUM', 1000003)
    tu = ctx.tu('#include "kahan.hh"\n')
    e = ctx.engine(tu)
    st = ctx.state()
    Xa, t = z3.Const('X', z3.ArraySort(z3.IntSort(), R)), z3.Int('t')
    i = z3.Int('#k')
    W = sum_fn(e, Xa[z3.Int('w0') + i], i)
    w = z3.Int('w0')
    P = z3.Function('prefix', z3.IntSort(), R)     # prefix(j) = sum of X[..j-1]
    pd = lambda j: P(j + 1) == P(j) + Xa[j]
    k = e.fresh_int('k')
    e.oblige('lemma: window sum is a difference of prefix sums (base)', st, W(0) == P(w) - P(w), 'lemma')
    s = st.copy()
    s.assume(k >= 0, W(k) == P(w + k) - P(w), pd(w + k))
    ctx.cover(s)
    e.oblige('lemma: window sum is a difference of prefix sums (step)', s, W(k + 1) == P(w + k + 1) - P(w), 'lemma')
    s = st.copy()
    n = Z(N.v)
    s.assume(pd(t), pd(t - n))
    e.oblige('lemma: moving the window by one', s, (P(t + 1) - P(t + 1 - n)) == (P(t) - P(t - n)) + Xa[t] - Xa[t - n], 'lemma')


SM = [{'NUM': 1}, {'NUM': 2}, {'NUM': 3}]
UNITS = [Unit('SMA1()', sma1_ctor, ['SMA1<TYPE,VALUE,NUM>::SMA1'], SM, exact=exact1),
         Unit('SMA1 operator()', sma1_call, ['SMA1<TYPE,VALUE,NUM>::operator()'], SM, exact=exact1),
         Unit('SMA1 abs_dev', sma1_dev, ['SMA1<TYPE,VALUE,NUM>::abs_dev'], SM, exact=exact1)]
for c in ('SMA2', 'SMA3', 'SMA4'):
    for n in (True, False):
        b, x = other(c, n)
        UNITS.append(Unit('%s%s' % (c, '' if n else ' (no normalisation)'), b, ['%s<TYPE,VALUE,NUM,%s>::%s' % (c, str(n).lower(), m) for m in (c, 'operator()')], SM, exact=x))
UNITS.append(Unit('window sum recurrence', lemma, []))
ASSUME = ['1 <= NUM <= 2^28, fewer than 2^30 calls', 'exact real arithmetic (the statement is about exact arithmetic)',
          'Delay (P03) and SWA with std::plus (P05) are used through their proved contracts', 'induction over the discharged base and step lemmas']
NATIVE = 'P07'
