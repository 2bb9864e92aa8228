"""Moving extremum: two monotone stacks represent the window.

Ghost state: X the input history (X[i] = initial value for i < 0), t the number of inputs, s the first
input still represented by 'refill', e the first one represented by 'dispenser'; G[m] = number of
dispenser entries representing inputs >= m, P[m] = refill position holding the extremum of X[m..t-1];
W, V witness positions.
"""
from .common import *
from . import callee

ARR = lambda s: z3.ArraySort(z3.IntSort(), s)


def text(N, comp, ty):
    return ('#include "movext.hh"\ntemplate class DSP::MovExt<%s, std::equal_to<%s>, std::%s<%s>, %s>;\n' % (ty, ty, comp, ty, N))


def setup(ctx, comp, ty='double'):
    N = ctx.size('NUM', 1000003)
    tu = ctx.tu(text(N, comp, ty))
    e = ctx.engine(tu)
    rec = 'MovExt<%s,std::equal_to<%s>,std::%s<%s>,%s>' % (ty, ty, comp, ty, N)
    return N.v, e, rec


def le(comp):
    return (lambda a, b: a <= b) if comp == 'less' else (lambda a, b: a >= b)


def window_contract(e, N):
    """Delay by its contract (property P03): returns the input from NUM calls ago"""
    def ctor(e, st, fr, obj, v):
        st.ghost['WX'] = z3.K(z3.IntSort(), Z(v[0], z3.RealSort()))
        st.ghost['wt'] = z3.IntVal(0)

    def call(e, st, fr, obj, v):
        wx, wt = st.ghost['WX'], st.ghost['wt']
        r = wx[wt - Z(callee.targs(e, st, obj)[1])]
        st.ghost['WX'] = z3.Store(wx, wt, Z(v[0], z3.RealSort()))
        st.ghost['wt'] = wt + 1
        return r
    e.contracts['Delay::Delay'] = ctor
    e.contracts['Delay::ctor'] = ctor
    e.contracts['Delay::operator()'] = call


class Inv:
    def __init__(self, e, st, o, N, LE, X, t, s, ee, G, P, W, V, init):
        v = e.read(st, o)
        self.d, self.r = v.f['dispenser'].f, v.f['refill'].f
        self.__dict__.update(N=N, LE=LE, X=X, t=t, s=s, e=ee, G=G, P=P, W=W, V=V, init=init)

    def parts(self, skolem=None):
        N, LE, X, t, s, e, G, P, W, V = self.N, self.LE, self.X, self.t, self.s, self.e, self.G, self.P, self.W, self.V
        D, dp, R, rp = self.d['buf'].lf[()], Z(self.d['pos']), self.r['buf'].lf[()], Z(self.r['pos'])
        m, j = (z3.Int('m'), z3.Int('j')) if skolem is None else skolem
        mu = D[G(m) - 1]

        def q(vs, body, pats=None):
            if skolem is not None:
                return body
            return z3.ForAll(vs, body)
        inD, inR = z3.And(m >= e, m < s), z3.And(m >= s, m < t)
        # P(t) is rp+1 by convention
        Pn = lambda x: z3.If(x == t, rp + 1, P(x))
        return [
            ('bounds', z3.And(t >= 0, s <= t, e < s, e >= t - N, s >= 0, e >= -1, z3.Implies(t == 0, e == -1))),
            ('dispenser size', z3.And(dp + 1 == G(e), G(s) == 0, dp >= 0, dp + 1 <= N)),
            ('refill size', z3.And(rp >= -1, rp + 1 <= N, z3.Implies(t == s, rp == -1), z3.Implies(t > s, z3.And(P(s) == 0, P(t - 1) == rp)))),
            ('dispenser chain', q([m], z3.Implies(inD, z3.And(G(m) >= 1, G(m) <= s - m, G(m) <= dp + 1, G(m + 1) >= 0, G(m + 1) <= G(m), G(m) <= G(m + 1) + 1,
                                                               (mu == X[m]) == (G(m) == G(m + 1) + 1))))),
            ('dispenser extremum', q([m, j], z3.Implies(z3.And(inD, j >= m, j < s), LE(mu, X[j])))),
            ('dispenser witness', q([m], z3.Implies(inD, z3.And(W(m) >= m, W(m) < s, X[W(m)] == mu)))),
            ('refill chain', q([m], z3.Implies(inR, z3.And(P(m) >= 0, P(m) <= rp, P(m) <= m - s, rp - P(m) <= t - 1 - m, Pn(m + 1) >= P(m), Pn(m + 1) <= P(m) + 1,
                                                            (R[P(m)] == X[m]) == (Pn(m + 1) == P(m) + 1))))),
            ('dispenser monotone', q([m, j], z3.Implies(z3.And(inD, j >= m, j < s), G(j) <= G(m)))),
            ('refill monotone', q([m, j], z3.Implies(z3.And(inR, j >= m, j < t), P(m) <= P(j)))),
            ('refill extremum', q([m, j], z3.Implies(z3.And(inR, j >= m, j < t), LE(R[P(m)], X[j])))),
            ('refill witness', q([m], z3.Implies(inR, z3.And(V(m) >= m, V(m) < t, X[V(m)] == R[P(m)])))),
            ('refill ordered', q([m, j], z3.Implies(z3.And(m >= 0, m <= j, j <= rp), LE(R[m], R[j])))),
            ('before the represented inputs only the initial value', q([m], z3.Implies(z3.And(m >= t - N, m < e), X[m] == self.init))),
            ('initial value is extremal and stands for inputs before the first', q([m], z3.And(LE(X[m], self.init), z3.Implies(m < 0, X[m] == self.init)))),
        ]


def split(g):
    """one obligation per conjunct"""
    if z3.is_and(g):
        return [x for c in g.children() for x in split(c)]
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), x) for x in split(g.arg(1))]
    return [g]


def arrs(n):
    A = z3.Const(n, ARR(z3.IntSort()))
    return lambda i: A[i]


def ctor(comp):
    def f(ctx):
        N, e, rec = setup(ctx, comp)
        window_contract(e, N)
        st = ctx.state()
        ctx.cover(st)
        init = e.fresh('init', z3.RealSort())
        o = ctx.new(e, st, rec, [init])
        X = z3.K(z3.IntSort(), init)
        e.oblige('window holds the initial history', st, And(st.ghost['wt'] == 0, forall(e, N, lambda j: st.ghost['WX'][-1 - j] == init)))
        G = lambda m: z3.If(m < 0, -m, 0)
        P = lambda m: z3.IntVal(0)
        W = lambda m: m
        I = Inv(e, st, o, N, le(comp), X, z3.IntVal(0), z3.IntVal(0), z3.IntVal(-1), G, P, W, P, init)
        for n, g in I.parts((z3.Int('m!c'), z3.Int('j!c'))):
            if n == 'initial value is extremal and stands for inputs before the first':
                g = g
            e.oblige('constructor establishes: ' + n, st, g)
    return f


def step(comp):
    def f(ctx):
        N, e, rec = setup(ctx, comp)
        window_contract(e, N)
        e.htimeout = 4000
        LE = le(comp)
        st = ctx.state()
        o = ctx.obj(e, st, rec)
        X = z3.Const('X', ARR(z3.RealSort()))
        t, s, ee = z3.Ints('t s e')
        init, x = z3.Reals('init x')
        G, P, W, V = arrs('G'), arrs('P'), arrs('W'), arrs('V')
        I = Inv(e, st, o, N, LE, X, t, s, ee, G, P, W, V, init)
        parts = I.parts()
        for n, g in parts:
            st.assume(g)
        st.assume(LE(x, init), t < 1 << 30)
        # ground instances of the invariant (hints for the solver, implied by the quantified form)
        mc, jc = z3.Int('m!c'), z3.Int('j!c')
        for mm in (ee, ee + 1, s, t - 1, s - 1, mc, mc + 1):
            for jj in (jc, t - 1, mc):
                for n, g in I.parts((mm, jj)):
                    if n in ('dispenser chain', 'refill chain', 'dispenser extremum', 'refill extremum', 'dispenser monotone', 'refill monotone', 'before the represented inputs only the initial value'):
                        st.assume(g)
        st.ghost['WX'], st.ghost['wt'] = X, t
        ctx.cover(st)
        rp0, dp0 = Z(I.r['pos']), Z(I.d['pos'])
        ret = Z(ctx.method(e, st, o, rec, 'operator()', [x]))
        v = e.read(st, o)
        X1 = z3.Store(X, t, x)
        e.oblige('window is fed exactly the input', st, And(st.ghost['wt'] == t + 1, forall(e, N, lambda j: st.ghost['WX'][t - j] == X1[t - j])))
        # witnesses for the new ghost state
        outv = X[t - N]
        top = I.d['buf'].lf[()][dp0]
        popped = outv == top
        e1 = z3.If(z3.Or(ee == t - N, popped), ee + 1, ee)
        moved = e1 == s                          # dispenser ran empty
        rpos = Z(v.f['refill'].f['pos'])
        dpos = Z(v.f['dispenser'].f['pos'])
        q = z3.If(moved, dpos, rpos)             # position the input got in refill
        P1 = lambda m: z3.If(m >= t, q, z3.If(P(m) < q, P(m), q))
        V1 = lambda m: z3.If(z3.And(m < t, P(m) < q), V(m), t)
        s1 = z3.If(moved, t + 1, s)
        e2 = e1
        G1 = lambda m: z3.If(moved, z3.If(m >= t + 1, 0, q + 1 - P1(m)), G(m))
        W1 = lambda m: z3.If(moved, V1(m), W(m))
        J = Inv(e, st, o, N, LE, X1, t + 1, s1, e2, G1, P1, W1, V1, init)
        for n, g in J.parts((z3.Int('m!c'), z3.Int('j!c'))):
            for c in split(g):
                if ctx.sizes is None and n.startswith('dispenser'):
                    for nm, sub in (('refilled', (moved, True)), ('not refilled', (moved, False))):
                        e.oblige('call keeps: %s (%s)' % (n, nm), st, z3.Implies(moved if sub[1] else z3.Not(moved), c))
                else:
                    e.oblige('call keeps: ' + n, st, c)
        j = e.fresh_int('j')
        e.oblige('result is not beaten by any of the last NUM inputs', st, Implies(And(j > t - N, j <= t, j >= 0), LE(ret, X1[j])))
        w1, w2 = W1(e2), V1(s)
        isin = lambda w: And(w > t - N, w >= 0, w <= t, ret == X1[w])
        e.oblige('result is one of the last NUM inputs', st, Or(isin(t), isin(w1), isin(w2)))
    return f


def exact(comp):
    def f(ctx):
        N, e, rec = setup(ctx, comp)
        LE = le(comp)
        st = ctx.state()
        init = e.fresh('init', z3.RealSort())
        o = ctx.new(e, st, rec, [init])
        xs = []
        for t in range(2 * N + 2):
            x = e.fresh('x%d' % t, z3.RealSort())
            st.assume(LE(x, init))
            xs.append(x)
            ret = Z(ctx.method(e, st, o, rec, 'operator()', [x]))
            win = xs[-N:]
            e.oblige('call %d returns the extremum of the last %d inputs' % (t + 1, N), st, And(*[LE(ret, y) for y in win], Or(*[ret == y for y in win])))
    return f


def wrapper(cls, comp, ty):
    """the wrapper starts from a value nothing of the type can beat, and passes input and result through"""
    def f(ctx):
        N = ctx.size('NUM', 1000003)
        tu = ctx.tu('#include "movext.hh"\ntemplate class DSP::%s<%s, %s>;\n' % (cls, ty, N))
        e = ctx.engine(tu)
        rec = '%s<%s,%s>' % (cls, ty, N)
        got = []

        def mctor(e, st, fr, obj, v):
            got.append(v[0])
        F = z3.Function('movext_result', z3.RealSort() if ty in ('double', 'float') else z3.IntSort(), z3.RealSort() if ty in ('double', 'float') else z3.IntSort())
        e.contracts['MovExt::ctor'] = mctor
        e.contracts['MovExt::operator()'] = lambda e, st, fr, obj, v: F(Z(v[0], F.domain(0)))
        st = ctx.state()
        o = ctx.new(e, st, rec)
        if len(got) != 1:
            raise Unsupported('wrapper does not construct one MovExt')
        if ty == 'int':
            v = e.fresh_val(('int', 32, True), 'v', st)
        else:
            mx = e.f_limits('max', {'type': {'qualType': ty}}, st, None)
            v = e.fresh_real('v')
            st.assume(v <= Z(mx), v >= Z(-mx))
        ctx.cover(st)
        e.oblige('%s<%s> starts from an extremal value' % (cls, ty), st, le(comp)(v, Z(got[0], v.sort())))
        r = ctx.method(e, st, o, rec, 'operator()', [v])
        e.oblige('%s passes input and result through' % cls, st, cmp('==', r, F(v)))
    return f


SM = [{"NUM": 1}, {"NUM": 2}]
M = 'MovExt<TYPE,EQUAL,COMP,NUM>::'
UNITS = []
for c in ('less', 'greater'):
    UNITS += [Unit('MovExt(%s) constructor' % c, ctor(c), [M + 'MovExt'], SM, exact=exact(c)),
              Unit('MovExt(%s) operator()' % c, step(c), [M + 'operator()'], SM, bound=5, exact=exact(c), timeout=40)]
for ty in ('int', 'float', 'double'):
    UNITS += [Unit('MovMin<%s>' % ty, wrapper('MovMin', 'less', ty), ['MovMin<TYPE,NUM>::MovMin', 'MovMin<TYPE,NUM>::operator()'], SM),
              Unit('MovMax<%s>' % ty, wrapper('MovMax', 'greater', ty), ['MovMax<TYPE,NUM>::MovMax', 'MovMax<TYPE,NUM>::operator()'], SM)]
ASSUME = ['1 <= NUM <= 2^28, fewer than 2^30 calls', 'sample values are totally ordered and finite (no NaN, no infinities)',
          'Delay is used through its contract, proved as property P03']
NATIVE = 'P06'
