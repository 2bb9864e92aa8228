"""Theil-Sen and repeated median estimators

An element is the upper median of n values exactly if, for every threshold t, it is below t just when more than n/2 of
the values are.  All contracts are stated for one arbitrary threshold, so that they only count the values below it.
"""
from .drv import *
from dspv.loops import FA, flatten, get, array_keys, int_keys
HDR = '#include <cassert>\n#include "theil_sen.hh"\n#include "repeated_median.hh"\n'
I = z3.IntSort()
AR = z3.ArraySort(I, R)
T = z3.Real('threshold')
BELOW = z3.Function('below', AR, I, I)        # elements of the first m that are below the threshold
XA, YA = z3.Const('x', AR), z3.Const('y', AR)
ROW, ROW2, NROW = [z3.Function(n, I, I, I) for n in ('row_below', 'row2_below', 'row_count')]      # slopes, intercepts, number
TOT, TOT2, NTOT = [z3.Function(n, I, I) for n in ('all_below', 'all2_below', 'all_count')]
PAIRS = z3.Function('pairs', I, I)          # number of pairs whose first point is before i
RES = z3.Function('residuals_below', R, I, I)
ONE, ZERO = z3.IntVal(1), z3.IntVal(0)


def ind(c):
    return z3.If(c, ONE, ZERO)


def prev(t):
    return z3.simplify(t - 1)


def below_def(a):
    A, m = a.arg(0), a.arg(1)
    if z3.is_app_of(A, z3.Z3_OP_ITE):
        p, q = BELOW(A.arg(1), m), BELOW(A.arg(2), m)
        return [a == z3.If(A.arg(0), p, q)] + below_def(p) + below_def(q)
    if z3.is_app_of(A, z3.Z3_OP_STORE):       # lemmas discharged in unit 'counting'
        B, i, v = A.children()
        return [g for _, g in store_lemmas(A, B, i, v, m)]
    return [z3.Implies(m <= 0, a == 0), z3.Implies(m > 0, a == BELOW(A, prev(m)) + ind(A[prev(m)] < T))]


def store_lemmas(A, B, i, v, m):
    return [('a store behind the range does not count', z3.Implies(i >= m, BELOW(A, m) == BELOW(B, m))),
            ('a store at its end adds the value', z3.Implies(z3.And(i >= 0, m == i + 1), BELOW(A, m) == BELOW(B, i) + ind(v < T)))]


def slope(i, j):
    return (YA[j] - YA[i]) / (XA[j] - XA[i])


def icept(i, j):
    return (XA[j] * YA[i] - XA[i] * YA[j]) / (XA[j] - XA[i])


def define(e, cls, ln):
    """counts over the pairs of the specification"""
    lo = (lambda i: i + 1) if cls == 'TheilSenEstimator' else (lambda i: ZERO)

    def row(F, f):
        def d(a):
            i, j = a.arg(0), a.arg(1)
            return [z3.Implies(j <= lo(i), a == 0), z3.Implies(j > lo(i), a == F(i, prev(j)) + ind(f(i, prev(j))))]
        return d

    def tot(F, f):
        def d(a):
            i = a.arg(0)
            return [z3.Implies(i <= 0, a == 0), z3.Implies(i > 0, a == F(prev(i)) + f(prev(i)))]
        return d
    diff = lambda i, j: XA[j] != XA[i]
    e.global_syms |= {'threshold', 'x', 'y'}
    e.defs['residuals_below'] = lambda a: [z3.Implies(a.arg(1) <= 0, a == 0), z3.Implies(a.arg(1) > 0, a == RES(a.arg(0), prev(a.arg(1))) + ind(YA[prev(a.arg(1))] - a.arg(0) * XA[prev(a.arg(1))] < T))]
    e.defs['below'] = below_def
    e.defs['row_below'] = row(ROW, lambda i, j: z3.And(diff(i, j), slope(i, j) < T))
    e.defs['row2_below'] = row(ROW2, lambda i, j: z3.And(diff(i, j), icept(i, j) < T))
    e.defs['row_count'] = row(NROW, diff)
    if cls == 'TheilSenEstimator':
        e.defs['all_below'] = tot(TOT, lambda i: ROW(i, ln))
        count, rows, pairs = tot(NTOT, lambda i: NROW(i, ln)), e.defs['row_count'], tot(PAIRS, lambda i: ln - 1 - i)
        e.defs['row_count'] = lambda a: rows(a) + [g for _, g in row_lemma(a.arg(0), a.arg(1))]
        e.defs['all_count'] = lambda a: count(a) + [count_lemma(a.arg(0), ln)]
        e.defs['pairs'] = lambda a: pairs(a) + pairs(PAIRS(z3.simplify(a.arg(0) + 1))) + [pairs_lemma(t, ln) for t in (a.arg(0), z3.simplify(a.arg(0) + 1))]
        return {'row_count': rows, 'all_count': count, 'pairs': pairs}
    else:
        e.defs['all_below'] = tot(TOT, lambda i: ind(ROW(i, ln) > NROW(i, ln) / 2))
        e.defs['all2_below'] = tot(TOT2, lambda i: ind(ROW2(i, ln) > NROW(i, ln) / 2))


def row_lemma(i, j):
    return [('a row counts later points at most', z3.And(NROW(i, j) >= 0, z3.Implies(j >= i + 1, NROW(i, j) <= j - i - 1)))]


def count_lemma(i, ln):
    return z3.Implies(z3.And(i >= 0, i <= ln), z3.And(NTOT(i) >= 0, NTOT(i) <= PAIRS(i)))


def pairs_lemma(i, ln):
    return z3.Implies(z3.And(i >= 0, i <= ln), z3.And(PAIRS(i) <= PAIRS(ln), z3.Implies(i < ln, PAIRS(i) + (ln - 1 - i) <= PAIRS(ln))))


def lemmas(e, st, ln, size, base, a, b):
    """counts of pairs, by induction; afterwards part of the definitions"""
    full = dict(e.defs)
    k, i = z3.Ints('lk li')
    fact = lambda F: [x for f in F for x in base[f.decl().name()](f)]
    H = [ln >= 2]

    def lemma(name, hyps, goal):
        e.oblige('lemma: ' + name, State(pc=H + hyps), goal, 'lemma')
    e.defs = {}
    for nm, g in row_lemma(i, k):
        at = lambda t: z3.substitute(g, (k, t))
        lemma(nm + ' (base)', [k <= i + 1] + fact([NROW(i, k)]), g)
        lemma(nm + ' (step)', [k >= i + 1, g] + fact([NROW(i, k + 1)]), at(k + 1))
    lemma('pairs counted (base)', fact([NTOT(ZERO), PAIRS(ZERO)]), count_lemma(ZERO, ln))
    lemma('pairs counted (step)', [k >= 0, count_lemma(k, ln)] + fact([NTOT(k + 1), PAIRS(k + 1)]) + [g for _, g in row_lemma(k, ln)], count_lemma(k + 1, ln))
    form = lambda t: 2 * PAIRS(t) == 2 * t * ln - t * t - t
    lemma('number of pairs (base)', fact([PAIRS(ZERO)]), form(ZERO))
    lemma('number of pairs (step)', [k >= 0, form(k)] + fact([PAIRS(k + 1)]), form(k + 1))
    d = z3.Int('ld')
    lemma('pairs of the remaining points', [form(k), form(ln), k == ln - 1 - d, d >= -1], z3.And(2 * (PAIRS(ln) - PAIRS(k)) == d * d + d))
    lemma('pairs of the remaining points, linear', [2 * (PAIRS(ln) - PAIRS(k)) == d * d + d, k == ln - 1 - d, d >= -1, k >= 0], pairs_lemma(k, ln))
    S = z3.Int('SIZE')
    twice = S * (S - 1)
    lemma('product of neighbours is even (base)', [S == 0], twice == 2 * (twice / 2))
    lemma('product of neighbours is even (step)', [twice == 2 * d], (S + 1) * S == 2 * (d + S))
    st.assume(twice == 2 * (twice / 2))
    lemma('room for all pairs', [form(ln), ln <= S, twice == 2 * (twice / 2)], PAIRS(ln) <= twice / 2)
    st.assume(PAIRS(ln) <= twice / 2)
    lemma('room for all points', [S >= 3, twice == 2 * (twice / 2)], twice / 2 >= S)
    st.assume(twice / 2 >= S)
    one = lambda t: z3.Implies(t > b, NROW(a, t) >= 1)
    P = [a >= 0, a < b, b < ln, XA[a] != XA[b]]
    lemma('the row of a counts b (base)', P, one(ZERO))
    lemma('the row of a counts b (step)', P + [k >= 0, one(k)] + fact([NROW(a, k + 1)]) + [g for _, g in row_lemma(a, k)], one(k + 1))
    two = lambda t: z3.Implies(t > a, NTOT(t) >= 1)
    lemma('some pair counts (base)', P, two(ZERO))
    lemma('some pair counts (step)', P + [k >= 0, two(k), one(ln), count_lemma(k, ln), k < ln] + fact([NTOT(k + 1)]) + [g for _, g in row_lemma(k, ln)], two(k + 1))
    st.assume(two(ln))
    e.defs = full


def select(e, st, fr, obj, vals):
    """quick_select (P09): the value at position k of the sorted range; the range is permuted"""
    p, k, n = vals
    arr = e.read(st, p.lv)
    if not isinstance(arr, Arr) or set(arr.lf) != {()} or not same(p.idx or 0, 0):
        raise Unsupported('selection in a part of an array')
    k, n = Z(k), Z(n)
    e.oblige('selected range is inside the array', st, And(n >= 1, n <= Z(arr.size), k >= 0, k < n), 'precondition')
    st.assume(n >= 1, n <= Z(arr.size), k >= 0, k < n)
    r = e.fresh_real('sel')
    st.assume((r < T) == (BELOW(arr.lf[()], n) > k))
    A = e.fresh('permuted', AR)
    st.assume(BELOW(A, n) == BELOW(arr.lf[()], n))
    e.write(st, p.lv, Arr(arr.ety, arr.size, {(): A}))
    return r


def kinds(lv, a, every):
    """which of the two quantities the loop collects in array a, or both when that is not plain to see"""
    ws = lv.writes(get(lv.end, a), lv.mods[a]) if lv.end is not None else None
    at = {}
    for q in every:
        v = Z(lv.vals.get(q, lv.L0.get(q)))
        at[v.get_id()] = v
    for _, i, v in ws or ():
        for n, f in enumerate((slope, icept)):
            if any(z3.is_true(z3.simplify(Z(v) == f(u, w))) for u in at.values() for w in at.values() if u is not w):
                lv.e.kind = n
                return (n,)
    return (0, 1)


def templates(cls, ln):
    theil = cls == 'TheilSenEstimator'

    def f(lv):
        out = []
        ints = [q for q in int_keys(lv)]
        L0 = lv.L0
        every = [q for q, v in flatten(lv.st0).items() if q[-1] != '#ptr' and q[0] != '$ghost' and (z3.is_expr(v) and z3.is_int(v) or isinstance(v, int) and not isinstance(v, bool))]
        reals = [q for q, v in flatten(lv.st0).items() if q[-1] != '#ptr' and q[0] != '$ghost' and q not in lv.mods and z3.is_expr(v) and z3.is_real(v)]
        g = lambda st, q: Z(get(st, q))
        for c in ints:          # number of values collected
            out.append(('not negative', lambda st, k, c=c: g(st, c) >= 0))
            out.append(('not more than the points', lambda st, k, c=c: g(st, c) <= ln))
            for u in every:
                if u == c:
                    continue
                out.append(('one value per point', lambda st, k, c=c, u=u: g(st, c) == g(st, u)))
                if theil:
                    out.append(('values collected', lambda st, k, c=c, u=u: g(st, c) == NTOT(g(st, u))))
                for w in ints:
                    if w in (c, u):
                        continue
                    out.append(('values collected in the row', lambda st, k, c=c, u=u, w=w: g(st, c) == Z(L0[c]) + NROW(g(st, u), g(st, w))))
                    if not theil:
                        out.append(('every other point gives a value', lambda st, k, c=c, u=u, w=w: g(st, c) == g(st, w) - ind(g(st, w) > g(st, u))))
        for a in array_keys(lv):
            if lv.mods[a].sort() != AR:
                continue
            A = lambda st, a=a: get(st, a)
            ks = kinds(lv, a, every) if cls == 'RepeatedMedianEstimator' else (0,)
            outer = (lv.e.kind,) if len(ks) == 2 and hasattr(lv.e, 'kind') else ks
            for u in ints:
                for F in [(TOT, TOT2)[n] for n in outer]:
                    out.append(('values below the threshold', lambda st, k, A=A, u=u, F=F: BELOW(A(st), g(st, u)) == F(g(st, u))))
                for s in reals:
                    out.append(('residuals below the threshold', lambda st, k, A=A, u=u, s=s: BELOW(A(st), g(st, u)) == RES(Z(get(st, s)), g(st, u))))
                for c in ints:
                    if c == u:
                        continue
                    if theil:
                        out.append(('values below the threshold', lambda st, k, A=A, u=u, c=c: BELOW(A(st), g(st, c)) == TOT(g(st, u))))
                    for v in every:
                        if v in (u, c):
                            continue
                        for F in [(ROW, ROW2)[n] for n in ks]:
                            out.append(('values of the row below the threshold', lambda st, k, A=A, u=u, c=c, v=v, a=a, F=F: BELOW(A(st), g(st, c)) == BELOW(L0[a], Z(L0[c])) + F(g(st, v), g(st, u))))
        return out
    return f


def est(cls):
    theil = cls == 'TheilSenEstimator'

    def f(ctx):
        S = ctx.size('SIZE', 1009, lo=3 if theil else 2, hi=1 << 15)
        D = Drv(ctx, HDR + 'template class DSP::%s<double, %s>;\n' % (cls, S), {'use': 'void use() { %s<double, %s> a; }' % (cls, S)})
        e = D.e
        e.contracts['quick_select'] = select
        e.htimeout = 900
        st = ctx.state()
        ln = z3.Int('LEN')
        st.assume(ln >= 2, ln <= S.v)
        base = define(e, cls, ln)
        ty = ('float', 64)
        px, py = [Ptr(e.alloc(st, n, Arr(ty, ln, {(): v}), None, ('arr', ty, ln)), 0) for n, v in (('x', XA), ('y', YA))]
        a, b = z3.Ints('ia ib')
        if theil:
            st.assume(a >= 0, a < b, b < ln, XA[a] != XA[b])
        else:
            st.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < ln, b >= 0, b < ln, a != b), XA[a] != XA[b]), patterns=[z3.MultiPattern(XA[a], XA[b])]))
        ctx.cover(st)
        if theil:
            lemmas(e, st, ln, S.v, base, a, b)
        rec = '%s<double,%s>' % (cls, S)
        o = ctx.new(e, st, rec, [])
        e.templates.append(templates(cls, ln))
        ctx.method(e, st, o, rec, 'compute', [px, py, ln])
        get_ = lambda n: Z(ctx.method(e, st, o, rec, n, []), R)
        s, yi = get_('slope'), get_('yint')
        if theil:
            e.oblige('slope is the upper median of all pairwise slopes', st, (s < T) == (TOT(ln) > NTOT(ln) / 2))
        else:
            e.oblige('slope is the upper median of the medians through each point', st, (s < T) == (TOT(ln) > ln / 2))
        if cls == 'RepeatedMedianEstimator':
            e.oblige('intercept is the upper median of the medians through each point', st, (yi < T) == (TOT2(ln) > ln / 2))
        else:
            e.oblige('intercept is the upper median of y - slope*x', st, (yi < T) == (RES(s, ln) > ln / 2))
        s0 = st.copy()
        s0.assume(s != 0)
        e.oblige('x-intercept is -yint/slope', s0, get_('xint') * s == -yi)
        v = e.fresh_real('v')
        e.oblige('evaluates to yint + slope*x', st, Z(ctx.method(e, st, o, rec, 'operator()', [v]), R) == yi + s * v)
    return f


def counting(ctx):
    """effect of a store on the number of elements below the threshold"""
    e = Drv(ctx, HDR, {'use': 'void use() {}'}).e
    A, B = z3.Const('A', AR), z3.Const('B', AR)
    i, k, v = z3.Int('i'), z3.Int('k'), z3.Real('v')
    fact = lambda F: [x for f in F for x in below_def(f)]
    H = [A == z3.Store(B, i, v)]

    def lemma(name, hyps, goal):
        st = State(pc=H + hyps)
        e.oblige('lemma: ' + name, st, goal)
    (n1, g1), (n2, g2) = store_lemmas(A, B, i, v, k)
    at = lambda g, t: z3.substitute(g, (k, t))
    lemma(n1 + ' (base)', [k <= 0] + fact([BELOW(A, k), BELOW(B, k)]), g1)
    lemma(n1 + ' (step)', [k >= 0, g1] + fact([BELOW(A, k + 1), BELOW(B, k + 1)]), at(g1, k + 1))
    lemma(n2, [at(g1, i), k == i + 1] + fact([BELOW(A, i + 1)]), g2)


# the smallest capacities in full: used for TheilSenEstimator<2> and to name a failing case when a contract does not hold

def cnt(cs):
    return z3.Sum([z3.If(c, 1, 0) for c in cs]) if cs else z3.IntVal(0)


def median_of(r, items, k=None):
    """r is the upper median of the values v of the items (guard, v) whose guard holds"""
    n = cnt([g for g, v in items])
    k = n / 2 if k is None else k
    return z3.And(z3.Or(*[z3.And(g, r == v) for g, v in items]), cnt([z3.And(g, v < r) for g, v in items]) <= k, cnt([z3.And(g, v <= r) for g, v in items]) > k)


def small_select(e, st, fr, obj, vals):
    """quick_select (P09): the value at position k of the sorted range; the range is permuted"""
    p, k, n = vals
    arr = e.read(st, p.lv)
    base = p.idx or 0
    if not isinstance(arr, CArr):
        raise Unsupported('selection in an array of symbolic size')
    k, n = Z(k), Z(n)
    cap = len(arr.el)
    e.oblige('selected range is inside the array', st, And(n >= 1, n + Z(base) <= cap, k >= 0, k < n))
    r = e.fresh_real('sel')
    items = [(z3.And(Z(i) >= Z(base), Z(i) < Z(base) + n), Z(x, R)) for i, x in enumerate(arr.el)]
    st.assume(median_of(r, items, k))
    e.write(st, p.lv, CArr(arr.ety, [e.fresh_real('perm') for _ in arr.el]))
    return r


def small_est(cls, cap, ln):
    def f(ctx):
        D = Drv(ctx, HDR + 'template class DSP::%s<double, %d>;\n' % (cls, cap), {'use': 'void use() { %s<double, %d> a; }' % (cls, cap)})
        e = D.e
        e.bound = 64
        e.contracts['quick_select'] = small_select
        st = ctx.state()
        xs, ys = [z3.Real('x%d' % i) for i in range(ln)], [z3.Real('y%d' % i) for i in range(ln)]
        ty = ('float', 'double')
        px, py = [Ptr(e.alloc(st, n, CArr(ty, list(v)), None, ('arr', ty, ln)), 0) for n, v in (('x', xs), ('y', ys))]
        if cls == 'TheilSenEstimator':
            st.assume(z3.Or(*[xs[i] != xs[0] for i in range(1, ln)]))
        else:
            st.assume(z3.Distinct(*xs))
        ctx.cover(st)
        rec = '%s<double,%d>' % (cls, cap)
        o = ctx.new(e, st, rec, [])
        ctx.method(e, st, o, rec, 'compute', [px, py, ln])
        get = lambda n: Z(ctx.method(e, st, o, rec, n, []), R)
        s, yi = get('slope'), get('yint')
        T = z3.BoolVal(True)
        if cls == 'TheilSenEstimator':
            pairs = [(xs[i] != xs[j], (ys[j] - ys[i]) / (xs[j] - xs[i])) for i in range(ln) for j in range(i + 1, ln)]
            e.oblige('slope is the upper median of all pairwise slopes', st, median_of(s, pairs))
        else:
            ms = [z3.Real('m%d' % i) for i in range(ln)]
            for i in range(ln):
                st.assume(median_of(ms[i], [(T, (ys[j] - ys[i]) / (xs[j] - xs[i])) for j in range(ln) if j != i]))
            e.oblige('slope is the upper median of the medians through each point', st, median_of(s, [(T, m) for m in ms]))
        if cls == 'RepeatedMedianEstimator':
            ns = [z3.Real('n%d' % i) for i in range(ln)]
            for i in range(ln):
                st.assume(median_of(ns[i], [(T, (xs[j] * ys[i] - xs[i] * ys[j]) / (xs[j] - xs[i])) for j in range(ln) if j != i]))
            e.oblige('intercept is the upper median of the medians through each point', st, median_of(yi, [(T, m) for m in ns]))
        else:
            e.oblige('intercept is the upper median of y - slope*x', st, median_of(yi, [(T, y - s * x) for x, y in zip(xs, ys)]))
        s0 = st.copy()
        s0.assume(s != 0)
        e.oblige('x-intercept is -yint/slope', s0, get('xint') * s == -yi)
        v = e.fresh_real('v')
        e.oblige('evaluates to yint + slope*x', st, Z(ctx.method(e, st, o, rec, 'operator()', [v]), R) == yi + s * v)
    return f


def exact(cls):
    return lambda ctx: small_est(cls, ctx.sizes['SIZE'], ctx.sizes['LEN'])(ctx)


MEMBERS = ('compute', 'slope', 'yint', 'xint', 'operator()')
UNITS = [Unit('counting', counting)]
for c in ('TheilSenEstimator', 'RepeatedMedianEstimator', 'RepeatedMedianEstimator2'):
    UNITS.append(Unit(c, est(c), [c + '<TYPE,SIZE>::' + m for m in (c,) + MEMBERS], [{'SIZE': s, 'LEN': l} for s, l in ((3, 2), (3, 3), (4, 4))], exact=exact(c)))
UNITS.append(Unit('TheilSenEstimator<2>', small_est('TheilSenEstimator', 2, 2), []))
ASSUME = ['exact real arithmetic', 'quick_select is used through its proved contract (P09)', 'capacity up to 2^15, at least two points',
          'a value is the k-th smallest (from zero) of n values exactly if for every threshold t it is below t just when more than k of the values are; the contracts are discharged for one arbitrary t',
          'induction over the discharged base and step lemmas']
NATIVE = 'P10'
