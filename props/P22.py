"""Kahan summation"""
from .drv import *
from .sums import spec_sum, relate
HDR = ('#include "kahan.hh"\ntemplate class DSP::Kahan<double>;\ntemplate class DSP::Kahan<float>;\n')


def absv(x):
    return z3.If(x >= 0, x, -x)


def exact(ctx):
    """exact arithmetic: the plain sum"""
    e = ctx.engine(ctx.tu(HDR))
    rec = 'Kahan<double>'
    s0 = z3.Real('s0')

    def val(st, o):
        return Z(ctx.method(e, st, o, rec, 'operator()', []), R)

    def step(st, o, g):
        x = e.fresh_real('x')
        r = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
        return [('returns the plain sum', r == g['S'] + x), ('value is the plain sum', val(st, o) == g['S'] + x)], {'S': g['S'] + x}

    def same(st, o, g):
        x = e.fresh_real('x')
        before = list(leaves(e.read(st, o)))
        r = Zb(ctx.method(e, st, o, rec, 'same', [x]))
        after = dict(leaves(e.read(st, o)))
        eq = z3.And(*[Z(v, R) == Z(after[p], R) for p, v in before])
        return [('same adds its argument', val(st, o) == g['S'] + x), ('same reports whether the state did not change', r == eq)], {'S': g['S'] + x}
    one = lambda m: len(e.tu.params(m)) == 1 and e.nty(e.tu.params(m)[0])[0] == 'float'
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, [s0], pred=one), {'S': R}, {'S': s0}, [('call', step), ('same', same)],
             exprs=[lambda g: g['S'], lambda g: z3.RealVal(0)])


def zero(ctx):
    e = ctx.engine(ctx.tu(HDR))
    st = ctx.state()
    ctx.cover(st)
    for T in ('double', 'float'):
        rec = 'Kahan<%s>' % T
        o = ctx.new(e, st, rec, [], nparams=0)
        e.oblige('%s starts at zero' % rec, st, Z(ctx.method(e, st, o, rec, 'operator()', []), R) == 0)
        x = e.fresh_real('x')
        e.oblige('%s: first value' % rec, st, Z(ctx.method(e, st, o, rec, 'operator()', [x]), R) == x)


def Zb(x):
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def rounding(T, u):
    """standard model: every float operation has relative error at most u"""
    U = q('1/%d' % (1 << u))

    def f(ctx):
        e = ctx.engine(ctx.tu(HDR))
        rec = 'Kahan<%s>' % T

        def fpop(e, st, op, a, b, ty):
            if op not in '+-':
                return None
            v = {'+': add, '-': sub}[op](a, b)
            if is_c(v):
                return None
            r = e.fresh_real('fl')
            v = Z(v, R)
            st.assume(r - v <= U * absv(v), v - r <= U * absv(v))
            return r
        e.fpop = fpop
        if ctx.sizes is not None:
            return
        e.approx = True
        one = lambda m: len(e.tu.params(m)) == 1 and e.nty(e.tu.params(m)[0])[0] == 'float'
        val = lambda st, o: Z(ctx.method(e, st, o, rec, 'operator()', []), R)
        # representation: the value and one further field, the correction (either sign)
        st = ctx.state()
        s0 = z3.Real('s0')
        o = ctx.new(e, st, rec, [s0], pred=one)
        lv = [(p, Z(x, R)) for p, x in leaves(e.read(st, o))]
        if len(lv) != 2:
            raise Unsupported('representation of Kahan')
        hi = [p for p, x in lv if valid(e, st.pc, x == val(st.copy(), o))]
        if len(hi) != 1:
            raise Unsupported('representation of Kahan')
        cp = [p for p, x in lv if p != hi[0]][0]
        rd = lambda st, o: dict((p, Z(x, R)) for p, x in leaves(e.read(st, o)))
        X, S, B, n = z3.Reals('X S B n')
        C1, C2, C3 = 16 * U * U, 3 * U, z3.RealVal(2)

        def run(sign):
            st = ctx.state()
            o = ctx.obj(e, st, rec)
            d = rd(st, o)
            h, l = d[hi[0]], sign * d[cp]
            x = e.fresh_real('x')
            # X: sum of |x| so far (including the start), S: exact sum, B: bound of the compensated error
            st.assume(absv(S) <= X, absv(h - l - S) <= B, absv(l) <= C2 * X, B >= 0, B <= X / 2)
            cov = st.copy()
            r = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
            d = rd(st, o)
            h2, l2 = d[hi[0]], sign * d[cp]
            X2, S2, B2 = X + absv(x), S + x, B + 2 * U * absv(x) + C1 * (X + absv(x))
            gl = [('step returns the value it stores', r == h2),
                  ('compensated error grows by at most 2u|x| + 16u^2 sum|x|', absv(h2 - l2 - S2) <= B2),
                  ('returned value is within 3u sum|x| + O(n u^2) sum|x| of the exact sum', absv(r - S2) <= B + U * absv(x) + U * (X2 + B) + C1 * X2),
                  ('correction stays within 3u sum|x|', absv(l2) <= C2 * X2),
                  ('step returns the rounded sum of total and compensated input', absv(r - (h - l + x)) <= U * (absv(h) + absv(x - l)) * (1 + U) + U * absv(x - l)),
                  ('correction accounts for the rounding of the step up to second order', absv(h2 - l2 - (h - l + x)) <= 2 * U * absv(x - l) + 4 * U * U * (absv(h) + absv(x - l)))]
            return cov, st, gl
        sg = 1
        for s in (1, -1):
            e.silent += 1
            try:
                _, st, gl = run(s)
            finally:
                e.silent -= 1
            if all(valid(e, st.pc, g, 8000) for _, g in gl):
                sg = s
                break
        s1 = ctx.state()
        o = ctx.new(e, s1, rec, [s0], pred=one)
        d = rd(s1, o)
        e.oblige('constructor: no error, no correction', s1, z3.And(d[hi[0]] == s0, d[cp] == 0))
        cov, st, gl = run(sg)
        ctx.cover(cov)
        for nm, g in gl:
            e.oblige(nm, st, g)
        # bounds of the specification
        s = State()
        x = z3.Real('x')
        s.assume(X >= 0, n >= 0, B <= 2 * U * X + C1 * n * X)
        a = z3.Real('ax')
        s.assume(a >= 0)
        e.oblige('lemma: accumulated bound is 2u sum|x| + 16 n u^2 sum|x| (step)', s, B + 2 * U * a + C1 * (X + a) <= 2 * U * (X + a) + C1 * (n + 1) * (X + a), 'lemma')
        s = State()
        s.assume(X >= 0, n >= 0, n * U <= q('1/64'), B <= 2 * U * X + C1 * n * X)
        m = z3.Real('m')
        s.assume(m == C1 * n * X, m <= 16 * U * q('1/64') * X)
        e.oblige('lemma: the bound stays below half the sum of magnitudes', s, B <= X / 2, 'lemma')
        s = State()
        s.assume(X >= 0, n >= 0, n * U <= q('1/64'))
        e.oblige('lemma: second order term', s, 16 * U * (U * n) * X <= 16 * U * q('1/64') * X, 'lemma')
        s = State()
        s.assume(X >= 0, n >= 0, a >= 0, B <= 2 * U * X + C1 * n * X)
        e.oblige('lemma: error after n steps is at most 3u sum|x| + 24 n u^2 sum|x|', s, B + U * a + U * (X + a + B) + C1 * (X + a) <= 3 * U * (X + a) + q('3/2') * C1 * (n + 1) * (X + a), 'lemma')
    return f


def states(ctx):
    """any two states, whatever the float operations round to: comparison and same() look at every field"""
    e = ctx.engine(ctx.tu(HDR))

    def fpop(e, st, op, a, b, ty):
        return e.fresh_real('fl') if op in ('+', '-') else None
    e.fpop = fpop
    e.approx = True
    for T in ('double', 'float'):
        rec = 'Kahan<%s>' % T
        st = ctx.state()
        o, p = ctx.obj(e, st, rec, 'a'), ctx.obj(e, st, rec, 'b')
        ctx.cover(st)
        fields = lambda st, o: dict((k, Z(v, R)) for k, v in leaves(e.read(st, o)))
        equal = lambda a, b: z3.And(*[a[k] == b[k] for k in a])
        a, b = fields(st, o), fields(st, p)
        r = Zb(ctx.method(e, st, o, rec, 'operator==', [p]))
        e.oblige('%s: equal means equal in every field' % rec, st, r == equal(a, b))
        e.oblige('%s: comparing changes nothing' % rec, st, z3.And(equal(fields(st, o), a), equal(fields(st, p), b)))
        r = Zb(ctx.method(e, st, o, rec, 'same', [e.fresh_real('x')]))
        e.oblige('%s: same() reports whether no field changed' % rec, st, r == equal(fields(st, o), a))


def range_sum(ctx):
    """kahan_sum on the contract of Kahan in exact arithmetic"""
    D = Drv(ctx, HDR, {'ks': 'double ks(const double *b, const double *e, double i) { return kahan_sum(b, e, i); }'})
    e = D.e

    def ctor(e, st, fr, obj, v):
        e.write(st, obj, StructVal(e.read(st, obj).ty, {'$S': Z(v[0], R) if v else Fraction(0)}))

    def call(e, st, fr, obj, v):
        if v:
            e.write(st, obj.f('$S'), add(e.read(st, obj).f['$S'], v[0]))
        return e.read(st, obj).f['$S']
    e.contracts['Kahan::Kahan'] = e.contracts['Kahan::ctor'] = ctor
    e.contracts['Kahan::operator()'] = call
    st = ctx.state()
    n = ctx.sizes['n'] if ctx.sizes is not None else z3.Int('n')
    init = z3.Real('init')
    ty = ('float', 'double')
    if isinstance(n, int):
        if n == 0:
            a = CArr(ty, [z3.Real('v0')])
        else:
            a = CArr(ty, [z3.Real('v%d' % i) for i in range(n)])
        tot = sum(a.el[:n], z3.RealVal(0))
    else:
        st.assume(n >= 0, n <= 1 << 28)
        arr = z3.Const('V', z3.ArraySort(z3.IntSort(), R))
        a = Arr(ty, n, {(): arr})
        tot = None
    o = e.alloc(st, 'data', a, None, ('arr', ty, n))
    ctx.cover(st)
    r = Z(D(st, 'ks', Ptr(o, 0), Ptr(o, n), init), R)
    if tot is None:
        T = spec_sum(e, lambda i: arr[i])
        relate(e, st, n, [T], [r] + st.pc)
        tot = T(n)
    e.oblige('sum of exactly the range, starting from init', st, r == init + tot)


K = 'Kahan<T>::'
UNITS = [Unit('exact arithmetic', exact, [K + 'Kahan(T)', K + 'Kahan(const Kahan &)', K + 'operator()(T)', K + 'operator()()', K + 'same', K + 'operator=='], STEPS),
         Unit('Kahan()', zero, [K + 'Kahan()'], STEPS),
         Unit('rounding double', rounding('double', 53), [K + 'operator()(T)']),
         Unit('rounding float', rounding('float', 24), [K + 'operator()(T)']),
         Unit('comparison', states, [K + 'operator==', K + 'same', K + 'Kahan(const Kahan &)']),
         Unit('kahan_sum', range_sum, ['kahan_sum'], [{'n': 0}, {'n': 1}, {'n': 3}])]
ASSUME = ['standard model of rounding: fl(a op b) = (a op b)(1+d), |d| <= u, u = 2^-53 (double) and 2^-24 (float); no overflow',
          'n*u <= 1/64 for the closed form of the bound', 'the compiler keeps the written association (attribute on operator(); checked natively with -O2 -ffast-math as the project builds)',
          'kahan_sum: n <= 2^28, exact arithmetic']
NATIVE = 'P22'
