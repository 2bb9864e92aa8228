"""Hilbert transformer and quarter-rate down-converter: windowed FIR filters over the input history"""
from .sums import *

HDR = 'namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; using std::cos; using std::atan2; }\n#include "complex.hh"\n#include "%s.hh"\ntemplate class DSP::%s;\ntemplate struct DSP::Complex<double>;\n'
IS = z3.IntSort()
C = 'Complex<double>'
KW = z3.Function('kaiser', R, IS, IS, R)
LP = z3.Function('lowpass', IS, IS, IS, IS, R)
ZERO = z3.K(IS, z3.RealVal(0))


class Env:
    def __init__(self, ctx, cls):
        S = ctx.size('M', 250001, hi=1 << 24)
        self.M = M = S.v
        taps = 4 * S.lit + 1
        self.rec = '%s<%s,%d>' % (cls, C, taps)
        self.ctx = ctx
        self.T = 4 * M + 1
        self.sym = not isinstance(M, int)
        self.e = e = ctx.engine(ctx.tu(HDR % (cls.lower(), '%s<DSP::%s, %d>' % (cls, C, taps))))
        consts(e)
        uc(e)
        e.contracts['Kaiser::Kaiser'] = e.contracts['Kaiser::ctor'] = self.store('a')
        e.contracts['Kaiser::operator()'] = self.kaiser
        e.contracts['LowPass2::LowPass2'] = e.contracts['LowPass2::ctor'] = self.store('num', 'den')
        e.contracts['LowPass2::operator()'] = self.lowpass

    def store(self, *names):
        def f(e, st, fr, obj, vals):
            if len(vals) != len(names):
                return NotImplemented
            v = e.read(st, obj)
            e.write(st, obj, StructVal(v.ty, {'$' + n: x for n, x in zip(names, vals)}))
        return f

    def kaiser(self, e, st, fr, obj, vals):
        n, N = map(Z, vals)
        e.oblige('precondition of Kaiser::operator(): 0 <= n < N, N >= 2', st, z3.And(n >= 0, n < N, N >= 2), 'precondition')
        return KW(Z(e.read(st, obj).f['$a'], R), n, N)

    def lowpass(self, e, st, fr, obj, vals):
        n, N = map(Z, vals)
        v = e.read(st, obj)
        num, den = Z(v.f['$num']), Z(v.f['$den'])
        e.oblige('precondition of LowPass2::operator(): 0 <= n < N, 0 < 2*num <= den', st, z3.And(n >= 0, n < N, num > 0, 2 * num <= den), 'precondition')
        return LP(num, den, n, N)

    def total(self, f):
        if not self.sym:
            return lambda n: sum([f(z3.IntVal(i)) for i in range(const_of(simp(Z(n))))], z3.RealVal(0))
        return spec_sum(self.e, f)

    def new(self, st, a):
        return self.ctx.new(self.e, st, self.rec, [a], 1)

    def reim(self, st, v):
        e = self.e
        o = e.alloc(st, 'res', v, None, ('rec', C))
        return [Z(self.ctx.method(e, st, o, C, n, []), R) for n in ('real', 'imag')]


def arrays(v):
    for k, x in v.f.items():
        yield k, x


def relation(E, v, g, a, cand, only=None):
    """candidate facts relating the members to history and coefficients"""
    e = E.e
    out = {}
    for k, x in arrays(v):
        for nm, (kind, n, f) in cand.items():
            if only is not None and (k, nm) not in only:
                continue
            if kind == 'scalar':
                if isinstance(x, (Arr, CArr, StructVal)):
                    continue
                y = f(g, a)
                x1 = Z(x)
                if z3.is_bool(x1) == z3.is_bool(y):
                    out[(k, nm)] = (lambda x=x1, y=y: x == y) if z3.is_bool(y) else (lambda x=x, y=y: Z(x, R) == y)
            elif isinstance(x, (Arr, CArr)) and n is not None:
                size = x.size
                if not z3.is_true(z3.simplify(Z(size) == Z(n))):
                    continue

                def q1(i, x=x, f=f, n=n):
                    return z3.Implies(z3.And(i >= 0, i < Z(n)), Z(e.arr_get(x, i), R) == f(g, a, i))
                out[(k, nm)] = q1
    return out


def fact(kind, q1):
    if kind == 'scalar':
        return q1()
    i = z3.Int(fresh_name('i'))
    return z3.ForAll([i], q1(i))


def goal(e, kind, q1, terms=()):
    """skolemised"""
    if kind == 'scalar':
        return q1(), None
    i = e.fresh_int('sk')
    return q1(i), i


def machine(ctx, E, cand, step, start):
    e = E.e
    a = z3.Real('a')
    kindof = lambda k: cand[k[1]][0]
    if not E.sym:
        st = ctx.state()
        o = E.new(st, a)
        g = start
        for c in range(4 * E.M + 3):
            goals, g = step(st, o, g, a)
            for n, x in goals:
                e.oblige('%s (call %d)' % (n, c + 1), st, x)
        return
    st0 = ctx.state()
    ctx.cover(st0)
    o0 = E.new(st0, a)
    rel0 = relation(E, e.read(st0, o0), start, a, cand)

    def holds(st, q1, kind, ms=3000):
        x, i = goal(e, kind, q1)
        return valid(e, st.pc, x, ms)
    keep = [k for k, q1 in rel0.items() if holds(st0, q1, kindof(k), 2000)]

    def again():
        st = ctx.state()
        o = ctx.obj(e, st, E.rec)
        g = {k: (z3.Const('h' + k, z3.ArraySort(IS, R)) if k != 't' else z3.Int('t')) for k in start}
        st.assume(g['t'] >= 0)
        j = z3.Int('j')
        for k, x in g.items():
            if k != 't':
                st.assume(z3.ForAll([j], z3.Implies(j < 0, x[j] == 0)))
        for k, q1 in relation(E, e.read(st, o), g, a, cand, keep).items():
            st.assume(fact(kindof(k), q1))
        cov = st.copy()
        goals, g1 = step(st, o, g, a)
        return cov, st, goals, g1, relation(E, e.read(st, o), g1, a, cand, keep)
    while True:
        e.silent += 1
        try:
            cov, st, goals, g1, post = again()
        finally:
            e.silent -= 1
        bad = [k for k in keep if k not in post or not holds(st, post[k], kindof(k))]
        if not bad:
            break
        keep = [k for k in keep if k not in bad]
    e.inv_log.append('%s: representation %s' % (E.rec, '; '.join('%s = %s' % k for k in keep)))
    for k in keep:
        e.oblige('constructor establishes %s = %s' % k, st0, goal(e, kindof(k), rel0[k])[0])
    cov, st, goals, g1, post = again()
    ctx.cover(cov)
    for n, x in goals:
        e.oblige(n, st, x)
    for k in keep:
        e.oblige('call keeps %s = %s' % k, st, goal(e, kindof(k), post[k])[0])


def hilbert(ctx):
    E = Env(ctx, 'Hilbert')
    e, M, T = E.e, E.M, E.T
    c = 2 * M
    N = Z(T)
    h = lambda a, i: KW(a, Z(c) + 2 * i + 1, N) * 2 / (z3.ToReal(2 * i + 1) * PI)
    cand = {'history of the last TAPS inputs': ('array', T, lambda g, a, i: g['x'][g['t'] - N + i]),
            'windowed 2/(pi*(2i+1))': ('array', M, lambda g, a, i: h(a, i)),
            'centre of the window': ('scalar', None, lambda g, a: KW(a, Z(c), N))}

    def step(st, o, g, a):
        x = e.fresh_real('x')
        re, im = E.reim(st, ctx.method(e, st, o, E.rec, 'operator()', [x]))
        t, X = g['t'], g['x']
        mid = t - N + c
        term = lambda i: h(a, i) * (X[mid - (2 * i + 1)] - X[mid + (2 * i + 1)])
        S = E.total(term)
        if E.sym:
            relate(e, st, Z(M), [(S, Z(M), term), (lambda k: S(k + 1) - term(z3.IntVal(0)), Z(M) - 1, lambda k: term(k + 1))], [im] + st.pc, inst=True)
        return [('real part is the delayed input times the window at its centre', re == KW(a, Z(c), N) * X[mid]),
                ('imaginary part is the convolution with the windowed odd taps', im == S(Z(M)))], {'t': t + 1, 'x': z3.Store(X, t, x)}
    machine(ctx, E, cand, step, {'t': Z(0), 'x': ZERO})


def cdc(ctx):
    E = Env(ctx, 'CDC')
    e, M, T = E.e, E.M, E.T
    N = Z(T)
    c = 2 * M
    tap = lambda a, n: KW(a, n, N) * LP(1, 4, n, N)
    h = lambda a, i: tap(a, Z(c) + 2 * i + 1)
    sg = lambda t: z3.If(t % 2 == 0, z3.RealVal(1), z3.RealVal(-1))
    cand = {'history of the odd samples': ('array', M, lambda g, a, i: g['y'][g['t'] - M + i]),
            'history of the even samples': ('array', 2 * M, lambda g, a, i: g['x'][g['t'] - 2 * M + i]),
            'windowed half-band taps': ('array', M, lambda g, a, i: h(a, i)),
            'centre tap': ('scalar', None, lambda g, a: tap(a, Z(c))),
            'parity of the calls': ('scalar', None, lambda g, a: g['t'] % 2 != 0),
            'inverted parity of the calls': ('scalar', None, lambda g, a: g['t'] % 2 == 0)}

    def step(st, o, g, a):
        x, y = e.fresh_real('x'), e.fresh_real('y')
        re, im = E.reim(st, ctx.method(e, st, o, E.rec, 'operator()', [x, y]))
        t = g['t']
        # samples 2t and 2t+1 shifted down: (-i)^(2t) x = (-1)^t x, (-i)^(2t+1) y = -i (-1)^t y
        X, Y = z3.Store(g['x'], t, sg(t) * x), z3.Store(g['y'], t, sg(t) * y)
        m = t - M
        term = lambda i: h(a, i) * (X[m - i] + X[m + 1 + i])
        S = E.total(term)
        if E.sym:
            relate(e, st, Z(M), [(S, Z(M), term), (lambda k: S(k + 1) - term(z3.IntVal(0)), Z(M) - 1, lambda k: term(k + 1))], [im] + st.pc, inst=True)
        return [('real part is the centre tap times the odd sample there', re == tap(a, Z(c)) * Y[m]),
                ('imaginary part is the sum over the odd taps', im == S(Z(M)))], {'t': t + 1, 'x': X, 'y': Y}
    machine(ctx, E, cand, step, {'t': Z(0), 'x': ZERO, 'y': ZERO})


SM = [{'M': 1}, {'M': 2}]
UNITS = [Unit('Hilbert', hilbert, ['Hilbert<TYPE,TAPS>::Hilbert', 'Hilbert<TYPE,TAPS>::operator()'], SM, bound=16),
         Unit('CDC', cdc, ['CDC<TYPE,TAPS>::CDC', 'CDC<TYPE,TAPS>::operator()'], SM, bound=16)]
ASSUME = ['exact real arithmetic', 'TAPS = 4*M+1, 1 <= M <= 2^24', 'Kaiser and LowPass2 through their contracts (P28, P29), Const<TYPE> the constants (P38)',
          'the folded sums are the full convolutions because the window and the half-band response are symmetric and the half-band taps at even offsets vanish (P28, P29)',
          'induction over the discharged base and step lemmas']
NATIVE = 'P30'
