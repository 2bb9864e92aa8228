"""Resamplers: interpolated kernel sums, buffers, fractional position"""
from .sums import *
from .P30 import KW, IS, ZERO

HDR = ('namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; using std::cos; using std::nearbyint; using std::abs; }\n#include "resampler.hh"\n%s\n')
TP, OP = 1009, 1013
LPF = z3.Function('kernel', R, R)      # the spline through the designed taps (P16)


class Env:
    def __init__(self, ctx, cls):
        T, O = ctx.size('TAPS', TP, lo=2, hi=1 << 14), ctx.size('OVER', OP, hi=1 << 12)
        self.T, self.O = T.v, O.v
        ctx.params[TP * OP] = self.T * self.O
        self.ctx = ctx
        self.rec = {'Resampler': 'Resampler<double,%d,%d>', 'Resampler2': 'Resampler2<double,double,%d,%d>'}[cls] % (TP, OP)
        text = 'template class DSP::%s;\n' % self.rec
        if cls == 'Resampler':
            text += 'template void DSP::%s::operator()<double>(double *, const double *, double, int, int);\n' % self.rec
        self.e = e = ctx.engine(ctx.tu(HDR % text))
        consts(e)
        uc(e)
        e.unroll_dead = 3
        self.made = []
        e.contracts['Kaiser::Kaiser'] = e.contracts['Kaiser::ctor'] = self.kctor
        e.contracts['Kaiser::operator()'] = self.kaiser
        e.contracts['UniformNaturalCubicSpline::UniformNaturalCubicSpline'] = e.contracts['UniformNaturalCubicSpline::ctor'] = self.sctor
        e.contracts['UniformNaturalCubicSpline::operator()'] = self.spline

    def kctor(self, e, st, fr, obj, vals):
        if len(vals) != 1:
            return NotImplemented
        e.write(st, obj, StructVal(e.read(st, obj).ty, {'$a': vals[0]}))

    def kaiser(self, e, st, fr, obj, vals):
        n, N = map(Z, vals)
        e.oblige('precondition of Kaiser::operator(): 0 <= n < N, N >= 2', st, z3.And(n >= 0, n < N, N >= 2), 'precondition')
        return KW(Z(e.read(st, obj).f['$a'], R), n, N)

    def sctor(self, e, st, fr, obj, vals):
        v = e.read(st, obj)
        if len(vals) == 0:
            e.write(st, obj, StructVal(v.ty, {'$made': z3.BoolVal(False)}))
            return
        self.made.append((st.copy(), vals))
        e.write(st, obj, StructVal(v.ty, {'$made': z3.BoolVal(True)}))

    def spline(self, e, st, fr, obj, vals):
        return LPF(Z(vals[0], R))


def design(cls):
    """constructor: spline through the windowed sinc sampled OVER times per tap"""
    def f(ctx):
        E = Env(ctx, cls)
        e, T, O = E.e, E.T, E.O
        st = ctx.state()
        r, c, a = z3.Reals('rate cutoff alpha')
        st.assume(r > 0, c > 0)
        facts(st)
        ctx.cover(st)
        o = ctx.new(e, st, E.rec, [r, c, a], 3)
        e.oblige('one spline is made', st, z3.BoolVal(len(E.made) == 1))
        s, vals = E.made[0]
        n = e.fresh_int('n')
        s.assume(n >= 0, n < T * O)
        s = ground(s, [n])
        Y = e.read(s, vals[0].lv)
        e.oblige('spline has the designed values', s, z3.And(Z(vals[0].idx or 0) == 0, Z(Y.size) == T * O))
        x = z3.ToReal(n) / z3.ToReal(O) - z3.ToReal(T - 1) / 2
        g = 2 * c / r
        sinc = lambda x: z3.If(x == 0, z3.RealVal(1), app(e, s, 'sin', PI * x) / (PI * x))
        y = z3.Real('tap')
        s.assume(y == g * sinc(g * x))
        e.oblige('value n of the spline is the windowed sinc at n/OVER - (TAPS-1)/2', s, Z(e.arr_get(Y, n), R) == y * KW(a, n, T * O))
        e.oblige('knots start at zero', s, Z(vals[1], R) == 0)
        e.oblige('knots are 1/OVER apart', s, Z(vals[2], R) * z3.ToReal(O) == 1)
        if len(vals) > 3:
            e.oblige('knot values are adjacent', s, Z(vals[3]) == 1)
        v = e.read(st, o)
        sp = [x for x in v.f.values() if isinstance(x, StructVal) and '$made' in x.f]
        e.oblige('the object keeps the spline', st, z3.And(z3.BoolVal(len(sp) == 1), sp[0].f['$made']) if sp else z3.BoolVal(False))
    return f


def stream(ctx):
    E = Env(ctx, 'Resampler2')
    e, T = E.e, E.T
    rate, c, a = z3.Reals('rate cutoff alpha')
    half = z3.Q(1, 2)
    N = Z(T)
    low = lambda d: -half - z3.If(d < 0, -d, z3.RealVal(0))
    scal = {'rate': lambda g: rate, 'position': lambda g: g['p']}

    def rel(v, g, only=None):
        out = {}
        for k, x in v.f.items():
            if isinstance(x, (Arr, CArr)):
                if z3.is_true(z3.simplify(Z(x.size) == N)) and (only is None or (k, 'history') in only):
                    out[(k, 'history')] = lambda i, x=x: z3.Implies(z3.And(i >= 0, i < N), Z(e.arr_get(x, i), R) == g['x'][g['t'] - N + i])
            elif not isinstance(x, StructVal):
                for n, f in scal.items():
                    if only is None or (k, n) in only:
                        out[(k, n)] = lambda i, x=x, f=f: Z(x, R) == f(g)
        return out

    def step(st, o, g):
        x, diff = e.fresh_real('x'), e.fresh_real('diff')
        d = z3.Real('d')
        st.assume(rate > 0, d == diff / rate, d > -half, d < half)
        buf = e.alloc(st, 'output', e.fresh_arr(('float', 64), 2, 'output', st), None, ('arr', ('float', 64), 2))
        r = Z(ctx.method(e, st, o, E.rec, 'operator()', [Ptr(buf, 0), x, diff]))
        X, t, p = z3.Store(g['x'], g['t'], x), g['t'] + 1, g['p']
        term = lambda p: lambda s: LPF(z3.ToReal(s) + p) * X[t - N + s]
        S0, S1 = spec_sum(e, term(p)), spec_sum(e, term(p + d - 1))
        y = e.read(st, buf)
        y0, y1 = Z(e.arr_get(y, z3.IntVal(0)), R), Z(e.arr_get(y, z3.IntVal(1)), R)
        relate(e, st, N, [(S0, N, term(p)), (S1, N, term(p + d - 1))], [y0, y1] + st.pc, inst=True)
        skip, twice = p < -half, z3.And(p >= -half, p + d > half)
        o1, n1 = g['o'] + z3.ToReal(r), g['n'] + 1
        p1 = z3.If(skip, p + 1, z3.If(twice, p + d - 1 + d, p + d))
        goals = [('no output when the position is more than half a sample behind', z3.Implies(skip, r == 0)),
                 ('one output, two when it leads by more than half a sample', z3.Implies(z3.Not(skip), r == z3.If(twice, 2, 1))),
                 ('first output is the kernel sum over the last TAPS inputs', z3.Implies(z3.Not(skip), y0 == S0(N))),
                 ('second output is the kernel sum over the last TAPS inputs', z3.Implies(twice, y1 == S1(N))),
                 ('first output within half a sample', z3.Implies(z3.Not(skip), z3.And(p >= -half, p <= half))),
                 ('second output within half a sample', z3.Implies(twice, z3.And(p + d - 1 >= -half, p + d - 1 <= half))),
                 ('position counts outputs times rate difference plus inputs minus outputs', z3.Implies(g['p'] == g['o'] * z3.Real('d') + g['n'] - g['o'], p1 == o1 * d + n1 - o1)),
                 ('position stays within one sample', z3.And(p1 <= half, p1 > -1)),
                 ('position stays within half a sample and one difference', z3.Implies(g['p'] >= low(d), p1 >= low(d)))]
        return goals, {'t': t, 'x': X, 'p': p1, 'o': o1, 'n': n1}, d
    start = {'t': z3.IntVal(0), 'x': ZERO, 'p': z3.RealVal(0), 'o': z3.RealVal(0), 'n': z3.RealVal(0)}
    st0 = ctx.state()
    st0.assume(rate > 0, c > 0)
    facts(st0)
    ctx.cover(st0)
    o0 = ctx.new(e, st0, E.rec, [rate, c, a], 3)
    rel0 = rel(e.read(st0, o0), start)

    def holds(st, q):
        i = e.fresh_int('sk')
        return valid(e, st.pc, q(i), 3000)
    keep = [k for k, q in rel0.items() if holds(st0, q)]
    hist = [z3.ForAll([z3.Int('j')], z3.Implies(z3.Int('j') < 0, ZERO[z3.Int('j')] == 0))]

    def again():
        st = ctx.state()
        o = ctx.obj(e, st, E.rec)
        g = {'t': z3.Int('t'), 'x': z3.Const('hx', z3.ArraySort(IS, R)), 'p': z3.Real('p'), 'o': z3.Real('outputs'), 'n': z3.Real('inputs')}
        d = z3.Real('d')
        st.assume(g['t'] >= 0, g['p'] <= half, g['p'] > -1)
        for k in keep:
            if k[1] in scal:
                e.write(st, o, e.read(st, o).set(k[0], scal[k[1]](g)))
        for k, q in rel(e.read(st, o), g, keep).items():
            i = z3.Int(fresh_name('i'))
            st.assume(z3.ForAll([i], q(i)) if k[1] == 'history' else q(i))
        cov = st.copy()
        v0 = e.read(st, o)
        goals, g1, d = step(st, o, g)
        v1 = e.read(st, o)
        fr = [k for k, x in v0.f.items() if isinstance(x, StructVal)]
        same = all(str(v0.f[k].f) == str(v1.f[k].f) for k in fr)
        return cov, st, goals + [('the spline is unchanged', z3.BoolVal(same))], rel(v1, g1, keep)
    while True:
        e.silent += 1
        try:
            cov, st, goals, post = again()
        finally:
            e.silent -= 1
        bad = [k for k in keep if k not in post or not holds(st, post[k])]
        if not bad:
            break
        keep = [k for k in keep if k not in bad]
    e.approx = True
    e.inv_log.append('%s: representation %s' % (E.rec, '; '.join('%s = %s' % k for k in keep)))
    for k in keep:
        e.oblige('constructor establishes %s = %s' % k, st0, rel0[k](e.fresh_int('sk')))
    cov, st, goals, post = again()
    ctx.cover(cov)
    for n, x in goals:
        e.oblige(n, st, x)
    for k in keep:
        e.oblige('call keeps %s = %s' % k, st, post[k](e.fresh_int('sk')))
    # number of outputs after any run with one difference
    s = ctx.state()
    p, d, o, n = z3.Reals('p d o n')
    s.assume(d > -half, d < half, p == o * d + n - o, p <= half, p >= low(d), o >= 0, n >= 0)
    ctx.cover(s)
    m = z3.Real('m')
    s.assume(m * (1 - d) == n)
    e.oblige('outputs are inputs*rate/(rate - diff) within one', s, z3.And((o - m) * (1 - d) <= 1 - d, (o - m) * (1 - d) >= -(1 - d)), 'lemma')


def block(ctx):
    E = Env(ctx, 'Resampler')
    e, T = E.e, Z(E.T)
    st = ctx.state()
    o = ctx.obj(e, st, E.rec)
    v = e.read(st, o)
    fl = [k for k, x in v.f.items() if z3.is_expr(x) and x.sort() == R]
    if len(fl) != 1:
        raise Unsupported('members of the resampler')
    rate = z3.Real('rate')
    e.write(st, o, v.set(fl[0], rate))
    n, stride = z3.Ints('samples stride')
    diff = z3.Real('diff')
    FL = ('float', 64)
    st.assume(n >= 0, stride >= 1, n * stride < 1 << 30, n < 1 << 30, stride < 1 << 30, rate > 0, diff < rate / 2, diff > -rate / 2, )
    # elements 0, stride, ... of n samples, nothing behind the last one
    size = z3.If(n > 0, (n - 1) * stride + 1, z3.IntVal(0))
    pi = e.alloc(st, 'input', e.fresh_arr(FL, size, 'input', st), None, ('arr', FL, size))
    po = e.alloc(st, 'output', e.fresh_arr(FL, size, 'output', st), None, ('arr', FL, size))
    x0, y0 = e.read(st, pi).lf[()], e.read(st, po).lf[()]
    ctx.cover(st)
    e.independent = 'guarded'
    ctx.method(e, st, o, E.rec, 'operator()', [Ptr(po, 0), Ptr(pi, 0), diff, n, stride])
    y1 = e.read(st, po).lf[()]
    i, j = e.fresh_int('i'), e.fresh_int('j')
    c = (T - 1) / 2
    NI = z3.Function('nearbyint', R, IS)
    # output i: taps around the exact position i*rate/(rate+diff)
    s = st.copy()
    s.assume(i >= 0, i < n - T)
    s = ground(s, [i])
    x = z3.ToReal(i) * (rate / (rate + diff))
    s0 = NI(x)
    s.assume(s0 >= 0, s0 + T <= n)
    ctx.cover(s)
    S = spec_sum(e, lambda t: LPF(z3.ToReal(s0 + t) - x) * x0[(s0 + t) * stride])
    y = y1[(i + c) * stride]
    used = []
    todo = list(s.pc)
    seen = set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().name() in e.sum_info and t.num_args() == 2 and t.arg(1).eq(i):
            used.append(t)
        todo.extend(t.children())
    for nm in sorted({t.decl().name() for t in used}):
        F = [t.decl() for t in used if t.decl().name() == nm][0]
        q = e.fresh_int('q')
        P = lambda q: F(q, i) == S(q)
        s1 = ctx.state()
        e.oblige('lemma: sum computed by the code is the kernel sum (base)', s1, P(z3.IntVal(0)), 'lemma')
        s2 = ctx.state()
        s2.assume(q >= 0, P(q))
        e.oblige('lemma: sum computed by the code is the kernel sum (step)', s2, P(q + 1), 'lemma')
        s.assume(P(T))
    s.assume(y1[z3.simplify((i + c) * stride, som=True)] == y)
    e.oblige('output is the sum of kernel at tap distance times input', s, y == S(T))
    # everything else is unchanged
    s = st.copy()
    s.assume(j >= 0, j < size, y1[j] != y0[j])
    s = ground(s, [j])
    w = [t for t in find_writer(s.pc)]
    if len(w) != 1:
        raise Unsupported('shape of the output loop')
    w = w[0](j)
    e.oblige('only covered positions are written', s, z3.And(w >= 0, w < n - T, j == (w + c) * stride, NI(z3.ToReal(w) * (rate / (rate + diff))) >= 0, NI(z3.ToReal(w) * (rate / (rate + diff))) + T <= n))
    x1 = e.read(st, pi).lf[()]
    e.oblige('input is unchanged', st, x1 == x0)
    v1 = e.read(st, o)
    e.oblige('the resampler is unchanged', st, z3.BoolVal(str(v1.f) == str(v.set(fl[0], rate).f)))


def find_writer(pc):
    out, todo, seen = {}, list(pc), set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().name().startswith('writer!'):
            out[t.decl().name()] = t.decl()
        todo.extend(t.children())
    return out.values()


UNITS = [Unit('design of Resampler', design('Resampler'), ['Resampler<TYPE,TAPS,OVER>::Resampler']),
         Unit('design of Resampler2', design('Resampler2'), ['Resampler2<TYPE,IO,TAPS,OVER>::Resampler2']),
         Unit('streaming', stream, ['Resampler2<TYPE,IO,TAPS,OVER>::operator()'])]
UNITS += [Unit('block', block, ['Resampler<TYPE,TAPS,OVER>::operator()'])]
ASSUME = ['exact real arithmetic; nearbyint is some integer within half', '|diff| < rate/2, rate > 0; the run counted has one difference',
          'spline and Kaiser window through their contracts (P16, P28), sine uninterpreted', 'TAPS 2..2^14, OVER 1..2^12, samples*stride < 2^30',
          'literals %d and %d stand for TAPS and OVER in the instantiated text' % (TP, OP), 'IO = TYPE = double', 'induction over the discharged base and step lemmas']
NATIVE = 'P35'
