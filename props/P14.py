"""Half-complex spectrum of real input: packed half-length transform, even/odd split"""
from .drv import *
from .sums import spec_sum
from .P13 import HDR, C, CT, IS, mk, fields, parts, cmul

NP = 59049               # literal standing for half the length (smooth, so that its plan compiles)
REC = 'RealToHalfComplexTransform<%d,%s>' % (2 * NP, C)


def begin(ctx):
    N = ctx.size('HALF', NP, hi=(1 << 27) - 1).v
    ctx.params[2 * NP] = 2 * N
    e = ctx.engine(ctx.tu(HDR + 'template class DSP::%s;\ntemplate class DSP::Complex<double>;\n' % REC.replace('Complex<', 'DSP::Complex<')))
    consts(e)
    uc(e)
    return e, N


def tables(e, st, o, n):
    """entries n of the tables, identified by the constructor: name -> (re, im)"""
    v = e.read(st, o)
    r = {}
    for f, a in v.f.items():
        if isinstance(a, Arr):
            r[f] = (parts(e, e.arr_get(a, n)), a)
    return r


def want(N, n):
    x = 2 * PI * z3.ToReal(n) / z3.ToReal(N)
    y = 2 * PI * z3.ToReal(n) / z3.ToReal(2 * N)
    h = z3.Q(1, 2)
    return {'roots': (COS(x), -SIN(x)), 'A': ((1 - SIN(y)) * h, -COS(y) * h), 'B': ((1 + SIN(y)) * h, COS(y) * h)}


def ctor(ctx):
    e, N = begin(ctx)
    st = ctx.state()
    ctx.cover(st)
    o = ctx.new(e, st, REC, [])
    n = e.fresh_int('n')
    s = st.copy()
    s.assume(n >= 0, n < N)
    s = ground(s, [n])
    t = tables(e, s, o, n)
    w = want(N, n)
    for f, k in zip(roles(e), ('roots', 'A', 'B')):
        (re, im), a = t[f]
        e.oblige('table %s has an entry for each n' % k, s, Z(a.size) == N)
        e.oblige('entry n of table %s, real part' % k, s, re == w[k][0])
        e.oblige('entry n of table %s, imaginary part' % k, s, im == w[k][1])


def roles(e):
    """members in order of declaration: roots of unity, factors of the bin, factors of its mirror"""
    st = State()
    v = e.fresh_val(('rec', REC), 'probe', st)
    fs = [f for f, a in v.f.items() if isinstance(a, Arr)]
    if len(fs) != 3:
        raise Unsupported('members of the transform')
    return fs


def run(ctx):
    e, N = begin(ctx)
    e.independent = 'alias'
    st = ctx.state()
    o = ctx.obj(e, st, REC)
    F = fields(e)
    po = Ptr(e.alloc(st, 'out', e.fresh_arr(CT, N + 1, 'out', st), None, ('arr', CT, N + 1)), 0)
    m = e.tu.method(REC, 'operator()', 2)
    x = e.fresh_arr(('float',), 2 * N, 'in', st)
    pi = Ptr(e.alloc(st, 'in', x, None, ('arr', ('float',), 2 * N)), 0)
    X = {f: z3.Array('D_' + f, IS, R) for f in F}
    # the real input seen as pairs: element n is (in[2n], in[2n+1])
    pairs = e.alloc(st, 'pairs', e.fresh_arr(CT, N, 'pairs', st), None, ('arr', CT, N))

    def cast(p, ty, st):
        if not isinstance(p, Ptr) or p.lv.root != pi.lv.root or C.replace(' ', '') not in str(ty).replace('DSP::', '').replace(' ', ''):
            raise Unsupported('reinterpreted pointer')
        e.oblige('pairs start at an even element', st, Z(p.idx or 0) % 2 == 0)
        return Ptr(pairs, simp(Z(p.idx or 0) / 2))
    e.bitcast = cast
    calls = []
    rt, fa, fb = roles(e)
    t0 = e.read(st, o)
    ctx.cover(st)

    def dit(e, st, fr, obj, vals):
        a = [int(x) for x in str(e.callee).split('Dit<')[1].replace(' ', '').split(',')[:3]]
        sg = int(str(e.callee).split('>::dit')[0].rsplit(',', 1)[1])
        out, inp, z = vals
        calls.append(1)
        e.oblige('forward transform of half the length, stride one', st, z3.And(Z(e.decode(a[1])) == N, z3.BoolVal(a[2] == 1 and sg == -1 and a[1] % a[0] == 0)))
        e.oblige('of the input taken as pairs', st, z3.And(z3.BoolVal(inp.lv.root == pairs.root), Z(inp.idx or 0) == 0))
        e.oblige('into the output', st, z3.And(z3.BoolVal(out.lv.root == po.lv.root), Z(out.idx or 0) == 0))
        e.oblige('with the table of roots', st, z3.And(z3.BoolVal(z.lv.root == o.root and tuple(z.lv.path) == tuple(o.path) + (rt,)), Z(z.idx or 0) == 0))
        dst = e.read(st, out.lv)
        nm = {}
        for f in F:
            A = z3.Const(fresh_name('half_' + f), dst.lf[(f,)].sort())
            j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), A[j] == X[f][j]), patterns=[A[j]]))
            st.assume(z3.ForAll([j], z3.Implies(z3.Or(j < 0, j >= N), A[j] == dst.lf[(f,)][j]), patterns=[A[j]]))
            nm[(f,)] = A
        e.write(st, out.lv, Arr(dst.ety, dst.size, nm))
    e.contracts['Dit::dit'] = e.contracts['FFT::Dit::dit'] = dit
    ctx.call(e, st, m, o, [po, pi])
    e.oblige('one transform', st, z3.BoolVal(len(calls) == 1))
    new = e.read(st, po.lv)
    k = e.fresh_int('k')
    d = lambda i: (X[F[0]][i], X[F[1]][i])
    tab = lambda f, i: parts(e, e.arr_get(t0.f[f], i))
    a, b = cmul(d(k), tab(fa, k)), cmul((d(N - k)[0], -d(N - k)[1]), tab(fb, k))
    zero = z3.IntVal(0)
    for name, cond, i, w in (
            ('DC bin: half the sum, no imaginary part', [], zero, ((d(zero)[0] + d(zero)[1]) / 2, z3.RealVal(0))),
            ('Nyquist bin: half the difference, no imaginary part', [], N, ((d(zero)[0] - d(zero)[1]) / 2, z3.RealVal(0))),
            ('bin k combines bin k and the conjugate of its mirror, lower half', [k >= 1, 2 * k < N], k, (a[0] + b[0], a[1] + b[1])),
            ('bin k combines bin k and the conjugate of its mirror, middle', [k >= 1, 2 * k == N], k, (a[0] + b[0], a[1] + b[1])),
            ('bin k combines bin k and the conjugate of its mirror, upper half', [k < N, 2 * k > N], k, (a[0] + b[0], a[1] + b[1]))):
        s = st.copy()
        s.assume(*cond)
        ctx.cover(s)
        s = ground(s, [i, N - i, k, N - k, k - 1, N - k - 1, zero, N])
        v = parts(e, e.arr_get(new, i))
        for p_ in (0, 1):
            e.oblige('%s, %s part' % (name, ('real', 'imaginary')[p_]), s, v[p_] == w[p_])
    t1 = e.read(st, o)
    x1 = e.read(st, pi.lv)
    e.oblige('tables are unchanged', st, z3.And(*[t0.f[f].lf[q] == t1.f[f].lf[q] for f in (rt, fa, fb) for q in t0.f[f].lf]))
    e.oblige('input is unchanged', st, z3.And(*[x.lf[q] == x1.lf[q] for q in x.lf]))


def split(ctx):
    """bins of the packed transform are those of the even plus i times those of the odd samples; recombination"""
    e = ctx.engine(ctx.tu('#include "const.hh"\n'))
    x = z3.Array('x', IS, R)
    c, s = z3.Function('cos_nk', IS, IS, R), z3.Function('sin_nk', IS, IS, R)     # of 2*pi*n*k/N
    k, N, q, m = z3.Ints('k N q m')
    st = ctx.state()
    st.assume(N >= 1, k >= 0, k <= N, q >= 0)
    ctx.cover(st)
    ev, od = lambda n: x[2 * n], lambda n: x[2 * n + 1]
    S = lambda f: spec_sum(e, f)

    def dft(k):
        return dict(D=(S(lambda n: ev(n) * c(n, k) + od(n) * s(n, k)), S(lambda n: od(n) * c(n, k) - ev(n) * s(n, k))),
                    E=(S(lambda n: ev(n) * c(n, k)), S(lambda n: -(ev(n) * s(n, k)))), O=(S(lambda n: od(n) * c(n, k)), S(lambda n: -(od(n) * s(n, k)))))
    f, g = dft(k), dft(N - k)

    def induct(name, P, facts=lambda t: []):
        e.oblige(name + ' (base)', st, P(z3.IntVal(0)), 'lemma')
        s2 = st.copy()
        s2.assume(P(q), *facts(q))
        e.oblige(name + ' (step)', s2, P(q + 1), 'lemma')
    for h in (f, g):
        induct('packed bin is even bin plus i times odd bin', lambda t: z3.And(h['D'][0](t) == h['E'][0](t) - h['O'][1](t), h['D'][1](t) == h['E'][1](t) + h['O'][0](t)))
    mirror = lambda t: [c(t, N - k) == c(t, k), s(t, N - k) == -s(t, k)]
    for p_ in 'EO':
        induct('mirrored bin of real samples is the conjugate', lambda t: z3.And(g[p_][0](t) == f[p_][0](t), g[p_][1](t) == -f[p_][1](t)), mirror)
    # recombination with the tables, at the root of angle k/(2N) of a turn
    er, ei, or_, oi, C_, S_ = z3.Reals('er ei or oi C S')
    h = z3.Q(1, 2)
    D, M = (er - oi, ei + or_), (er + oi, -ei + or_)
    A, B = ((1 - S_) * h, -C_ * h), ((1 + S_) * h, C_ * h)
    u, v = cmul(D, A), cmul((M[0], -M[1]), B)
    w = cmul((or_, oi), (C_, -S_))
    for p_ in (0, 1):
        e.oblige('bin is even bin plus root times odd bin', st, z3.simplify(u[p_] + v[p_] - ((er, ei)[p_] + w[p_]), som=True) == 0, 'lemma')
    # phases in turns, sums over even and odd indices
    n_, k_, N_ = z3.Reals('rn rk rN')
    s3 = st.copy()
    s3.assume(N_ > 0)
    e.oblige('phase of even samples', s3, (2 * n_ * k_) * N_ == (n_ * k_) * (2 * N_), 'lemma')
    e.oblige('phase of odd samples', s3, ((2 * n_ + 1) * k_) * N_ == (n_ * k_) * (2 * N_) + k_ * N_, 'lemma')
    t = z3.Function('term', IS, R)
    F, G0, G1 = S(lambda m: t(m)), S(lambda n: t(2 * n)), S(lambda n: t(2 * n + 1))
    induct('sum of all terms is the sum of even and odd ones', lambda y: F(2 * y) == G0(y) + G1(y), lambda y: [F(2 * y + 1) == F(2 * y) + t(2 * y), F(2 * (y + 1)) == F(2 * y + 1) + t(2 * y + 1)])
    # DC and Nyquist: the roots are one
    z = dft(z3.IntVal(0))
    induct('bin zero of real samples is their sum', lambda y: z3.And(z['E'][1](y) == 0, z['O'][1](y) == 0, z['D'][0](y) + z['D'][1](y) == z['E'][0](y) + z['O'][0](y), z['D'][0](y) - z['D'][1](y) == z['E'][0](y) - z['O'][0](y)), lambda y: [c(y, 0) == 1, s(y, 0) == 0])


UNITS = [Unit('tables', ctor, ['RealToHalfComplexTransform<BINS,TYPE>::RealToHalfComplexTransform']), Unit('transform', run, ['RealToHalfComplexTransform<BINS,TYPE>::operator()'])]
UNITS += [Unit('even and odd samples', split, [])]
ASSUME = ['exact real arithmetic', 'FFT::Dit::dit with stride one and the table of roots computes the DFT (P13)', 'UnitCircle<TYPE> is sine and cosine (P18)',
          'an array of reals seen through a pointer to Complex<TYPE> gives the pairs of consecutive elements', 'input and output do not overlap', 'BINS < 2^28',
          'literal %d stands for half the length in the instantiated text' % NP,
          'exp(i*(a+b)) = exp(i*a)*exp(i*b), exp(2*pi*i*n) = 1 for integer n; sine and cosine of mirrored angles']
NATIVE = 'P14'
