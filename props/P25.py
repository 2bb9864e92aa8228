"""Normalised LMS"""
from .sums import *
from . import callee

HDR = ('namespace DSP { using std::min; using std::sqrt; using std::atan2; using std::sin; using std::cos; }\n#include "complex.hh"\n#include "lms.hh"\n')
C = 'Complex<double>'
IS = z3.IntSort()
AR = z3.ArraySort(IS, R)


def bip(e, N, cplx):
    """BipBuffer<TYPE,SIZE> (P04): exposes the last SIZE inputs, oldest first"""
    ty = ('rec', C) if cplx else ('float', 64)
    lv = [('re',), ('im',)] if cplx else [()]

    def comp(v, p):
        return Z(v.f[p[0]] if p else v, R)

    def ctor(e, st, fr, obj, v):
        a = Arr(ty, N, {p: z3.K(IS, z3.RealVal(0)) for p in lv}) if not isinstance(N, int) else CArr(ty, [zero() for _ in range(N)])
        e.write(st, obj, StructVal(e.read(st, obj).ty, {'$W': a}))

    def zero():
        return StructVal(C, {'re': Fraction(0), 'im': Fraction(0)}) if cplx else Fraction(0)

    def call(e, st, fr, obj, v):
        args = callee.targs(e, st, obj)
        e.oblige('history holds SIZE inputs', st, cmp('==', args[1], N))
        o = e.read(st, obj).f['$W']
        x = v[0]
        if isinstance(N, int):
            w = CArr(ty, list(o.el[1:]) + [x])
        else:
            lf = {}
            for p in lv:
                j = z3.Int(fresh_name('j'))
                lf[p] = z3.Store(z3.Lambda([j], o.lf[p][j + 1]), N - 1, comp(x, p))
            # named arrays instead of lambdas
            nf = {}
            for p in lv:
                A = z3.Const(fresh_name('W'), AR)
                j = z3.Int(fresh_name('j'))
                st.assume(z3.ForAll([j], A[j] == z3.If(j == N - 1, comp(x, p), o.lf[p][j + 1]), patterns=[A[j]]))
                nf[p] = A
            w = Arr(ty, N, nf)
        e.write(st, obj, StructVal(e.read(st, obj).ty, {'$W': w}))
        return Ptr(obj.f('$W'), 0)
    e.contracts['BipBuffer::ctor'] = e.contracts['BipBuffer::BipBuffer'] = ctor
    e.contracts['BipBuffer::operator()'] = call


class Env:
    def __init__(self, ctx, cplx):
        S = ctx.size('SIZE', 1000003)
        T, cls = ('DSP::Complex<double>', 'NCLMS') if cplx else ('double', 'NLMS')
        u = 'namespace DSP_drv { void use(%s x) { DSP::%s<%s, %s> a; a(x, x); const %s *p = a; } }\n' % (T, cls, T, S, T)
        self.e = ctx.engine(ctx.tu(HDR + 'template class DSP::%s<%s, %s>;\n' % (cls, T, S) + u))
        self.N, self.ctx, self.cplx = S.v, ctx, cplx
        self.rec = '%s<%s,%s>' % (cls, C if cplx else 'double', S)
        bip(self.e, self.N, cplx)

    def val(self, a, i):
        """element as (re, im)"""
        v = self.e.arr_get(a, i)
        return (Z(v.f['re'], R), Z(v.f['im'], R)) if self.cplx else (Z(v, R), z3.RealVal(0))

    def arb(self, st):
        e = self.e
        v = e.fresh_val(('rec', e.tu.record(self.rec).name), 'obj', st)
        o = e.alloc(st, 'obj', v, None, ('rec', self.rec))
        hf = [k for k, x in v.f.items() if isinstance(x, StructVal) and str(x.ty).startswith('BipBuffer')]
        if len(hf) != 1:
            raise Unsupported('history buffer not found')
        ty = ('rec', C) if self.cplx else ('float', 64)
        e.write(st, o.f(hf[0]), StructVal(v.f[hf[0]].ty, {'$W': e.fresh_arr(ty, self.N, 'W', st) if not isinstance(self.N, int) else CArr(ty, [e.fresh_val(ty, 'W', st) for _ in range(self.N)])}))
        self.hf = hf[0]
        return o

    def coeffs(self, st, o):
        """what the conversion exposes"""
        e = self.e
        r = e.tu.record(self.rec)
        conv = [c for c in r.node.get('inner', []) if c.get('kind') == 'CXXConversionDecl' and e.tu.body(c)]
        if len(conv) != 1:
            raise Unsupported('conversion operator')
        p = self.ctx.call(e, st, conv[0], o, [])
        if p.idx not in (0, None) and const_of(simp(p.idx)) != 0:
            raise Unsupported('conversion does not expose the start of an array')
        return e.read(st, p.lv)

    def hist(self, st, o):
        return self.e.read(st, o).f[self.hf].f['$W']


def total(E, f):
    if isinstance(E.N, int):
        return lambda n: sum([f(z3.IntVal(i)) for i in range(const_of(simp(Z(n))))], z3.RealVal(0))
    return spec_sum(E.e, f)


def mk(E, st, re, im):
    if not E.cplx:
        return re
    return StructVal(C, {'re': re, 'im': im})


def step(cplx):
    def f(ctx):
        E = Env(ctx, cplx)
        e, N = E.e, E.N
        st = ctx.state()
        o = E.arb(st)
        f0, w0 = E.coeffs(st, o), E.hist(st, o)
        ctx.cover(st)
        xr, xi, dr, di, mu = z3.Reals('xr xi dr di mu')
        r = ctx.method(e, st, o, E.rec, 'operator()', [mk(E, st, xr, xi), mk(E, st, dr, di), mu])
        er, ei = (Z(r.f['re'], R), Z(r.f['im'], R)) if cplx else (Z(r, R), z3.RealVal(0))
        f1, w1 = E.coeffs(st, o), E.hist(st, o)
        H, F0, F1 = [lambda i, a=a: E.val(a, i) for a in (w1, f0, f1)]
        i = e.fresh_int('i')
        inr = z3.And(i >= 0, i < Z(N))
        # the history contains the (conjugated) inputs; the statement's inputs are their conjugates
        last = E.val(w1, sub(N, 1))
        if cplx:
            e.oblige('history is extended by the conjugated input', st, z3.And(last[0] == xr, last[1] == -xi))
        else:
            e.oblige('history is extended by the input', st, last[0] == xr)
        e.oblige('history is shifted by one', st, Implies(z3.And(i >= 0, i < Z(N) - 1), z3.And(*[a == b for a, b in zip(E.val(w1, i), E.val(w0, i + 1))])))
        # filter output: sum of f_i times input_i (for complex: f_i * conj(h_i), h the conjugated inputs)
        if cplx:
            re = lambda G: (lambda i: G(i)[0] * H(i)[0] + G(i)[1] * H(i)[1])
            im = lambda G: (lambda i: G(i)[1] * H(i)[0] - G(i)[0] * H(i)[1])
        else:
            re = lambda G: (lambda i: G(i)[0] * H(i)[0])
            im = None
        pw = lambda i: H(i)[0] * H(i)[0] + (H(i)[1] * H(i)[1] if cplx else 0)
        sums = [total(E, re(F0)), total(E, pw)] + ([total(E, im(F0))] if cplx else [])
        neg_im = lambda k: -sums[2](k)
        small = isinstance(N, int)
        terms = [er, ei] + st.pc
        if not small:
            relate(e, st, N, sums + ([neg_im] if cplx else []), terms, name='estimate or power')
        ER, P = sums[0](N), sums[1](N)
        EI = sums[2](N) if cplx else z3.RealVal(0)
        e.oblige('returns desired minus the filter output (real part)', st, er == dr - ER)
        if cplx:
            e.oblige('returns desired minus the filter output (imaginary part)', st, ei == di - EI)
        st.assume(er == dr - ER, ei == (di - EI if cplx else 0))
        # update
        rate = z3.Real('rate')
        s1 = st.copy()
        s1.assume(P != 0, inr)
        rt = mu / P
        want = (lambda i: (F0(i)[0] + rt * (er * H(i)[0] - ei * H(i)[1]), F0(i)[1] + rt * (er * H(i)[1] + ei * H(i)[0]))) if cplx else (lambda i: (F0(i)[0] + rt * er * H(i)[0], z3.RealVal(0)))
        for nm, x, y in zip(('real part', 'imaginary part'), F1(i), want(i)):
            if nm == 'real part' or cplx:
                e.oblige('coefficient i moves by mu/power * error * history (%s)' % nm, s1, x == y)
        s2 = st.copy()
        s2.assume(inr)
        # no power: nothing changes
        if not small:
            s2.assume(P == 0)
        else:
            s2.assume(*[c == 0 for k in range(N) for c in H(z3.IntVal(k))])
        e.oblige('without power the coefficients stay unchanged', s2, z3.And(*[a == b for a, b in zip(F1(i), F0(i))]))
        if small:
            s3 = st.copy()
            s3.assume(P != 0)
            a = total(E, re(F1))(N)
            e.oblige('a-posteriori error is (1-mu) times the error', s3, dr - a == (1 - mu) * er)
            if cplx:
                e.oblige('a-posteriori error is (1-mu) times the error (imaginary part)', s3, di - total(E, im(F1))(N) == (1 - mu) * ei)
            return
        # lemmas about the specification only
        A = {n: z3.Const('l' + n, AR) for n in ('hr', 'hi', 'fr', 'fi')}
        EE, EI_ = z3.Reals('lerr lerri')
        k = z3.Int('k')
        hr, hi, fr, fi = [lambda i, n=n: A[n][i] for n in ('hr', 'hi', 'fr', 'fi')]
        if cplx:
            gr = lambda i: fr(i) + rate * (EE * hr(i) - EI_ * hi(i))
            gi = lambda i: fi(i) + rate * (EE * hi(i) + EI_ * hr(i))
            sRe = lambda a, b: (lambda i: a(i) * hr(i) + b(i) * hi(i))
            sIm = lambda a, b: (lambda i: b(i) * hr(i) - a(i) * hi(i))
            bP = lambda i: hr(i) * hr(i) + hi(i) * hi(i)
            pairs = [(sRe(fr, fi), sRe(gr, gi), EE), (sIm(fr, fi), sIm(gr, gi), EI_)]
        else:
            bP = lambda i: hr(i) * hr(i)
            pairs = [(lambda i: fr(i) * hr(i), lambda i: (fr(i) + rate * EE * hr(i)) * hr(i), EE)]
        sP = spec_sum(e, bP)
        for bold, bnew, er_ in pairs:
            old, new = spec_sum(e, bold), spec_sum(e, bnew)
            Pk = lambda k: new(k) == old(k) + rate * er_ * sP(k)
            e.oblige('lemma: updated filter output (base)', State(), Pk(z3.IntVal(0)), 'lemma')
            # difference of consecutive terms: a polynomial identity
            e.oblige('lemma: updated filter output (terms)', State(), z3.simplify(bnew(k) - bold(k) - rate * er_ * bP(k), som=True) == 0, 'lemma')
            s = State()
            n0, o0, p0, dn, do, dp, c = z3.Reals('n0 o0 p0 dn do dp c')
            s.assume(n0 == o0 + c * p0, dn == do + c * dp)
            e.oblige('lemma: updated filter output (step)', s, n0 + dn == o0 + do + c * (p0 + dp), 'lemma')
            s = State()
            a, b, p, d = z3.Reals('a b p d')
            s.assume(b == a + rate * er_ * p, rate * p == mu, er_ == d - a)
            e.oblige('a-posteriori error is (1-mu) times the error', s, d - b == (1 - mu) * er_, 'lemma')
        s = State()
        s.assume(k >= 0, sP(k) == 0, A['hr'][k] == 0, A['hi'][k] == 0)
        e.oblige('lemma: all-zero history has no power (step)', s, sP(k + 1) == 0, 'lemma')
        e.oblige('lemma: all-zero history has no power (base)', State(), sP(z3.IntVal(0)) == 0, 'lemma')
    return f


def ctor(cplx):
    def f(ctx):
        E = Env(ctx, cplx)
        e, N = E.e, E.N
        st = ctx.state()
        ctx.cover(st)
        o = ctx.new(e, st, E.rec)
        i = e.fresh_int('i')
        f0 = E.coeffs(st, o)
        e.oblige('all coefficients start at zero', st, Implies(z3.And(i >= 0, i < Z(N)), z3.And(*[x == 0 for x in E.val(f0, i)])))
        w = [x for x in e.read(st, o).f.values() if isinstance(x, StructVal) and '$W' in x.f]
        if len(w) != 1:
            raise Unsupported('history buffer not found')
        e.oblige('history starts at zero', st, Implies(z3.And(i >= 0, i < Z(N)), z3.And(*[x == 0 for x in E.val(w[0].f['$W'], i)])))
    return f


def default_mu(cplx):
    def f(ctx):
        E = Env(ctx, cplx)
        e = E.e
        m = e.tu.method(E.rec, 'operator()', 3)
        p = e.tu.params(m)[2]
        init = [c for c in e.kids(p) if not c['kind'].endswith(('Decl', 'Attr'))]
        st = ctx.state()
        ctx.cover(st)
        from dspv.sx import Frame
        e.oblige('default mu is one', st, cmp('==', e.val(init[-1], st, Frame(m)), 1))
    return f


SM = [{'SIZE': 1}, {'SIZE': 2}]
UNITS = []
for c, n in ((False, 'NLMS'), (True, 'NCLMS')):
    M = n + '<TYPE,SIZE>::'
    UNITS += [Unit(n + '()', ctor(c), [M + n], SM), Unit(n + ' step', step(c), [M + 'operator()', M + 'operator const TYPE *'], SM), Unit(n + ' default mu', default_mu(c), [M + 'operator()'])]
ASSUME = ['exact real arithmetic', 'BipBuffer is used through its proved contract (P04)', '1 <= SIZE <= 2^28', 'induction over the discharged base and step lemmas']
NATIVE = 'P25'
