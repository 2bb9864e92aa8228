"""Mixed-radix fast Fourier transform: radix kernels, decimation step for any quotient and stride, twiddle table"""
from .drv import *
from .approx import find
from dspv.loops import get

HDR = 'namespace DSP { using std::sqrt; using std::atan2; using std::sin; using std::cos; }\n#include "complex.hh"\n#include "fft.hh"\n'
C = 'Complex<double>'
CT = ('rec', C)
IS = z3.IntSort()
RADICES = (2, 3, 4, 5, 7, 8, 11, 13, 17, 19, 23, 29, 31)


def root(n, N):
    """(cos, sin) of the fraction n/N of a turn over symbols for the first half turn, exact at multiples of a quarter"""
    n %= N
    s = 1
    if 2 * n > N:
        n, s = N - n, -1
    if 4 * n % N == 0:
        return [(z3.RealVal(1), z3.RealVal(0)), (z3.RealVal(0), z3.RealVal(s)), (z3.RealVal(-1), z3.RealVal(0))][4 * n // N]
    if 8 * n % N == 0:
        h = z3.Real('cos_1_8')
        return (h, s * h) if 8 * n // N == 1 else (-h, s * h)
    f = Fraction(n, N)
    return z3.Real('cos_%d_%d' % (f.numerator, f.denominator)), s * z3.Real('sin_%d_%d' % (f.numerator, f.denominator))


def circle(e):
    """UnitCircle at constant angles (P18), Const::InvSqrtTwo = cos of an eighth turn (P38)"""
    def cs(i):
        def f(e, st, fr, obj, vals):
            n, N = vals
            if not (is_c(n) and is_c(N)):
                return NotImplemented
            e.oblige('precondition of UnitCircle: 0 <= n <= N', st, z3.BoolVal(0 <= n <= N and N > 0), 'precondition')
            return root(int(n), int(N))[i]
        return f
    e.contracts['UnitCircle::cos'] = cs(0)
    e.contracts['UnitCircle::sin'] = cs(1)
    def h(e, st, fr, obj, vals):
        c = z3.Real('cos_1_8')
        return mk(e, c, z3.RealVal(0)) if 'Complex' in str(e.callee) else c
    e.contracts['Const::InvSqrtTwo'] = h


def cval(v):
    return [Z(x, R) for x in v]


def mk(e, re, im):
    return StructVal(C, dict(zip(fields(e), (re, im))))


def fields(e):
    """names of the real and imaginary member of the complex type"""
    if not hasattr(e, '_cf'):
        st = State()
        o = e.alloc(st, 'probe', e.fresh_val(CT, 'probe', st), None, CT)
        r = []
        for n in ('real', 'imag'):
            m = e.tu.method(C, n, 0)
            e.silent += 1
            try:
                x = e.inline(m, o, [], st, None)
            finally:
                e.silent -= 1
            x = e.read(st, x) if isinstance(x, LV) else x
            f = [k for k, y in e.read(st, o).f.items() if y is x or (z3.is_expr(y) and z3.is_expr(x) and y.eq(x))]
            if len(f) != 1:
                raise Unsupported('members of the complex type')
            r.append(f[0])
        e._cf = r
    return e._cf


def parts(e, v):
    a, b = fields(e)
    return Z(v.f[a], R), Z(v.f[b], R)


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def kernel(N, sign):
    rec = 'Dit<%d,%d,1,%s,%d>' % (N, N, C, sign)

    def f(ctx):
        e = ctx.engine(ctx.tu(HDR + 'template struct DSP::%s;\ntemplate class DSP::Complex<double>;\n' % C_(rec)))
        consts(e)
        circle(e)
        st = ctx.state()
        m = e.tu.method(rec, 'dft', 2 * N)
        outs = [e.alloc(st, 'o%d' % k, e.fresh_val(CT, 'u%d' % k, st), None, CT) for k in range(N)]
        ins = [(z3.Real('a%d' % j), z3.Real('b%d' % j)) for j in range(N)]
        ctx.cover(st)
        ctx.call(e, st, m, None, [Ptr(o, None) for o in outs] + [mk(e, *x) for x in ins])
        for k in range(N):
            re, im = parts(e, e.read(st, outs[k]))
            wr, wi = [], []
            for j in range(N):
                c, s = root(j * k, N)
                x, y = cmul(ins[j], (c, sign * s))
                wr.append(x)
                wi.append(y)
            same(e, st, 'output %d is the DFT of the inputs, real part' % k, re, z3.Sum(wr))
            same(e, st, 'output %d is the DFT of the inputs, imaginary part' % k, im, z3.Sum(wi))
    return f


def same(e, st, name, a, b):
    e.oblige(name, st, z3.simplify(a - b, som=True) == 0)


def C_(rec):
    return 'FFT::' + rec.replace('Complex', 'DSP::Complex')


_K = {}


def kfun(N, sign, k, part):
    """output k of the N-point DFT as a function of the inputs (value proved for the kernels)"""
    key = (N, sign, k, part)
    if key not in _K:
        _K[key] = z3.Function('dft%d%s_%d_%s' % (N, 'm' if sign < 0 else 'p', k, part), *([R] * (2 * N + 1)))
    return _K[key]


def spec_dft(N, sign, xs):
    fl = [t for x in xs for t in x]
    return [(kfun(N, sign, k, 're')(*fl), kfun(N, sign, k, 'im')(*fl)) for k in range(N)]


DRE, DIM = z3.Function('D_re', IS, IS, IS, IS, R), z3.Function('D_im', IS, IS, IS, IS, R)
QP, SP = 729, 10007      # literals standing for the quotient (smooth, so that its plan compiles) and the stride


class Env:
    """out, in, z as the caller of dit sees them; the table has T entries"""

    def __init__(self, ctx, N, sign, inner):
        QP_ = QP if N != 3 else 625
        self.N, self.sign = N, sign
        S = self.S = ctx.size('STRIDE', SP, hi=1 << 20).v
        ctx.params[N * SP] = N * S
        if inner:
            Q = self.Q = ctx.size('QUOTIENT', QP_, hi=1 << 20).v
            ctx.params[N * QP_] = N * Q
            bins = N * QP_
        else:
            self.Q, bins = 1, N
        self.B = N * self.Q
        self.rec = 'Dit<%d,%d,%d,%s,%d>' % (N, bins, SP, C, sign)
        self.e = e = Engine2(ctx, HDR + 'template struct DSP::%s;\ntemplate class DSP::Complex<double>;\n' % C_(self.rec))
        self.ctx = ctx
        self.layers, self.known = {}, set()
        consts(e)
        circle(e)
        e.contracts['Dit::dft'] = e.contracts['FFT::Dit::dft'] = self.dft
        if inner:
            e.contracts['Dit::dit'] = e.contracts['FFT::Dit::dit'] = self.dit

    def arrays(self, st):
        e, S = self.e, self.S
        self.T = self.B * S
        st.assume(self.T < 1 << 28)
        n_in, n_out = z3.Ints('in_size out_size')
        st.assume(n_in >= 0, n_out >= 0, n_in < 1 << 29, n_out < 1 << 29)
        self.i0, self.o0 = z3.Ints('i0 o0')
        st.assume(self.i0 >= 0, self.i0 + self.T - S < n_in, self.o0 >= 0, self.o0 + self.B <= n_out)
        fr = lambda nm, n: e.alloc(st, nm, e.fresh_arr(CT, n, nm, st), None, ('arr', CT, n))
        self.inp, self.out, self.z = fr('in', n_in), fr('out', n_out), fr('z', self.T)
        return [Ptr(self.out, self.o0), Ptr(self.inp, self.i0), Ptr(self.z, 0)]

    def dft(self, e, st, fr, obj, vals):
        N = self.N
        if 'Dit<%d,%d,' % (N, N) not in str(e.callee).replace(' ', '') or len(vals) != 2 * N:
            raise Unsupported('another kernel than that of the radix')
        sign = int(str(e.callee).split('>::dft')[0].rsplit(',', 1)[1])
        e.oblige('kernel has the sign of the transform', st, z3.BoolVal(sign == self.sign), 'precondition')
        xs = [parts(e, v) for v in vals[N:]]
        w = spec_dft(N, self.sign, xs)
        lv = [e.deref(p, st) for p in vals[:N]]
        for l, x in zip(lv, w):
            e.write(st, l, mk(e, *x))

    def dit(self, e, st, fr, obj, vals):
        """sub-transform: BINS elements of out become the DFT of the strided elements of in"""
        a = [int(x) for x in str(e.callee).split('Dit<')[1].replace(' ', '').split(',')[:3]]
        sign = int(str(e.callee).split('>::dit')[0].rsplit(',', 1)[1])
        bins, stride = e.decode(a[1]), e.decode(a[2])
        o, i, z = vals
        e.oblige('sub-transform: sign, radix divides its size', st, z3.BoolVal(sign == self.sign and a[1] % a[0] == 0), 'precondition')
        e.oblige('sub-transform: twiddle table belongs to its size and stride', st, z3.And(Z(bins) * Z(stride) == self.T, Z(z.idx) == 0, z3.BoolVal(z.lv.root == self.z.root)), 'precondition')
        e.oblige('sub-transform: output block inside the output', st, z3.And(Z(o.idx) >= 0, Z(o.idx) + Z(bins) <= Z(e.read(st, o.lv).size), z3.BoolVal(o.lv.root == self.out.root)), 'precondition')
        e.oblige('sub-transform: strided elements inside the input', st, z3.And(Z(i.idx) >= 0, Z(i.idx) + (Z(bins) - 1) * Z(stride) < Z(e.read(st, i.lv).size), z3.BoolVal(i.lv.root == self.inp.root)), 'precondition')
        arr = e.read(st, o.lv)
        b, n = simp(Z(o.idx)), Z(bins)
        lf = {}
        for f, D in zip(fields(e), (DRE, DIM)):
            A = lf[(f,)] = z3.Const(fresh_name('sub_' + f), arr.lf[(f,)].sort())
            self.layers[A.decl().name()] = lambda t, A=A, D=D, old=arr.lf[(f,)]: (A[t] == z3.If(z3.And(t >= b, t < b + n), D(simp(Z(i.idx)), Z(stride), n, t - b), old[t]), old)
        e.write(st, o.lv, Arr(arr.ety, arr.size, lf))

    def at(self, A, t):
        """postconditions of the sub-transforms at element t, latest first"""
        out = []
        while A.decl().name() in self.layers:
            c, A = self.layers[A.decl().name()](t)
            out.append(c)
        return out


def Engine2(ctx, text):
    e = ctx.engine(ctx.tu(text))
    e.decide_cond = 'full'
    e.independent = True
    return e


def frame(E, st, before):
    """elements outside the block of the output, the input and the table keep their values"""
    e = E.e
    j = e.fresh_int('j')
    s = ground(st, [j])
    s.assume(z3.Or(j < E.o0, j >= E.o0 + E.B))
    new = e.read(st, E.out)
    for f in fields(e):
        s2 = s.copy()
        A = new.lf[(f,)]
        for K, arrs, k, st0 in e.indep_log:
            for q, (Af, ws) in arrs.items():
                if Af.eq(A) and ws:
                    old = get(st0, q)
                    s2.assume(*E.at(old, j))
        e.oblige('elements outside the output block are unchanged', s2, z3.simplify(A[j]) == before[0].lf[(f,)][j])
    for n, lv, v in (('input', E.inp, before[1]), ('twiddle table', E.z, before[2])):
        w = e.read(st, lv)
        e.oblige('%s is unchanged' % n, st, z3.And(*[w.lf[(f,)] == v.lf[(f,)] for f in fields(e)]))


def base(N, sign):
    def f(ctx):
        E = Env(ctx, N, sign, False)
        e = E.e
        st = ctx.state()
        args = E.arrays(st)
        ctx.cover(st)
        before = [e.read(st, x) for x in (E.out, E.inp, E.z)]
        xs = [parts(e, e.arr_get(before[1], E.i0 + j * E.S)) for j in range(N)]
        m = e.tu.method(E.rec, 'dit', 3)
        ctx.call(e, st, m, None, args)
        w = spec_dft(N, sign, xs) if N > 1 else xs
        new = e.read(st, E.out)
        for k in range(N):
            v = parts(e, e.arr_get(new, E.o0 + k))
            e.oblige('output %d is the DFT of the strided inputs' % k, st, z3.And(v[0] == w[k][0], v[1] == w[k][1]))
        frame(E, st, before)
    return f


def step(N, sign):
    def f(ctx):
        E = Env(ctx, N, sign, True)
        e, Q, S = E.e, E.Q, E.S
        st = ctx.state()
        args = E.arrays(st)
        ctx.cover(st)
        before = [e.read(st, x) for x in (E.out, E.inp, E.z)]
        e.loop_hints = lambda lv, k: [z3.And(k * S >= 0, k * S <= Q * S - S)]
        m = e.tu.method(E.rec, 'dit', 3)
        ctx.call(e, st, m, None, args)
        k0 = e.fresh_int('k0')
        # every output index is k0 + j*Q; the sub-transforms combined by the kernel
        xs = []
        for r in range(N):
            d = (DRE(E.i0 + r * S, N * S, Q, k0), DIM(E.i0 + r * S, N * S, Q, k0))
            xs.append(d if r == 0 else cmul(parts(e, e.arr_get(before[2], z3.simplify(r * k0 * S, som=True))), d))
        w = spec_dft(N, sign, xs)
        new = e.read(st, E.out)
        if len(e.indep_log) != 1:
            raise Unsupported('shape of the combining loop')
        K, arrs, k, st0 = e.indep_log[0]
        rng = [k0 >= 0, k0 < Q]
        s = st.copy()
        s.pc = [c for c in st.pc if not z3.is_quantifier(c)]
        e.oblige('the combining loop covers all sub-transform outputs', s, K == Q)
        small = ctx.state()
        small.assume(*rng)
        ix = [z3.simplify(E.o0 + k0 + j * Q, som=True) for j in range(N)]
        for f_, part in zip(fields(e), (0, 1)):
            q = [q for q, (Af, ws) in arrs.items() if Af.eq(new.lf[(f_,)])]
            if len(q) != 1:
                raise Unsupported('shape of the combining loop')
            ws = {}
            for i, v in arrs[q[0]][1]:
                r = which(z3.substitute(i, (k, k0)), ix)
                if r is not None:
                    ws[r] = z3.substitute(v, (k, k0))
            for j in range(N):
                if j not in ws:
                    e.oblige('output k0+%d*QUOTIENT is written' % j, small, z3.BoolVal(False))
                    continue
                v = ws[j]
                # contents before the loop: the sub-transforms
                v = subs(E, small, v, k0, ix)
                e.oblige('output k0+%d*QUOTIENT combines the sub-transforms' % j, small, z3.simplify(v == w[j][part], som=True))
        frame(E, st, before)
    return f


def which(t, ix):
    r = [r for r, x in enumerate(ix) if simp(t - x) == 0]
    return r[0] if len(r) == 1 else None


def subs(E, st, v, k0, ix):
    """replace reads of the output before the loop by the results of the sub-transforms (one obligation each)"""
    e = E.e
    rep = []
    for t in find(v, z3.is_select):
        A = t.arg(0)
        if z3.is_const(A) and A.decl().name() in E.layers:
            r = [which(t.arg(1), ix)]
            if r[0] is None:
                continue
            D = DRE if '_' + fields(e)[0] in A.decl().name() else DIM
            d = D(E.i0 + r[0] * E.S, E.N * E.S, E.Q, k0)
            key = (A.decl().name(), r[0])
            if key not in E.known:
                s = st.copy()
                s.assume(*E.at(A, t.arg(1)))
                e.oblige('output block %d holds sub-transform %d' % (r[0], r[0]), s, t == d)
                E.known.add(key)
            rep.append((t, d))
    return z3.substitute(v, *rep) if rep else v


def split(ctx):
    """radix selection: divides the size, one only for sizes without supported factor"""
    e = ctx.engine(ctx.tu(HDR + 'template class DSP::FastFourierTransform<2, DSP::Complex<double>, 1>;\nnamespace DSP_drv { int sp(int N) { return DSP::FFT::split(N); } }\n'))
    free = lambda e, st, fr, obj, vals: e.fresh_int('pow')
    for n in ('pow2', 'pow4', 'pow8'):
        e.contracts['FFT::' + n] = e.contracts[n] = free
    st = ctx.state()
    N = z3.Int('N')
    st.assume(N >= 1, N < 1 << 30)
    ctx.cover(st)
    f = [x for x in e.tu.find('sp') if e.tu.body(x) is not None]
    r = Z(ctx.call(e, st, f[0], None, [N]))
    for k in (1,) + RADICES:
        s = st.copy()
        s.assume(r == k)
        e.oblige('radix %d divides the size' % k, s, N % k == 0)
        if k == 1:
            e.oblige('radix one only without supported factor', s, z3.And(*[N % p != 0 for p in RADICES]))
    e.oblige('the radix has a kernel', st, z3.Or(*[r == k for k in (1,) + RADICES]))


def reindex(ctx):
    """sums over all indices split by residue; phases of the regrouped terms"""
    e = ctx.engine(ctx.tu('#include "const.hh"\n'))
    from .sums import spec_sum
    f = z3.Function('term', IS, R)
    st = ctx.state()
    q = z3.Int('q')
    st.assume(q >= 0)
    ctx.cover(st)
    F = spec_sum(e, lambda m: f(m))
    for N in RADICES:
        G = [spec_sum(e, lambda n, r=r: f(n * N + r)) for r in range(N)]
        P = lambda t: F(N * t) == z3.Sum([g(t) for g in G])
        s = st.copy()
        e.oblige('sum over %d*q indices is the sum over residues and multiples (base)' % N, s, P(z3.IntVal(0)), 'lemma')
        s2 = st.copy()
        s2.assume(P(q))
        # the last terms one by one
        for i in range(N, 0, -1):
            t = N * q + i
            s2.assume(F(t) == F(t - 1) + f(t - 1))
        s2.assume(F(N * (q + 1)) == F(N * q + N))
        for r in range(N):
            s2.assume(G[r](q + 1) == G[r](q) + f(q * N + r))
        e.oblige('sum over %d*q indices is the sum over residues and multiples (step)' % N, s2, P(q + 1), 'lemma')
    # a common factor leaves the sum
    a, b, c, d = z3.Reals('a b c d')
    ga, gb = z3.Function('ga', IS, R), z3.Function('gb', IS, R)
    A, B = spec_sum(e, lambda n: ga(n)), spec_sum(e, lambda n: gb(n))
    AC, BC = spec_sum(e, lambda n: ga(n) * c - gb(n) * d), spec_sum(e, lambda n: ga(n) * d + gb(n) * c)
    P = lambda t: z3.And(AC(t) == A(t) * c - B(t) * d, BC(t) == A(t) * d + B(t) * c)
    e.oblige('a common factor leaves the sum (base)', st, P(z3.IntVal(0)), 'lemma')
    s = st.copy()
    s.assume(P(q))
    e.oblige('a common factor leaves the sum (step)', s, P(q + 1), 'lemma')
    # phases in turns: the term of index n*R+r in output k+j*Q is that of the sub-transform times twiddle times kernel root, up to whole turns
    n, r, k, j, Q, N, S = z3.Reals('n r k j Q N S')
    s = st.copy()
    s.assume(Q >= 1, N >= 1, S >= 1)
    e.oblige('phase of the regrouped term', s, (n * N + r) * (k + j * Q) == (N * Q) * (n * j) + N * (n * k) + r * k + Q * (r * j), 'lemma')
    e.oblige('phase of the twiddle table entry', s, (r * k * S) * (N * Q) == (r * k) * (N * Q * S), 'lemma')


FP = 59049


def table(sign):
    """FastFourierTransform: table of roots, call of the plan for its size"""
    def f(ctx):
        B = ctx.size('BINS', FP, hi=(1 << 28) - 1).v
        rec = 'FastFourierTransform<%d,%s,%d>' % (FP, C, sign)
        e = ctx.engine(ctx.tu(HDR + 'template class DSP::%s;\ntemplate class DSP::Complex<double>;\n' % rec.replace('Complex', 'DSP::Complex')))
        consts(e)
        uc(e)
        st = ctx.state()
        ctx.cover(st)
        o = ctx.new(e, st, rec, [])
        n = e.fresh_int('n')

        def entry(s, o, n):
            v = e.read(s, o)
            a = [x for x in v.f.values() if isinstance(x, Arr)]
            if len(a) != 1:
                raise Unsupported('members of the transform')
            return parts(e, e.arr_get(a[0], n)), a[0]
        s = ground(st, [n])
        s.assume(n >= 0, n < B)
        (re, im), arr = entry(s, o, n)
        x = 2 * PI * z3.ToReal(n) / z3.ToReal(B)
        e.oblige('table has BINS entries', s, Z(arr.size) == B)
        e.oblige('table entry n is the root of unity exp(SIGN*2*pi*i*n/BINS)', s, z3.And(re == COS(x), im == sign * SIN(x)))
        # operator(): one transform of all bins with the table
        calls = []

        def dit(e, st, fr, obj, vals):
            a = [int(x) for x in str(e.callee).split('Dit<')[1].replace(' ', '').split(',')[:3]]
            sg = int(str(e.callee).split('>::dit')[0].rsplit(',', 1)[1])
            calls.append(st)
            bins, stride = e.decode(a[1]), a[2]
            out, inp, z = vals
            e.oblige('transform of all bins, stride one, with its sign', st, z3.And(Z(bins) == B, z3.BoolVal(stride == 1 and sg == sign and a[1] % a[0] == 0)))
            e.oblige('into the output, of the input, with the table', st, z3.And(z3.BoolVal(out.lv.root == po.lv.root and inp.lv.root == pi.lv.root and z.lv.root == o2.root), Z(out.idx) == Z(po.idx), Z(inp.idx) == Z(pi.idx), Z(z.idx or 0) == 0))
        e.contracts['Dit::dit'] = e.contracts['FFT::Dit::dit'] = dit
        st2 = ctx.state()
        o2 = ctx.obj(e, st2, rec)
        fr = lambda nm: Ptr(e.alloc(st2, nm, e.fresh_arr(CT, B, nm, st2), None, ('arr', CT, B)), 0)
        po, pi = fr('out'), fr('in')
        v0 = e.read(st2, o2)
        t0 = entry(st2, o2, n)[1]
        m = e.tu.method(rec, 'operator()', 2)
        ctx.call(e, st2, m, o2, [po, pi])
        e.oblige('operator() runs one transform', st2, z3.BoolVal(len(calls) == 1))
        t1 = entry(st2, o2, n)[1]
        e.oblige('operator() keeps the table', st2, z3.And(*[t0.lf[q_] == t1.lf[q_] for q_ in t0.lf]))
    return f


UNITS = [Unit('radix %d kernel, sign %d' % (n, s), kernel(n, s), ['FFT::Dit<%d,%d,STRIDE,TYPE,%d>::dft' % (n, n, s)]) for n in RADICES for s in (-1, 1)]
UNITS += [Unit('size %d, sign %d' % (n, s), base(n, s), ['FFT::Dit<%d,%d,STRIDE,TYPE,%d>::dit' % (n, n, s)]) for n in (1,) + RADICES for s in (-1, 1)]
UNITS += [Unit('radix %d step, sign %d' % (n, s), step(n, s), ['FFT::Dit<%d,BINS,STRIDE,TYPE,%d>::dit' % (n, s)], thorough=n > 8 and s < 0) for n in RADICES for s in (-1, 1)]
UNITS += [Unit('radix selection', split, ['FFT::split']), Unit('decimation', reindex, [])]
UNITS += [Unit('transform, sign %d' % s, table(s), ['FastFourierTransform<BINS,TYPE,%d>::FastFourierTransform' % s, 'FastFourierTransform<BINS,TYPE,%d>::operator()' % s]) for s in (-1, 1)]
ASSUME = ['exact real arithmetic', 'exp(i*(a+b)) = exp(i*a)*exp(i*b), exp(2*pi*i*n) = 1 for integer n; reflections of sine and cosine at the half turn',
          'output and input do not overlap', 'BINS*STRIDE < 2^28, strides and quotients up to 2^20',
          'quotient and stride of the recursive step are symbolic: literals 729 (625 for radix three) and 10007 stand for them in the instantiated text, the choice between the specialisation for BINS = RADIX and the general one is that of the compiler',
          'UnitCircle<TYPE> is sine and cosine (P18), Const<TYPE>::InvSqrtTwo the cosine of an eighth turn (P38)',
          'quick tier: the step of radices above eight is checked for one sign (one text for both; both signs in the thorough tier)',
          'the DFT of a size follows by induction over its factorisation: decimation lemmas, step with the contract of the smaller transforms, kernels']
NATIVE = 'P13'
