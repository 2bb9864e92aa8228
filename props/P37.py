"""AM demodulation and sine normalisation"""
from .drv import *
HDR = ('namespace DSP { using std::sqrt; using std::atan2; using std::sin; using std::cos; using std::min; using std::max; using std::nearbyint; }\n'
       '#include "complex.hh"\n#include "utils.hh"\n#include "amd.hh"\n#include "normalize.hh"\ntemplate class DSP::AMD1<DSP::Complex<double>>;\n'
       'template class DSP::NormalizeSine<double>;\ntemplate class DSP::NormalizeIQ<DSP::Complex<double>>;\nnamespace DSP_drv { void use() { DSP::AMD1<DSP::Complex<double>> a; a.agc(1, 1); } }\n')
C = 'Complex<double>'


def cplx(ctx, e, st, re, im):
    o = e.alloc(st, 'c', e.fresh_val(('rec', C), 'c'), None, ('rec', C))
    ctx.call(e, st, e.tu.method(C, 'ctor', 2), o, [re, im])
    return e.read(st, o)


def amd(ctx):
    e = ctx.engine(ctx.tu(HDR))
    consts(e)
    rec = 'AMD1<%s>' % C
    lo0 = q('1/1000')

    def call(st, o, g):
        a, b = e.fresh_real('re'), e.fresh_real('im')
        st.assume(g['idx'] != 0, g['lo'] > 0, g['lo'] <= g['hi'])
        amp = z3.Function('sqrt', R, R)(a * a + b * b)
        st.assume(a * a + b * b >= 0)
        r = Z(ctx.method(e, st, o, rec, 'operator()', [cplx(ctx, e, st, a, b)]), R)
        f = z3.If(amp < g['avg'], g['dec'], g['att'])
        t = g['avg'] + f * (amp - g['avg'])
        v = z3.If(t < g['lo'], g['lo'], z3.If(t > g['hi'], g['hi'], t))
        gl = []
        for i, (c1, ff) in enumerate(((amp < g['avg'], g['dec']), (amp >= g['avg'], g['att']))):
            u = g['avg'] + ff * (amp - g['avg'])
            for j, (c2, w) in enumerate(((u < g['lo'], g['lo']), (u > g['hi'], g['hi']), (z3.And(u >= g['lo'], u <= g['hi']), u))):
                gl.append(('returns (amp/level*(1+index)-1)/index (%s, level %s)' % ('falling' if i == 0 else 'rising', ('at the lower limit', 'at the upper limit', 'inside')[j]),
                           Implies(z3.And(c1, c2), r * g['idx'] * w == amp * (1 + g['idx']) - w)))
        return gl, dict(g, avg=v)

    def index(st, o, g):
        m = e.fresh_real('m')
        ctx.method(e, st, o, rec, 'index', [m])
        return [], dict(g, idx=m)

    def agc(st, o, g):
        v = [e.fresh_real('agc') for _ in range(4)]
        ctx.method(e, st, o, rec, 'agc', v)
        return [], dict(g, att=v[0], dec=v[1], lo=v[2], hi=v[3])

    def agc2(st, o, g):
        v = [e.fresh_real('agc') for _ in range(2)]
        m = e.tu.method(rec, 'agc', 4)
        ctx.call(e, st, m, o, v)
        return [], dict(g, att=v[0], dec=v[1], lo=lo0, hi=z3.RealVal(1))
    z = z3.RealVal(0)
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, []), {k: R for k in ('avg', 'att', 'dec', 'lo', 'hi', 'idx')},
             {'avg': z, 'att': z, 'dec': z, 'lo': lo0, 'hi': z3.RealVal(1), 'idx': z3.RealVal(1)}, [('call', call), ('index', index), ('agc', agc), ('agc with default limits', agc2)])


class Sine:
    """abstract state of one normaliser: x1 y1 of the DC blocker, coefficient a, average p, factor al"""
    def __init__(self, pre=''):
        self.n = [pre + k for k in ('x1', 'y1', 'a', 'b', 'p', 'al')]

    def start(self):
        z = z3.RealVal(0)
        return dict(zip(self.n, (z, z, z, q('1/2'), q('1/2'), z3.RealVal(1))))

    def step(self, g, x):
        x1, y1, a, b, p, al = [g[k] for k in self.n]
        y = b * (x - x1) + a * y1
        p1 = p + al * (y * y - p)
        return y, p1, dict(zip(self.n, (x, y, a, b, p1, al)))

    def samples(self, g, s):
        s = z3.ToReal(s)
        x1, y1, a, b, p, al = [g[k] for k in self.n]
        return dict(zip(self.n, (x1, y1, (s - 1) / s, (1 + (s - 1) / s) / 2, p, 1 / s)))


def sine(ctx):
    e = ctx.engine(ctx.tu(HDR))
    consts(e)
    rec = 'NormalizeSine<double>'
    S = Sine()

    def call(st, o, g):
        x = e.fresh_real('x')
        y, p, n = S.step(g, x)
        st.assume(p > 0)
        amp = e.fresh_real('amp')
        st.assume(amp > 0, amp * amp == 2 * p)
        r = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
        return [('returns the DC-blocked input over the root of twice its averaged square', r * amp == y)], n

    def samples(st, o, g):
        s = e.fresh_int('s')
        st.assume(s >= 1, s <= 1 << 28)
        ctx.method(e, st, o, rec, 'samples', [s])
        return [], S.samples(g, s)
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, []), {k: R for k in S.n}, S.start(), [('call', call), ('samples', samples)])


def iq(ctx):
    e = ctx.engine(ctx.tu(HDR + 'namespace DSP_drv { void use2() { DSP::NormalizeIQ<DSP::Complex<double>> a; } }\n'))
    consts(e)
    rec = 'NormalizeIQ<%s>' % C
    A, B = Sine('i'), Sine('q')

    def make(st):
        o = e.alloc(st, 'obj', e.fresh_val(('rec', e.tu.record(rec).name), 'uninit'), None, ('rec', rec))
        f = e.tu.find('use2')[0]
        # default construction as the compiler performs it
        got = {}
        s = st.copy()
        from dspv.sx import Frame
        fr = Frame(f)
        out = e.exec(e.tu.body(f), s, fr)
        s = out.n
        lv = list(fr.env.values())[0]
        e.write(st, o, e.read(s, lv))
        return o

    def samples(st, o, g):
        s = e.fresh_int('s')
        st.assume(s >= 1, s <= 1 << 28)
        ctx.method(e, st, o, rec, 'samples', [s])
        return [], dict(A.samples(g, s), **B.samples(g, s))

    def call(st, o, g):
        x, w = e.fresh_real('i'), e.fresh_real('q')
        y, p, n = A.step(g, x)
        v, r, m = B.step(g, w)
        a1, a2 = e.fresh_real('amp'), e.fresh_real('amp')
        st.assume(p > 0, r > 0, a1 > 0, a1 * a1 == 2 * p, a2 > 0, a2 * a2 == 2 * r)
        res = e.alloc(st, 'res', ctx.method(e, st, o, rec, 'operator()', [cplx(ctx, e, st, x, w)]), None, ('rec', C))
        re, im = Z(ctx.method(e, st, res, C, 'real', []), R), Z(ctx.method(e, st, res, C, 'imag', []), R)
        return [('in-phase component is normalised on its own', re * a1 == y), ('quadrature component is normalised on its own', im * a2 == v)], dict(n, **m)
    st0 = dict(A.start(), **B.start())
    simulate(ctx, e, rec, make, {k: R for k in A.n + B.n}, st0, [('call', call), ('samples', samples)])


UNITS = [Unit('AMD1', amd, ['AMD1<TYPE>::' + m for m in ('AMD1', 'index', 'agc', 'operator()')], STEPS),
         Unit('NormalizeSine', sine, ['NormalizeSine<TYPE>::' + m for m in ('NormalizeSine', 'samples', 'operator()')], STEPS),
         Unit('NormalizeIQ', iq, ['NormalizeIQ<COMPLEX>::' + m for m in ('samples', 'operator()')], STEPS)]
ASSUME = ['exact real arithmetic', 'index not zero, 0 < low <= high, average of the squares positive (the quotients exist)', '1 <= samples <= 2^28']
NATIVE = 'P37'
