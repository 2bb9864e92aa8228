"""FM demodulators"""
from .drv import *
HDR = ('namespace DSP { using std::sqrt; using std::atan2; using std::sin; using std::cos; }\n#include "const.hh"\n#include "complex.hh"\n#include "fmd.hh"\n'
       + ''.join('template class DSP::FMD%d<DSP::Complex<double>>;\n' % i for i in range(1, 6)))
C = 'Complex<double>'


def fmd(num):
    def f(ctx):
        e = ctx.engine(ctx.tu(HDR))
        consts(e)
        rec = 'FMD%d<%s>' % (num, C)
        zero, one = z3.RealVal(0), z3.RealVal(1)
        start = {'pr': one, 'pq': zero, 'qr': one, 'qi': zero, 's': zero}

        def call(st, o, g):
            xr, xi = e.fresh_real('xr'), e.fresh_real('xi')
            facts(st)
            nx, np = xr * xr + xi * xi, g['pr'] * g['pr'] + g['pq'] * g['pq']
            st.assume(nx > 0)
            e.trans.clear()
            r = Z(ctx.method(e, st, o, rec, 'operator()', [StructVal(C, {'re': xr, 'im': xi})]), R)
            new = dict(g, pr=xr, pq=xi, qr=g['pr'], qi=g['pq'])
            for nm, v, res in e.trans:
                if nm == 'atan2':
                    st.assume(res >= -PI, res <= PI)
            # z * conj(previous)
            re, im = xr * g['pr'] + xi * g['pq'], xi * g['pr'] - xr * g['pq']
            if num == 1:
                a, b = app(e, st, 'atan2', xi, xr), ATAN2(g['pq'], g['pr'])
                st.assume(a >= -PI, a <= PI, b >= -PI, b <= PI)
                d = a - b
                D = z3.If(d < -PI, d + 2 * PI, z3.If(d > PI, d - 2 * PI, d))
            elif num in (2, 3):
                D = ATAN2(im, re)
                for nm, v, res in e.trans:
                    if nm == 'atan2':
                        y, x = [Z(t, R) for t in v]
                        # the code's argument as a positive multiple of the specified one
                        for k in (one, 1 / np, np):
                            gy, gx = y == k * im, x == k * re
                            if valid(e, st.pc, z3.And(gy, gx), 3000):
                                e.oblige('lemma: angle of a positive multiple of input * conj(previous) (imaginary part)', st.copy(), gy, 'lemma')
                                e.oblige('lemma: angle of a positive multiple of input * conj(previous) (real part)', st.copy(), gx, 'lemma')
                                e.oblige('lemma: the multiple is positive', st.copy(), k > 0, 'lemma')
                                st.assume(res == D)
                                break
                st.assume(D >= -PI, D <= PI)
            elif num == 4:
                return [('returns the cross product with the previous sample over the power of the input, scaled', r * nx == g['s'] * im)], new
            else:
                dr, di = xr - g['qr'], xi - g['qi']
                return [('returns the central difference over the power of the middle sample, halved and scaled', 2 * r * np == g['s'] * (g['pr'] * di - g['pq'] * dr))], new
            return [('returns the wrapped phase difference, scaled', z3.Or(r == g['s'] * D, z3.And(z3.Or(D == PI, D == -PI), r == -g['s'] * D)))], new

        def bandwidth(st, o, g):
            bw = e.fresh_real('bw')
            st.assume(bw > 0)
            facts(st)
            ctx.method(e, st, o, rec, 'bandwidth', [bw])
            return [], dict(g, s=1 / (bw * PI))
        ex = [lambda g, n=n: g[n] for n in start] + [lambda g: g['s'] / 2, lambda g: ATAN2(g['pq'], g['pr'])]
        simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, []), {k: R for k in start}, start, [('call', call), ('bandwidth', bandwidth)], exprs=ex,
                 inv=lambda g: z3.And(g['pr'] * g['pr'] + g['pq'] * g['pq'] > 0, g['qr'] * g['qr'] + g['qi'] * g['qi'] > 0),
                 assume_init=lambda st: st.assume(ATAN2(zero, one) == 0),
                 seq=lambda ops: [ops[1], ops[0], ops[0]])
    return f


def agree(ctx):
    """the wrapped difference of the two angles is the angle of input * conj(previous)"""
    e = ctx.engine(ctx.tu(HDR))
    st = ctx.state()
    ctx.cover(st)
    a, b, ma, mb, D, ca, sa, cb, sb, cd, sd = z3.Reals('a b ma mb D ca sa cb sb cd sd')
    facts(st)
    st.assume(ma > 0, mb > 0, a >= -PI, a <= PI, b >= -PI, b <= PI)
    d = a - b
    s = st.copy()
    W = z3.If(d < -PI, d + 2 * PI, z3.If(d > PI, d - 2 * PI, d))
    e.oblige('lemma: one correction wraps the difference to [-pi, pi]', s, z3.And(W >= -PI, W <= PI, z3.Or(W == d, W == d + 2 * PI, W == d - 2 * PI)), 'lemma')
    # cos/sin of the difference by the addition formulas and periodicity
    s = State()
    s.assume(cd == ca * cb + sa * sb, sd == sa * cb - ca * sb)
    xr, xi, pr, pi_ = ma * ca, ma * sa, mb * cb, mb * sb
    e.oblige('lemma: real part of input * conj(previous)', s, z3.simplify(ma * mb * (ca * cb + sa * sb) - (xr * pr + xi * pi_), som=True) == 0, 'lemma')
    e.oblige('lemma: imaginary part of input * conj(previous)', s, z3.simplify(ma * mb * (sa * cb - ca * sb) - (xi * pr - xr * pi_), som=True) == 0, 'lemma')


UNITS = [Unit('FMD%d' % k, fmd(k), ['FMD%d<TYPE>::%s' % (k, m) for m in ['FMD%d' % k, 'bandwidth', 'operator()'] + (['wrap_around'] if k == 1 else [])]) for k in range(1, 6)]
UNITS += [Unit('agreement', agree, [])]
ASSUME = ['exact real arithmetic; atan2 is the mathematical function (range [-pi, pi], unchanged by positive factors, atan2(0,1)=0)',
          'samples are non-zero, bandwidth > 0', 'at a difference of exactly pi either sign is accepted',
          'addition formulas and 2*pi periodicity of sine and cosine (agreement of the three angle-based ones)']
NATIVE = 'P32'
