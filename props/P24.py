"""Exponential moving averages and DC blocker"""
import mpmath
from .drv import *
from .P38 import frac

HDR = 'namespace DSP { using std::sqrt; using std::nearbyint; }\n#include "ema.hh"\n#include "blockdc.hh"\ntemplate class DSP::EMA<double, double>;\ntemplate class DSP::BlockDC<double, double>;\n'


def eng(ctx, more=''):
    e = ctx.engine(ctx.tu(HDR + more))
    consts(e)
    uc(e)
    return e


def ema(ctx):
    e = eng(ctx)
    rec = 'EMA<double,double>'
    p0, a0 = z3.Reals('p0 a0')

    def call(st, o, g):
        x = e.fresh_real('x')
        r = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
        w = g['prev'] + g['alpha'] * (x - g['prev'])
        return [('returns prev + alpha*(input - prev)', r == w)], {'prev': w, 'alpha': g['alpha']}

    def samples(st, o, g):
        s = e.fresh_int('s')
        st.assume(s >= 1, s <= 1 << 28)
        ctx.method(e, st, o, rec, 'samples', [s])
        return [], {'prev': g['prev'], 'alpha': 1 / z3.ToReal(s)}

    def cutoff(st, o, g):
        n, N = e.fresh_int('n'), e.fresh_int('N')
        st.assume(n > 0, 2 * n < N, N <= 1 << 26)
        ctx.method(e, st, o, rec, 'cutoff', [n, N])
        s1, s2 = st.copy(), st.copy()
        A = Z(ctx.method(e, s2, o, rec, 'operator()', [z3.RealVal(1)]), R) - Z(ctx.method(e, s1, o, rec, 'operator()', [z3.RealVal(0)]), R)
        c = app(e, st, 'cos', 2 * PI * z3.ToReal(n) / z3.ToReal(N))
        gl = [('alpha after cutoff lies in (0, 1)', z3.And(A > 0, A < 1)),
              ('power response at the cutoff frequency is one half', 2 * A * A == 1 - 2 * (1 - A) * c + (1 - A) * (1 - A))]
        return gl, {'prev': g['prev'], 'alpha': A}
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, [p0, a0]), {'prev': R, 'alpha': R}, {'prev': p0, 'alpha': a0}, [('call', call), ('samples', samples), ('cutoff', cutoff)])


def ema_default(ctx):
    e = eng(ctx, 'namespace DSP_drv { void use() { DSP::EMA<double, double> a; } }\n')
    st = ctx.state()
    ctx.cover(st)
    rec = 'EMA<double,double>'
    o = ctx.new(e, st, rec, [])
    x = e.fresh_real('x')
    e.oblige('a fresh average (alpha one) returns its input', st, Z(ctx.method(e, st, o, rec, 'operator()', [x]), R) == x)


def blockdc(ctx):
    e = eng(ctx)
    rec = 'BlockDC<double,double>'

    def call(st, o, g):
        x = e.fresh_real('x')
        r = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
        w = g['b'] * (x - g['x1']) + g['a'] * g['y1']
        return [('returns b*(x - previous x) + a*previous y', r == w), ('zero gain at DC, unit gain at Nyquist (b = (1+a)/2)', 2 * g['b'] == 1 + g['a'])], dict(g, x1=x, y1=w)

    def samples(st, o, g):
        s = e.fresh_int('s')
        st.assume(s >= 1, s <= 1 << 28)
        ctx.method(e, st, o, rec, 'samples', [s])
        a = (z3.ToReal(s) - 1) / z3.ToReal(s)
        return [], dict(g, a=a, b=(1 + a) / 2)
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, []), {'x1': R, 'y1': R, 'a': R, 'b': R}, {'x1': z3.RealVal(0), 'y1': z3.RealVal(0), 'a': z3.RealVal(0), 'b': q('1/2')},
             [('call', call), ('samples', samples)], inv=lambda g: 2 * g['b'] == 1 + g['a'])


def cascade(order):
    def f(ctx):
        e = eng(ctx, 'template class DSP::EMACascade<double, double, %d>;\n' % order)
        rec = 'EMACascade<double,double,%d>' % order
        names = ['p%d' % i for i in range(order)]

        def call(st, o, g):
            x = e.fresh_real('x')
            r = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
            n, y = {'alpha': g['alpha']}, x
            for p in names:
                y = n[p] = g[p] + g['alpha'] * (y - g[p])
            return [('output is %d averages in sequence' % order, r == y)], n

        def cutoff(st, o, g):
            n, N = e.fresh_int('n'), e.fresh_int('N')
            iv = mpmath.iv
            iv.prec = 200
            k = 1 / iv.sqrt(iv.mpf(2) ** (iv.mpf(1) / order) - 1) if order > 1 else iv.mpf(1)
            lo, hi = frac(k._mpi_[0]), frac(k._mpi_[1])
            st.assume(n > 0, 2 * n < N, N <= 1 << 24, z3.ToReal(n) * Z(hi) + 1 < z3.ToReal(N) / 2)
            t0 = len(e.trans)
            e.trans.clear()
            got = []

            def con(e, st, fr, obj, vals):
                got.append([Z(v) for v in vals])
                return UCC(e, st, fr, obj, vals)
            UCC = e.contracts['UnitCircle::cos']
            e.contracts['UnitCircle::cos'] = con
            ctx.method(e, st, o, rec, 'cutoff', [n, N])
            e.contracts['UnitCircle::cos'] = UCC
            if len(got) != 1:
                raise Unsupported('cutoff evaluates the cosine differently')
            m, M = got[0]
            A = e.read(st, o)
            # alpha observed by the response of the first stage
            s1, s2 = st.copy(), st.copy()
            if order == 1:
                A = Z(ctx.method(e, s2, o, rec, 'operator()', [z3.RealVal(1)]), R) - Z(ctx.method(e, s1, o, rec, 'operator()', [z3.RealVal(0)]), R)
            else:
                A = Z(A.f['alpha'], R)
            c = COS(2 * PI * z3.ToReal(m) / z3.ToReal(M))
            rn, rN, rm, rM = z3.ToReal(n), z3.ToReal(N), z3.ToReal(m), z3.ToReal(M)
            tiny = q('1/1000000000')
            gl = [('single-stage cutoff is n/N divided by sqrt(2^(1/ORDER)-1), numerator rounded', z3.And(M == N, rm >= rn * Z(lo) - q('1/2') - tiny, rm <= rn * Z(hi) + q('1/2') + tiny)),
                  ('alpha solves the half-power equation at the single-stage cutoff', Implies(z3.And(c < 1, c > -1), z3.And(A > 0, A < 1, 2 * A * A == 1 - 2 * (1 - A) * c + (1 - A) * (1 - A))))]
            return gl, dict(g, alpha=A)
        st0 = {n: z3.RealVal(0) for n in names}
        st0['alpha'] = z3.RealVal(1)
        simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, []), {n: R for n in names + ['alpha']}, st0, [('call', call), ('cutoff', cutoff)])
    return f


UNITS = [Unit('EMA', ema, ['EMA<TYPE,VALUE>::' + m for m in ('EMA', 'cutoff', 'samples', 'operator()', 'cutoff_alpha')]),
         Unit('EMA()', ema_default, ['EMA<TYPE,VALUE>::EMA'], STEPS),
         Unit('BlockDC', blockdc, ['BlockDC<TYPE,VALUE>::' + m for m in ('BlockDC', 'samples', 'operator()')], STEPS)]
UNITS += [Unit('EMACascade<%d>' % k, cascade(k), ['EMACascade<TYPE,VALUE,%d>::%s' % (k, m) for m in ('EMACascade', 'cutoff', 'operator()', 'cascade_factor')]) for k in range(1, 17)]
ASSUME = ['exact real arithmetic', 'UnitCircle::cos is the cosine of the fraction of a turn (accuracy is P18)', '1 <= samples <= 2^28, N <= 2^24, the stage cutoff of a cascade below half the sample rate',
          'ORDER 1..16, the orders with a tabulated factor (each one instantiated and proved)',
          'sin^2+cos^2=1 and the signs of sine and cosine on (0, 1/2) turn']
NATIVE = 'P24'
