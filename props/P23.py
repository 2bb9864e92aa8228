"""Biquad filters"""
from .drv import *
from .sums import pinduct
from dspv.loops import consts as lconsts
from dspv.solve import apps, has_var

HDR = ('namespace DSP { using std::sqrt; using std::nearbyint; using std::cos; using std::sin; using std::abs; using std::exp; using std::log; }\n#include "biquad.hh"\ntemplate class DSP::Biquad<double, double>;\n'
       'namespace DSP_drv { void use() { DSP::Biquad<double, double> a; a.lowpass(1, 4); a.highpass(1, 4); } }\n')
rec = 'Biquad<double,double>'
IDB = z3.Function('idecibel_value', R, R)


def eng(ctx, more=''):
    e = ctx.engine(ctx.tu(HDR + more))
    consts(e)
    uc(e)

    def idb(e, st, fr, obj, vals):
        r = IDB(Z(vals[0], R))
        e.approx = True
        st.assume(r > 0)
        return r
    e.contracts['idecibel'] = idb
    return e


def design(kind, c, al):
    """textbook sections: numerator, denominator (a0 = 1 + alpha)"""
    b = {'lowpass': ((1 - c) / 2, 1 - c, (1 - c) / 2), 'highpass': ((1 + c) / 2, -(1 + c), (1 + c) / 2), 'notch': (z3.RealVal(1), -2 * c, z3.RealVal(1)),
         'bandpass': (al, z3.RealVal(0), -al), 'allpass': (1 - al, -2 * c, 1 + al)}[kind]
    return b, (1 + al, -2 * c, 1 - al)


KINDS = ('lowpass', 'highpass', 'notch', 'bandpass', 'allpass')
CO = ('b0', 'b1', 'b2', 'a1', 'a2')
STA = ('x1', 'x2', 'y1', 'y2')


def at(p, c, s):
    """value of p0 + p1 z^-1 + p2 z^-2 at z = c + i s"""
    return p[0] + p[1] * c + p[2] * (c * c - s * s), -p[1] * s - 2 * p[2] * c * s


def biquad(ctx):
    e = eng(ctx)
    start = {n: z3.RealVal(0) for n in STA + CO}
    start['b0'] = z3.RealVal(1)

    def call(st, o, g):
        x = e.fresh_real('x')
        y = Z(ctx.method(e, st, o, rec, 'operator()', [x]), R)
        w = g['b0'] * x + g['b1'] * g['x1'] + g['b2'] * g['x2'] - g['a1'] * g['y1'] - g['a2'] * g['y2']
        return [('output is the direct-form difference equation', y == w)], dict(g, x1=x, x2=g['x1'], y1=w, y2=g['y1'])

    def mk(kind, dflt):
        def op(st, o, g):
            n, N = e.fresh_int('n'), e.fresh_int('N')
            st.assume(n > 0, 2 * n < N, N <= 1 << 27)
            p = e.fresh_real('p')
            if kind in ('lowpass', 'highpass'):
                st.assume(p > 0)
                facts(st)
                Q = 1 / SQRT2 if dflt else p
            else:
                Q = IDB(p)
                st.assume(Q > 0)
            e.trans.clear()
            if dflt:
                m = e.tu.method(rec, kind, 3)
                from dspv.sx import Frame
                init = [k for k in e.kids(e.tu.params(m)[2]) if not k['kind'].endswith(('Decl', 'Attr'))]
                p = e.val(init[-1], st, Frame(m))
            ctx.method(e, st, o, rec, kind, [n, N, p])
            th = 2 * PI * z3.ToReal(n) / z3.ToReal(N)
            c, s = app(e, st, 'cos', th), app(e, st, 'sin', th)
            st.assume(s * s + c * c == 1, s > 0, c > -1, c < 1)
            al = e.fresh_real('alpha')
            st.assume(al * 2 * Q == s, al > 0)
            (b0, b1, b2), (a0, a1, a2) = design(kind, c, al)
            return [], dict(g, b0=b0 / a0, b1=b1 / a0, b2=b2 / a0, a1=a1 / a0, a2=a2 / a0)
        return op
    ops = [('call', call)] + [(k, mk(k, False)) for k in KINDS] + [('lowpass with default Q', mk('lowpass', True)), ('highpass with default Q', mk('highpass', True))]
    simulate(ctx, e, rec, lambda st: ctx.new(e, st, rec, []), {n: R for n in start}, start, ops)


def responses(ctx):
    """the textbook sections have the stated responses and are stable"""
    e = eng(ctx)
    c, s, Q, al = z3.Reals('c s Q alpha')
    st = ctx.state()
    st.assume(c * c + s * s == 1, s > 0, Q > 0, al * 2 * Q == s, al > 0, c > -1, c < 1)
    ctx.cover(st)
    W = {'lowpass': (1, 0, (0, -1)), 'highpass': (0, 1, (0, 1)), 'notch': (1, 1, None), 'bandpass': (0, 0, (1, 0)), 'allpass': (1, 1, (-1, 0))}
    for k in KINDS:
        b, a = design(k, c, al)
        dc, ny, ctr = W[k]
        e.oblige(k + ': denominator does not vanish at DC and Nyquist', st, z3.And(a[0] + a[1] + a[2] > 0, a[0] - a[1] + a[2] > 0))
        e.oblige(k + ': gain at DC', st, b[0] + b[1] + b[2] == dc * (a[0] + a[1] + a[2]))
        e.oblige(k + ': gain at Nyquist', st, b[0] - b[1] + b[2] == ny * (a[0] - a[1] + a[2]))
        # at the centre c*c = 1 - s*s
        red = lambda x: z3.simplify(z3.substitute(x, (c * c, 1 - s * s)), som=True)
        (Br, Bi), (Ar, Ai) = at(b, c, s), at(a, c, s)
        e.oblige(k + ': denominator does not vanish at the centre', st, z3.Or(Ar != 0, Ai != 0))
        if ctr is None:
            wr, wi = z3.RealVal(0), z3.RealVal(0)
        else:
            m = Q if k in ('lowpass', 'highpass') else 1
            wr, wi = m * (ctr[0] * Ar - ctr[1] * Ai), m * (ctr[0] * Ai + ctr[1] * Ar)
        e.oblige(k + ': response at the centre (real part)', st, Br == wr)
        e.oblige(k + ': response at the centre (imaginary part)', st, Bi == wi)
        e.oblige(k + ': stable', st, z3.And(a[2] < a[0], a[2] > -a[0], a[1] < a[0] + a[2], a[1] > -(a[0] + a[2])))
    b, a = design('allpass', c, al)
    e.oblige('allpass: numerator is the reversed denominator', st, z3.And(b[0] == a[2], b[1] == a[1], b[2] == a[0]))


class Sec:
    """Biquad by its contract: ghost coefficients and state"""
    def __init__(self, e, ctx):
        self.e = e

        def ctor(e, st, fr, obj, v):
            e.write(st, obj, StructVal(rec, dict({'$' + n: Fraction(0) for n in STA + CO}, **{'$b0': Fraction(1)})))

        def call(e, st, fr, obj, v):
            o = e.read(st, obj)
            g = {n: Z(o.f['$' + n], R) for n in STA + CO}
            x = Z(v[0], R)
            w = g['b0'] * x + g['b1'] * g['x1'] + g['b2'] * g['x2'] - g['a1'] * g['y1'] - g['a2'] * g['y2']
            for n, y in (('x2', g['x1']), ('x1', x), ('y2', g['y1']), ('y1', w)):
                e.write(st, obj.f('$' + n), y)
            return w

        def des(kind):
            def f(e, st, fr, obj, v):
                n, N = Z(v[0]), Z(v[1])
                Q = Z(v[2], R)
                th = 2 * PI * z3.ToReal(n) / z3.ToReal(N)
                c, s = COS(th), SIN(th)
                e.approx = True
                e.oblige('design frequency lies in (0, 1/2)', st, z3.And(n > 0, 2 * n < N))
                e.oblige('quality factor is positive', st, Q > 0)
                st.assume(s * s + c * c == 1, s > 0, c > -1, c < 1)
                for nm, val in zip(CO, coef(kind, c, s, Q)):
                    e.write(st, obj.f('$' + nm), val)
            return f
        e.contracts['Biquad::Biquad'] = e.contracts['Biquad::ctor'] = ctor
        e.contracts['Biquad::operator()'] = call
        for k in ('lowpass', 'highpass'):
            e.contracts['Biquad::' + k] = des(k)


def coef(kind, c, s, Q):
    b, a = design(kind, c, s / (2 * Q))
    return [b[0] / a[0], b[1] / a[0], b[2] / a[0], a[1] / a[0], a[2] / a[0]]


def cas_env(ctx):
    S = ctx.size('NUM', 1000003)
    e = eng(ctx, 'template class DSP::BiquadCascade<double, double, %s>;\nnamespace DSP_drv { double fresh(double x) { DSP::BiquadCascade<double, double, %s> a; return a(x); } }\n' % (S, S))
    Sec(e, ctx)
    e.fold_arrays = True
    cr = 'BiquadCascade<double,double,%s>' % S
    return e, S.v, cr


def sections(e, st, o):
    v = [x for x in e.read(st, o).f.values() if isinstance(x, (Arr, CArr))]
    if len(v) != 1:
        raise Unsupported('section array not found')
    return v[0]


def field(e, a, i, n):
    return Z(e.arr_get(a, i).f['$' + n], R)


def arb(ctx, e, st, N, cr):
    v = e.fresh_val(('rec', e.tu.record(cr).name), 'obj', st)
    o = e.alloc(st, 'obj', v, None, ('rec', cr))
    ks = [k for k, x in v.f.items() if isinstance(x, (Arr, CArr))]
    if len(ks) != 1:
        raise Unsupported('section array not found')
    names = ['$' + n for n in STA + CO]
    if isinstance(N, int):
        a = CArr(('rec', rec), [StructVal(rec, {n: z3.Real('%s%d' % (n, i)) for n in names}) for i in range(N)])
    else:
        a = Arr(('rec', rec), N, {(n,): z3.Const('A' + n, z3.ArraySort(z3.IntSort(), R)) for n in names})
    e.write(st, o.f(ks[0]), a)
    return o


def link(e, st, N, terms, SF, at):
    """recurrences of the code identified with the specified one by induction"""
    fs = {}
    for t in terms + list(st.pc):
        for a in apps(Z(t)):
            if a.decl().name().startswith('FOLD_') and a.num_args() == 1 and a.sort() == R:
                fs.setdefault(a.decl().name(), []).append(a)
    for nm, aa in fs.items():
        G = aa[0].decl()
        k = e.fresh_int('ind')
        P = lambda t: G(t) == SF(t)
        if valid(e, st.pc, P(z3.IntVal(0)), 3000) and valid(e, st.pc + [k >= 0, k < Z(N), P(k)], P(k + 1), 5000):
            pinduct(e, st, 'value after k sections', N, P, at=at + [a.arg(0) for a in aa if not has_var(a.arg(0))])


def cas_call(ctx):
    e, N, cr = cas_env(ctx)
    st = ctx.state()
    o = arb(ctx, e, st, N, cr)
    old = sections(e, st, o)
    x = z3.Real('x')
    ctx.cover(st)
    y = Z(ctx.method(e, st, o, cr, 'operator()', [x]), R)
    new = sections(e, st, o)
    F = lambda n, i: field(e, old, i, n)
    stepf = lambda i, v: F('b0', i) * v + F('b1', i) * F('x1', i) + F('b2', i) * F('x2', i) - F('a1', i) * F('y1', i) - F('a2', i) * F('y2', i)
    if isinstance(N, int):
        S = [x]
        for i in range(N):
            S.append(stepf(i, S[-1]))
        e.oblige('output is the sections applied in sequence', st, y == S[N])
        for i in range(N):
            for n, w in (('x1', S[i]), ('x2', F('x1', i)), ('y1', S[i + 1]), ('y2', F('y1', i))):
                e.oblige('section %d: %s' % (i, n), st, field(e, new, i, n) == w)
            for n in CO:
                e.oblige('section %d: %s unchanged' % (i, n), st, field(e, new, i, n) == F(n, i))
        return
    SF = z3.Function('SEQ', z3.IntSort(), R)
    e.defs['SEQ'] = lambda a: [z3.Implies(a.arg(0) <= 0, a == x), z3.Implies(a.arg(0) > 0, a == stepf(z3.simplify(a.arg(0) - 1), SF(z3.simplify(a.arg(0) - 1))))]
    i = e.fresh_int('i')
    st.assume(i >= 0, i < Z(N))
    link(e, st, N, [y], SF, [Z(N), i, i + 1])
    e.oblige('output is the sections applied in sequence', st, y == SF(Z(N)))
    for n, w in (('x1', SF(i)), ('x2', F('x1', i)), ('y1', SF(i + 1)), ('y2', F('y1', i))):
        e.oblige('section i: ' + n, st, field(e, new, i, n) == w)
    for n in CO:
        e.oblige('section i: %s unchanged' % n, st, field(e, new, i, n) == F(n, i))


def cas_design(kind):
    def f(ctx):
        e, N, cr = cas_env(ctx)
        st = ctx.state()
        o = arb(ctx, e, st, N, cr)
        old = sections(e, st, o)
        n, M = z3.Ints('n N')
        st.assume(n > 0, 2 * n < M, M <= 1 << 27, Z(N) <= 1 << 24)
        ctx.cover(st)
        ctx.method(e, st, o, cr, kind, [n, M])
        new = sections(e, st, o)
        i = e.fresh_int('i')
        st.assume(i >= 0, i < Z(N))
        facts(st)
        th = 2 * PI * z3.ToReal(n) / z3.ToReal(M)
        c, s = COS(th), SIN(th)
        st.assume(s * s + c * c == 1, s > 0, c > -1, c < 1)
        # Butterworth: Q_i = 1/(2 cos(pi (2i+1) / (2 ORDER))), ORDER = 2 NUM
        idx = range(N) if isinstance(N, int) else [i]
        for k in idx:
            ang = PI * (2 * z3.ToReal(Z(k)) + 1) / (4 * z3.ToReal(Z(N)))
            C = app(e, st, 'cos', ang)
            for nm, vals, res in list(e.trans):
                # the code's cosine in iteration k
                ks = [c for n_, c in lconsts(Z(vals[0])).items() if n_.startswith('k!')]
                if nm == 'cos' and len(ks) == 1 and not isinstance(N, int):
                    arg = z3.substitute(Z(vals[0], R), (ks[0], i))
                    if valid(e, st.pc, arg == ang, 3000):
                        e.oblige('lemma: angle of the quality factor', st.copy(), arg == ang, 'lemma')
                        st.assume(COS(arg) == C)
            st.assume(C > 0)
            for nm, w in zip(CO, coef(kind, c, s, 1 / (2 * C))):
                e.oblige('section %s: %s is the %s with Butterworth quality factor' % (k if isinstance(N, int) else 'i', nm, kind), st, field(e, new, k, nm) == w)
            for nm in STA:
                e.oblige('section %s: %s unchanged' % (k if isinstance(N, int) else 'i', nm), st, field(e, new, k, nm) == field(e, old, k, nm))
    return f


def cas_ctor(ctx):
    e, N, cr = cas_env(ctx)
    st = ctx.state()
    ctx.cover(st)
    x = z3.Real('x')
    f = [d for d in e.tu.find('fresh') if e.tu.body(d) is not None]
    y = Z(ctx.call(e, st, f[0], None, [x]), R)
    if not isinstance(N, int):
        link(e, st, N, [y], lambda t: x, [Z(N)])
    e.oblige('a fresh cascade passes its input through', st, y == x)


B = 'Biquad<TYPE,VALUE>::'
K = 'BiquadCascade<TYPE,VALUE,NUM>::'
SM = [{'NUM': 1}, {'NUM': 2}]
UNITS = [Unit('Biquad', biquad, [B + m for m in ('Biquad', 'operator()') + KINDS], STEPS), Unit('responses', responses, []),
         Unit('cascade call', cas_call, [K + 'operator()'], SM), Unit('cascade lowpass', cas_design('lowpass'), [K + 'lowpass'], SM),
         Unit('cascade highpass', cas_design('highpass'), [K + 'highpass'], SM), Unit('cascade ctor', cas_ctor, [K + 'BiquadCascade'], SM)]
ASSUME = ['exact real arithmetic', 'UnitCircle is exact: cos and sin of the fraction of a turn (accuracy is P18)', 'idecibel is positive (P20)', '0 < n/N < 1/2, N <= 2^27, Q > 0, NUM <= 2^24',
          'induction over the discharged base and step lemmas']
NATIVE = 'P23'
