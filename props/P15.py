"""Frequency-domain zero padding: layout of the padded spectrum between the two transforms"""
from .drv import *
from .P13 import HDR, C, CT, IS, mk, fields, parts

IP, OP = 59049, 78125        # literals standing for the two sizes (smooth, so that their plans compile)


def padding(parity):
    def f(ctx):
        I = ctx.size('INPUT', IP, hi=(1 << 28) - 1).v
        O = ctx.size('OUTPUT', OP, hi=(1 << 28) - 1).v
        rec = 'FDZP<%d,%d,%s>' % (OP, IP, C)
        e = ctx.engine(ctx.tu(HDR + '#include "fdzp.hh"\ntemplate class DSP::%s;\ntemplate class DSP::Complex<double>;\n' % rec.replace('Complex', 'DSP::Complex')))
        consts(e)
        st = ctx.state()
        st.assume(I < O, I % 2 == parity)
        o = ctx.obj(e, st, rec)
        fr = lambda nm, n: Ptr(e.alloc(st, nm, e.fresh_arr(CT, n, nm, st), None, ('arr', CT, n)), 0)
        po, pi = fr('out', O), fr('in', I)
        in0 = e.read(st, pi.lv)
        ctx.cover(st)
        calls = []
        F = fields(e)
        X = {f: z3.Array('X_' + f, IS, R) for f in F}
        Y = {f: z3.Array('Y_' + f, IS, R) for f in F}

        def fft(e, st, fr, obj, vals):
            """out[0..BINS) becomes the transform of in[0..BINS)"""
            a = str(e.callee).split('FastFourierTransform<')[1].replace(' ', '').split('>::')[0].split(',')
            bins, sign = e.decode(int(a[0])), int(a[-1].rstrip('>'))
            out, inp = vals
            dst, src = e.read(st, out.lv), e.read(st, inp.lv)
            rng = lambda p, v: z3.And(Z(p.idx or 0) >= 0, Z(p.idx or 0) + Z(bins) <= Z(v.size))
            e.oblige('transform stays inside its arrays', st, z3.And(rng(out, dst), rng(inp, src)), 'precondition')
            e.oblige('transform does not overlap its input', st, z3.BoolVal(out.lv.root != inp.lv.root or out.lv.path != inp.lv.path), 'precondition')
            n = len(calls)
            calls.append((bins, sign))
            if n == 0:
                e.oblige('first transform is the forward one of the whole input', st, z3.And(Z(bins) == I, z3.BoolVal(sign == -1 and inp.lv.root == pi.lv.root), Z(inp.idx or 0) == 0, Z(out.idx or 0) == 0))
                V = X
            elif n == 1:
                e.oblige('second transform is the backward one into the whole output', st, z3.And(Z(bins) == O, z3.BoolVal(sign == 1 and out.lv.root == po.lv.root), Z(out.idx or 0) == 0, Z(inp.idx or 0) == 0))
                k = e.fresh_int('k')
                for name, cond, val in (
                        ('bins below the input Nyquist stay', 2 * k < I, lambda f: X[f][k]),
                        ('negative bins move to the end', 2 * (O - k) < I, lambda f: X[f][k - O + I]),
                        ('half of the input Nyquist bin stays', 2 * k == I, lambda f: X[f][k] / 2),
                        ('half of the input Nyquist bin goes to its negative frequency', z3.And(2 * (O - k) == I), lambda f: X[f][O - k] / 2),
                        ('bins between are zero', z3.And(2 * k > I, 2 * (O - k) > I), lambda f: z3.RealVal(0))):
                    if parity and 'Nyquist bin' in name:
                        continue
                    s = st.copy()
                    s.assume(k >= 0, k < O, cond)
                    ctx.cover(s)
                    s = ground(s, [k, k - O + I, O - k])
                    for f in F:
                        e.oblige(name, s, e.arr_get(src, k).f[f] == val(f))
                V = Y
            else:
                raise Unsupported('a third transform')
            nm = {}
            for f in F:
                A = z3.Const(fresh_name('spec_' + f), dst.lf[(f,)].sort())
                j = z3.Int('j')
                old = dst.lf[(f,)]
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(bins)), A[j] == V[f][j]), patterns=[A[j]]))
                st.assume(z3.ForAll([j], z3.Implies(z3.Or(j < 0, j >= Z(bins)), A[j] == old[j]), patterns=[A[j]]))
                nm[(f,)] = A
            e.write(st, out.lv, Arr(dst.ety, dst.size, nm))
        e.contracts['FastFourierTransform::operator()'] = fft
        m = e.tu.method(rec, 'operator()', 2)
        ctx.call(e, st, m, o, [po, pi])
        e.oblige('two transforms', st, z3.BoolVal(len(calls) == 2))
        n = e.fresh_int('n')
        s = st.copy()
        s.assume(n >= 0, n < O)
        s = ground(s, [n])
        for f in F:
            e.oblige('output is the transformed spectrum divided by INPUT', s, e.arr_get(e.read(s, po.lv), n).f[f] * z3.ToReal(I) == Y[f][n])
        in1 = e.read(st, pi.lv)
        e.oblige('input is unchanged', st, z3.And(*[in0.lf[q] == in1.lf[q] for q in in0.lf]))
    return f


def phases(ctx):
    """OUTPUT = L*INPUT: at sample m*L every moved bin has the phase of its bin at sample m of the input, up to whole turns"""
    e = ctx.engine(ctx.tu('#include "const.hh"\n'))
    I, O, L, m, k = z3.Ints('I O L m k')
    st = ctx.state()
    st.assume(I >= 1, L >= 2, O == L * I, m >= 0, m < I, k >= 0, k < I)
    ctx.cover(st)
    e.oblige('kept bins', st, (k * (m * L)) * I == O * (k * m), 'lemma')
    e.oblige('moved bins', st, ((O - I + k) * (m * L)) * I == O * ((m * L - m) * I + k * m), 'lemma')
    e.oblige('halves of the Nyquist bin', st, ((O - k) * (m * L)) * I == O * (m * L * I - k * m), 'lemma')


UNITS = [Unit('%s input length' % ('odd' if p else 'even'), padding(p), ['FDZP<OUTPUT,INPUT,CMPLX>::operator()']) for p in (0, 1)]
UNITS += [Unit('reappearing samples', phases, [])]
ASSUME = ['exact real arithmetic', 'FastFourierTransform::operator() computes the DFT of the given sign (P13)', 'input and output do not overlap', 'INPUT, OUTPUT < 2^28',
          'literals %d and %d stand for the sizes in the instantiated text' % (IP, OP),
          'the band-limited interpolation is the inverse DFT of the padded spectrum: trigonometric identities, orthogonality of the roots of unity']
NATIVE = 'P15'
