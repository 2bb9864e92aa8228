"""CORDIC arctangent: overflow safety proved, accuracy enumerated"""
import mpmath
from .drv import *

HDR = '#include <cstdint>\n#include "cordic.hh"\n'


def interval(t, env, memo):
    """enclosure of an integer term; env: name -> (lo, hi)"""
    k = t.get_id()
    if k in memo:
        return memo[k]
    if z3.is_int_value(t):
        r = (t.as_long(),) * 2
    elif z3.is_const(t):
        r = env.get(t.decl().name())
    else:
        op = t.decl().kind()
        a = [interval(c, env, memo) for c in t.children() if z3.is_int(c)]
        r = None
        if a and all(x is not None for x in a):
            if op == z3.Z3_OP_ADD:
                r = (sum(x[0] for x in a), sum(x[1] for x in a))
            elif op == z3.Z3_OP_SUB:
                r = (a[0][0] - sum(x[1] for x in a[1:]), a[0][1] - sum(x[0] for x in a[1:]))
            elif op == z3.Z3_OP_UMINUS:
                r = (-a[0][1], -a[0][0])
            elif op == z3.Z3_OP_ITE:
                r = (min(x[0] for x in a), max(x[1] for x in a))
            elif op == z3.Z3_OP_MUL and len(a) == 2:
                p = [x * y for x in a[0] for y in a[1]]
                r = (min(p), max(p))
            elif op in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV) and a[1][0] == a[1][1] > 0:
                r = (a[0][0] // a[1][0], a[0][1] // a[1][0])
    memo[k] = r
    return r


def run(bits):
    def f(ctx):
        d = Drv(ctx, HDR, {'v': 'int%d_t v(int%d_t y, int%d_t x) { return CORDIC<int%d_t>::atan2(y, x); }' % ((bits,) * 4)})
        e = d.e
        st = ctx.state()
        x, y = z3.Ints('x y')
        lim = 1 << (bits - 1)
        st.assume(x >= -lim, x < lim, y >= -lim, y < lim)
        ctx.cover(st)
        env = {'x': (-lim, lim - 1), 'y': (-lim, lim - 1)}
        its = []

        def hook(e, st, n):
            """after every iteration the integers are known by their range only"""
            its.append(n)
            memo = {}
            facts = []
            for k, v in list(st.store.items()):
                if z3.is_expr(v) and z3.is_int(v) and not z3.is_int_value(v) and not z3.is_const(v):
                    b = interval(v, env, memo)
                    if b is None:
                        continue
                    e.oblige('range of a variable after iteration %d' % n, st.copy(), z3.And(v >= b[0], v <= b[1]), 'invariant')
                    c = e.fresh_int('cut')
                    env[c.decl().name()] = b
                    st.store[k] = c
                    facts += [c >= b[0], c <= b[1]]
            st.pc = [c for c in st.pc if symbols(c) <= {'x', 'y'}]
            st.assume(*facts)
        e.iter_hook = hook
        r = d(st, 'v', y, x)
        e.oblige('result is in the range of the type', st, z3.And(Z(r) >= -lim, Z(r) < lim))
    return f


def symbols(t):
    from .approx import symbols as s
    return s(t)


def atans(n, fac):
    """rational enclosures of fac*atan(2^-i)/pi"""
    mpmath.mp.dps = 40
    w = Fraction(1, 10 ** 25)
    out = []
    for i in range(n):
        v = Fraction(str(mpmath.nstr(fac * mpmath.atan(mpmath.mpf(2) ** -i) / mpmath.pi, 38)))
        out.append((v - w, v + w))
    return out


def accuracy(bits):
    """ghost: the exact rotation (P, Q) by the same decisions, the sum A of the exact angles"""
    B = bits // 8
    fac = B << bits
    lim = 1 << (bits - 1)
    s0 = 64
    C = {8: 350, 16: 200000}[bits]

    def f(ctx):
        d = Drv(ctx, HDR, {'v': 'int%d_t v(int%d_t y, int%d_t x) { return CORDIC<int%d_t>::atan2(y, x); }' % ((bits,) * 4)})
        e = d.e
        e.approx = True         # sufficient invariants
        st = ctx.state()
        x, y, V, s = z3.Ints('x y V s')
        st.assume(x >= -lim, x < lim, y >= -lim, y < lim)
        ctx.cover(st)
        at = atans(bits, fac)
        g = {'P': z3.ToReal(2 * z3.If(x < 0, -x, x)), 'Q': z3.ToReal(2 * y), 'A': z3.RealVal(0), 'd': Fraction(0), 'c': Fraction(0), 'K': Fraction(1),
             're': 2 * z3.If(x < 0, -x, x), 'im': 2 * y, 'an': z3.IntVal(0), 'la': Fraction(0), 'M': 2 * lim, 'T': Fraction(0)}

        def var(st, name):
            ks = [k for k in st.store if str(k).startswith('@' + name + '!') or str(k) == name]
            if len(ks) != 1:
                raise Unsupported('variable %s of the rotation' % name)
            return ks[0]

        def hook(e, st, n):
            i = n - 1
            keys = {k: var(st, nm) for k, nm in (('re', 'real'), ('im', 'imag'), ('an', 'angle'))}
            new = {k: Z(st.store[v]) for k, v in keys.items()}
            sg = z3.If(g['im'] < 0, z3.RealVal(-1), z3.RealVal(1))
            h = z3.RealVal(Fraction(1, 1 << i))
            a = e.fresh_real('angle_%d' % i)
            st.assume(a >= z3.RealVal(at[i][0]), a <= z3.RealVal(at[i][1]))
            P2 = z3.If(g['im'] < 0, g['P'] - g['Q'] * h, g['P'] + g['Q'] * h)
            Q2 = z3.If(g['im'] < 0, g['Q'] + g['P'] * h, g['Q'] - g['P'] * h)
            A2 = z3.If(g['im'] < 0, g['A'] - a, g['A'] + a)
            d2 = (g['d'] * (1 + Fraction(1, 1 << i)) + 1) if i else Fraction(0)
            c2 = g['c'] + 1
            M2 = g['M'] + (g['M'] >> i) + 1
            T2 = g['T'] + at[i][1]
            la = g['la'] + Fraction(51, 100)
            re, im, an = new['re'], new['im'], new['an']
            R_ = z3.ToReal
            within = lambda u, v, t: z3.And(u - v <= z3.RealVal(t), v - u <= z3.RealVal(t))
            inv = lambda re, im, an, P, Q, A: [
                ('first coordinate stays non-negative', re >= 0),
                ('first coordinate follows the exact rotation', within(R_(re), P, d2)),
                ('second coordinate follows the exact rotation', within(R_(im), Q, d2)),
                ('second coordinate is reduced', z3.And(R_(im) <= R_(re) * h + z3.RealVal(c2), -R_(im) <= R_(re) * h + z3.RealVal(c2))),
                ('sum of the table entries follows the exact angle', within(R_(an), A, la)),
                ('range of the coordinates', z3.And(re <= M2, im <= M2, im >= -M2)),
                ('range of the angle', z3.And(A <= z3.RealVal(T2), A >= -z3.RealVal(T2)))]
            for nm, c in inv(re, im, an, P2, Q2, A2):
                e.oblige('iteration %d: %s' % (i, nm), st.copy(), c, 'invariant')
            # the squared length of the exact vector grows by the known factor: polynomial identity
            p, r = z3.Reals('p r')
            e.oblige('iteration %d: growth of the exact vector' % i, State(), (p + r * h) * (p + r * h) + (r - p * h) * (r - p * h) == z3.RealVal(1 + Fraction(1, 4 ** i)) * (p * p + r * r), 'lemma')
            cv = {k: e.fresh_int(k) for k in keys}
            gv = {k: e.fresh_real(k) for k in 'PQA'}
            for k in keys:
                st.store[keys[k]] = cv[k]
            for k, v in list(st.store.items()):      # further temporaries are known no more
                if z3.is_expr(v) and z3.is_int(v) and not z3.is_int_value(v) and not z3.is_const(v):
                    st.store[k] = e.fresh_int('tmp')
            st.pc = [c for c in st.pc if symbols(c) <= {'x', 'y'}]
            st.assume(*[c for nm, c in inv(cv['re'], cv['im'], cv['an'], gv['P'], gv['Q'], gv['A'])])
            g.update(cv)
            g.update(gv, M=M2, T=T2, d=d2, c=c2, la=la, K=g['K'] * (1 + Fraction(1, 4 ** i)), n=n)
        e.iter_hook = hook
        r = d(st, 'v', y, x)
        if g.get('n') != bits:
            raise Unsupported('number of rotations')
        r = z3.ToReal(Z(r))
        # the exact vector at the end: P^2 + Q^2 = K*((2x)^2 + (2y)^2) >= 2*K*s^2, s = |x| + |y|
        P, Q = g['P'], g['Q']
        S, N2 = z3.Reals('S N2')
        h = z3.RealVal(Fraction(1, 1 << (bits - 1)))
        t = State()
        xr, yr = z3.Reals('xr yr')
        for sx in (1, -1):
            for sy in (1, -1):
                e.oblige('lemma: length of the vector', t.copy(), 4 * xr * xr + 4 * yr * yr >= 2 * (sx * xr + sy * yr) * (sx * xr + sy * yr), 'lemma')
        k = g['K']
        t.assume(S >= s0, P >= -z3.RealVal(g['d']), P * P + Q * Q >= z3.RealVal(2 * k) * S * S)
        mm = g['c'] + g['d'] * (1 + Fraction(1, 1 << (bits - 1)))
        m = z3.RealVal(mm)
        t.assume(Q <= P * h + m, -Q <= P * h + m)
        low = z3.RealVal(2)
        e.oblige('the exact vector ends near the axis: second coordinate', st.copy(), z3.And(Q <= P * h + m, -Q <= P * h + m, P >= -z3.RealVal(g['d'])))
        e.oblige('the exact vector keeps its length along the axis', t.copy(), P >= low * S)
        # remaining angle U = fac/pi*atan(Q/P), |atan(z)| <= |z|
        U = z3.Real('U')
        u = State()
        inv_pi = q('0.31830989')
        u.assume(S >= s0, P >= low * S, Q <= P * h + m, -Q <= P * h + m, U * P <= fac * inv_pi * z3.If(Q >= 0, Q, -Q), -U * P <= fac * inv_pi * z3.If(Q >= 0, Q, -Q))
        bound = lambda S: z3.RealVal(Fraction(fac) * Fraction(31830989, 10 ** 8) / (1 << (bits - 1))) + z3.RealVal(Fraction(fac) * Fraction(31830989, 10 ** 8) * mm / 2) / S
        e.oblige('remaining angle is small', u, z3.And(U <= bound(S), -U <= bound(S)))
        # result: angle + remaining angle is the angle of (|x|, y); mirrored for x < 0
        w = st.copy()
        w.assume(S >= s0, U <= bound(S), -U <= bound(S))
        T = z3.If(x < 0, fac - (g['A'] + U), g['A'] + U)
        b2 = z3.RealVal(1 << B) * (4 + z3.RealVal(C) / S)
        full = 1 << (bits + B)
        e.oblige('result is the angle within %s + %d/(|x|+|y|) units, modulo the full turn' % (4, C), w,
                 z3.Or(*[z3.And((1 << B) * r + k * full - T <= b2, T - (1 << B) * r - k * full <= b2) for k in (-1, 0, 1)]))
    return f


UNITS = [Unit('no overflow, 8 bits', run(8), ['CORDIC<int8_t>::atan2']), Unit('no overflow, 16 bits', run(16), ['CORDIC<int16_t>::atan2']),
         Unit('accuracy, 8 bits', accuracy(8), ['CORDIC<int8_t>::atan2']), Unit('accuracy, 16 bits', accuracy(16), ['CORDIC<int16_t>::atan2'])]
ASSUME = ['argument of the product of the complex factors 1 -+ i*2^-k is the sum of their arguments; |atan(z)| <= |z|; enclosures of atan(2^-k)/pi by mpmath',
          'shifts of negative integers are arithmetic (as compiled)', 'accuracy proved as 4 + 350/(|x|+|y|) (8 bits) and 4 + 200000/(|x|+|y|) units (16 bits) for |x|+|y| >= 64; the tighter bounds of the statement are enumerated natively: all 8-bit pairs, and all 16-bit pairs in the thorough tier (a sample in the quick one)']
LEVEL = 'exploration'
NOTE = 'Overflow safety and an accuracy of 4 + C/(|x|+|y|) units are proved for all inputs; the tighter accuracy of the statement is enumerated exhaustively for 8 bits and, in the thorough tier, for 16 bits (sampled in the quick tier).'
NATIVE = 'P21'
