"""Netpbm files"""
from .stream import *
from . import P33
from .real import R
from dspv.loops import FA, LoopVerifier, flatten, get, int_keys, put
from dspv.solve import has_quant

W, RD = 'WritePNM<double>', 'ReadPNM<double>'
DRV = HEAD + '#include "netpbm.hh"\ntemplate class DSP::WritePNM<double>;\ntemplate class DSP::ReadPNM<double>;\n'
NAME = z3.Int('name')
POW = z3.Function('c_pow', R, R, R)
Q = z3.Q
K0, PHI, OFS = Q(4045, 100000), Q(1292, 100), Q(55, 1000)
UP, DOWN = Q(12, 5), Q(5, 12)


def clip(x):
    return z3.If(x < 0, z3.RealVal(0), z3.If(x > 1, z3.RealVal(1), x))


def encode(v):
    """sRGB transfer curve on [0, 1]"""
    return z3.If(v <= K0 / PHI, v * PHI, (1 + OFS) * POW(v, DOWN) - OFS)


def expand(u):
    return z3.If(u <= K0, u / PHI, POW((u + OFS) / (1 + OFS), UP))


LOW = Q(9, 100)


def engine(ctx):
    e = install(ctx.engine(ctx.tu(DRV)))

    def power(e, st, fr, obj, v):
        x, p = Z(v[0], R), Z(v[1], R)
        y = POW(x, p)
        e.trans.append(('pow', [x, p], y))
        st.assume(z3.Implies(z3.And(x > 0, x <= 1, p > 0), z3.And(y > 0, y <= 1)))
        st.assume(z3.Implies(z3.And(p == DOWN, x > K0 / PHI, x <= 1), y > LOW))
        return y
    e.contracts['std::pow'] = power
    return e


def maximum(st):
    m = z3.Int('maxval')
    st.assume(m >= 1, m <= 255)
    return m


def apps(e):
    """applications of pow met so far, as (base, exponent, value)"""
    return [(Z(v[0], R), Z(v[1], R), r) for nm, v, r in e.trans if nm == 'pow']


def same_pow(e, st, x, p):
    """arguments that the solver shows equal give equal powers: the equality is an obligation of its own"""
    for b, q, r in apps(e):
        if const_of(simp(q)) == const_of(simp(p)):
            if e.quick_valid(st, b == x, 3000):
                e.oblige('lemma: base of the power', st, b == x, 'lemma')
                st.assume(r == POW(x, p))


# ---------------------------------------------------------------- transfer curves
def u_srgb(ctx):
    e = engine(ctx)
    st = ctx.state()
    m = maximum(st)
    fresh_file(e, st)
    o = writer(ctx, e, st, m, False)
    x = z3.Real('x')
    ctx.cover(st)
    r = Z(ctx.method(e, st, o, W, 'srgb', [x]))
    v = clip(x)
    prod = lambda x, n: z3.simplify(z3.Product(*[x] * n))
    e.oblige('lemma: lower bound of the power at the threshold: (9/100)^12 < (K0/phi)^5', ctx.state(), prod(LOW, 12) < prod(K0 / PHI, 5), 'lemma')
    same_pow(e, st, v, DOWN)
    d = z3.ToReal(r) - z3.ToReal(m) * encode(v)
    e.oblige('code is at most half a code from the exact one of the clipped value', st, z3.And(2 * d <= 1, 2 * d >= -1))
    e.oblige('code is between zero and the maximum', st, z3.And(r >= 0, r <= m))


def u_linear(ctx):
    e = engine(ctx)
    st = ctx.state()
    m = maximum(st)
    fresh_file(e, st)
    o = reader_obj(ctx, e, st, m)
    c = z3.Int('code')
    st.assume(c >= 0, c <= m)
    ctx.cover(st)
    r = Z(ctx.method(e, st, o, RD, 'linear', [c]), R)
    u = z3.ToReal(c) / z3.ToReal(m)
    same_pow(e, st, (u + OFS) / (1 + OFS), UP)
    e.oblige('value is the inverse curve at code/maximum', st, r == expand(u))


def lemmas(ctx):
    """reading and writing again reproduces the code; reading is within half a code"""
    e = engine(ctx)
    s = ctx.state()
    c, m, r = z3.Ints('code maxval r')
    s.assume(m >= 1, m <= 255, c >= 0, c <= m)
    ctx.cover(s)
    u = z3.Real('u')
    s.assume(u >= 0, u <= 1)
    t = (u + OFS) / (1 + OFS)
    t0 = (K0 + OFS) / (1 + OFS)
    p12 = lambda x, n: z3.simplify(z3.Product(*[x] * n))
    e.oblige('lemma: the power at the threshold is above the linear part: t0^12 > (K0/phi)^5', ctx.state(), p12(t0, 12) > p12(K0 / PHI, 5), 'lemma')
    # contract of pow: growing, and the two exponents undo each other
    s.assume(z3.Implies(t > t0, POW(t, UP) > K0 / PHI), z3.Implies(z3.And(t > 0, t <= 1), z3.And(POW(t, UP) > 0, POW(t, UP) <= 1, POW(POW(t, UP), DOWN) == t)))
    e.oblige('encoding the expanded value gives the same point of the curve', s, encode(expand(u)) == u)
    e.oblige('expanded values lie in [0, 1]', s, z3.And(expand(u) >= 0, expand(u) <= 1))
    s2 = ctx.state()
    s2.assume(m >= 1, m <= 255, c >= 0, c <= m)
    d = z3.ToReal(r) - z3.ToReal(c)
    s2.assume(2 * d <= 1, 2 * d >= -1)
    e.oblige('writing what was read reproduces the code', s2, r == c)


# ---------------------------------------------------------------- objects
def writer(ctx, e, st, m, mono):
    e.tokens = []

    def shl(e, st, fr, obj, v):
        e.tokens.append(v[0])
        return obj
    e.contracts['ofstream::operator<<'] = shl
    return ctx.new(e, st, W, [NAME, z3.Int('width'), z3.Int('height'), mono, m])


def reader_obj(ctx, e, st, m):
    o = ctx.obj(e, st, RD)
    v = e.read(st, o)
    if 'maxval_' not in v.f:
        raise Unsupported('field of the maximum value')
    e.write(st, o, v.set('maxval_', m))
    return o


def w_ctor(mono):
    def f(ctx):
        e = engine(ctx)
        st = ctx.state()
        m = maximum(st)
        w, h = z3.Ints('width height')
        st.assume(w >= 1, h >= 1)
        ctx.cover(st)
        fresh_file(e, st)
        o = writer(ctx, e, st, m, mono)
        want = [ord('P'), 5 if mono else 6, ord(' '), w, ord(' '), h, ord(' '), m, ord('\n')]
        e.oblige('header has the nine parts P, kind, width, height, maximum and separators', st, len(e.tokens) == len(want))
        for i, (a, b) in enumerate(zip(e.tokens, want)):
            e.oblige('part %d of the header' % (i + 1), st, cmp('==', a, b))
        for nm, v in (('width', w), ('height', h)):
            e.oblige('%s() is the %s given' % (nm, nm), st, Z(ctx.method(e, st, o, W, nm)) == v)
        e.oblige('mono() is the kind given', st, cmp('==', ctx.method(e, st, o, W, 'mono'), mono))
    return f


# ---------------------------------------------------------------- header parser
VAL = z3.Function('number', IS, IS, IS)        # value of the k digits at position p


LINE = [z3.Function('line_start_%d' % i, IS, z3.BoolSort()) for i in range(3)]


def is_space(b):
    return z3.Or(b == 32, b == 10, b == 9)


def is_digit(b):
    return z3.And(b >= 48, b <= 57)


def r_ctor(mono):
    def f(ctx):
        e = engine(ctx)
        e.fold_defs = e.auto_int = e.auto_inv = False
        st = ctx.state()
        fresh_file(e, st)
        B = st.ghost['bytes']
        q = z3.Int('q')
        st.assume(B[0] == ord('P'), B[1] == (53 if mono else 54))
        # token i: separator at s[i], comment lines up to c[i], spaces up to p[i], digits up to s[i + 1]
        s, c, p = [z3.Int('s%d' % i) for i in range(4)], [z3.Int('c%d' % i) for i in range(3)], [z3.Int('p%d' % i) for i in range(3)]
        st.assume(s[0] == 2)
        pat = [B[q]]
        for i in range(3):
            a = s[i] + 1
            st.assume(a <= c[i], c[i] <= p[i], p[i] < s[i + 1], is_space(B[s[i]]))
            st.assume(z3.Implies(B[s[i]] != 10, c[i] == a))
            st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= a, q < c[i], LINE[i](q)), B[q] == 35), patterns=[LINE[i](q)]))
            e.defs[LINE[i].name()] = lambda x, a=a: [x == z3.Or(x.arg(0) == a, B[x.arg(0) - 1] == 10)]
            st.assume(z3.Implies(c[i] > a, B[c[i] - 1] == 10), B[c[i]] != 35)
            st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= c[i], q < p[i]), is_space(B[q])), patterns=pat))
            st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= p[i], q < s[i + 1]), is_digit(B[q])), patterns=pat))
        st.assume(is_space(B[s[3]]))
        ctx.cover(st)


        def number(x):
            """definition of the number written; its prefixes are below 2^27"""
            at, n = x.arg(0), x.arg(1)
            prev = z3.simplify(n - 1)
            inside = z3.Or(*[z3.And(at == p[i], n >= 0, n <= s[i + 1] - p[i]) for i in range(3)])
            return [z3.Implies(n <= 0, x == 0), z3.Implies(n > 0, x == 10 * VAL(at, prev) + B[at + prev] - 48), z3.Implies(inside, z3.And(x >= 0, x <= 1 << 27))]
        e.defs['number'] = number
        e.contracts['ifstream::good'] = lambda e, st, fr, obj, v: True

        def within(st, x, y):
            """the position lies in [x, y] by the facts without quantifiers"""
            v = z3.Solver()
            v.set('timeout', 300)
            v.add(*[f for f in st.pc if not has_quant([f])])
            v.add(z3.Not(z3.And(Z(st.ghost['pos']) - 1 >= x, Z(st.ghost['pos']) - 1 <= y)))
            return v.check() == z3.unsat
        pc0 = list(st.pc)

        def valid(st, goal):
            class V:
                pass
            V.e = e
            return LoopVerifier.valid(V, st.pc, goal, 6000)

        def settle(e, st, n):
            """after a number: values in terms of the file, facts about the path are dropped"""
            tok = [i for i in range(3) if within(st, p[i], s[i + 1])]
            if len(tok) != 1:
                return
            i = tok[0]
            at = Z(st.ghost['pos'])
            e.oblige('number %d ends with its last digit' % (i + 1), st, at == s[i + 1] + 1, 'assert')
            st.assume(at == s[i + 1] + 1)
            known = [B[s[i + 1]], VAL(p[i], s[i + 1] - p[i])]
            new = {}
            for k, v in flatten(st).items():
                if k[0] == '$ghost' or not z3.is_expr(v) or not z3.is_int(v):
                    continue
                for x in known:
                    if valid(st, v == x):
                        e.oblige('value after number %d' % (i + 1), st, v == x, 'assert')
                        new[k] = x
                        break
            for k, v in new.items():
                put(st, k, v)
            st.ghost['pos'] = s[i + 1] + 1
            st.pc = pc0 + [f for x in known for f in (x >= 0, x <= 1 << 27)]
        e.iter_hook = settle

        def T(lv):
            out = []
            P = lambda st: Z(st.ghost['pos'])
            tok = [i for i in range(3) if within(lv.st0, s[i], s[i + 1])]
            for i in tok[:1]:
                for k in int_keys(lv):
                    if k[0] == '$ghost':
                        continue
                    g = lambda st, k=k: Z(get(st, k))
                    out.append(('last character read', lambda st, kk, g=g: g(st) == B[P(st) - 1]))
                    out.append(('number %d read so far' % i, lambda st, kk, g=g, i=i: z3.And(P(st) - 1 >= p[i], g(st) == VAL(p[i], P(st) - 1 - p[i]))))
                out.append(('not past the digits %d' % i, lambda st, kk, i=i: P(st) - 1 <= s[i + 1]))
                out.append(('not before the digits %d' % i, lambda st, kk, i=i: P(st) - 1 >= p[i]))
                out.append(('not past the spaces %d' % i, lambda st, kk, i=i: P(st) - 1 <= p[i]))
                out.append(('not before the spaces %d' % i, lambda st, kk, i=i: P(st) - 1 >= z3.If(B[s[i]] == 10, c[i], s[i])))
                out.append(('in comments %d' % i, lambda st, kk, i=i: z3.And(P(st) > s[i] + 1, P(st) < c[i])))
                out.append(('at the start of a line %d' % i, lambda st, kk, i=i: z3.And(P(st) - 1 > s[i], P(st) - 1 <= c[i], LINE[i](P(st) - 1))))
            return out
        e.templates.append(T)
        o = ctx.new(e, st, RD, [NAME])
        for i, nm in enumerate(('width', 'height')):
            e.oblige('%s() is the number written' % nm, st, Z(ctx.method(e, st, o, RD, nm)) == VAL(p[i], s[i + 1] - p[i]))
        e.oblige('mono() is the kind written', st, cmp('==', ctx.method(e, st, o, RD, 'mono'), mono))
        f = e.read(st, o).f
        if 'maxval_' not in f:
            raise Unsupported('field of the maximum value')
        e.oblige('the maximum is the number written', st, Z(f['maxval_']) == VAL(p[2], s[3] - p[2]))
        e.oblige('samples start behind one separator', st, Z(st.ghost['pos']) == s[3] + 1)
    return f


# ---------------------------------------------------------------- pixels
SRGB, LIN = z3.Function('srgb', R, IS), z3.Function('linear', IS, R)


def grid(e, st, ch):
    """samples of the file as pixels and components (cursor as in P33); srgb and linear by their contracts"""
    e.fold_defs = e.auto_int = False
    e.htimeout = 12000
    g = st.ghost
    g['f'], g['g'] = z3.IntVal(0), z3.IntVal(0)
    g['items'] = z3.Const(fresh_name('items'), P33.GRID)

    def advance(g):
        nx = g['g'] + 1
        g['f'], g['g'] = z3.If(nx == ch, g['f'] + 1, g['f']), z3.If(nx == ch, z3.IntVal(0), nx)

    def put(e, st, fr, obj, v):
        g = st.ghost
        g['items'] = z3.Store(g['items'], g['f'], g['g'], Z(byte(v[0])))
        advance(g)
        return obj

    def get(e, st, fr, obj, v):
        g = st.ghost
        r = g['items'][g['f'], g['g']]
        st.assume(r >= 0, r <= 255)
        advance(g)
        return r

    def srgb(e, st, fr, obj, v):
        r = SRGB(Z(v[0], R))
        st.assume(r >= 0, r <= 255)
        return r
    e.contracts['ofstream::put'] = put
    e.contracts['ifstream::get'] = get
    e.contracts['WritePNM::srgb'] = srgb
    e.contracts['ReadPNM::linear'] = lambda e, st, fr, obj, v: LIN(Z(v[0]))
    e.templates.append(P33.cursor_templates(ch))


def pixels(st, ch, dflt):
    num = z3.Int('num')
    stride = z3.IntVal(ch) if dflt else z3.Int('stride')
    st.assume(num >= 0, stride >= ch, num * stride < 2**31, num < 2**31, stride < 2**31)
    st.assume(*P33.mono(num, stride))
    return num, stride


def w_write(mono, dflt):
    def f(ctx):
        e = engine(ctx)
        st = ctx.state()
        m = maximum(st)
        fresh_file(e, st)
        o = writer(ctx, e, st, m, mono)
        ch = 1 if mono else 3
        grid(e, st, ch)
        num, stride = pixels(st, ch, dflt)
        p, A = P33.buffer(e, st)
        ctx.cover(st)
        a, b = z3.Ints('a b')
        done = lambda st: FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0, b < ch, P33.before(a, b, st.ghost['f'], st.ghost['g'])), st.ghost['items'][a, b] == SRGB(A[stride * a + b])), patterns=[st.ghost['items'][a, b]])
        e.templates.append(lambda lv: [('codes written so far', lambda st, k: done(st))])
        ctx.method(e, st, o, W, 'write', [p, num, -1 if dflt else stride])
        g = st.ghost
        e.oblige('all pixels are written', st, z3.And(Z(g['f']) == num, Z(g['g']) == 0))
        i, j = e.fresh_int('n'), e.fresh_int('c')
        st.assume(i >= 0, i < num, j >= 0, j < ch)
        e.oblige('every component is stored as its code', st, g['items'][i, j] == SRGB(A[stride * i + j]))
    return f


def r_read(mono, dflt):
    def f(ctx):
        e = engine(ctx)
        st = ctx.state()
        m = maximum(st)
        fresh_file(e, st)
        o = ctx.obj(e, st, RD)
        k = ctx.method(e, st, o, RD, 'mono')
        st.assume(Z(k) if mono else z3.Not(Z(k)))
        ch = 1 if mono else 3
        grid(e, st, ch)
        num, stride = pixels(st, ch, dflt)
        a, b, n = z3.Ints('a b n')
        if not dflt:
            st.assume(z3.ForAll([a, n], z3.Implies(a < n, stride * a + stride <= stride * n), patterns=[z3.MultiPattern(stride * a, stride * n)]))
        p, A0 = P33.buffer(e, st)
        ctx.cover(st)
        buf = lambda st: st.store[p.lv.root].lf[()]
        items = st.ghost['items']
        done = lambda st: FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0, b < ch, P33.before(a, b, st.ghost['f'], st.ghost['g'])), buf(st)[stride * a + b] == LIN(items[a, b])), patterns=[items[a, b]])
        gaps = lambda st: FA([a, b], z3.Implies(z3.And(a >= 0, b >= ch, b < stride), buf(st)[stride * a + b] == A0[stride * a + b]), patterns=[A0[stride * a + b]])
        e.templates.append(lambda lv: [('values read so far', lambda st, k: done(st))] + ([] if dflt else [('elements between pixels are unchanged', lambda st, k: gaps(st))]))
        ctx.method(e, st, o, RD, 'read', [p, num, -1 if dflt else stride])
        g = st.ghost
        e.oblige('all pixels are read', st, z3.And(Z(g['f']) == num, Z(g['g']) == 0))
        i, j = e.fresh_int('n'), e.fresh_int('c')
        s = st.copy()
        s.assume(i >= 0, i < num, j >= 0, j < ch)
        e.oblige('every component is the value of its code', s, buf(s)[stride * i + j] == LIN(items[i, j]))
        if not dflt:
            s = st.copy()
            s.assume(i >= 0, i < num, j >= ch, j < stride)
            e.oblige('elements between pixels are unchanged', s, buf(s)[stride * i + j] == A0[stride * i + j])
    return f


KINDS = (('mono', True), ('colour', False))
UNITS = [Unit('srgb', u_srgb, ['WritePNM::srgb']), Unit('linear', u_linear, ['ReadPNM::linear']), Unit('curves', lemmas, [])]
UNITS += [Unit('WritePNM (%s)' % n, w_ctor(b), ['WritePNM::WritePNM', 'WritePNM::width', 'WritePNM::height', 'WritePNM::mono']) for n, b in KINDS]
UNITS += [Unit('ReadPNM (%s)' % n, r_ctor(b), ['ReadPNM::ReadPNM', 'ReadPNM::space', 'ReadPNM::newline', 'ReadPNM::digit', 'ReadPNM::value', 'ReadPNM::width', 'ReadPNM::height', 'ReadPNM::mono']) for n, b in KINDS]
UNITS += [Unit('write (%s%s)' % (n, ', default stride' if d else ''), w_write(b, d), ['WritePNM::write']) for n, b in KINDS for d in (False, True)]
UNITS += [Unit('read (%s%s)' % (n, ', default stride' if d else ''), r_read(b, d), ['ReadPNM::read']) for n, b in KINDS for d in (False, True)]
ASSUME = ['exact real arithmetic; nearbyint is within one half of its argument',
          'std::pow is the real power: it maps (0, 1] into itself, grows with its base, exponents 12/5 and 5/12 undo each other; its bounds at the threshold follow from the rational comparisons discharged as lemmas',
          'streams as in props/stream.py; operator<< of a char writes it and of an int writes its decimal digits; good() holds while the header is read; no I/O error',
          'header: comment lines only directly behind the newline ending a token; prefixes of the numbers up to 2^27',
          'num*stride < 2^31, stride >= components; accesses to buf are not checked for bounds; products with the stride as in the lemmas of P33',
          'termination of the loops over the header follows from the position growing towards the end of the token and is not an obligation']
NATIVE = 'P34'
