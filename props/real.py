"""Exact-real helpers: named constants, transcendental functions, state machines by simulation."""
from .common import *
from dspv.loops import LoopVerifier

R = z3.RealSort()
PI = z3.Real('const.pi')
SQRT2 = z3.Real('const.sqrt2')
SQRTPI = z3.Real('const.sqrtpi')


def q(s):
    return z3.RealVal(s)


def fn(name, n=1):
    return z3.Function('c_' + name, *([R] * (n + 1)))


SIN, COS, EXP, ATAN2, POW, LOG = fn('sin'), fn('cos'), fn('exp'), fn('atan2', 2), fn('pow', 2), fn('log')


def consts(e):
    """Const<T> (P38): the mathematical constants"""
    tab = {'EighthPi': PI / 8, 'FourthPi': PI / 4, 'HalfPi': PI / 2, 'Pi': PI, 'TwoPi': 2 * PI, 'FourPi': 4 * PI,
           'SqrtPi': SQRTPI, 'SqrtTwoPi': SQRT2 * SQRTPI, 'InvSqrtTwo': 1 / SQRT2}

    def mk(n):
        def f(e, st, fr, obj, vals):
            e.approx = True
            facts(st)
            return tab[n]
        return f
    for n in tab:
        e.contracts['Const::' + n] = mk(n)
    e.global_syms |= {'const.pi', 'const.sqrt2', 'const.sqrtpi'}


def facts(st):
    fs = [PI > q('3.14159265'), PI < q('3.14159266'), SQRT2 > 0, SQRT2 * SQRT2 == 2, SQRTPI > 0, SQRTPI * SQRTPI == PI]
    if not any(c.eq(fs[0]) for c in st.pc):
        st.assume(*fs)


def valid(e, pc, goal, ms=2000):
    class V:
        pass
    lv = V()
    lv.e = e
    return LoopVerifier.valid(lv, pc, goal, ms)


def app(e, st, name, *args):
    """specification use of a transcendental function; arguments the code used are proved equal where they are"""
    F = fn(name, len(args))
    args = [Z(a, R) for a in args]
    r = F(*args)
    for nm, vals, res in e.trans:
        vals = [Z(v, R) for v in vals]
        if nm != name or res.eq(r):
            continue
        g = z3.And(*[a == b for a, b in zip(vals, args)])
        s = z3.simplify(g, som=True)
        if z3.is_true(s):
            st.assume(res == r)
        elif not z3.is_false(s) and valid(e, st.pc, g, 3000):
            e.oblige('lemma: %s is applied to the specified argument' % name, st.copy(), g, 'lemma')
            st.assume(res == r)
    return r


def leaves(v, pre=()):
    """scalar and array leaves of a value"""
    if isinstance(v, StructVal):
        for k, x in v.f.items():
            yield from leaves(x, pre + (k,))
    elif isinstance(v, Arr):
        for k, x in v.lf.items():
            yield pre + ('[]',) + k, x
    elif isinstance(v, CArr):
        for i, x in enumerate(v.el):
            yield from leaves(x, pre + (i,))
    elif isinstance(v, (Ptr, Opaque, Closure)) or v is None:
        return
    else:
        yield pre, v


def uc(e):
    """UnitCircle<T> (P18): cosine and sine of the fraction n/N of a turn"""
    def mk(name):
        def f(e, st, fr, obj, vals):
            n, N = [Z(v) for v in vals]
            e.oblige('precondition of UnitCircle::%s: |n| <= N < 2^28' % name, st, z3.And(N > 0, N < 1 << 28, n <= N, n >= -N), 'precondition')
            x = 2 * PI * z3.ToReal(n) / z3.ToReal(N)
            e.approx = True
            facts(st)
            S, C = SIN(x), COS(x)
            st.assume(S * S + C * C == 1, z3.Implies(z3.And(n > 0, 2 * n < N), z3.And(S > 0, C > -1, C < 1)),
                      z3.Implies(z3.And(n > 0, 4 * n < N), C > 0))
            r = C if name == 'cos' else S
            if not any(t[2].eq(r) for t in e.trans):
                e.trans.append((name, [x], r))
            return r
        return f
    e.contracts['UnitCircle::cos'] = mk('cos')
    e.contracts['UnitCircle::sin'] = mk('sin')

    def rad(e, st, fr, obj, vals):
        e.approx = True
        facts(st)
        return 2 * PI * Z(vals[0], R) / Z(vals[1], R)
    e.contracts['UnitCircle::rad'] = rad


def simulate(ctx, e, rec, make, ghost, start, ops, exprs=None, inv=None, assume_init=None, seq=None, track=None, nocover=False):
    """Contract of a state machine.

    make(st) builds the object with the real constructor; ghost: names -> sorts of the abstract state; start: its
    values after construction; ops: (name, op) with op(st, obj, g) running one call and returning (goals, next ghost).
    The relation between representation and abstract state is found among equalities leaf = ghost expression that hold
    initially and are kept by every call; it is then discharged, initially and for one call from any related pair.
    """
    if callable(ops):
        ops = [('call', ops)]
    exprs = exprs or [lambda g, n=n: g[n] for n in ghost]
    lab = list(ghost)

    def eqs(v, g, alls):
        out = {}
        lv = {p: x for p, x in leaves(v)}
        if alls is None:
            alls = [(p, i) for p in lv for i in range(len(exprs))]
        for p, i in alls:
            if p not in lv:
                continue
            x, y = Z(lv[p]), exprs[i](g)
            if y is None:
                continue
            y = Z(y)
            if z3.is_bool(x) and z3.is_bool(y) or x.sort() == y.sort():
                out[(p, i)] = x == y
            elif z3.is_arith(x) and z3.is_arith(y):
                out[(p, i)] = Z(x, R) == Z(y, R)
        return out
    if ctx.sizes is not None:
        st = ctx.state()
        if assume_init:
            assume_init(st)
        g = {k: Z(v) for k, v in start.items()}
        o = make(st)
        k = 0
        for name, op in (seq(ops) if seq else (ops * 3 if len(ops) == 1 else ops + ops[:1] + ops)):
            goals, g = op(st, o, g)
            k += 1
            for n, x in goals:
                e.oblige('%s (call %d)' % (n, k), st, x)
        return
    st0 = ctx.state()
    if assume_init:
        assume_init(st0)
    o0 = make(st0)
    v0 = e.read(st0, o0)
    c0 = eqs(v0, start, None)
    keep = [k for k, x in c0.items() if valid(e, st0.pc, x, 1000)]

    def again(keep, op):
        st = ctx.state()
        v = e.fresh_val(('rec', e.tu.record(rec).name), 'obj', st)
        o = e.alloc(st, 'obj', v, None, ('rec', rec))
        g = {n: z3.Const(n, s) for n, s in ghost.items()}
        st.assume(*eqs(e.read(st, o), g, keep).values())
        if inv:
            st.assume(inv(g))
        cov = st.copy()
        goals, g1 = op(st, o, g)
        return cov, st, goals, g1, eqs(e.read(st, o), g1, keep)
    while True:
        bad = []
        for name, op in ops:
            e.silent += 1
            try:
                cov, st, goals, g1, post = again(keep, op)
            finally:
                e.silent -= 1
            bad += [k for k in keep if k not in bad and (k not in post or not valid(e, st.pc, post[k], 2000))]
        if not bad:
            break
        keep = [k for k in keep if k not in bad]
    e.approx = True
    pth = lambda p: '.'.join(map(str, p))
    e.inv_log.append('%s: representation %s' % (rec, '; '.join('%s = %s' % (pth(p), lab[i] if len(lab) == len(exprs) else 'ghost%d' % i) for p, i in keep)))
    for k in keep:
        e.oblige('constructor establishes %s' % pth(k[0]), st0, c0[k])
    if inv:
        e.oblige('invariant of the abstract state holds initially', st0, inv(start))
    for name, op in ops:
        e.trans.clear()
        cov, st, goals, g1, post = again(keep, op)
        if not nocover:
            ctx.cover(cov)
        for n, x in goals:
            e.oblige(n, st, x)
        for k in keep:
            e.oblige('%s keeps %s' % (name, pth(k[0])), st, post[k])
        if inv:
            e.oblige('%s keeps the invariant of the abstract state' % name, st, inv(g1))


STEPS = [{'steps': 3}]


def ground(st, terms):
    """weakened copy of a state: its quantifier-free facts and the instances of its universally
    quantified facts (one integer variable) at the given terms"""
    s = st.copy()
    s.pc = []
    for c in st.pc:
        if not z3.is_quantifier(c):
            s.pc.append(c)
        elif c.is_forall() and c.num_vars() == 1 and z3.is_int(z3.Const('x', c.var_sort(0))):
            for t in terms:
                s.assume(z3.simplify(z3.substitute_vars(c.body(), z3.simplify(Z(t)))))
    return s
