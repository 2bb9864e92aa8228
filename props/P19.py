"""Arctangent approximations"""
from .drv import *
from .approx import *

HDR = 'namespace DSP { using std::abs; using std::copysign; }\n#include "atan2.hh"\n'
FN = {'vatan': 'double vatan(double x) { return DSP::atan(x); }', 'vatan2': 'double vatan2(double y, double x) { return DSP::atan2(y, x); }'}
ATAN = z3.Function('arctangent', R, R)
TOL = Fraction(1, 10 ** 15)
BS = [Fraction(n, 100) for n in (66, 70, 75, 80, 90, 100)]


def arctan(ctx):
    d = Drv(ctx, HDR, FN)
    e = d.e
    e.approx = True        # the bound on the derivative is sufficient only
    st = ctx.state()
    x, w = z3.Reals('x w')
    facts(st)
    ctx.cover(st)
    r = Z(d(st, 'vatan', x), R)
    one = z3.RealVal(1)
    # arguments the kernel is used on: value, condition, constant (eighths of a turn) and sign of the identity atan(x) = c*pi/4 + s*atan(argument)
    shapes = [(1 / x, x > 0, 2, -1), (-1 / x, x > 0, 2, 1), (1 / x, x < 0, -2, -1), (-1 / x, x < 0, -2, 1),
              ((x - 1) / (x + 1), x > -1, 1, 1), ((1 - x) / (x + 1), x > -1, 1, -1), ((x + 1) / (1 - x), x < 1, -1, 1), ((x + 1) / (x - 1), x < 1, -1, -1), ((-x - 1) / (-x + 1), x < 1, -1, 1)]
    leaf = split(e, st, r)
    for i, (s, t) in enumerate(leaf):
        inner = [v for v in find(t, lambda v: z3.is_div(v) and not any(find(c, z3.is_div) for c in v.children()) and symbols(v) == {'x'}) if not z3.is_rational_value(v)]
        c, sg, hit = 0, 1, None
        for v in inner:
            if size(v) > 12:
                continue
            for a, cond, c_, s_ in shapes:
                if sure(e, s, 'condition of the identity', cond) and sure(e, s, 'argument of the kernel', v == a):
                    hit, c, sg = v, c_, s_
                    break
            if hit is not None:
                break
        nm = 'branch %d of atan' % i
        if hit is None:
            arg, p = x, z3.substitute(t, (x, w))
        else:
            arg, p = hit, z3.substitute(t, (hit, w))
            if 'x' in symbols(p):
                raise Unsupported('argument of the arctangent kernel')
        B = next((b for b in BS if valid(e, s.pc, z3.And(arg <= z3.RealVal(b), arg >= -z3.RealVal(b)))), BS[0])
        e.oblige(nm + ': argument of the kernel is in range', s.copy(), z3.And(arg <= z3.RealVal(B), arg >= -z3.RealVal(B)))
        by_derivative(e, s, nm + ': within 1e-15', p, w, ([Fraction(sg)], [Fraction(1), Fraction(0), Fraction(1)]), -B, B, Rat([Fraction(0)], None, {PI.decl().name(): Fraction(c, 4)}), TOL)
        # sign
        z = s.copy()
        if hit is not None:
            z.assume(w == hit, w <= z3.RealVal(B), w >= -z3.RealVal(B))
            K = s.copy()
            K.pc = [w <= z3.RealVal(B), w >= -z3.RealVal(B), PI > q('3.14'), PI < q('3.15')]
            pos = c > 0
            e.oblige(nm + ': sign', K, p > 0 if pos else p < 0)
            e.oblige(nm + ': sign of the argument', s.copy(), x > 0 if pos else x < 0)
        else:
            for g, f in ((x > 0, p > 0), (x < 0, p < 0), (x == 0, p == 0)):
                K = s.copy()
                K.pc = [z3.substitute(g, (x, w)), w <= z3.RealVal(B), w >= -z3.RealVal(B)]
                e.oblige(nm + ': sign', K, f)


def size(t):
    return 1 + sum(size(c) for c in t.children())


def split(e, st, r, depth=0):
    """[(state, value without conditionals)]"""
    ite = lambda t: z3.is_app_of(t, z3.Z3_OP_ITE)
    todo, found = [r], None
    while todo:
        t = todo.pop(0)
        if ite(t):
            found = t
            break
        todo += t.children()
    if found is None:
        return [(st, r)]
    if depth > 10:
        raise Unsupported('case analysis')
    out = []
    c = found.arg(0)
    for cc, v in ((c, found.arg(1)), (z3.Not(c), found.arg(2))):
        if not any(ite(x) for x in find(cc, ite)) and valid(e, st.pc, z3.Not(cc)):
            e.oblige('lemma: branch not taken', st.copy(), z3.Not(cc), 'lemma')
            continue
        s = st.copy()
        s.assume(cc)
        out += split(e, s, z3.substitute(r, (found, v)), depth + 1)
    return out


def arctan2(ctx):
    d = Drv(ctx, HDR, FN)
    e = d.e
    st = ctx.state()
    x, y = z3.Reals('x y')
    facts(st)
    sb = z3.Function('signbit', R, z3.BoolSort())
    st.assume(z3.Implies(y < 0, sb(y)), z3.Implies(y > 0, z3.Not(sb(y))))
    ctx.cover(st)
    tol = z3.RealVal(TOL)

    def atan_(e, st, fr, obj, vals):
        v = Z(vals[0], R)
        r = e.fresh_real('atan')
        st.assume(r - ATAN(v) <= tol, ATAN(v) - r <= tol, z3.Implies(v > 0, r > 0), z3.Implies(v < 0, r < 0), z3.Implies(v == 0, r == 0))
        e.approx = True
        return r
    e.contracts['atan'] = atan_
    r = Z(d(st, 'vatan2', y, x), R)
    v = y / x
    err = lambda w: z3.And(r - w <= tol, w - r <= tol)
    for nm, g, goal in [('right half plane', x > 0, err(z3.If(y == 0, z3.RealVal(0), ATAN(v)))),
                        ('second quadrant', z3.And(x < 0, y > 0), err(ATAN(v) + PI)), ('third quadrant', z3.And(x < 0, y < 0), err(ATAN(v) - PI)),
                        ('negative real axis', z3.And(x < 0, y == 0), r == z3.If(sb(y), -PI, PI)), ('origin', z3.And(x == 0, y == 0), r == 0),
                        ('positive imaginary axis', z3.And(x == 0, y > 0), r == PI / 2), ('negative imaginary axis', z3.And(x == 0, y < 0), r == -PI / 2)]:
        s = st.copy()
        s.assume(g)
        e.oblige('atan2 in the %s' % nm, s, goal)


UNITS = [Unit('atan', arctan, ['atan', 'atan_approx', 'atan_kernel']), Unit('atan2', arctan2, ['atan2'])]
ASSUME = ['exact real arithmetic (rounding of the evaluation and the sign of zero results are measured natively only)',
          'mean value theorem; the derivative of the arctangent is 1/(1+x^2); atan(x) = pi/2 - atan(1/x) for x > 0 and pi/4 + atan((x-1)/(x+1)) for x > -1; atan2 is atan(y/x) shifted by half a turn for x < 0',
          'rational normal form and derivative of the evaluated term computed by the tool (dspv, exact rational arithmetic)']
NATIVE = 'P19'
