"""Approximations by polynomials: code terms reduced to a polynomial of one variable, case by case."""
from .real import *


def find(t, pred, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return out
    seen.add(t.get_id())
    if pred(t):
        out.append(t)
        return out
    for c in t.children():
        find(c, pred, out, seen)
    return out


def symbols(t):
    return {x.decl().name() for x in find(t, lambda x: z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED)}


def sure(e, st, name, goal):
    """goal proved here and recorded as an obligation"""
    if valid(e, st.pc, goal, 5000):
        e.oblige('lemma: ' + name, st.copy(), goal, 'lemma')
        return True
    return False


def cases(e, st, r, y, depth=0, g=(), shapes=None):
    """[(guards, polynomial in y equal to r under them)]: conditions decided or split, argument reductions identified with
    a rational multiple of y"""
    if depth > 12:
        raise Unsupported('case analysis')
    ite = lambda t: z3.is_app_of(t, z3.Z3_OP_ITE)
    while True:
        r = z3.simplify(r) if not find(r, ite) else r
        found = None
        todo = [r]
        while todo:
            t = todo.pop(0)
            if ite(t):
                found = t
                break
            todo += t.children()
        if found is None:
            break
        c = found.arg(0)
        if sure(e, st, 'branch taken', c):
            r = z3.substitute(r, (found, found.arg(1)))
            continue
        if sure(e, st, 'branch not taken', z3.Not(c)):
            r = z3.substitute(r, (found, found.arg(2)))
            continue
        out = []
        for cc, v in ((c, found.arg(1)), (z3.Not(c), found.arg(2))):
            s = st.copy()
            s.assume(cc)
            out += cases(e, s, z3.substitute(r, (found, v)), y, depth + 1, g + (cc,), shapes)
        return out
    for i in range(8):
        if symbols(r) <= {y.decl().name()}:
            return [(g, r)]
        ds = find(r, lambda t: z3.is_real(t) and not symbols(t) <= {y.decl().name()} and (z3.is_div(t) or (z3.is_mul(t) and 'const.pi' in symbols(t) and not find(t, z3.is_div))))
        hit = None
        for d in ds:
            for v in (y, -y) + tuple(shapes or ()):
                if sure(e, st, 'argument reduction', d == v):
                    hit = (d, v)
                    break
            if hit:
                break
        if not hit:
            raise Unsupported('argument of the approximation: %s' % str(r)[:300])
        r = z3.substitute(r, hit)
    raise Unsupported('argument of the approximation')


def close_to(e, st, name, p, t, tol, y):
    e.oblige(name, st, z3.And(p - t <= z3.RealVal(tol), t - p <= z3.RealVal(tol)))


# rational functions of one variable: pairs of coefficient lists (lowest power first)
def padd(a, b, s=1):
    r = [Fraction(0)] * max(len(a), len(b))
    for i, x in enumerate(a):
        r[i] += x
    for i, x in enumerate(b):
        r[i] += s * x
    while len(r) > 1 and r[-1] == 0:
        r.pop()
    return r


def pmul(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return padd(r, [Fraction(0)])


def pdiff(a):
    return [i * x for i, x in enumerate(a)][1:] or [Fraction(0)]


class Rat:
    """num/den + sum of coefficients of named constants (linear)"""
    def __init__(self, n, d=None, lin=None):
        self.n, self.d, self.lin = n, d or [Fraction(1)], lin or {}

    def plus(self, o, s=1):
        lin = dict(self.lin)
        for k, v in o.lin.items():
            lin[k] = lin.get(k, 0) + s * v
        if self.d == o.d:
            return Rat(padd(self.n, o.n, s), self.d, lin)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d), s), pmul(self.d, o.d), lin)

    def const(self):
        return self.n[0] / self.d[0] if len(self.n) == 1 and len(self.d) == 1 and not self.lin else None

    def times(self, o):
        for a, b in ((self, o), (o, self)):
            c = a.const()
            if c is not None:
                return Rat([c * x for x in b.n], b.d, {k: c * v for k, v in b.lin.items()})
        if self.lin or o.lin:
            raise Unsupported('product with a constant')
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def over(self, o):
        if o.lin:
            raise Unsupported('division by a constant')
        return self.times(Rat(o.d, o.n))

    def diff(self):
        return Rat(padd(pmul(pdiff(self.n), self.d), pmul(self.n, pdiff(self.d)), -1), pmul(self.d, self.d))


def rational(t, y, memo=None):
    memo = {} if memo is None else memo
    if t.get_id() in memo:
        return memo[t.get_id()]
    if z3.is_rational_value(t) or z3.is_int_value(t):
        r = Rat([Fraction(t.as_long()) if z3.is_int_value(t) else Fraction(t.numerator_as_long(), t.denominator_as_long())])
    elif t.eq(y):
        r = Rat([Fraction(0), Fraction(1)])
    elif z3.is_const(t):
        r = Rat([Fraction(0)], None, {t.decl().name(): Fraction(1)})
    elif z3.is_to_real(t):
        r = rational(t.arg(0), y, memo)
    else:
        a = [rational(c, y, memo) for c in t.children()]
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = a[0]
            for x in a[1:]:
                r = r.plus(x)
        elif k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r.plus(x, -1)
        elif k == z3.Z3_OP_UMINUS:
            r = Rat([Fraction(0)]).plus(a[0], -1)
        elif k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r.times(x)
        elif k == z3.Z3_OP_DIV:
            r = a[0].over(a[1])
        else:
            raise Unsupported('not a rational function: %s' % t.decl().name())
    memo[t.get_id()] = r
    return r


def horner(c, y):
    r = z3.RealVal(c[-1])
    for x in c[-2::-1]:
        r = z3.RealVal(x) + y * r
    return r


def by_derivative(e, st, name, r, y, dspec, lo, hi, at0, tol, logd=False, order=None):
    """r(y) is within tol of the function F with F(0) = at0 and F' = dspec (pair of coefficient lists, rational) on lo <= y <= hi,
    0 inside: |r(0) - at0| <= tol/16 and |r' - F'| <= eps there with |y|*eps <= 15/16 tol.
    logd: relative, the logarithmic derivatives are compared (F'/F = dspec)
    order: odd order k of the error; the derivative is bounded by tol/4 / m + 11/16 tol k y^(k-1)/m^k instead, which integrates to 15/16 tol"""
    R_ = rational(r, y)
    if R_.lin:
        R_ = R_.plus(Rat([Fraction(0)], None, at0.lin), -1)
        if any(v != 0 for v in R_.lin.values()):
            raise Unsupported('constant offset of the approximation')
        R_.lin = {}
        at0 = Rat(at0.n, at0.d)
    m = max(abs(lo), abs(hi))
    eps = tol * Fraction(15, 16) / m
    c0 = R_.n[0] / R_.d[0]
    a0 = at0.n[0] / at0.d[0]
    t = tol / 16
    s = st.copy()
    s.pc = [y >= z3.RealVal(lo), y <= z3.RealVal(hi)]
    e.oblige(name + ': value at the expansion point', s.copy(), z3.And(z3.RealVal(c0 - a0) <= z3.RealVal(t), z3.RealVal(a0 - c0) <= z3.RealVal(t)))
    e.oblige(name + ': no pole', s.copy(), horner(R_.d, y) != 0)
    D = R_.diff()
    if logd:
        e.oblige(name + ': positive', s.copy(), horner(R_.n, y) * horner(R_.d, y) > 0)
        D = D.over(R_)
    X = D.plus(Rat(*dspec), -1)
    # common factors of numerator and denominator are removed by division of the polynomials
    n, d = reduce_(X.n, X.d)
    sg = z3.RealVal(1) if peval(d, Fraction(0)) > 0 else z3.RealVal(-1)
    if order:
        env = [Fraction(0)] * order
        env[0] = tol / 4 / m
        env[-1] = tol * Fraction(11, 16) * order / m ** order
        env = horner(env, y)
    else:
        env = z3.RealVal(eps)
    e.oblige(name + ': derivative of the error is small', s.copy(), z3.And(sg * horner(n, y) <= env * sg * horner(d, y), -sg * horner(n, y) <= env * sg * horner(d, y)))
    e.oblige(name + ': denominator of the derivative is positive', s.copy(), sg * horner(d, y) > 0)


def peval(c, x):
    r = Fraction(0)
    for a in reversed(c):
        r = r * x + a
    return r


def pdivmod(a, b):
    a = list(a)
    q = [Fraction(0)] * max(1, len(a) - len(b) + 1)
    while len(a) >= len(b) and any(a):
        k = len(a) - len(b)
        f = a[-1] / b[-1]
        q[k] = f
        for i, x in enumerate(b):
            a[i + k] -= f * x
        a.pop()
        while len(a) > 1 and a[-1] == 0:
            a.pop()
    return q, a


def reduce_(n, d):
    a, b = n, d
    while any(b):
        a, b = b, pdivmod(a, b)[1]
        b = b if any(b) else [Fraction(0)]
        if any(b):
            b = [x / b[-1] for x in b]
    g = [x / a[-1] for x in a]
    if len(g) == 1:
        return n, d
    return pdivmod(n, g)[0], pdivmod(d, g)[0]
