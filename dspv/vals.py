"""Values, states and arithmetic helpers of the symbolic executor."""
import z3
from fractions import Fraction


class Unsupported(Exception):
    """A construct or situation the verifier cannot handle (tool limit, never a violation)."""


_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def is_c(v):
    return isinstance(v, (bool, int, Fraction))


def Z(v, sort=None):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        if sort is not None and sort == z3.RealSort():
            return z3.RealVal(v)
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)
    if sort is not None and sort == z3.RealSort() and z3.is_int(v):
        return z3.ToReal(v)
    return v


def sort_of(v):
    if isinstance(v, bool):
        return z3.BoolSort()
    if isinstance(v, int):
        return z3.IntSort()
    if isinstance(v, Fraction):
        return z3.RealSort()
    return v.sort()


def const_of(v):
    """python constant of a z3 numeral / python value, else None"""
    if is_c(v):
        return v
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def fold(v):
    c = const_of(v)
    return v if c is None else c


def simp(v):
    if is_c(v):
        return v
    return fold(z3.simplify(v))


def isreal(v):
    return isinstance(v, Fraction) or (z3.is_expr(v) and z3.is_real(v))


def _coerce(a, b):
    if isreal(a) or isreal(b):
        return Z(a, z3.RealSort()), Z(b, z3.RealSort())
    return Z(a), Z(b)


def add(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0 and not (isreal(a) and not isreal(b)):
        return b
    if is_c(b) and b == 0 and not (isreal(b) and not isreal(a)):
        return a
    x, y = _coerce(a, b)
    return x + y


def sub(a, b):
    if is_c(a) and is_c(b):
        return a - b
    if is_c(b) and b == 0 and not (isreal(b) and not isreal(a)):
        return a
    x, y = _coerce(a, b)
    return x - y


def neg(a):
    if is_c(a):
        return -a
    return -a


def mul(a, b):
    if is_c(a) and is_c(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if is_c(p):
            if p == 0:
                return Fraction(0) if (isreal(p) or isreal(q)) else 0
            if p == 1 and not (isreal(p) and not isreal(q)):
                return q
    x, y = _coerce(a, b)
    return x * y


def rdiv(a, b):
    if is_c(a) and is_c(b):
        if b == 0:
            raise Unsupported('division by constant zero')
        return Fraction(a) / Fraction(b)
    if is_c(b) and b == 1:
        return Z(a, z3.RealSort())
    x, y = Z(a, z3.RealSort()), Z(b, z3.RealSort())
    return x / y


def tdiv(a, b):
    """C integer division (truncation)"""
    if is_c(a) and is_c(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    za, zb = Z(a), Z(b)
    if is_c(b):
        if b == 1:
            return a
        if b > 0:
            return z3.If(za >= 0, za / zb, -((-za) / zb))
        return z3.If(za >= 0, -(za / Z(-b)), (-za) / Z(-b))
    # z3's div for positive divisor is floor; general sign handling
    ab = z3.If(zb >= 0, zb, -zb)
    aa = z3.If(za >= 0, za, -za)
    q = aa / ab
    return z3.If((za >= 0) == (zb >= 0), q, -q)


def tmod(a, b):
    if is_c(a) and is_c(b):
        return a - b * tdiv(a, b)
    za, zb = Z(a), Z(b)
    if is_c(b):
        m = Z(abs(b))
        return z3.If(za >= 0, za % m, -((-za) % m))
    ab = z3.If(zb >= 0, zb, -zb)
    return z3.If(za >= 0, za % ab, -((-za) % ab))


def cmp(op, a, b):
    if is_c(a) and is_c(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)) or (z3.is_expr(b) and z3.is_bool(b)):
        x, y = tobool(a), tobool(b)
        x, y = Z(x), Z(y)
        return {'==': x == y, '!=': x != y}[op]
    x, y = _coerce(a, b)
    if x.eq(y):
        return op in ('<=', '>=', '==')
    return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
            '==': lambda: x == y, '!=': lambda: x != y}[op]()


def tobool(v):
    if isinstance(v, bool):
        return v
    if is_c(v):
        return v != 0
    if z3.is_bool(v):
        return v
    return fold(z3.simplify(v != 0)) if False else (v != 0)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if is_c(a) and is_c(b) and type(a) == type(b) and a == b:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return z3.If(c, Z(tobool(a)), Z(tobool(b)))
    x, y = _coerce(a, b) if not (z3.is_expr(a) and z3.is_array(a)) else (a, b)
    return z3.If(c, x, y)


UNIONS = {}          # local unions of scalars: name -> {member: type}


def bits(v, a, b):
    """the bits of v of type a seen as type b"""
    if a == b:
        return v
    fl = lambda t: {'float': 32, 'double': 64}.get(t[1]) if t[0] == 'float' else None
    z = lambda t: t[1] if t[0] == 'int' else None
    if fl(a) and fl(a) == z(b):
        return z3.Function('bits_of_%s' % a[1], z3.RealSort(), z3.IntSort())(Z(v, z3.RealSort()))
    if fl(b) and fl(b) == z(a):
        return z3.Function('%s_of_bits' % b[1], z3.IntSort(), z3.RealSort())(Z(v))
    raise Unsupported('union of %r and %r' % (a, b))


class StructVal:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty, self.f = ty, f

    def set(self, name, v):
        g = dict(self.f)
        g[name] = v
        if self.ty in UNIONS:
            g = {k: v if k == name else bits(v, UNIONS[self.ty][name], t) for k, t in UNIONS[self.ty].items()}
        return StructVal(self.ty, g)

    def __repr__(self):
        return '%s%r' % (self.ty, self.f)


class Arr:
    """symbolic-length array; leaves: field path -> z3 array Int->sort"""
    __slots__ = ('ety', 'size', 'lf', 'view')

    def __init__(self, ety, size, lf, view=None):
        # view: leaves indexed by view(index) (read-only data a specification names by another index)
        self.ety, self.size, self.lf, self.view = ety, size, lf, view

    def __repr__(self):
        return 'Arr(%r,%r)' % (self.size, self.lf)


class CArr:
    """array with concrete length, element-wise values"""
    __slots__ = ('ety', 'el')

    def __init__(self, ety, el):
        self.ety, self.el = ety, el

    @property
    def size(self):
        return len(self.el)

    def __repr__(self):
        return 'CArr%r' % (self.el,)


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def f(self, name):
        return LV(self.root, self.path + (name,))

    def i(self, idx):
        return LV(self.root, self.path + (('i', idx),))

    def __repr__(self):
        return 'LV(%s,%s)' % (self.root, self.path)


class Ptr:
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.lv, self.idx)


class Opaque:
    """value of a type the verifier does not look into (streams, functors)"""
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return 'Opaque(%s)' % self.ty


class Closure:
    __slots__ = ('node', 'fr')

    def __init__(self, node, fr):
        self.node, self.fr = node, fr


def path_eq(p, q):
    if len(p) != len(q):
        return False
    for a, b in zip(p, q):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return False
        else:
            x, y = a[1], b[1]
            if is_c(x) and is_c(y):
                if x != y:
                    return False
            elif z3.is_expr(x) and z3.is_expr(y):
                if not x.eq(y):
                    return False
            else:
                return False
    return True


def same(a, b):
    """structural identity of values"""
    if a is b:
        return True
    if is_c(a) and is_c(b):
        return type(a) == type(b) and a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, StructVal) and isinstance(b, StructVal):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return all(a.lf[k].eq(b.lf[k]) for k in a.lf)
    if isinstance(a, CArr) and isinstance(b, CArr):
        return len(a.el) == len(b.el) and all(same(x, y) for x, y in zip(a.el, b.el))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv.root != b.lv.root or not path_eq(a.lv.path, b.lv.path):
            return False
        if a.idx is None or b.idx is None:
            return a.idx is b.idx
        return same(a.idx, b.idx)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.ty == b.ty
    return False


def merge_val(c, a, b):
    if a is b or same(a, b):
        return a
    if isinstance(a, StructVal) and isinstance(b, StructVal):
        return StructVal(a.ty, {k: merge_val(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, Arr) and isinstance(b, Arr):
        return Arr(a.ety, a.size, {k: ite(c, a.lf[k], b.lf[k]) for k in a.lf})
    if isinstance(a, CArr) and isinstance(b, CArr) and len(a.el) == len(b.el):
        return CArr(a.ety, [merge_val(c, x, y) for x, y in zip(a.el, b.el)])
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv.root == b.lv.root and path_eq(a.lv.path, b.lv.path) and a.idx is not None and b.idx is not None:
            return Ptr(a.lv, ite(c, a.idx, b.idx))
        raise Unsupported('merging pointers into different objects')
    if a is None or b is None:
        return a if b is None else b
    if (is_c(a) or z3.is_expr(a)) and (is_c(b) or z3.is_expr(b)):
        return ite(c, a, b)
    raise Unsupported('cannot merge %r and %r' % (type(a), type(b)))


class State:
    __slots__ = ('store', 'pc', 'ghost')

    def __init__(self, store=None, pc=None, ghost=None):
        self.store = store if store is not None else {}
        self.pc = pc if pc is not None else []
        self.ghost = ghost if ghost is not None else {}

    def copy(self):
        return State(dict(self.store), list(self.pc), dict(self.ghost))

    def assume(self, *cs):
        for c in cs:
            if c is True:
                continue
            self.pc.append(Z(c))


def merge_states(sts):
    """sts: list of (state, extra value) -> (state, value)"""
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    # fold from the last: later paths are the 'else' branches
    cur, cv = sts[-1]
    for st, v in reversed(sts[:-1]):
        L = 0
        m = min(len(st.pc), len(cur.pc))
        while L < m and (st.pc[L] is cur.pc[L] or st.pc[L].eq(cur.pc[L])):
            L += 1
        r1, r2 = st.pc[L:], cur.pc[L:]
        pre = st.pc[:L]
        if not r1 and not r2:
            sel = None
        if r1 and r2 and Not(r1[0]).eq(r2[0]):
            sel = r1[0]
            extra = [z3.Implies(sel, x) for x in r1[1:]] + [z3.Implies(r2[0], x) for x in r2[1:]]
        else:
            sel = And(*r1) if r1 else True
            if sel is True:
                sel = Not(And(*r2)) if r2 else True
            o = Or(And(*r1), And(*r2))
            extra = [] if isinstance(o, bool) else [o]
        n = State({}, pre + extra, {})
        for k in st.store:
            if k in cur.store:
                n.store[k] = merge_val(sel, st.store[k], cur.store[k])
        for k in st.ghost:
            if k in cur.ghost:
                n.ghost[k] = merge_val(sel, st.ghost[k], cur.ghost[k])
        cv = merge_val(sel, v, cv) if not (v is None and cv is None) else None
        cur = n
    return cur, cv
