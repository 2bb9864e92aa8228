"""Sliding window accelerator: implicit heap of partial combinations."""
from .common import *
from dspv.loops import int_keys, array_keys, get, FA

M = 'SWA<TYPE,OP,NUM>::'
f = z3.Function('op', EL, EL, EL)


def comm():
    a, b = z3.Consts('ca cb', EL)
    return z3.ForAll([a, b], f(a, b) == f(b, a), patterns=[f(a, b)])


def setup(ctx):
    N = ctx.size('NUM', 1000003)
    e = elem_engine(ctx, '#include "swa.hh"\n' + ELEM + 'namespace DSP_drv { struct Op { Elem operator()(Elem a, Elem b); }; }\n'
                    'template class DSP::SWA<DSP_drv::Elem, DSP_drv::Op, %s>;\n' % N)
    e.contracts['Op::operator()'] = lambda e, st, fr, obj, v: f(v[0], v[1])
    return N.v, e, 'SWA<Elem,Op,%s>' % N


class Abs:
    def __init__(self, e, st, o, N):
        self.e, self.N, self.v = e, N, e.read(st, o)
        self.tree, self.leaf = self.v.f['tree'], self.v.f['leaf']

    def t(self, i):
        return self.e.arr_get(self.tree, i)

    def inv(self):
        return And(cmp('>=', self.leaf, self.N), cmp('<', self.leaf, mul(2, self.N)))

    def heap(self):
        if isinstance(self.N, int):
            return And(*[self.t(p) == f(self.t(2 * p), self.t(2 * p + 1)) for p in range(1, self.N)])
        p = z3.Int(fresh_name('p'))
        return FA([p], z3.Implies(z3.And(p >= 1, p < self.N), self.t(p) == f(self.t(2 * p), self.t(2 * p + 1))), patterns=[self.t(p)])

    def h(self, j):
        """input j+1 calls ago"""
        x = sub(sub(self.leaf, 1), j)
        return self.t(ite(cmp('<', x, self.N), add(x, self.N), x))


def ctor(ctx):
    N, e, rec = setup(ctx)
    st = ctx.state()
    ident = e.fresh('ident', EL)
    st.assume(f(ident, ident) == ident)
    ctx.cover(st)
    o = ctx.new(e, st, rec, [ident])
    a = Abs(e, st, o, N)
    e.oblige('constructor establishes the position invariant', st, a.inv())
    e.oblige('constructor establishes the heap invariant', st, a.heap())
    e.oblige('constructor: remembered inputs are the identity', st, forall(e, N, lambda j: a.h(j) == ident))


def templates(N):
    def T(lv):
        out = []
        ks = int_keys(lv)
        for q in ks:
            g = lambda st, q=q: Z(get(st, q))
            out.append(('position below 2*NUM', lambda st, k, g=g: z3.And(g(st) >= 0, g(st) < 2 * N)))
            out.append(('position at least 1', lambda st, k, g=g: g(st) >= 1))
            for r in ks:
                if r != q:
                    out.append(('half of', lambda st, k, g=g, r=r: g(st) == Z(get(st, r)) / 2))
            for ak in array_keys(lv):
                p = z3.Int(fresh_name('p'))

                def heap(st, k, g=g, ak=ak, p=p):
                    A = get(st, ak)
                    return FA([p], z3.Implies(z3.And(p >= 1, p < N, p != g(st)), A[p] == f(A[2 * p], A[2 * p + 1])), patterns=[A[p]])
                out.append(('heap property except at the current node', heap))
        for ak in array_keys(lv):
            j = z3.Int(fresh_name('j'))
            out.append(('leaves unchanged', lambda st, k, ak=ak, j=j: FA([j], z3.Implies(j >= N, get(st, ak)[j] == lv.L0[ak][j]), patterns=[get(st, ak)[j]])))
        return out
    return T


def step(ctx):
    N, e, rec = setup(ctx)
    st = ctx.state()
    o = ctx.obj(e, st, rec)
    a = Abs(e, st, o, N)
    st.assume(comm(), a.inv(), a.heap())
    ctx.cover(st)
    e.templates.append(templates(N))
    x = e.fresh('x', EL)
    r = ctx.method(e, st, o, rec, 'operator()', [x])
    b = Abs(e, st, o, N)
    e.oblige('call keeps the position invariant', st, b.inv())
    e.oblige('call keeps the heap invariant', st, b.heap())
    e.oblige('call returns the root', st, r == b.t(1))
    e.oblige('call replaces the oldest leaf by the input', st, b.h(0) == x)
    e.oblige('call keeps the other remembered inputs', st, forall(e, sub(N, 1), lambda j: b.h(add(j, 1)) == a.h(j)))


def lemma(ctx):
    """heap invariant => root is the combination of all leaves"""
    N, e, rec = setup(ctx)
    st = ctx.state()
    T = z3.Const('tree', z3.ArraySort(z3.IntSort(), EL))
    G = z3.Function('fold', z3.IntSort(), z3.IntSort(), EL)
    lo, hi, m = z3.Ints('lo hi m')

    def dfn(l, h):     # G(l,h) for h>l
        return [z3.Implies(h == l + 1, G(l, h) == T[l]), z3.Implies(h > l + 1, G(l, h) == f(G(l, h - 1), T[h - 1]))]
    left = lambda l, h: G(l, h) == f(T[l], G(l + 1, h))

    def assoc(a, b, c):
        return f(f(a, b), c) == f(a, f(b, c))

    def cm(a, b):
        return f(a, b) == f(b, a)
    s = st.copy()
    s.assume(*dfn(lo, lo + 2), *dfn(lo, lo + 1), *dfn(lo + 1, lo + 2))
    e.oblige('lemma: fold unfolds from the left (base)', s, left(lo, lo + 2), 'lemma')
    s = st.copy()
    s.assume(hi >= lo + 2, left(lo, hi), *dfn(lo, hi + 1), *dfn(lo + 1, hi + 1), assoc(T[lo], G(lo + 1, hi), T[hi]))
    ctx.cover(s)
    e.oblige('lemma: fold unfolds from the left (step)', s, left(lo, hi + 1), 'lemma')
    s = st.copy()
    s.assume(m >= 1, T[m] == f(T[2 * m], T[2 * m + 1]))
    A, B, C = G(m + 1, 2 * m), T[2 * m], T[2 * m + 1]
    s.assume(z3.Implies(m >= 2, left(m, 2 * m)), *dfn(m, 2 * m), *dfn(m + 1, 2 * m + 2), *dfn(m + 1, 2 * m + 1))
    s.assume(assoc(A, B, C), cm(T[m], A))
    ctx.cover(s)
    e.oblige('lemma: level m folds to the same value as level m+1', s, G(m, 2 * m) == G(m + 1, 2 * m + 2), 'lemma')
    s = st.copy()
    s.assume(*dfn(z3.IntVal(1), z3.IntVal(2)))
    e.oblige('lemma: level 1 is the root', s, G(1, 2) == T[1], 'lemma')


SM = [{'NUM': 1}, {'NUM': 2}, {'NUM': 3}, {'NUM': 5}]
UNITS = [Unit('SWA()', ctor, [M + 'SWA'], SM), Unit('operator()', step, [M + 'operator()'], SM, bound=6),
         Unit('root is the fold of the leaves', lemma, [])]
ASSUME = ['1 <= NUM <= 2^28', 'op is associative and commutative, ident is its identity', 'element type is a copyable value type (opaque)',
          'induction over levels 1..NUM and over fold length is applied to the discharged base and step lemmas']
NATIVE = 'P05'
