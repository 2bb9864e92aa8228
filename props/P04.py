"""Bip buffer: the exposed window is the last NUM inputs, contiguous and in order."""
from .common import *

M = 'BipBuffer<TYPE,NUM>::'


def setup(ctx):
    N = ctx.size('NUM', 1000003)
    e = elem_engine(ctx, 'namespace DSP { using std::min; }\n#include "bip_buffer.hh"\n' + ELEM + 'template class DSP::BipBuffer<DSP_drv::Elem, %s>;\n' % N)
    return N.v, e, 'BipBuffer<Elem,%s>' % N


class Abs:
    """w(j): j-th exposed element, oldest first"""

    def __init__(self, e, st, o, N):
        self.e, self.N, self.v = e, N, e.read(st, o)
        self.p0, self.p1, self.buf = self.v.f['pos0'], self.v.f['pos1'], self.v.f['buf']
        self.lo = ite(cmp('<', self.p0, self.p1), self.p0, self.p1)

    def inv(self):
        N, p, q = self.N, self.p0, self.p1
        ok = lambda p: And(cmp('>=', p, 0), cmp('<', p, mul(2, N)))
        return And(ok(p), ok(q), Or(cmp('==', q, add(p, N)), cmp('==', p, add(q, N))))

    def w(self, j):
        return self.e.arr_get(self.buf, add(self.lo, j))

    def shadow(self):
        """both halves agree on what is still to be exposed: A[i] == A[i+N] for the lo most recent inputs"""
        i = z3.Int(fresh_name('i'))
        g = self.e.arr_get(self.buf, i) == self.e.arr_get(self.buf, add(i, self.N))
        if isinstance(self.N, int):
            return And(*[Or(cmp('<=', self.lo, k), cmp('==', self.e.arr_get(self.buf, k), self.e.arr_get(self.buf, k + self.N))) for k in range(self.N)])
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.lo), g))


def ctor(ctx):
    N, e, rec = setup(ctx)
    st = ctx.state()
    ctx.cover(st)
    o = ctx.new(e, st, rec)
    a = Abs(e, st, o, N)
    e.oblige('constructor establishes the class invariant', st, a.inv())
    e.oblige('constructor establishes agreement of both halves', st, a.shadow())
    e.oblige('constructor: window is all zeros', st, forall(e, N, lambda j: a.w(j) == elem0(0)))


def check_ptr(e, st, o, r, b):
    if not isinstance(r, Ptr) or r.idx is None or r.lv.root != o.root or r.lv.path != ('buf',):
        raise Unsupported('returned pointer does not point into the buffer')
    e.oblige('returned pointer is the start of the window', st, cmp('==', r.idx, b.lo))
    e.oblige('exposed elements stay inside the storage', st, And(cmp('>=', r.idx, 0), cmp('<=', add(r.idx, b.N), mul(2, b.N))))


def arb(ctx):
    N, e, rec = setup(ctx)
    st = ctx.state()
    o = ctx.obj(e, st, rec)
    a = Abs(e, st, o, N)
    st.assume(a.inv())
    st.assume(a.shadow())
    ctx.cover(st)
    return N, e, rec, st, o, a


def insert(ctx):
    N, e, rec, st, o, a = arb(ctx)
    x = e.fresh('x', EL)
    m = e.tu.method(rec, 'operator()', 1)
    r = ctx.call(e, st, m, o, [x])
    b = Abs(e, st, o, N)
    e.oblige('insertion keeps the class invariant', st, b.inv())
    e.oblige('insertion keeps agreement of both halves', st, b.shadow())
    check_ptr(e, st, o, r, b)
    e.oblige('newest element is the input', st, b.w(sub(N, 1)) == x)
    e.oblige('window shifts by one', st, forall(e, sub(N, 1), lambda j: b.w(j) == a.w(add(j, 1))))


def look(ctx):
    N, e, rec, st, o, a = arb(ctx)
    m = e.tu.method(rec, 'operator()', 0)
    r = ctx.call(e, st, m, o, [])
    check_ptr(e, st, o, r, a)
    e.oblige('looking does not change the buffer', st, same(a.v, e.read(st, o)))


SM = [{'NUM': 1}, {'NUM': 2}, {'NUM': 3}]
UNITS = [Unit('BipBuffer()', ctor, [M + 'BipBuffer'], SM), Unit('operator()(input)', insert, [M + 'operator()(TYPE)'], SM), Unit('operator()()', look, [M + 'operator()()'], SM)]
ASSUME = ['1 <= NUM <= 2^28', 'element type is a copyable value type (opaque)']
NATIVE = 'P04'
