"""Delay line: ghost history, call t returns input t-NUM."""
from .common import *

M = 'Delay<TYPE,NUM>::'


def setup(ctx):
    N = ctx.size('NUM', 1000003)
    e = elem_engine(ctx, '#include "delay.hh"\n' + ELEM + 'template class DSP::Delay<DSP_drv::Elem, %s>;\n' % N)
    return N.v, e, 'Delay<Elem,%s>' % N


class Abs:
    """h(j): the input j+1 calls ago"""

    def __init__(self, e, st, o, N):
        self.e, self.N, self.v = e, N, e.read(st, o)
        self.pos, self.buf = self.v.f['pos'], self.v.f['buf']

    def inv(self):
        return And(cmp('>=', self.pos, 0), cmp('<', self.pos, self.N))

    def h(self, j):
        x = sub(sub(self.pos, 1), j)
        return self.e.arr_get(self.buf, ite(cmp('<', x, 0), add(x, self.N), x))


def ctor(ctx):
    N, e, rec = setup(ctx)
    st = ctx.state()
    ctx.cover(st)
    init = e.fresh('init', EL)
    o = ctx.new(e, st, rec, [init])
    a = Abs(e, st, o, N)
    e.oblige('constructor establishes the class invariant', st, a.inv())
    e.oblige('constructor: every remembered input is the initial value', st, forall(e, N, lambda j: a.h(j) == init))


def step(ctx):
    N, e, rec = setup(ctx)
    st = ctx.state()
    o = ctx.obj(e, st, rec)
    a = Abs(e, st, o, N)
    st.assume(a.inv())
    ctx.cover(st)
    x = e.fresh('x', EL)
    r = ctx.method(e, st, o, rec, 'operator()', [x])
    b = Abs(e, st, o, N)
    e.oblige('call keeps the class invariant', st, b.inv())
    e.oblige('call returns the input from NUM calls ago', st, r == a.h(sub(N, 1)))
    e.oblige('call remembers the input as most recent', st, b.h(0) == x)
    e.oblige('call shifts the remembered inputs by one', st, forall(e, sub(N, 1), lambda j: b.h(add(j, 1)) == a.h(j)))


SM = [{'NUM': 1}, {'NUM': 2}, {'NUM': 3}]
UNITS = [Unit('Delay()', ctor, [M + 'Delay'], SM), Unit('operator()', step, [M + 'operator()'], SM)]
ASSUME = ['1 <= NUM <= 2^28', 'element type is a copyable value type (opaque)']
NATIVE = 'P03'
