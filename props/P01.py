"""Deque: ring buffer against the ideal double-ended sequence."""
import z3
from dspv.core import Unit
from dspv.vals import *

TEXT = '#include "deque.hh"\nnamespace DSP_drv { struct Elem { Elem(); Elem(int); }; }\ntemplate class DSP::Deque<DSP_drv::Elem, %s>;\n'
EL = z3.DeclareSort('Elem')


class Abs:
    """abstraction of a concrete state: s(0) is back, s(count-1) is front"""

    def __init__(self, e, st, o, N):
        self.e, self.N = e, N
        self.v = e.read(st, o)
        f = self.v.f
        self.buf, self.head, self.tail, self.count = f['buf'], f['head'], f['tail'], f['count']

    def inv(self):
        N, h, t, c = self.N, self.head, self.tail, self.count
        d = sub(add(h, 1), t)      # number of elements modulo N
        return And(cmp('>=', h, 0), cmp('<', h, N), cmp('>=', t, 0), cmp('<', t, N), cmp('>=', c, 0), cmp('<=', c, N),
                   Or(cmp('==', d, c), cmp('==', add(d, N), c), cmp('==', sub(d, N), c)))

    def s(self, i):
        x = add(self.tail, i)
        w = ite(cmp('>=', x, self.N), sub(x, self.N), x)
        return self.e.arr_get(self.buf, w)


def setup(ctx):
    N = ctx.size('SIZE', 1000003)
    tu = ctx.tu(TEXT % N)
    e = ctx.engine(tu, opaque={'Elem': EL})
    return N, e, 'Deque<Elem,%s>' % N


def arbitrary(ctx, extra=None):
    N, e, rec = setup(ctx)
    st = ctx.state()
    o = ctx.obj(e, st, rec)
    a = Abs(e, st, o, N.v)
    st.assume(a.inv())
    if extra:
        st.assume(extra(a))
    ctx.cover(st)
    return N, e, rec, st, o, a


def ctor(ctx):
    N, e, rec = setup(ctx)
    st = ctx.state()
    ctx.cover(st)
    o = ctx.new(e, st, rec)
    a = Abs(e, st, o, N.v)
    e.oblige('constructor establishes the class invariant', st, a.inv())
    e.oblige('constructor yields the empty sequence', st, cmp('==', a.count, 0))


def clear(ctx):
    N, e, rec, st, o, a = arbitrary(ctx)
    ctx.method(e, st, o, rec, 'clear')
    b = Abs(e, st, o, N.v)
    e.oblige('clear keeps the class invariant', st, b.inv())
    e.oblige('clear yields the empty sequence', st, cmp('==', b.count, 0))


def push(which):
    def f(ctx):
        N, e, rec, st, o, a = arbitrary(ctx, lambda a: cmp('<', a.count, a.N))
        x = e.fresh('x', EL)
        ctx.method(e, st, o, rec, 'push_' + which, [x])
        b = Abs(e, st, o, N.v)
        e.oblige('push_%s keeps the class invariant' % which, st, b.inv())
        e.oblige('push_%s adds one element' % which, st, cmp('==', b.count, add(a.count, 1)))
        i = e.fresh_int('i')
        rng = And(i >= 0, cmp('<', i, a.count))
        if which == 'back':
            e.oblige('push_back: new element is at the back', st, b.s(0) == x)
            e.oblige('push_back keeps the others in order', st, Implies(rng, b.s(i + 1) == a.s(i)))
        else:
            e.oblige('push_front: new element is at the front', st, b.s(a.count) == x)
            e.oblige('push_front keeps the others in order', st, Implies(rng, b.s(i) == a.s(i)))
    return f


def pop(which):
    def f(ctx):
        N, e, rec, st, o, a = arbitrary(ctx, lambda a: cmp('>', a.count, 0))
        ctx.method(e, st, o, rec, 'pop_' + which)
        b = Abs(e, st, o, N.v)
        e.oblige('pop_%s keeps the class invariant' % which, st, b.inv())
        e.oblige('pop_%s removes one element' % which, st, cmp('==', b.count, sub(a.count, 1)))
        i = e.fresh_int('i')
        rng = And(i >= 0, cmp('<', i, b.count))
        e.oblige('pop_%s keeps the others in order' % which, st, Implies(rng, b.s(i) == a.s(i + 1 if which == 'back' else i)))
    return f


def peek(which):
    def f(ctx):
        N, e, rec, st, o, a = arbitrary(ctx, lambda a: cmp('>', a.count, 0))
        r = ctx.method(e, st, o, rec, which)
        e.oblige('%s returns the right element' % which, st, r == (a.s(0) if which == 'back' else a.s(sub(a.count, 1))))
        e.oblige('%s does not change the queue' % which, st, same(a.v, e.read(st, o)))
    return f


def query(name, want):
    def f(ctx):
        N, e, rec, st, o, a = arbitrary(ctx)
        r = ctx.method(e, st, o, rec, name)
        e.oblige('%s reports the ideal value' % name, st, cmp('==', r, want(a)))
        e.oblige('%s does not change the queue' % name, st, same(a.v, e.read(st, o)))
    return f


def caught(name, bad, nargs=0):
    def f(ctx):
        N, e, rec, st, o, a = arbitrary(ctx, bad)
        e.assert_must = True
        ctx.method(e, st, o, rec, name, [e.fresh('x', EL)] * nargs)
        e.oblige('%s on a %s queue is stopped by the assertion' % (name, 'full' if nargs else 'empty'), st, False)
    return f


SM = [{'SIZE': 1}, {'SIZE': 2}, {'SIZE': 3}]
full, empty = (lambda a: cmp('==', a.count, a.N)), (lambda a: cmp('==', a.count, 0))
M = 'Deque<TYPE,SIZE>::'
UNITS = [
    Unit('Deque()', ctor, [M + 'Deque'], SM), Unit('clear', clear, [M + 'clear'], SM),
    Unit('push_back', push('back'), [M + 'push_back'], SM), Unit('push_front', push('front'), [M + 'push_front'], SM),
    Unit('pop_back', pop('back'), [M + 'pop_back'], SM), Unit('pop_front', pop('front'), [M + 'pop_front'], SM),
    Unit('back', peek('back'), [M + 'back'], SM), Unit('front', peek('front'), [M + 'front'], SM),
    Unit('size', query('size', lambda a: a.count), [M + 'size'], SM), Unit('empty', query('empty', empty), [M + 'empty'], SM),
    Unit('full', query('full', full), [M + 'full'], SM), Unit('max_size', query('max_size', lambda a: a.N), [M + 'max_size'], SM),
    Unit('push_back when full', caught('push_back', full, 1), [M + 'push_back'], SM),
    Unit('push_front when full', caught('push_front', full, 1), [M + 'push_front'], SM),
    Unit('pop_back when empty', caught('pop_back', empty), [M + 'pop_back'], SM),
    Unit('pop_front when empty', caught('pop_front', empty), [M + 'pop_front'], SM),
    Unit('back when empty', caught('back', empty), [M + 'back'], SM),
    Unit('front when empty', caught('front', empty), [M + 'front'], SM),
]
ASSUME = ['1 <= SIZE <= 2^28', 'element type is a copyable value type (opaque)', 'assertions enabled (NDEBUG not defined)']
NATIVE = 'P01'
