"""Stack against the ideal stack."""
from .common import *

M = 'Stack<TYPE,SIZE>::'


def setup(ctx, pre=None, new=False):
    N = ctx.size('SIZE', 1000003)
    e = elem_engine(ctx, '#include "stack.hh"\n' + ELEM + 'template class DSP::Stack<DSP_drv::Elem, %s>;\n' % N)
    rec = 'Stack<Elem,%s>' % N
    st = ctx.state()
    if new:
        ctx.cover(st)
        return N.v, e, rec, st, ctx.new(e, st, rec), None
    o = ctx.obj(e, st, rec)
    a = Abs(e, st, o, N.v)
    st.assume(a.inv())
    if pre:
        st.assume(pre(a))
    ctx.cover(st)
    return N.v, e, rec, st, o, a


class Abs:
    """s(0) oldest .. s(n-1) newest"""

    def __init__(self, e, st, o, N):
        self.e, self.N, self.v = e, N, e.read(st, o)
        self.pos, self.buf = self.v.f['pos'], self.v.f['buf']
        self.n = add(self.pos, 1)

    def inv(self):
        return And(cmp('>=', self.n, 0), cmp('<=', self.n, self.N))

    def s(self, i):
        return self.e.arr_get(self.buf, i)


def ctor(ctx):
    N, e, rec, st, o, _ = setup(ctx, new=True)
    a = Abs(e, st, o, N)
    e.oblige('constructor yields the empty stack', st, cmp('==', a.n, 0))


def clear(ctx):
    N, e, rec, st, o, a = setup(ctx)
    ctx.method(e, st, o, rec, 'clear')
    e.oblige('clear yields the empty stack', st, cmp('==', Abs(e, st, o, N).n, 0))


notfull, nonempty = (lambda a: cmp('<', a.n, a.N)), (lambda a: cmp('>', a.n, 0))
full, empty = (lambda a: cmp('==', a.n, a.N)), (lambda a: cmp('==', a.n, 0))


def push(ctx):
    N, e, rec, st, o, a = setup(ctx, notfull)
    x = e.fresh('x', EL)
    ctx.method(e, st, o, rec, 'push', [x])
    b = Abs(e, st, o, N)
    e.oblige('push keeps the class invariant', st, b.inv())
    e.oblige('push adds one element', st, cmp('==', b.n, add(a.n, 1)))
    e.oblige('push: new element is newest', st, b.s(a.n) == x)
    e.oblige('push keeps the others', st, forall(e, a.n, lambda i: b.s(i) == a.s(i)))


def pop(ctx):
    N, e, rec, st, o, a = setup(ctx, nonempty)
    ctx.method(e, st, o, rec, 'pop')
    b = Abs(e, st, o, N)
    e.oblige('pop keeps the class invariant', st, b.inv())
    e.oblige('pop removes one element', st, cmp('==', b.n, sub(a.n, 1)))
    e.oblige('pop keeps the others', st, forall(e, b.n, lambda i: b.s(i) == a.s(i)))


def peek(name, pos):
    def f(ctx):
        N, e, rec, st, o, a = setup(ctx, nonempty)
        r = ctx.method(e, st, o, rec, name)
        e.oblige('%s returns the right element' % name, st, r == a.s(pos(a)))
        e.oblige('%s does not change the stack' % name, st, same(a.v, e.read(st, o)))
    return f


def query(name, want):
    def f(ctx):
        N, e, rec, st, o, a = setup(ctx)
        r = ctx.method(e, st, o, rec, name)
        e.oblige('%s reports the ideal value' % name, st, cmp('==', r, want(a)))
        e.oblige('%s does not change the stack' % name, st, same(a.v, e.read(st, o)))
    return f


def caught(name, bad, nargs=0):
    def f(ctx):
        N, e, rec, st, o, a = setup(ctx, bad)
        e.assert_must = True
        ctx.method(e, st, o, rec, name, [e.fresh('x', EL)] * nargs)
        e.oblige('misuse of %s is stopped by the assertion' % name, st, False)
    return f


SM = [{'SIZE': 1}, {'SIZE': 2}, {'SIZE': 3}]
UNITS = [Unit('Stack()', ctor, [M + 'Stack'], SM), Unit('clear', clear, [M + 'clear'], SM), Unit('push', push, [M + 'push'], SM),
         Unit('pop', pop, [M + 'pop'], SM), Unit('top', peek('top', lambda a: sub(a.n, 1)), [M + 'top'], SM),
         Unit('first', peek('first', lambda a: 0), [M + 'first'], SM), Unit('size', query('size', lambda a: a.n), [M + 'size'], SM),
         Unit('empty', query('empty', empty), [M + 'empty'], SM), Unit('full', query('full', full), [M + 'full'], SM),
         Unit('max_size', query('max_size', lambda a: a.N), [M + 'max_size'], SM),
         Unit('push when full', caught('push', full, 1), [M + 'push'], SM)] + [
             Unit('%s when empty' % n, caught(n, empty), [M + n], SM) for n in ('pop', 'top', 'first')]
ASSUME = ['1 <= SIZE <= 2^28', 'element type is a copyable value type (opaque)', 'assertions enabled (NDEBUG not defined)']
NATIVE = 'P02'
