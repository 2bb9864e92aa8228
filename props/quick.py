"""Contracts of quick.hh (sorting, selecting) over opaque elements.

Elements are opaque identities with a key; the code can only compare, copy and store them.  Ghost array P:
P[x] = position where identity x was written last.  "Permutation of [l,h]" is:  P[A[m]] = m for every m in
[l,h] (hence no identity twice) and every A[m] had its old position in [l,h] (hence only old elements).
"""
from .common import *
from dspv.loops import int_keys, get, FA

AR = z3.ArraySort(z3.IntSort(), z3.IntSort())
key = z3.Function('key', z3.IntSort(), z3.RealSort())
TEXT = ('#include "quick.hh"\nnamespace DSP_drv { struct Elem { Elem(); }; bool operator<(Elem, Elem); bool operator>(Elem, Elem); }\n'
        'template void DSP::quick_sort<DSP_drv::Elem>(DSP_drv::Elem *, int);\n'
        'template DSP_drv::Elem DSP::quick_select<DSP_drv::Elem>(DSP_drv::Elem *, int, int);\n')


class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.tu = ctx.tu(TEXT)
        e = self.e = ctx.engine(self.tu, opaque={'Elem': z3.IntSort()})
        for o, c in (('<', '<'), ('>', '>'), ('<=', '<='), ('>=', '>='), ('==', '=='), ('!=', '!=')):
            e.opaque_ops[('Elem', 'operator' + o)] = lambda a, b, c=c: cmp(c, key(Z(a)), key(Z(b)))
        self.st = ctx.state()
        self.n = z3.Int('n')
        self.st.assume(self.n >= 0, self.n <= 1 << 28)
        self.A0 = z3.Const('A0', AR)
        self.P0 = z3.Const('P0', AR)
        self.a = e.alloc(self.st, 'array', Arr(('rec', 'Elem'), self.n, {(): self.A0}), None)
        self.st.ghost['P'] = Arr(('int', 64, True), None, {(): self.P0})

        def hook(st, lv, val):
            if lv.root == self.a.root and len(lv.path) == 1 and 'P' in st.ghost:
                p = st.ghost['P'].lf[()]
                st.ghost['P'] = Arr(('int', 64, True), None, {(): z3.Store(p, Z(val), Z(lv.path[0][1]))})
        e.hook_store = hook

    def fn(self, name):
        for q, fs in self.tu.functions.items():
            base = q.split('<')[0]
            if base in (name, 'QUICK::' + name, 'DSP::QUICK::' + name, 'DSP::' + name):
                for f in fs:
                    if self.tu.body(f) is not None and 'Elem' in (f.get('type') or {}).get('qualType', ''):
                        return f
        from dspv.front import FrontError
        raise FrontError('function %s not found' % name)

    def A(self, st):
        return st.store[self.a.root].lf[()]

    def P(self, st):
        return st.ghost['P'].lf[()]

    def ptr(self):
        return Ptr(self.a, 0)

    def put(self, st, A, P):
        st.store[self.a.root] = Arr(('rec', 'Elem'), self.n, {(): A})
        st.ghost['P'] = Arr(('int', 64, True), None, {(): P})


def q1(f, pat=None):
    m = z3.Int(fresh_name('m'))
    return FA([m], f(m), patterns=[pat(m)] if pat else None)


def q2(f, pat=None):
    m, j = z3.Int(fresh_name('m')), z3.Int(fresh_name('j'))
    return FA([m, j], f(m, j), patterns=[z3.MultiPattern(*pat(m, j))] if pat else None)


def placed(A, P, l, h, m):
    return z3.Implies(z3.And(m >= l, m <= h), P[A[m]] == m)


def from_range(A, A0, P0, l, h, m):
    return z3.Implies(z3.And(m >= l, m <= h), z3.And(P0[A[m]] >= l, P0[A[m]] <= h, A0[P0[A[m]]] == A[m]))


def frame(A, A0, l, h, m):
    return z3.Implies(z3.Or(m < l, m > h), A[m] == A0[m])


def others(P, A0, P0, l, h, x):
    """ghost positions of elements that are not from the range are untouched"""
    return z3.Implies(z3.Or(P0[x] < l, P0[x] > h, A0[P0[x]] != x), P[x] == P0[x])


def sorted_at(A, l, h, m, j):
    return z3.Implies(z3.And(m >= l, m <= j, j <= h), key(A[m]) <= key(A[j]))


def perm(A, P, A0, P0, l, h):
    """for assuming"""
    return [q1(lambda m: placed(A, P, l, h, m), lambda m: A[m]), q1(lambda m: from_range(A, A0, P0, l, h, m), lambda m: A[m]),
            q1(lambda m: frame(A, A0, l, h, m), lambda m: A[m]), q1(lambda x: others(P, A0, P0, l, h, x), lambda x: P[x])]


def perm_goals(e, st, what, A, P, A0, P0, l, h):
    m = e.fresh_int('m')
    e.oblige(what + ': no element twice', st, placed(A, P, l, h, m))
    e.oblige(what + ': only elements of the range', st, from_range(A, A0, P0, l, h, m))
    e.oblige(what + ': nothing outside the range touched', st, frame(A, A0, l, h, m))
    e.oblige(what + ': other elements keep their position', st, others(P, A0, P0, l, h, m))


def contract_insertion(E):
    def f(e, st, fr, obj, v):
        p, l, h = v
        l, h = Z(l), Z(h)
        A, P = E.A(st), E.P(st)
        m = e.fresh_int('m')
        e.oblige('insertion called on its array with a valid range', st, And(p.lv.root == E.a.root, cmp('==', p.idx, 0), l >= 0, h < E.n, l <= h), 'pre')
        e.oblige('insertion called with distinct elements', st, placed(A, P, l, h, m), 'pre')
        A1, P1 = e.fresh('A', AR), e.fresh('P', AR)
        st.assume(*perm(A1, P1, A, P, l, h))
        st.assume(q2(lambda m, j: sorted_at(A1, l, h, m, j), lambda m, j: (A1[m], A1[j])))
        E.put(st, A1, P1)
    return f


def contract_median(E):
    def f(e, st, fr, obj, v):
        p, ix = v[0], [Z(x) for x in v[1:]]
        l, h = ix[0], ix[-1]
        A, P = E.A(st), E.P(st)
        m = e.fresh_int('m')
        e.oblige('median called with five increasing positions of its array', st, And(p.lv.root == E.a.root, cmp('==', p.idx, 0), l >= 0, h < E.n, *[a < b for a, b in zip(ix, ix[1:])]), 'pre')
        e.oblige('median called with distinct elements', st, placed(A, P, l, h, m), 'pre')
        A1, P1 = e.fresh('A', AR), e.fresh('P', AR)
        st.assume(*perm(A1, P1, A, P, l, h))
        E.put(st, A1, P1)
    return f


def u_median(ctx):
    E = Env(ctx)
    e, st = E.e, E.st
    ix = z3.Ints('ia ib ic id ie')
    st.assume(ix[0] >= 0, ix[-1] < E.n, *[a < b for a, b in zip(ix, ix[1:])])
    start(E, ix[0], ix[-1])
    for x in ix:
        st.assume(placed(E.A0, E.P0, ix[0], ix[-1], x))
    ctx.cover(st)
    ctx.call(e, st, E.fn('median'), None, [E.ptr()] + list(ix))
    A = E.A(st)
    perm_goals(e, st, 'median', A, E.P(st), E.A0, E.P0, ix[0], ix[-1])


def band(A, l, h, lt, gt, pv, m):
    return z3.Implies(z3.And(m >= l, m <= h), z3.And(z3.Implies(m < lt, key(A[m]) < pv), z3.Implies(z3.And(m >= lt, m <= gt), key(A[m]) == pv), z3.Implies(m > gt, key(A[m]) > pv)))


def contract_partition(E):
    def f(e, st, fr, obj, v):
        p, lr, hr = v
        l, h = Z(e.read(st, lr)), Z(e.read(st, hr))
        A, P = E.A(st), E.P(st)
        m = e.fresh_int('m')
        e.oblige('partition called on its array with at least 33 elements', st, And(p.lv.root == E.a.root, cmp('==', p.idx, 0), l >= 0, h < E.n, h - l >= 32), 'pre')
        e.oblige('partition called with distinct elements', st, placed(A, P, l, h, m), 'pre')
        A1, P1, lt, gt, pv = e.fresh('A', AR), e.fresh('P', AR), e.fresh_int('lt'), e.fresh_int('gt'), e.fresh_real('pv')
        st.assume(*perm(A1, P1, A, P, l, h))
        st.assume(l <= lt, lt <= gt, gt <= h, q1(lambda m: band(A1, l, h, lt, gt, pv, m), lambda m: A1[m]))
        E.put(st, A1, P1)
        e.write(st, lr, lt)
        e.write(st, hr, gt)
    return f


def contract_sort(E, l0, h0):
    def f(e, st, fr, obj, v):
        p, l, h = v
        l, h = Z(l), Z(h)
        A, P = E.A(st), E.P(st)
        m = e.fresh_int('m')
        e.oblige('recursive call on its array with a valid range', st, And(p.lv.root == E.a.root, cmp('==', p.idx, 0), z3.Implies(l <= h, z3.And(l >= 0, h < E.n))), 'pre')
        e.oblige('recursive call with distinct elements', st, placed(A, P, l, h, m), 'pre')
        if l0 is not None:
            e.oblige('recursion terminates (range shrinks)', st, And(h - l < h0 - l0, h0 - l0 >= 0), 'termination')
        A1, P1 = e.fresh('A', AR), e.fresh('P', AR)
        st.assume(*perm(A1, P1, A, P, l, h))
        st.assume(q2(lambda m, j: sorted_at(A1, l, h, m, j), lambda m, j: (A1[m], A1[j])))
        E.put(st, A1, P1)
    return f


def kth(A, l, h, k, m):
    return z3.And(z3.Implies(z3.And(m >= l, m < k), key(A[m]) <= key(A[k])), z3.Implies(z3.And(m > k, m <= h), key(A[k]) <= key(A[m])))


def contract_select(E):
    def f(e, st, fr, obj, v):
        p, l, h, k = v
        l, h, k = Z(l), Z(h), Z(k)
        A, P = E.A(st), E.P(st)
        m = e.fresh_int('m')
        e.oblige('select called on its array with a valid range', st, And(p.lv.root == E.a.root, cmp('==', p.idx, 0), l >= 0, h < E.n, l <= k, k <= h), 'pre')
        e.oblige('select called with distinct elements', st, placed(A, P, l, h, m), 'pre')
        A1, P1 = e.fresh('A', AR), e.fresh('P', AR)
        st.assume(*perm(A1, P1, A, P, l, h))
        st.assume(q1(lambda m: kth(A1, l, h, k, m), lambda m: A1[m]))
        E.put(st, A1, P1)
    return f


def start(E, l, h):
    """arbitrary array with distinct identities in [l,h]"""
    E.st.assume(q1(lambda m: placed(E.A0, E.P0, l, h, m), lambda m: E.A0[m]))


def elems(lv, E):
    """element-typed locals that the loop does not change"""
    out = []
    for k, v in lv.L0.items():
        t = lv.e.types.get(k[0])
        if len(k) == 1 and t == ('rec', 'Elem') and k not in lv.mods:
            out.append(v)
    return out


def common_templates(E, L, H):
    def T(lv):
        out = []
        m = z3.Int(fresh_name('m'))
        A, P = (lambda st: E.A(st)), (lambda st: E.P(st))
        out.append(('no element twice', lambda st, k: FA([m], placed(A(st), P(st), L, H, m), patterns=[A(st)[m]])))
        out.append(('only elements of the range', lambda st, k: FA([m], from_range(A(st), E.A0, E.P0, L, H, m), patterns=[A(st)[m]])))
        out.append(('nothing outside the range touched', lambda st, k: FA([m], frame(A(st), E.A0, L, H, m), patterns=[A(st)[m]])))
        out.append(('other elements keep their position', lambda st, k: FA([m], others(P(st), E.A0, E.P0, L, H, m), patterns=[P(st)[m]])))
        return out
    return T


def partition_templates(E, L, H):
    import itertools

    def T(lv):
        out = []
        m = z3.Int(fresh_name('m'))
        ks = int_keys(lv)
        pvs = elems(lv, E)
        for a, b in itertools.permutations(ks, 2):
            g = lambda st, q: Z(get(st, q))
            out.append(('order', lambda st, k, a=a, b=b: g(st, a) <= g(st, b)))
            out.append(('order', lambda st, k, a=a, b=b: g(st, a) <= g(st, b) + 1))
        for a in ks:
            g = lambda st, q: Z(get(st, q))
            out.append(('bound', lambda st, k, a=a: g(st, a) >= L))
            out.append(('bound', lambda st, k, a=a: g(st, a) <= H))
            out.append(('bound', lambda st, k, a=a: g(st, a) <= H + 1))
            out.append(('bound', lambda st, k, a=a: g(st, a) >= L - 1))
            for pv in pvs:
                out.append(('less before', lambda st, k, a=a, pv=pv: FA([m], z3.Implies(z3.And(m >= L, m < g(st, a)), key(E.A(st)[m]) < key(pv)), patterns=[E.A(st)[m]])))
                out.append(('greater after', lambda st, k, a=a, pv=pv: FA([m], z3.Implies(z3.And(m > g(st, a), m <= H), key(E.A(st)[m]) > key(pv)), patterns=[E.A(st)[m]])))
                out.append(('pivot element above', lambda st, k, a=a, pv=pv: E.P(st)[pv] >= g(st, a)))
                out.append(('pivot element below', lambda st, k, a=a, pv=pv: E.P(st)[pv] <= g(st, a)))
        for pv in pvs:
            out.append(('pivot element present', lambda st, k, pv=pv: z3.And(E.A(st)[E.P(st)[pv]] == pv, E.P(st)[pv] >= L, E.P(st)[pv] <= H)))
        for a, b in itertools.permutations(ks, 2):
            for pv in pvs:
                g = lambda st, q: Z(get(st, q))
                out.append(('equal between', lambda st, k, a=a, b=b, pv=pv: FA([m], z3.Implies(z3.And(m >= g(st, a), m < g(st, b)), key(E.A(st)[m]) == key(pv)), patterns=[E.A(st)[m]])))
        return out
    return T


def insertion_templates(E, L, H):
    base = common_templates(E, L, H)

    def T(lv):
        out = []
        m, j = z3.Int(fresh_name('m')), z3.Int(fresh_name('j'))
        A = E.A
        ts = elems(lv, E)
        g = lambda st, q: Z(get(st, q))
        if ts:      # shifting loop
            for q in int_keys(lv):
                q0 = Z(lv.L0[q])
                if E.a.root not in [x[0] for x in lv.mods]:
                    continue
                B = E.A(lv.st0)
                B2 = E.P(lv.st0)
                out.append(('hole position', lambda st, k, q=q, q0=q0: z3.And(g(st, q) >= L, g(st, q) <= q0)))
                out.append(('shifted', lambda st, k, q=q, q0=q0: FA([m], A(st)[m] == z3.If(z3.And(m > g(st, q), m <= q0), B[m - 1], B[m]), patterns=[A(st)[m]])))
                out.append(('shifted positions', lambda st, k, q=q, q0=q0: FA([m], z3.Implies(z3.And(m >= L, m <= H, m != g(st, q)), E.P(st)[A(st)[m]] == m), patterns=[A(st)[m]])))
                out.append(('other elements keep their position', lambda st, k: FA([m], others(E.P(st), E.A0, E.P0, L, H, m), patterns=[E.P(st)[m]])))
                for t in ts:
                    out.append(('shifted elements are greater', lambda st, k, q=q, q0=q0, t=t: FA([m], z3.Implies(z3.And(m > g(st, q), m <= q0), key(t) < key(A(st)[m])), patterns=[A(st)[m]])))
        else:
            out += base(lv)
            for q in int_keys(lv):
                out.append(('prefix sorted', lambda st, k, q=q: FA([m, j], sorted_at(A(st), L, g(st, q) - 1, m, j), patterns=[z3.MultiPattern(A(st)[m], A(st)[j])])))
                out.append(('rest untouched', lambda st, k, q=q: FA([m], z3.Implies(m >= g(st, q), A(st)[m] == E.A0[m]), patterns=[A(st)[m]])))
                out.append(('bound', lambda st, k, q=q: z3.And(g(st, q) >= L, g(st, q) <= H + 1)))
        return out
    return T


def select_templates(E, L, H, K):
    base = common_templates(E, L, H)

    def T(lv):
        out = base(lv)
        m, j = z3.Int(fresh_name('m')), z3.Int(fresh_name('j'))
        A = E.A
        g = lambda st, q: Z(get(st, q))
        for q in int_keys(lv):
            out.append(('at most k', lambda st, k, q=q: z3.And(g(st, q) >= L, g(st, q) <= K)))
            out.append(('at least k', lambda st, k, q=q: z3.And(g(st, q) >= K, g(st, q) <= H)))
            out.append(('everything below is not greater', lambda st, k, q=q: FA([m, j], z3.Implies(z3.And(m >= L, m < g(st, q), j >= g(st, q), j <= H), key(A(st)[m]) <= key(A(st)[j])), patterns=[z3.MultiPattern(A(st)[m], A(st)[j])])))
            out.append(('everything above is not smaller', lambda st, k, q=q: FA([m, j], z3.Implies(z3.And(m >= L, m <= g(st, q), j > g(st, q), j <= H), key(A(st)[m]) <= key(A(st)[j])), patterns=[z3.MultiPattern(A(st)[m], A(st)[j])])))
        return out
    return T


def u_insertion(ctx):
    E = Env(ctx)
    e, st = E.e, E.st
    l, h = z3.Ints('l h')
    st.assume(l >= 0, h < E.n, l <= h)
    start(E, l, h)
    ctx.cover(st)
    e.auto_int = False
    e.templates.append(insertion_templates(E, l, h))
    ctx.call(e, st, E.fn('insertion'), None, [E.ptr(), l, h])
    m, j = e.fresh_int('m'), e.fresh_int('j')
    e.oblige('insertion: range sorted', st, sorted_at(E.A(st), l, h, m, j))
    perm_goals(e, st, 'insertion', E.A(st), E.P(st), E.A0, E.P0, l, h)


def u_partition(ctx):
    E = Env(ctx)
    e, st = E.e, E.st
    l, h = z3.Ints('l h')
    st.assume(l >= 0, h < E.n, h - l >= 32)
    start(E, l, h)
    ctx.cover(st)
    e.htimeout = 5000

    def T(lv):
        return common_templates(E, l, h)(lv) + partition_templates(E, l, h)(lv)
    e.templates.append(T)
    e.auto_int = False
    e.contracts['QUICK::median'] = e.contracts['median'] = contract_median(E)
    lr, hr = e.alloc(st, 'lref', l, None, ('int', 32, True)), e.alloc(st, 'href', h, None, ('int', 32, True))
    ctx.call(e, st, E.fn('partition'), None, [E.ptr(), lr, hr])
    lt, gt = Z(e.read(st, lr)), Z(e.read(st, hr))
    m = e.fresh_int('m')
    A, P = E.A(st), E.P(st)
    e.oblige('partition: band is inside the range and not empty', st, And(l <= lt, lt <= gt, gt <= h))
    pv = key(A[lt])
    for nm, c in (('before the band less', z3.Implies(z3.And(m >= l, m < lt), key(A[m]) < pv)), ('band equal', z3.Implies(z3.And(m >= lt, m <= gt), key(A[m]) == pv)),
                  ('after the band greater', z3.Implies(z3.And(m > gt, m <= h), key(A[m]) > pv))):
        e.oblige('partition: ' + nm, st, c)
    perm_goals(e, st, 'partition', A, P, E.A0, E.P0, l, h)


def u_sort(ctx):
    E = Env(ctx)
    e, st = E.e, E.st
    l, h = z3.Ints('l h')
    st.assume(l >= 0, h < E.n, h >= l - 1)
    start(E, l, h)
    ctx.cover(st)
    e.contracts.update({'QUICK::insertion': contract_insertion(E), 'QUICK::partition': contract_partition(E), 'insertion': contract_insertion(E), 'partition': contract_partition(E)})
    e.contracts['QUICK::sort'] = e.contracts['sort'] = contract_sort(E, l, h)
    ctx.call(e, st, E.fn('sort'), None, [E.ptr(), l, h])
    m, j = e.fresh_int('m'), e.fresh_int('j')
    e.oblige('sort: range sorted', st, sorted_at(E.A(st), l, h, m, j))
    perm_goals(e, st, 'sort', E.A(st), E.P(st), E.A0, E.P0, l, h)


def u_quick_sort(ctx):
    E = Env(ctx)
    e, st = E.e, E.st
    l, h = z3.IntVal(0), E.n - 1
    start(E, l, h)
    ctx.cover(st)
    e.contracts['QUICK::sort'] = e.contracts['sort'] = contract_sort(E, None, None)
    ctx.call(e, st, E.fn('quick_sort'), None, [E.ptr(), E.n])
    m, j = e.fresh_int('m'), e.fresh_int('j')
    e.oblige('quick_sort: array sorted', st, sorted_at(E.A(st), l, h, m, j))
    perm_goals(e, st, 'quick_sort', E.A(st), E.P(st), E.A0, E.P0, l, h)


def u_select(ctx):
    E = Env(ctx)
    e, st = E.e, E.st
    l, h, k = z3.Ints('l h k')
    st.assume(l >= 0, h < E.n, l <= k, k <= h)
    start(E, l, h)
    ctx.cover(st)
    e.htimeout = 5000
    e.contracts.update({'QUICK::insertion': contract_insertion(E), 'QUICK::partition': contract_partition(E), 'insertion': contract_insertion(E), 'partition': contract_partition(E)})
    e.auto_int = False
    e.templates.append(select_templates(E, l, h, k))
    ctx.call(e, st, E.fn('select'), None, [E.ptr(), l, h, k])
    m = e.fresh_int('m')
    e.oblige('select: nothing before position k is greater, nothing after it smaller', st, kth(E.A(st), l, h, k, m))
    perm_goals(e, st, 'select', E.A(st), E.P(st), E.A0, E.P0, l, h)


def u_quick_select(ctx):
    E = Env(ctx)
    e, st = E.e, E.st
    k = z3.Int('k')
    l, h = z3.IntVal(0), E.n - 1
    st.assume(E.n >= 1, k >= 0, k < E.n)
    start(E, l, h)
    ctx.cover(st)
    e.assert_must = True
    e.contracts['QUICK::select'] = e.contracts['select'] = contract_select(E)
    r = ctx.call(e, st, E.fn('quick_select'), None, [E.ptr(), k, E.n])
    r = e.read(st, r) if isinstance(r, LV) else r
    m = e.fresh_int('m')
    A = E.A(st)
    e.oblige('quick_select: returns the element at position k', st, Z(r) == A[k])
    e.oblige('quick_select: nothing before position k is greater, nothing after it smaller', st, kth(A, l, h, k, m))
    perm_goals(e, st, 'quick_select', A, E.P(st), E.A0, E.P0, l, h)
