"""Loop verification: closed forms, ghost fold functions, array summaries, template invariants (Houdini)."""
import os, time
import z3
from fractions import Fraction
from .vals import *

DEBUG = bool(os.environ.get('DSPV_HOUDINI'))


def flatten(st):
    out = {}

    def go(key, v):
        if is_c(v) or z3.is_expr(v):
            out[key] = v
        elif isinstance(v, StructVal):
            for f, x in v.f.items():
                go(key + (f,), x)
        elif isinstance(v, CArr):
            for i, x in enumerate(v.el):
                go(key + (('i', i),), x)
        elif isinstance(v, Arr):
            for p, a in v.lf.items():
                out[key + (('leaf', p),)] = a
        elif isinstance(v, Ptr):
            if v.idx is not None:
                out[key + ('#idx',)] = v.idx
            out[key + ('#ptr',)] = ('ptr', v.lv.root, v.lv.path, v.idx is None)
    for r, v in st.store.items():
        go((r,), v)
    for g, v in st.ghost.items():
        go(('$ghost', g), v)
    return out


def put(st, key, val):
    def go(v, path):
        if not path:
            return val
        p = path[0]
        if p == '#idx':
            return Ptr(v.lv, val)
        if isinstance(p, tuple) and p[0] == 'leaf':
            lf = dict(v.lf)
            lf[p[1]] = val
            return Arr(v.ety, v.size, lf)
        if isinstance(p, tuple) and p[0] == 'i':
            el = list(v.el)
            el[p[1]] = go(el[p[1]], path[1:])
            return CArr(v.ety, el)
        return v.set(p, go(v.f[p], path[1:]))
    if key[0] == '$ghost':
        st.ghost[key[1]] = go(st.ghost[key[1]], key[2:])
    else:
        st.store[key[0]] = go(st.store[key[0]], key[1:])


def get(st, key):
    v = st.ghost[key[1]] if key[0] == '$ghost' else st.store[key[0]]
    for p in (key[2:] if key[0] == '$ghost' else key[1:]):
        if p == '#idx':
            v = v.idx
        elif isinstance(p, tuple) and p[0] == 'leaf':
            v = v.lf[p[1]]
        elif isinstance(p, tuple) and p[0] == 'i':
            v = v.el[p[1]]
        else:
            v = v.f[p]
    return v


def FA(vs, body, patterns=None):
    """quantifier; the pattern is dropped where the solver does not accept it"""
    if patterns:
        bad = False
        for p in patterns:
            st = [p]
            while st:
                x = st.pop()
                if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE):
                    bad = True
                st.extend(x.children())
        if not bad:
            return z3.ForAll(vs, body, patterns=patterns)
    return z3.ForAll(vs, body)


def consts(e, out=None):
    """0-ary uninterpreted symbols of e: dict name -> expr"""
    if out is None:
        out = {}
    if not z3.is_expr(e):
        return out
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            stack.extend(x.children())
    return out


def subst(e, pairs):
    if not z3.is_expr(e):
        return e
    return z3.substitute(e, *[(a, Z(b, a.sort())) for a, b in pairs])


def short(key):
    return '.'.join(x if isinstance(x, str) else ('[%s]' % (x[1],) if x[0] == 'i' else '.'.join(x[1])) for x in key).split('!')[0].lstrip('@') + ''.join(
        '.' + x for x in key[1:] if isinstance(x, str))


def int_equalities(c):
    out, stack = [], [c]
    while stack:
        x = stack.pop()
        if z3.is_eq(x) and z3.is_int(x.arg(0)):
            out.append((x.arg(0), x.arg(1)))
        elif z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            stack.extend(x.children())
    return out


class SumFn:
    """S(k, p..) = sum_{i<k} g(i, p..)  as ghost recursive function, cached by its summand"""


def sum_fn(eng, g, k, params=()):
    """g: z3 Real/Int term over symbol k (Int).  Returns function n -> term for sum_{i<n} g(i)."""
    ph = z3.Int('#i')
    body = z3.simplify(z3.substitute(Z(g), (k, ph)), som=True, sort_sums=True) if z3.is_expr(g) else Z(g)
    ps = list(params)
    cs = consts(body)
    # parameters: symbols of enclosing loop heads
    for n, c in sorted(cs.items()):
        if n in eng.loopsyms and not any(c.eq(p) for p in ps):
            ps.append(c)
    phs = [z3.Const('#p%d' % i, p.sort()) for i, p in enumerate(ps)]
    body = z3.substitute(body, *zip(ps, phs)) if ps else body
    key = (body.sexpr(), tuple(p.sort().sexpr() for p in ps))
    if key not in eng.sums:
        name = fresh_name('SUM')
        F = z3.Function(name, z3.IntSort(), *[p.sort() for p in phs], body.sort())

        def unfold(a):
            t = a.arg(0)
            args = [a.arg(i) for i in range(1, a.num_args())]
            prev = z3.simplify(t - 1)
            b = z3.substitute(body, (ph, prev), *zip(phs, args))
            zero = Z(Fraction(0)) if body.sort() == z3.RealSort() else z3.IntVal(0)
            return [z3.Implies(t <= 0, a == zero), z3.Implies(t > 0, a == F(prev, *args) + b)]
        eng.defs[name] = unfold
        eng.sums[key] = (F, body, ph, phs)
        eng.sum_info[name] = (F, body, ph, phs)
    F = eng.sums[key][0]
    return lambda n: F(Z(n), *ps)


def has_nonlinear(f):
    seen, stack = set(), [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_mul(x) and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in x.children()) > 1 or z3.is_div(x) and not z3.is_rational_value(x.arg(1)):
            return True
        stack.extend(x.children())
    return False


class LoopVerifier:
    def __init__(self, eng, st, fr, cond, body, inc, node):
        self.e, self.st0, self.fr = eng, st, fr
        self.cond, self.body, self.inc, self.node = cond, body, inc, node
        self.line = (node.get('range', {}).get('begin', {}) or {}).get('line') if node else None

    # one pass; returns (cond value, state after cond, Out, merged end state)
    def once(self, head):
        s = head.copy()
        c = self.cond(s) if self.cond is not None else True
        ex = None
        if c is True:
            b = s
        elif c is False:
            return c, s, None, None
        else:
            b, ex = self.e.fork(s, c)
        o = self.body(b)
        m = merge_states([(x, None) for x in ([o.n] if o.n is not None else []) + o.cont])
        end = m[0] if m else None
        if end is not None and self.inc is not None:
            self.inc(end)
        return c, ex, o, end

    def silent_once(self, head, scan=False):
        e = self.e
        e.silent += 1
        if scan:
            e.modscan += 1
        try:
            return self.once(head)
        finally:
            e.silent -= 1
            if scan:
                e.modscan -= 1

    def leaf_type(self, key):
        """C++ type of a scalar leaf if known"""
        e = self.e
        ty = e.types.get(key[0])
        for p in key[1:]:
            if ty is None:
                return None
            if isinstance(p, tuple) and p[0] == 'i':
                ty = ty[1] if ty[0] == 'arr' else None
            elif p == '#idx' or (isinstance(p, tuple) and p[0] == 'leaf'):
                return None
            else:
                if ty[0] != 'rec':
                    return None
                r = e.tu.record(ty[1])
                nt = None
                rs = [r] if r else []
                while rs:
                    q = rs.pop()
                    for fd in q.fields:
                        if fd['name'] == p:
                            nt = e.field_type(q, fd)
                    rs += [x for x in (e.tu.record(b) for b in q.bases) if x]
                ty = nt
        return ty

    def find_mods(self):
        e = self.e
        L0 = flatten(self.st0)
        mods = {}
        while True:
            head = self.st0.copy()
            for k, sym in mods.items():
                put(head, k, sym)
                t = self.leaf_type(k)
                if t and t[0] == 'int':
                    head.assume(e.range_ok(sym, t))
            c, ex, o, end = self.silent_once(head, scan=True)
            if end is None:
                return L0, mods
            LH, LE = flatten(head), flatten(end)
            new = False
            for k, v in LH.items():
                if k not in LE:
                    if k[-1] in ('#idx', '#ptr') or k[0] not in end.store:
                        raise Unsupported('loop changes the shape of %s' % (k,))
                    raise Unsupported('loop changes the shape of %s' % (k,))
                w = LE[k]
                if k[-1] == '#ptr':
                    if v != w and not (v[1] == w[1] and path_eq(v[2], w[2])):
                        raise Unsupported('loop retargets a pointer')
                    continue
                if not same(v, w) and k not in mods:
                    mods[k] = z3.Const(fresh_name('h_' + short(k)), sort_of(v))
                    new = True
            if not new:
                return L0, mods

    def run(self):
        e = self.e
        e.approx = True
        L0, mods = self.find_mods()
        k = z3.Int(fresh_name('k'))
        syms0 = {}
        if e.modscan:
            head = self.st0.copy()
            for key, sym in mods.items():
                put(head, key, sym)
            return self.finish_scan(head)
        st0 = self.st0
        saved = set(e.loopsyms)
        try:
            return self.full(L0, mods, k)
        finally:
            e.loopsyms = saved

    def finish_scan(self, head):
        from .sx import Out
        c, ex, o, end = self.once(head)
        out = Out(None)
        if o is not None:
            out.ret, out.brk, out.go = o.ret, o.brk, o.go
        if ex is not None:
            out.n = ex
        return out

    def head_state(self, vals, k, inv=()):
        e = self.e
        head = self.st0.copy()
        head.assume(k >= 0)
        for key, v in vals.items():
            put(head, key, v)
            t = self.leaf_type(key)
            if t and t[0] == 'int' and z3.is_expr(v):
                head.assume(e.range_ok(v, t))
        for f in inv:
            head.assume(f(head, k))
        return head

    def full(self, L0, mods, k):
        e = self.e
        st0 = self.st0
        e.loopsyms.add(k.decl().name())
        for s in mods.values():
            e.loopsyms.add(s.decl().name())
        vals = dict(mods)                 # key -> head value
        closed = set()
        pre_syms = {}
        for key, v in L0.items():
            if z3.is_expr(v):
                consts(v, pre_syms)
        for c in st0.pc:
            consts(c, pre_syms)
        for c in e.params.values():
            if z3.is_expr(c):
                consts(c, pre_syms)
        kname = k.decl().name()

        def openmods():
            return {mods[q].decl().name(): q for q in mods if q not in closed}

        def allowed(ex, extra=()):
            om = openmods()
            for n in consts(ex):
                if n in om and n not in extra:
                    return False
                if n not in pre_syms and n != kname and n not in extra and n not in e.global_syms:
                    return False
            return True

        # closed forms
        for rnd in range(4):
            changed = False
            head = self.head_state(vals, k)
            c, ex, o, end = self.silent_once(head)
            if end is None:
                break
            for key in list(mods):
                if key in closed or z3.is_array(mods[key]):
                    continue
                h = vals[key]
                w = get(end, key)
                if z3.is_bool(h):
                    continue
                v0 = L0[key]
                wz = Z(w, h.sort())
                d = simp(wz - h)
                if (is_c(d) or (allowed(d) and kname not in consts(d))) and (not z3.is_real(h) or is_c(d) or True):
                    if z3.is_int(h) or is_c(d) or allowed(d):
                        dd = Z(d, h.sort())
                        kk = k if z3.is_int(h) else z3.ToReal(k)
                        vals[key] = simp(Z(v0, h.sort()) + kk * dd) if z3.is_int(h) else Z(v0, h.sort()) + kk * dd
                        closed.add(key)
                        changed = True
            if changed:
                continue
            # last-written value (does not depend on itself)
            for key in list(mods):
                if key in closed or z3.is_array(mods[key]):
                    continue
                w = get(end, key)
                if not z3.is_expr(w) or allowed(w):
                    prev = subst(w, [(k, k - 1)]) if z3.is_expr(w) else w
                    v0 = L0[key]
                    uninit = z3.is_expr(v0) and z3.is_const(v0)
                    vals[key] = ite(k == 0, v0, prev)
                    vals[key] = Z(vals[key], mods[key].sort())
                    closed.add(key)
                    changed = True
            if not changed:
                break
        if e.independent:
            r = self.independent(vals, mods, k, L0, closed)
            if r is not None:
                return r
        # fold functions
        head = self.head_state(vals, k)
        c, ex, o, end = self.silent_once(head)
        if end is not None and e.fold_defs:
            cand = [q for q in mods if q not in closed and not z3.is_array(mods[q])]
            if getattr(e, 'fold_arrays', False):
                # elements not yet written still have their initial values (checked by the step obligation)
                arrs = [(mods[q], L0[q]) for q in mods if isinstance(q[-1], tuple) and q[-1][0] == 'leaf']
                for q in cand:
                    put(end, q, subst(Z(get(end, q), mods[q].sort()), arrs))
            while True:
                names = [mods[q].decl().name() for q in cand]
                bad = [q for q in cand if not allowed(Z(get(end, q), mods[q].sort()), names)]
                if not bad:
                    break
                cand = [q for q in cand if q not in bad]
            if cand:
                self.define_folds(cand, mods, vals, L0, end, k, closed)
        # array summaries
        head = self.head_state(vals, k)
        c, ex, o, end = self.silent_once(head)
        cands = []
        if c is not True and c is not False:
            if e.auto_inv and allowed(c):
                cands.append(('condition held in the previous iteration', lambda st, kk, c=c: z3.Implies(kk >= 1, z3.substitute(c, (k, kk - 1)))))
                for x, y in int_equalities(c):
                    cands.append(('side of the exit equality', lambda st, kk, x=x, y=y: z3.substitute(x >= y, (k, kk))))
                    cands.append(('side of the exit equality', lambda st, kk, x=x, y=y: z3.substitute(x <= y, (k, kk))))
                j = z3.Int(fresh_name('j'))
                if 'select' in c.sexpr():
                    cands.append(('condition held in all previous iterations', lambda st, kk, c=c: FA([j], z3.Implies(z3.And(j >= 0, j < kk), z3.substitute(c, (k, j))))))
        if end is not None:
            cands += self.array_cands(mods, vals, L0, end, k, allowed, closed)
            if e.auto_int:
                cands += self.int_cands(mods, vals, L0, closed)
        self.k, self.mods, self.vals, self.L0, self.closed = k, mods, vals, L0, closed
        self.end = end
        for t in e.templates:
            cands += t(self)
        kept = self.houdini(cands, vals, k)
        return self.final(kept, vals, mods, k, L0)

    def independent(self, vals, mods, k, L0, closed):
        """loop whose iterations write pairwise disjoint elements and read, of what is written, only the
        elements the same iteration writes: every element ends with the value its iteration gives it,
        computed from the initial contents; None if the loop is not of this form"""
        from .sx import Out
        e = self.e
        arrs = [q for q in mods if isinstance(q[-1], tuple) and q[-1][0] == 'leaf']
        if not arrs or any(q not in closed for q in mods if q not in arrs):
            return None
        hints = []
        if e.loop_hints is not None:
            hints = e.loop_hints(self, k)

        def head():
            h = self.head_state(vals, k)
            return h
        h0 = head()
        c, ex, o, end = self.silent_once(h0)
        if end is None or not z3.is_expr(c) or o.brk or o.ret or o.go:
            return None
        ws, guard, later = {}, {}, []
        for q in arrs:
            w = self.writes(get(end, q), mods[q])
            if w is None:
                return None
            fin = {}
            for g, i, v in w:
                d = simp(z3.substitute(Z(i), (k, k + 1)) - Z(i))
                if e.independent == 'guarded' and len(w) == 1:
                    d = z3.simplify(Z(d), som=True)
                    if z3.is_expr(d) and k.decl().name() in consts(d):
                        return None
                    guard[q] = Z(g), Z(d)
                elif g is not True or not is_c(d) or d == 0:
                    return None
                i = z3.simplify(Z(i), som=True)
                fin[i.sexpr()] = (i, Z(v))
            ws[q] = list(fin.values())
        # values in terms of what is known before the loop; counters of inner loops by their final values
        known = {k.decl().name()} | {mods[q].decl().name() for q in arrs}
        for x in list(L0.values()) + list(self.st0.pc) + list(e.params.values()):
            if z3.is_expr(x):
                known |= set(consts(x))
        known |= set(e.global_syms)
        loc = {}
        for q in arrs:
            for x in [v for _, v in ws[q]] + [i for i, _ in ws[q]] + ([guard[q][0]] if q in guard else []):
                loc.update({n: u for n, u in consts(x).items() if n not in known})
        rep = []
        for n, u in loc.items():
            cands, todo = [], list(end.pc)
            while todo and z3.is_int(u):
                a = todo.pop()
                if not z3.is_app(a) or u.decl().name() not in consts(a):
                    continue
                if a.num_args() == 2 and z3.is_int(a.arg(0)):
                    cands += [t for t in a.children() if not (set(consts(t)) - known)]
                elif z3.is_bool(a):
                    todo.extend(a.children())
            pc = list(end.pc) + [g for g, _ in guard.values()]
            c1 = [t for t in cands if self.valid(pc, u == t)]
            if not c1:
                return None
            s1 = end.copy()
            s1.pc = pc
            later.append((s1, u == c1[0]))
            rep.append((u, c1[0]))
        if rep:
            for q in arrs:
                ws[q] = [(z3.substitute(i, *rep), z3.substitute(v, *rep)) for i, v in ws[q]]
                if q in guard:
                    guard[q] = (z3.substitute(guard[q][0], *rep), guard[q][1])
        syms = {mods[q].decl().name(): q for q in arrs}

        def reads(t):
            out, todo, seen = [], [t], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_select(x):
                    b = x.arg(0)
                    if z3.is_const(b) and b.decl().name() in syms:
                        out.append((syms[b.decl().name()], x.arg(1)))
                        todo.append(x.arg(1))
                        continue
                if z3.is_const(x) and x.decl().name() in syms:
                    return None
                todo.extend(x.children())
            return out
        if any(reads(g) != [] for g, _ in guard.values()):
            return None
        for q in arrs:
            for i, v in ws[q]:
                rs = reads(v)
                if rs is None:
                    return None
                for p, t in rs:
                    if q in guard or not any(z3.is_true(z3.simplify(Z(t) == w, som=True)) or simp(Z(t) - w) == 0 for w, _ in ws[p]):
                        return None
        # discharge: closed forms, safety of the body, disjointness
        nm = 'loop@%s' % (self.line or '?')
        for s1, g in later:
            e.oblige('%s: final value of an inner counter' % nm, s1, g, 'loop-step')
        zero = z3.IntVal(0)
        st0 = self.st0
        for key, v in vals.items():
            if v is not mods[key]:
                e.oblige('%s: closed form of %s on entry' % (nm, short(key)), st0, cmp('==', subst(v, [(k, zero)]) if z3.is_expr(v) else v, L0[key]), 'loop-entry')
        h1 = head()
        for g in hints:
            hs = h1.copy()
            hs.assume(c)
            e.oblige('%s: lemma about the iteration' % nm, hs, g, 'lemma')
            h1.assume(z3.Implies(c, g))
        c, ex, o, end = self.once(h1)
        for key, v in vals.items():
            if v is not mods[key]:
                e.oblige('%s: closed form of %s preserved' % (nm, short(key)), end, cmp('==', subst(v, [(k, k + 1)]) if z3.is_expr(v) else v, get(end, key)), 'loop-step')
        self.termination(nm, h1, c, end, mods)
        k2 = z3.Int(fresh_name('k'))
        s = st0.copy()
        s.assume(k >= 0, c, k2 >= 0, z3.substitute(c, (k, k2)))
        done = set()
        for q in guard:
            i = ws[q][0][0]
            e.oblige('%s: iterations write disjoint elements' % nm, s, z3.Implies(k != k2, i != z3.substitute(i, (k, k2))), 'loop-step')
        for q in arrs:
            ix = [i for i, _ in ws[q]]
            for a in range(len(ix)):
                for b in range(a):
                    g = ix[a] != z3.substitute(ix[b], (k, k2))
                    if e.independent == 'alias':
                        # one iteration may write an element twice if it is with the same value
                        s2 = s.copy()
                        s2.assume(ix[a] == ix[b])
                        e.oblige('%s: element written twice gets one value' % nm, s2, ws[q][a][1] == ws[q][b][1], 'loop-step')
                        g = z3.Implies(k != k2, g)
                    if g.sexpr() not in done:
                        done.add(g.sexpr())
                        e.oblige('%s: iterations write disjoint elements' % nm, s, g, 'loop-step')
        K = z3.Int(fresh_name('k'))
        fin = st0.copy()
        fin.assume(K >= 0, z3.Not(z3.substitute(c, (k, K))), z3.Implies(K >= 1, z3.substitute(c, (k, K - 1))))
        for key, v in vals.items():
            if key not in arrs:
                put(fin, key, subst(v, [(k, K)]) if z3.is_expr(v) else v)
        it = z3.Int(fresh_name('it'))
        j = z3.Int(fresh_name('j'))
        for q in arrs:
            A = z3.Const(fresh_name('f_' + short(q)), mods[q].sort())
            put(fin, q, A)
            for i, v in ws[q]:
                vv = z3.substitute(v, (k, it), *[(mods[x], L0[x]) for x in arrs])
                if q in guard:
                    g = z3.substitute(guard[q][0], (k, it), *[(mods[x], L0[x]) for x in arrs])
                    W = z3.Function(fresh_name('writer'), z3.IntSort(), z3.IntSort())
                    fin.assume(z3.ForAll([it], z3.Implies(z3.And(it >= 0, it < K, g), z3.Select(A, z3.substitute(i, (k, it))) == vv)))
                    fin.assume(z3.ForAll([j], z3.Or(z3.Select(A, j) == z3.Select(L0[q], j),
                                                    z3.And(W(j) >= 0, W(j) < K, z3.substitute(g, (it, W(j))), j == z3.substitute(i, (k, W(j)))))))
                    continue
                fin.assume(z3.ForAll([it], z3.Implies(z3.And(it >= 0, it < K), z3.Select(A, z3.substitute(i, (k, it))) == vv)))
            if q in guard:
                continue
            inside = []
            for i, v in ws[q]:
                a, d = z3.substitute(i, (k, zero)), simp(z3.substitute(i, (k, k + 1)) - i)
                t = j - a if d > 0 else a - j
                m = abs(d)
                inside.append(z3.And(t >= 0, t < K) if m == 1 else z3.And(t >= 0, t % m == 0, t / m < K))
            fin.assume(z3.ForAll([j], z3.Implies(z3.Not(z3.Or(*inside)), z3.Select(A, j) == z3.Select(L0[q], j))))
        e.indep_log.append((K, {q: (get(fin, q), [(i, z3.substitute(v, *[(mods[x], L0[x]) for x in arrs])) for i, v in ws[q]]) for q in arrs}, k, st0))
        e.inv_log.append((nm, ['iterations are independent'], [short(q) for q in closed]))
        out = Out(None)
        out.n = fin
        return out

    def define_folds(self, cand, mods, vals, L0, end, k, closed):
        e = self.e
        # single sums first
        rest = []
        for q in cand:
            h = mods[q]
            w = Z(get(end, q), h.sort())
            if not z3.is_bool(h):
                g = z3.simplify(w - h)
                if not any(mods[x].decl().name() in consts(g) for x in cand):
                    S = sum_fn(e, g, k)
                    vals[q] = Z(L0[q], h.sort()) + S(k)
                    closed.add(q)
                    continue
            rest.append(q)
        if not rest:
            return
        # sums used inside other folds
        sums = [(mods[q], vals[q]) for q in cand if q not in rest]
        body = {q: subst(Z(get(end, q), mods[q].sort()), sums) for q in rest}
        ps = {}
        for q in rest:
            for src in (body[q], Z(L0[q], mods[q].sort())):
                for n, c in consts(src).items():
                    if n in e.loopsyms and n != k.decl().name() and not any(n == mods[x].decl().name() for x in rest):
                        ps[n] = c
        pl = [ps[n] for n in sorted(ps)]
        F = {}
        for q in rest:
            F[q] = z3.Function(fresh_name('FOLD_' + short(q)), z3.IntSort(), *[p.sort() for p in pl], mods[q].sort())
        for q in rest:
            def unfold(a, q=q):
                t = a.arg(0)
                args = [a.arg(i) for i in range(1, a.num_args())]
                prev = z3.simplify(t - 1)
                b = z3.substitute(body[q], (k, prev), *[(mods[x], F[x](prev, *args)) for x in rest], *zip(pl, args))
                b0 = z3.substitute(Z(L0[q], mods[q].sort()), *zip(pl, args)) if pl else Z(L0[q], mods[q].sort())
                return [z3.Implies(t <= 0, a == b0), z3.Implies(t > 0, a == b)]
            e.defs[F[q].name()] = unfold
            e.fold_info[F[q].name()] = (q, F, body, k, mods)
            vals[q] = F[q](k, *pl)
            closed.add(q)

    def writes(self, arr, base):
        """decompose arr as guarded store chain over base -> [(guard, idx, val)] oldest first, or None"""
        if arr.eq(base):
            return []
        if z3.is_app_of(arr, z3.Z3_OP_STORE):
            r = self.writes(arr.arg(0), base)
            return None if r is None else r + [(True, arr.arg(1), arr.arg(2))]
        if z3.is_app_of(arr, z3.Z3_OP_ITE):
            a, b = self.writes(arr.arg(1), base), self.writes(arr.arg(2), base)
            if a is None or b is None:
                return None
            n = 0
            while n < min(len(a), len(b)) and all(x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) for x, y in zip(a[n], b[n])):
                n += 1
            return a[:n] + [(And(arr.arg(0), g), i, v) for g, i, v in a[n:]] + [(And(Not(arr.arg(0)), g), i, v) for g, i, v in b[n:]]
        return None

    def array_cands(self, mods, vals, L0, end, k, allowed, closed):
        e = self.e
        out = []
        keys = [q for q in mods if isinstance(q[-1], tuple) and q[-1][0] == 'leaf']
        info = {}
        for q in keys:
            w = self.writes(get(end, q), mods[q])
            lin = None
            if w is not None:
                lin = []
                for g, i, v in w:
                    c1 = simp(z3.substitute(Z(i), (k, k + 1)) - Z(i))
                    if is_c(c1) and c1 != 0 and allowed(i):
                        lin.append((g, simp(z3.substitute(Z(i), (k, z3.IntVal(0)))), c1, v, i))
                    else:
                        lin = None
                        break
            info[q] = (w, lin)
        arrsyms = {mods[q].decl().name(): q for q in keys}
        for q in keys:
            w, lin = info[q]
            A0 = L0[q]
            rng = A0.sort().range()
            if lin is None:
                # nothing precise: frame by unmodified ranges when indices are allowed as terms
                continue
            j = z3.Int(fresh_name('j'))
            it = z3.Int(fresh_name('it'))

            def written(jj, kk, a, c):
                d = jj - Z(a)
                if c == 1:
                    return z3.And(d >= 0, d < kk)
                if c == -1:
                    return z3.And(-d >= 0, -d < kk)
                if c > 0:
                    return z3.And(d >= 0, d % c == 0, d / c < kk)
                return z3.And(-d >= 0, (-d) % (-c) == 0, (-d) / (-c) < kk)

            def itof(jj, a, c):
                d = jj - Z(a)
                if c == 1:
                    return d
                if c == -1:
                    return -d
                return d / c if c > 0 else (-d) / (-c)
            # frame
            def frame(st, kk, q=q, lin=lin, A0=A0, j=j):
                A = get(st, q)
                return FA([j], z3.Implies(z3.And(*[z3.Not(written(j, kk, a, c)) for g, a, c, v, i in lin]), z3.Select(A, j) == z3.Select(A0, j)), patterns=[z3.Select(A, j)])
            out.append(('frame of %s' % short(q), frame))
            # current-value family, one fact per unguarded write
            for g, a, c, v, i in lin:
                names = list(arrsyms)
                if not allowed(v, names):
                    continue
                if g is not True and not allowed(g, names):
                    continue
                def cur(st, kk, q=q, a=a, c=c, v=v, g=g, it=it, i=i):
                    A = get(st, q)
                    vv = z3.substitute(v, (k, it), *[(mods[x], get(st, x)) for x in keys])
                    ii = z3.substitute(Z(i), (k, it))
                    r = z3.Select(A, ii) == vv
                    if g is not True:
                        r = z3.Implies(z3.substitute(g, (k, it), *[(mods[x], get(st, x)) for x in keys]), r)
                    return FA([it], z3.Implies(z3.And(it >= 0, it < kk), r))
                out.append(('written values of %s (current)' % short(q), cur))
                # same, indexed by element
                if c in (1, -1):
                    def curj(st, kk, q=q, a=a, c=c, v=v, g=g, j=j):
                        A = get(st, q)
                        vv = z3.substitute(v, (k, itof(j, a, c)), *[(mods[x], get(st, x)) for x in keys])
                        r = z3.Select(A, j) == vv
                        if g is not True:
                            r = z3.Implies(z3.substitute(g, (k, itof(j, a, c)), *[(mods[x], get(st, x)) for x in keys]), r)
                        return FA([j], z3.Implies(written(j, kk, a, c), r), patterns=[z3.Select(A, j)])
                    out.append(('written values of %s (current, by element)' % short(q), curj))
            # old-value family
            for g, a, c, v, i in lin:
                if g is not True:
                    continue
                if not allowed(v, list(arrsyms)):
                    continue
                def old(st, kk, q=q, a=a, c=c, v=v, j=j):
                    A = get(st, q)
                    vv = z3.substitute(v, (k, itof(j, a, c)), *[(mods[x], L0[x]) for x in keys])
                    return FA([j], z3.Implies(written(j, kk, a, c), z3.Select(A, j) == vv), patterns=[z3.Select(A, j)])
                out.append(('written values of %s (initial)' % short(q), old))
        return out

    def int_cands(self, mods, vals, L0, closed):
        e = self.e
        out = []
        opn = [q for q in mods if q not in closed and z3.is_int(mods[q])]
        others = []
        for key, v in L0.items():
            if key in mods or key[-1] == '#ptr':
                continue
            if (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and z3.is_int(v)):
                others.append(v)
        for p in e.params.values():
            others.append(p)
        uniq = []
        for v in others:
            if not any(same(v, w) for w in uniq):
                uniq.append(v)
        uniq = uniq[:8]
        for q in opn:
            v0 = L0[q]
            for nm, f in (('>=', lambda a, b: a >= b), ('<=', lambda a, b: a <= b)):
                out.append(('%s %s initial' % (short(q), nm), lambda st, kk, q=q, v0=v0, f=f: f(get(st, q), Z(v0))))
                for u in uniq + [0]:
                    for dlt in (0, 1, -1):
                        out.append(('%s %s bound' % (short(q), nm), lambda st, kk, q=q, u=u, f=f, dlt=dlt: f(get(st, q), Z(u) + dlt)))
        for a in opn:
            for b in [x for x in mods if z3.is_int(mods[x]) and x != a]:
                for dlt in (0, 1, -1):
                    out.append(('order', lambda st, kk, a=a, b=b, dlt=dlt: Z(get(st, a)) <= Z(get(st, b)) + dlt))
                    out.append(('order', lambda st, kk, a=a, b=b, dlt=dlt: Z(get(st, a)) >= Z(get(st, b)) + dlt))
        return out

    def valid(self, pc, goal, ms=None):
        from . import solve
        from .solve import close, has_quant
        g = z3.simplify(Z(goal))
        if z3.is_true(g):
            return True
        fs = list(pc) + [Z(goal)]
        ex = close(fs, self.e.defs)
        fs = list(pc) + ex + [z3.Not(Z(goal))]
        ms = ms or self.e.htimeout
        if has_quant(fs):
            if not has_quant([Z(goal)]):
                s = z3.Solver()
                s.set('timeout', ms // 3)
                s.add(*[f for f in fs if not has_quant([f])])
                if s.check() == z3.unsat:
                    return True
                if 'select' not in Z(goal).sexpr():
                    ms = min(ms, 900)       # plain integer fact: the quantified hypotheses seldom matter
            gr = solve.grounded(fs[:-1], Z(goal)) if has_nonlinear(Z(goal)) else None
            if gr:
                s = z3.Solver()
                s.set('timeout', ms // 3)
                s.add(*gr[0])
                s.add(z3.Not(gr[1]))
                if s.check() == z3.unsat:
                    return True
            for opts in ({}, 'cvc5', {'smt.arith.solver': 2}):
                t0 = time.time()
                if opts == 'cvc5':
                    o, _ = solve.run([solve.CVC5, '--tlimit=%d' % ms], solve.for_cvc5(solve.smt2(fs[:-1], Z(goal))), ms / 1000)
                    if solve.verdict(o) == 'unsat':
                        return True
                    if DEBUG:
                        print('   valid? cvc5', solve.verdict(o), round(time.time() - t0, 2))
                    if solve.verdict(o) == 'unknown' and time.time() - t0 < 0.3:
                        return False        # saturated
                    continue
                s = z3.Solver()
                s.set('timeout', ms // 3)
                s.set('smt.mbqi', False)
                for o, x in opts.items():
                    s.set(o, x)
                s.add(*fs)
                v = s.check()
                if DEBUG:
                    print('   valid?', opts, v, s.reason_unknown() if v == z3.unknown else '', round(time.time() - t0, 2))
                if v == z3.unsat:
                    return True
                if v == z3.sat:
                    return False
                if v == z3.unknown and 'incomplete' in s.reason_unknown() and time.time() - t0 < 0.3:
                    break
            ms = ms // 2
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*fs)
        return s.check() == z3.unsat

    def houdini(self, cands, vals, k):
        zero = z3.IntVal(0)
        kept = []
        seen = set()
        st0 = self.st0
        for nm, f in cands:
            try:
                g = f(st0, zero)
            except (KeyError, AttributeError, z3.Z3Exception):
                continue
            hd = self.head_state(vals, k)
            sx = z3.simplify(Z(f(hd, k))).sexpr()
            if sx in seen or sx == 'true':
                continue
            seen.add(sx)
            if self.valid(st0.pc, g):
                kept.append((nm, f))
            elif DEBUG:
                print('houdini: not initially:', nm)
        while True:
            head = self.head_state(vals, k, [f for _, f in kept])
            c, ex, o, end = self.silent_once(head)
            if end is None:
                return kept
            k1 = k + 1
            nk = []
            # all at once first
            if kept and self.valid(end.pc, z3.And(*[Z(f(end, k1)) for _, f in kept]), 1000):
                return kept
            # z3 models refute many candidates at once
            for nm, f in kept:
                if self.valid(end.pc, f(end, k1)):
                    nk.append((nm, f))
                elif DEBUG:
                    print('houdini: not preserved:', nm)
            if len(nk) == len(kept):
                return kept
            kept = nk
            if not kept:
                return kept

    def final(self, kept, vals, mods, k, L0):
        from .sx import Out
        e = self.e
        st0 = self.st0
        nm = 'loop@%s' % (self.line or '?')
        zero = z3.IntVal(0)
        for key, v in vals.items():
            if v is not mods[key]:
                e.oblige('%s: closed form of %s on entry' % (nm, short(key)), st0, cmp('==', subst(v, [(k, zero)]) if z3.is_expr(v) else v, L0[key]), 'loop-entry')
        for n, f in kept:
            e.oblige('%s: invariant on entry: %s' % (nm, n), st0, f(st0, zero), 'loop-entry')
        head = self.head_state(vals, k, [f for _, f in kept])
        c, ex, o, end = self.once(head)
        if end is not None:
            LH, LE = flatten(head), flatten(end)
            for key, v in LH.items():
                if key[-1] == '#ptr':
                    continue
                if key not in mods and not same(v, LE.get(key)):
                    raise Unsupported('modified set of the loop is incomplete: %s' % (key,))
            for key, v in vals.items():
                if v is not mods[key]:
                    e.oblige('%s: closed form of %s preserved' % (nm, short(key)), end, cmp('==', subst(v, [(k, k + 1)]) if z3.is_expr(v) else v, get(end, key)), 'loop-step')
            for n, f in kept:
                e.oblige('%s: invariant preserved: %s' % (nm, n), end, f(end, k + 1), 'loop-step')
            self.termination(nm, head, c, end, mods)
        e.inv_log.append((nm, [n for n, _ in kept], [short(q) for q in self.closed]))
        out = Out(None)
        if o is not None:
            out.ret, out.brk, out.go = o.ret, o.brk, o.go
        out.n = ex if c is not False else None
        if c is False:
            out.n = self.st0
        if self.cond is None:
            out.n = None
        return out

    def termination(self, nm, head, c, end, mods):
        e = self.e
        if e.silent:
            return
        if c is True or c is None:
            e.term_unproved.append(nm)
            return
        e.silent += 1
        try:
            ce = self.cond(end.copy())
        finally:
            e.silent -= 1

        def atoms(x, out):
            if not z3.is_expr(x):
                return out
            kd = x.decl().kind() if z3.is_app(x) else None
            if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_int(x.arg(0)):
                out.append((kd, x.arg(0), x.arg(1)))
                return out
            if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                for y in x.children():
                    atoms(y, out)
            return out
        ms = []
        a, b = atoms(c, []), atoms(ce, []) if z3.is_expr(ce) else []
        if len(a) == len(b):
            for (k1, x, y), (k2, x2, y2) in zip(a, b):
                if k1 == k2:
                    ms += [(y - x, y2 - x2), (x - y, x2 - y2)]
        for q in mods:
            if z3.is_int(mods[q]):
                ms.append((Z(get(head, q)), Z(get(end, q))))
        pc = list(end.pc)
        for m, m2 in ms:
            if self.valid(pc, z3.And(m >= -1, m2 < m), 500):
                e.oblige('%s: terminates (measure decreases and is bounded)' % nm, end, z3.And(m >= -1, m2 < m), 'termination')
                return
        for m, m2 in ms:
            for n, n2 in ms:
                if m is not n:
                    pass
        e.term_unproved.append(nm)


def int_keys(lv):
    """modified integer scalars of a loop (for variable-agnostic templates)"""
    return [q for q in lv.mods if z3.is_int(lv.mods[q])]


def array_keys(lv):
    return [q for q in lv.mods if isinstance(q[-1], tuple) and q[-1][0] == 'leaf']
