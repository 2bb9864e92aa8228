"""Sums computed by loops of the code related to sums of the specification, by induction lemmas."""
from .real import *
from .callee import induct
from .approx import symbols
from dspv.loops import sum_fn

KI = z3.Int('#k')


def spec_sum(e, body):
    """k -> sum of body(i) for i < k"""
    return sum_fn(e, body(KI), KI)


def sum_apps(e, terms):
    """applications of sum functions of the code in the given terms (through the bodies of the functions too)"""
    out, seen, todo = {}, set(), [Z(t) for t in terms]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            n = x.decl().name()
            if n in e.sum_info and x.num_args() == 1:
                out.setdefault(n, x)
                todo.append(Z(e.sum_info[n][1]))
            todo.extend(x.children())
    return out


def indices(t):
    """indices of the array reads in a term"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_select(x):
            out.append(x.arg(1))
        todo.extend(x.children())
    return out


def relate(e, st, N, specs, terms, name='sum computed by the code', at=(), inst=False):
    """specs: list of functions k -> value; code sums that agree with one are identified with it (lemma obligations)"""
    done = {}
    N0 = Z(N)
    for nm, app_ in sorted(sum_apps(e, terms).items()):
        F = e.sum_info[nm][0]
        for si, T in enumerate(specs):
            T, N, inc = (T if isinstance(T, tuple) else (T, N0)) + (() if isinstance(T, tuple) and len(T) == 3 else (None,))      # (function, range it is specified for, its summand)
            P = lambda k: F(k) == T(k)
            if Z(T(KI)).decl().name() == nm and Z(T(KI)).num_args() == 1:
                done[si] = F
                break
            k = e.fresh_int('ind')
            if inst:
                body = z3.substitute(e.sum_info[nm][1], (e.sum_info[nm][2], k))
                ts = {z3.simplify(t).sexpr(): t for t in indices(body)}
                for c in ground(st, list(ts.values())).pc:      # reads the instances lead to
                    if k.decl().name() in symbols(c):
                        ts.update({z3.simplify(t).sexpr(): t for t in indices(c)})
                s = ground(st, list(ts.values()))
                if inc is not None:
                    g = body == inc(k)
                    s.assume(k >= 0, k < N)
                    if not valid(e, s.pc, g, 6000):
                        continue
                    e.oblige('lemma: summand of the %s' % name, s, g, 'lemma')
                    s = s.copy()
                    s.pc = [c for c in st.pc if not z3.is_quantifier(c) and not indices(c)] + [g]
            else:
                s = st.copy()
            if not valid(e, s.pc + [k >= 0, k < N, P(k)], P(k + 1), 4000) or not valid(e, s.pc, P(z3.IntVal(0)), 2000):
                continue
            e.oblige('lemma: %s is the specified one (base)' % name, s, P(z3.IntVal(0)), 'lemma')
            s = s.copy()
            s.assume(k >= 0, k < N, P(k))
            e.oblige('lemma: %s is the specified one (step)' % name, s, P(k + 1), 'lemma')
            for t in (app_.arg(0), N) + tuple(at):
                st.assume(z3.Implies(z3.And(t >= 0, t <= N), P(t)))
            done[si] = F
            break
    return done


def pinduct(e, st, name, N, P, at=(), hyps=None):
    """P(k) for all 0 <= k <= N by induction"""
    N = Z(N)
    k = e.fresh_int('ind')
    s = st.copy()
    if hyps is not None:      # a selection of the facts in st
        s.pc = list(hyps)
    e.oblige('lemma: %s (base)' % name, s, P(z3.IntVal(0)), 'lemma')
    s.assume(k >= 0, k < N, P(k))
    e.oblige('lemma: %s (step)' % name, s, P(k + 1), 'lemma')
    for t in at or (N,):
        st.assume(z3.Implies(z3.And(Z(t) >= 0, Z(t) <= N), Z(P(Z(t)))))
