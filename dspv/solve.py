"""Back ends: every obligation is exported as SMT-LIB and decided by z3-new / cvc5 subprocesses."""
import os, re, subprocess, tempfile, threading, time, signal
from concurrent.futures import ThreadPoolExecutor
import z3

Z3 = 'z3-new'
CVC5 = 'cvc5'
NPROC = int(os.environ.get('DSPV_JOBS', '8'))


def apps(e, seen=None, out=None):
    """all uninterpreted applications (with arguments) in e that have no bound variables"""
    if out is None:
        out, seen = [], set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    return out


def has_var(e):
    return memo('var', e, _var)


def _var(e):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def close(forms, defs, rounds=2):
    """instantiate the definitions of recursive ghost functions at the ground terms that occur"""
    extra = []
    done = set()
    seen = set()
    todo = list(forms)
    for r in range(rounds):
        out = []
        for f in todo:
            apps(f, seen, out)
        new = []
        for a in out:
            n = a.decl().name()
            if n in defs and not has_var(a):
                if a.get_id() in done:
                    continue
                done.add(a.get_id())
                new += [x for x in defs[n](a) if x is not None]
        if not new:
            break
        extra += new
        todo = new
    return extra


_memo = {}


def memo(kind, f, fun):
    """fun(f), remembered; the formula is kept so that its id stays its own"""
    k = kind, f.get_id()
    r = _memo.get(k)
    if r is None:
        if len(_memo) > 50000:
            _memo.clear()
        r = _memo[k] = f, fun(f)
    return r[1]


def _quant(f):
    seen = set()
    stack = [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def has_quant(fs):
    return any(memo('quant', f, _quant) for f in fs)


def smt2(hyps, goal):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    return s.to_smt2()


def int_terms(f, cap=12):
    return memo('terms%d' % cap, f, lambda f: _terms(f, cap))


def _terms(f, cap):
    """integer index terms of the ground selections and applications in f"""
    out, seen, stack = [], set(), [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_UNINTERPRETED and x.num_args():
                for a in x.children():
                    if z3.is_int(a) and not has_var(a) and not any(a.eq(b) for b in out):
                        out.append(a)
            stack.extend(x.children())
    return out[:cap]


def skolem(g, n=[0]):
    """goal with its positive universal quantifiers replaced by fresh constants"""
    if z3.is_quantifier(g) and g.is_forall():
        cs = []
        for i in range(g.num_vars()):
            n[0] += 1
            cs.append(z3.Const('sk#%d' % n[0], g.var_sort(i)))
        return skolem(z3.substitute_vars(g.body(), *reversed(cs)))
    if z3.is_and(g):
        return z3.And(*[skolem(c) for c in g.children()])
    if z3.is_implies(g):
        return z3.Implies(g.arg(0), skolem(g.arg(1)))
    return g


def universal(h, pre=()):
    """h as guarded universal formulas over one integer: (guards, body) or (guards, None) with a ground formula"""
    if z3.is_and(h):
        for c in h.children():
            yield from universal(c, pre)
    elif z3.is_implies(h) and has_quant([h]) and not has_quant([h.arg(0)]):
        yield from universal(h.arg(1), pre + (h.arg(0),))
    elif z3.is_quantifier(h):
        if h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == z3.IntSort() and not has_quant([h.body()]):
            yield pre, h.body(), True
    elif not has_quant([h]):
        yield pre, h, False


def grounded(hyps, goal):
    """quantifier-free weakening (hypotheses, goal): universal hypotheses only at the index terms of the goal"""
    goal = skolem(goal)
    if has_quant([goal]):
        return None
    ts = int_terms(goal)
    if not ts:
        return None
    us = [u for h in hyps for u in memo('universal', h, lambda h: list(universal(h)))]
    imp = lambda pre, b: z3.Implies(z3.And(*pre), b) if pre else b
    for r in range(2):
        out = []
        for pre, b, isq in us:
            out += [imp(pre, z3.simplify(z3.substitute_vars(b, t))) for t in ts] if isq else [imp(pre, b)]
        more = []
        for f in out:
            for t in int_terms(f):
                if not any(t.eq(b) for b in ts + more):
                    more.append(t)
        if not more or r or len(ts) + len(more) > 12:
            break
        ts = ts + more
    return out, goal


def for_cvc5(t):
    t = re.sub(r'^; .*$', '', t, flags=re.M)
    t = t.replace('(set-info :status unknown)', '')
    return '(set-logic ALL)\n' + t


def run(cmd, text, tmo):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        name = f.name
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd + [name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=tmo + 5)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            o = 'timeout'
    finally:
        os.unlink(name)
    return o, time.time() - t0


def verdict(o):
    for l in o.splitlines():
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'):
            return l
    return 'error:' + o[:200]


def decide(text, tmo, want_model=False, cross=False, ground=None):
    """-> (result, backend, time, model text)"""
    tot = 0.0
    q = 'forall' in text or 'exists' in text
    nl = True
    first = min(3.0, tmo)
    T = lambda x: '-T:%d' % max(1, int(x))
    tries = []
    weak = [ground]
    if q:
        tries.append(('z3', [Z3, T(first), 'smt.mbqi=false'], text, first))
        if ground:
            tries.append(('z3', [Z3, T(first)], ground, first))
        tries.append(('z3', [Z3, T(first), 'smt.mbqi=false', 'smt.qi.eager_threshold=3'], text, first))
        tries.append(('z3', [Z3, T(first), 'smt.mbqi=false', 'smt.arith.solver=2'], text, first))
    tries.append(('z3', [Z3, T(first), 'model.completion=true'], text, first))
    tries.append(('cvc5', [CVC5, '--tlimit=%d' % int(tmo * 1000)], for_cvc5(text), tmo))
    if q:
        tries.append(('cvc5', [CVC5, '--full-saturate-quant', '--tlimit=%d' % int(tmo * 1000)], for_cvc5(text), tmo))
        tries.append(('z3', [Z3, T(tmo), 'smt.mbqi=false'], text, tmo))
    if q and ground:
        tries.append(('z3', [Z3, T(tmo), 'smt.random_seed=7'], ground, tmo))
        weak.append(for_cvc5(ground))
        tries.append(('cvc5', [CVC5, '--tlimit=%d' % int(tmo * 1000)], weak[1], tmo))
    tries.append(('z3', [Z3, T(tmo)], text, tmo))
    last = 'unknown'
    best = None
    for name, cmd, t, to in tries:
        tt = t
        if want_model:
            tt = t.replace('(check-sat)', '(check-sat)\n(get-model)') if name == 'z3' else t
        o, dt = run(cmd, tt, to)
        tot += dt
        v = verdict(o)
        if v == 'unsat':
            return 'unsat', name, tot, None
        if v == 'sat' and q and ('smt.mbqi=false' in cmd or any(t is w for w in weak)):
            continue
        if v == 'sat':
            m = o if want_model else None
            if want_model and name != 'z3':
                m = None
            return 'sat', name, tot, m
        last = v
    return 'unknown', 'none:' + last[:60], tot, None


def discharge(eng_obls, defs, timeout=10.0, jobs=None, models=True):
    """decide all undecided obligations in parallel"""
    work = []
    for o in eng_obls:
        if o.result is not None:
            continue
        fs = list(o.hyps) + [o.goal]
        ex = close(fs, defs)
        work.append((o, smt2(list(o.hyps) + ex, o.goal), ex))
    cache = {}

    def one(w):
        o, t, g = w
        r, b, dt, m = decide(t, timeout, want_model=models, ground=g)
        o.result, o.backend, o.time, o.model = r, b, dt, m

    # identical obligations are decided once
    uniq = {}
    exs = {}
    for o, t, ex in work:
        uniq.setdefault(t, []).append(o)
        exs[t] = ex
    items = []
    for t, os_ in uniq.items():
        g = grounded(list(os_[0].hyps) + exs[t], os_[0].goal) if 'forall' in t else None
        items.append((os_[0], t, g and smt2(*g)))
    if items:
        with ThreadPoolExecutor(jobs or NPROC) as ex:
            list(ex.map(one, items))
    for t, os_ in uniq.items():
        for o in os_[1:]:
            o.result, o.backend, o.time, o.model = os_[0].result, os_[0].backend, 0.0, os_[0].model
    return eng_obls


def vacuous(obls, defs, tmo=2):
    """names of the obligations all of whose hypotheses are contradictory"""
    groups = {}
    for o in obls:
        if not (z3.is_expr(o.goal) and z3.is_false(z3.simplify(o.goal))):
            groups.setdefault(re.sub(r'\d+', '#', o.name), []).append(o)
    known, lock = {}, threading.Lock()

    def text(o):
        return smt2(list(o.hyps) + close(list(o.hyps), defs), z3.BoolVal(False))

    def one(item):
        name, texts = item
        for t in texts:
            with lock:
                v = known.get(t)
            if v is None:
                o, _ = run([Z3, '-T:%d' % tmo] + (['smt.mbqi=false'] if 'forall' in t else []), t, tmo)
                v = verdict(o) == 'unsat'
                with lock:
                    known[t] = v
            if not v:
                return None
        return name
    # z3 terms are touched by this thread only
    items = [(n, [text(os_[0])]) for n, os_ in groups.items()]
    with ThreadPoolExecutor(NPROC) as ex:
        sus = [n for n in ex.map(one, items) if n]
    out = []
    for n in sus:
        rest = [text(o) for o in groups[n][1:40]]
        if one((n, rest)):
            out.append(n)
    return out

