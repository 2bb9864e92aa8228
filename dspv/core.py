"""Units (function contracts), discharge, triage, native stand-in, evidence and verdict."""
import hashlib, json, os, re, subprocess, sys, tempfile, time, traceback, importlib, shutil
import z3
from fractions import Fraction
from .vals import *
from . import solve
from .front import TU, FrontError, REPO, parse_type
from .sx import Engine, Frame, Obl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_tus = {}
PRE = '#include <cassert>\n#include <cmath>\n#include <limits>\n#include <functional>\n#include <algorithm>\n#include <cstdint>\n'


class Size:
    def __init__(self, lit, v):
        self.lit, self.v = lit, v

    def __str__(self):
        return str(self.lit)


class Ctx:
    """one run of a unit; sizes: None = symbolic, dict = concrete instantiation"""

    def __init__(self, unit, sizes=None, bound=None, timeout=10.0):
        self.unit, self.sizes, self.bound = unit, sizes, bound
        self.params = {}
        self.hyps = []
        self.covers = []
        self.eng = None
        self.timeout = timeout
        self.engines = []

    def size(self, name, pec, lo=1, hi=1 << 28, extra=None):
        if self.sizes is not None and name in self.sizes:
            return Size(self.sizes[name], self.sizes[name])
        v = z3.Int(name)
        self.params[pec] = v
        self.hyps += [v >= lo, v <= hi]
        if extra is not None:
            self.hyps.append(extra(v))
        return Size(pec, v)

    def tu(self, text, extra=()):
        t = PRE + text
        key = (t, tuple(extra))
        if key not in _tus:
            _tus[key] = TU(t, extra)
        return _tus[key]

    def engine(self, tu, **kw):
        e = Engine(tu, params=dict(self.params), unit=self.unit.name, **kw)
        e.bound = self.bound
        if self.sizes is not None and self.bound is None:
            e.bound = None
        self.eng = e
        self.engines.append(e)
        for p in self.params.values():
            e.global_syms.add(p.decl().name())
        return e

    def state(self):
        st = State()
        st.pc = list(self.hyps)
        return st

    def cover(self, st, name='precondition satisfiable'):
        self.covers.append((name, list(st.pc)))

    def obj(self, e, st, rec, name='obj'):
        """an arbitrary object of the given class"""
        r = e.tu.record(rec)
        if r is None:
            raise FrontError('record %s not found' % rec)
        v = e.fresh_val(('rec', r.name), name, st)
        return e.alloc(st, name, v, None, ('rec', r.name))

    def new(self, e, st, rec, args=(), nparams=None, pred=None):
        """an object built by the real constructor"""
        r = e.tu.record(rec)
        if r is None:
            raise FrontError('record %s not found' % rec)
        lv = e.alloc(st, 'obj', e.fresh_val(('rec', r.name), 'uninit'), None, ('rec', r.name))
        c = e.tu.method(r, 'ctor', nparams if nparams is not None else None, pred)
        self.call(e, st, c, lv, args)
        return lv

    def call(self, e, st, fn, this, args):
        full = list(args)
        ps = e.tu.params(fn)
        for p in ps[len(full):]:
            init = [c for c in e.kids(p) if not c['kind'].endswith(('Decl', 'Attr'))]
            if not init:
                raise Unsupported('missing argument')
            full.append(e.val(init[-1], st, Frame(fn)))
        r = e.inline(fn, this, full, st, None)
        return r

    def method(self, e, st, this, rec, name, args=(), nparams=None, pred=None):
        m = e.tu.method(rec, name, len(args) if nparams is None else nparams, pred)
        r = self.call(e, st, m, this, args)
        return e.read(st, r) if isinstance(r, LV) else r

    def dead(self, st):
        return any(z3.is_false(c) for c in st.pc)


class Unit:
    """contract of one or more functions; build(ctx) leaves obligations in ctx.eng"""

    def __init__(self, name, build, functions=(), small=None, bound=None, assume=(), timeout=None, bounded=None, thorough=False, exact=None):
        self.name, self.build, self.functions = name, build, list(functions)
        self.small = small          # list of concrete size dicts for triage
        self.bound = bound          # loop bound in triage
        self.assume = list(assume)
        self.timeout = timeout
        self.bounded = bounded      # text: unit is a bounded check (never counted as proof)
        self.thorough = thorough
        self.exact = exact          # representation-independent build used by triage


class UnitResult:
    def __init__(self, unit):
        self.unit = unit
        self.obls = []
        self.status = 'ok'          # ok | fail | limit
        self.detail = ''
        self.definite = []
        self.undecided = []
        self.vac = []
        self.inlined, self.contracted = set(), set()
        self.term = []
        self.invs = []
        self.wall = 0.0
        self.approx = False


def build_unit(unit, sizes=None, bound=None, timeout=10.0):
    ctx = Ctx(unit, sizes, bound, timeout)
    (unit.exact if sizes is not None and unit.exact else unit.build)(ctx)
    return ctx


def gather(ctx):
    obls, defs = [], {}
    for e in ctx.engines:
        obls += e.obls
        defs.update(e.defs)
    return obls, defs


def run_unit(unit, timeout):
    r = UnitResult(unit)
    t0 = time.time()
    tmo = unit.timeout or timeout
    try:
        ctx = build_unit(unit, None, None, tmo)
    except (Unsupported, FrontError, KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception, RecursionError, AssertionError) as x:
        r.status = 'limit'
        r.detail = '%s: %s' % (type(x).__name__, str(x)[:500])
        if os.environ.get('DSPV_DEBUG'):
            traceback.print_exc()
        r.wall = time.time() - t0
        triage(unit, r, tmo)
        r.wall = time.time() - t0
        return r
    r.obls, defs = gather(ctx)
    for e in ctx.engines:
        r.inlined |= {x for x in e.inlined if x}
        r.contracted |= {x for x in e.contracted if x}
        r.term += e.term_unproved
        r.invs += e.inv_log
        r.approx |= e.approx
    solve.discharge(r.obls, defs, tmo)
    # vacuity: preconditions must not be contradictory
    for nm, pc in ctx.covers:
        o = Obl('cover: ' + nm, pc, z3.BoolVal(False), 'cover', unit=unit.name)
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*pc)
        v = str(s.check())
        r.vac.append((nm, v))
        if v == 'unsat':
            r.status = 'limit'
            r.detail = 'vacuous precondition: ' + nm
    # and no postcondition may hold only because the state it is asked in is contradictory
    names = solve.vacuous([o for o in r.obls if o.kind == 'post' and o.result == 'unsat' and o.backend != 'simplifier'], defs)
    r.vac.append(('states of the postconditions', 'unsat: ' + '; '.join(names[:4]) if names else 'not contradictory'))
    if names and r.status == 'ok':
        r.status = 'limit'
        r.detail = 'vacuous: ' + '; '.join(names[:6])
    if not r.obls:
        r.status = 'limit'
        r.detail = 'no obligations generated'
    bad = [o for o in r.obls if o.result != 'unsat']
    if bad and r.status == 'ok':
        if not r.approx and any(o.result == 'sat' for o in bad):
            r.status = 'fail'
            r.definite = [o for o in bad if o.result == 'sat']
            r.undecided = [o for o in bad if o.result != 'sat']
        else:
            r.undecided = bad
            r.status = 'limit'
            r.detail = 'undecided: ' + '; '.join('%s [%s]' % (o.name, o.result) for o in bad[:6])
            triage(unit, r, tmo)
    r.wall = time.time() - t0
    return r


def triage(unit, r, tmo):
    """decide a unit at small concrete sizes with loops unrolled (exact, quantifier free)"""
    if not unit.small:
        return
    r.triage = []
    for sizes in unit.small:
        try:
            ctx = build_unit(unit, sizes, unit.bound or 8, tmo)
        except Exception as x:
            r.triage.append((sizes, 'limit %s: %s' % (type(x).__name__, str(x)[:200])))
            continue
        obls, defs = gather(ctx)
        if any(e.approx for e in ctx.engines):
            r.triage.append((sizes, 'approximate'))
            continue
        solve.discharge(obls, defs, min(tmo, 10))
        bad = [o for o in obls if o.result == 'sat']
        r.triage.append((sizes, 'obligations %d, refuted %d, undecided %d' % (len(obls), len(bad), sum(o.result not in ('sat', 'unsat') for o in obls))))
        if bad:
            r.status = 'fail'
            r.definite = bad
            r.detail = 'refuted at %r' % (sizes,)
            for o in bad:
                o.name += ' (instance %r)' % (sizes,)
            return


# ---------------------------------------------------------------- native stand-in
def build_native(src, workdir, flags=()):
    exe = os.path.join(workdir, os.path.basename(src)[:-3])
    base = ['g++', '-std=c++17', '-O1', '-g', '-w', '-ftrivial-auto-var-init=pattern', '-I' + REPO, '-I' + os.path.join(VERIF, 'native')]
    txt = open(src).read()
    m = re.search(r'^// FLAGS: (.*)$', txt, re.M)
    fl = m.group(1).split() if m else ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-divide-by-zero']
    cmd = base + fl + list(flags) + [src, '-o', exe]
    p = subprocess.run(cmd, capture_output=True, text=True)
    return exe, cmd, p


def run_native(name, seed, tier, workdir, limit=600):
    src = os.path.join(VERIF, 'native', name + '.cc')
    exe, cmd, p = build_native(src, workdir)
    if p.returncode:
        return {'status': 'nobuild', 'out': p.stderr[:6000], 'cmd': ' '.join(cmd)}
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=65:max_malloc_fill_size=67108864', UBSAN_OPTIONS='print_stacktrace=1:exitcode=98')
    t0 = time.time()
    try:
        q = subprocess.run([exe, str(seed), tier], capture_output=True, text=True, errors='replace', timeout=limit, cwd=workdir, env=env)
        rc, out, err = q.returncode, q.stdout, q.stderr
    except subprocess.TimeoutExpired as x:
        return {'status': 'timeout', 'out': str(x.stdout)[-3000:], 'cmd': ' '.join(cmd)}
    d = {'cmd': ' '.join(cmd), 'rc': rc, 'out': out[-6000:], 'err': err[:6000], 'wall': time.time() - t0}
    m = re.search(r'^STATS cases=(\d+) nontrivial=(\d+)', out, re.M)
    d['cases'], d['nontrivial'] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    d['samples'] = re.findall(r'^SAMPLE (.*)$', out, re.M)[:5]
    if rc == 0 and m:
        d['status'] = 'ok'
    elif rc == 3 and 'FAIL' in out:
        d['status'] = 'fail'
    elif rc in (98, 99) or 'runtime error' in err or 'AddressSanitizer' in err or 'Assertion' in err or rc in (-6, -8, -11):
        d['status'] = 'fail'
    elif rc == 4 and 'HANG' in out:
        d['status'] = 'fail'
    else:
        d['status'] = 'error'
    return d


# ---------------------------------------------------------------- property run
def ov(v):
    return os.environ.get(v)


TRUSTED = ['clang++-18 AST (template instantiation, overload resolution, implicit conversions)',
           'dspv: symbolic executor, loop summariser and obligation export (/verif/dspv)',
           'z3 5.3.2 and cvc5 1.1.2 answering unsat']


def main(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('props.' + pid)
    timeout = 40.0 if tier == 'thorough' else 10.0
    z3.set_param('smt.random_seed', 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    units = [u for u in mod.UNITS if tier == 'thorough' or not u.thorough]
    only = os.environ.get('DSPV_UNIT')
    if only:
        units = [u for u in units if only in u.name]
    results = run_units(units, timeout)
    nat = None
    if getattr(mod, 'NATIVE', None) and not os.environ.get('DSPV_NONATIVE'):
        wd = tempfile.mkdtemp(prefix='dspv_' + pid)
        try:
            nat = run_native(mod.NATIVE, seed, tier, wd)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    known = known_findings(pid)
    return conclude(pid, mod, results, nat, seed, tier, t0, known)


def _work(args):
    pid, idx, timeout = args
    mod = importlib.import_module('props.' + pid)


def run_units(units, timeout):
    """units in parallel processes (fork); results travel as plain data"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    n = int(os.environ.get('DSPV_PAR', '4'))
    if len(units) <= 1 or n <= 1:
        return [pack(run_unit(u, timeout)) for u in units]
    res = [None] * len(units)
    procs = {}
    pending = list(range(len(units)))
    os.environ.setdefault('DSPV_JOBS', '4')
    solve.NPROC = 3
    while pending or procs:
        while pending and len(procs) < n:
            i = pending.pop(0)
            rd, wr = ctx.Pipe(False)

            def go(i=i, wr=wr):
                try:
                    x = pack(run_unit(units[i], timeout))
                except BaseException as ex:
                    x = {'name': units[i].name, 'status': 'limit', 'detail': 'internal %s: %s' % (type(ex).__name__, ex), 'obls': [], 'vac': [],
                         'inlined': [], 'contracted': [], 'term': [], 'invs': [], 'wall': 0.0, 'definite': [], 'undecided': [], 'triage': []}
                wr.send(x)
                wr.close()
            p = ctx.Process(target=go)
            p.start()
            wr.close()
            procs[i] = (p, rd)
        for i in list(procs):
            p, rd = procs[i]
            if rd.poll(0.02):
                try:
                    res[i] = rd.recv()
                except EOFError:
                    res[i] = {'name': units[i].name, 'status': 'limit', 'detail': 'unit process died', 'obls': [], 'vac': [], 'inlined': [],
                              'contracted': [], 'term': [], 'invs': [], 'wall': 0.0, 'definite': [], 'undecided': [], 'triage': []}
                p.join()
                del procs[i]
    return res


def pack(r):
    def po(o):
        return {'name': o.name, 'kind': o.kind, 'result': o.result, 'backend': o.backend, 'time': o.time}

    def pd(o):
        d = po(o)
        d['model'] = (o.model or '')[:6000]
        d['smt2'] = solve.smt2(o.hyps, o.goal)[:20000] if z3.is_expr(o.goal) else ''
        return d
    return {'name': r.unit.name, 'status': r.status, 'detail': r.detail, 'obls': [po(o) for o in r.obls], 'vac': r.vac,
            'inlined': sorted(r.inlined), 'contracted': sorted(r.contracted), 'term': r.term, 'invs': r.invs, 'wall': r.wall,
            'definite': [pd(o) for o in r.definite[:5]], 'undecided': [pd(o) for o in r.undecided[:5]], 'triage': getattr(r, 'triage', [])}


def known_findings(pid):
    f = os.path.join(VERIF, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'^known: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def conclude(pid, mod, results, nat, seed, tier, t0, known):
    obls = [o for r in results for o in r['obls']]
    dis = [o for o in obls if o['result'] == 'unsat']
    by = {}
    for o in dis:
        by[o['backend']] = by.get(o['backend'], 0) + 1
    kinds = {}
    for o in obls:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    units = {u.name: u for u in mod.UNITS}
    proved = [r for r in results if r['status'] == 'ok' and not units[r['name']].bounded]
    boundedu = [r for r in results if r['status'] == 'ok' and units[r['name']].bounded]
    limit = [r for r in results if r['status'] == 'limit']
    failed = [r for r in results if r['status'] == 'fail']
    functions = sorted({f for r in proved for f in (units[r['name']].functions or [])})
    inl = sorted({f for r in proved for f in r['inlined']})
    viol = 0
    concrete = nat is not None and nat['status'] == 'fail'
    full = bool(proved) and not limit and not failed
    level = 'proof' if full else 'exploration' if nat is not None else 'other'
    if level == 'proof' and (boundedu or hasattr(mod, 'LEVEL')):
        level = getattr(mod, 'LEVEL', 'exploration')
    assumptions = list(getattr(mod, 'ASSUME', [])) + sorted({a for u in mod.UNITS for a in u.assume})
    assumptions += ['partial correctness only (termination not proved) at ' + x for x in sorted({t for r in proved for t in r['term']})]
    cov = {
        'obligations': len(obls), 'discharged': len(dis),
        'checker_cmd': 'python3-vt -m dspv %s  (z3-new / cvc5 on exported SMT-LIB)' % pid,
        'trusted_base': TRUSTED + list(getattr(mod, 'TRUST', [])),
        'functions_under_contract': functions,
        'functions_executed_from_source': inl,
        'callee_contracts_used': sorted({f for r in proved for f in r['contracted']}),
        'discharged_by': by, 'obligation_kinds': kinds,
        'solver_time_s': round(sum(o['time'] for o in obls), 2),
        'slowest': [(o['name'], round(o['time'], 2)) for o in sorted(obls, key=lambda o: -o['time'])[:3]],
        'vacuity': [{'unit': r['name'], 'cover': v[0], 'precondition': {'sat': 'satisfiable', 'unknown': 'not refuted'}.get(v[1], v[1])} for r in results for v in r['vac']],
        'loop_invariants': [x for r in proved for x in r['invs']][:40],
        'units': [{'unit': r['name'], 'status': {'ok': 'bounded' if units[r['name']].bounded else 'proved', 'limit': 'NOT PROVED (tool limit): ' + r['detail'], 'fail': 'FAILED'}[r['status']],
                   'obligations': len(r['obls']), 'discharged': sum(o['result'] == 'unsat' for o in r['obls']), 'bound': units[r['name']].bounded,
                   'triage': r.get('triage') or [], 'wall_s': round(r['wall'], 2)} for r in results],
    }
    if nat is not None:
        cov['evaluations'] = nat.get('cases', 0)
        cov['distinct_nontrivial'] = nat.get('nontrivial', 0)
        cov['rule'] = 'bounded native stand-in (not counted as proof): ' + getattr(mod, 'NATIVE_RULE', 'seeded cases run on the compiled headers and compared with an independent oracle; non-trivial by the oracle of native/%s.cc' % mod.NATIVE)
        cov['samples'] = nat.get('samples', [])
        cov['native_status'] = nat['status']
    if boundedu:
        cov['bounded_units'] = [(r['name'], units[r['name']].bounded) for r in boundedu]
    lines = []
    rc = 0
    if concrete or failed:
        viol = 1
        rp = os.path.join(VERIF, 'replay', '%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s violated by the code in %s\n\n' % (pid, REPO))
            for r in failed:
                f.write('== contract unit "%s": %s\n' % (r['name'], r['detail']))
                for o in r['definite']:
                    f.write('FAILED OBLIGATION: %s [%s] answered %s by %s\n' % (o['name'], o['kind'], o['result'], o['backend']))
                    f.write('counterexample model:\n%s\n' % o['model'])
                    f.write('obligation (SMT-LIB):\n%s\n\n' % o['smt2'])
            for r in limit:
                f.write('== not decided: unit "%s": %s\n' % (r['name'], r['detail']))
                for o in r['undecided']:
                    f.write('UNDISCHARGED OBLIGATION: %s [%s]\n' % (o['name'], o['kind']))
            if nat is not None:
                f.write('\n== native replay on the real code\nbuild: %s\nrun:   ./%s %d %s\nstatus: %s\n' % (nat.get('cmd'), mod.NATIVE, seed, tier, nat['status']))
                f.write('--- stdout\n%s\n--- stderr\n%s\n' % (nat.get('out', ''), nat.get('err', '')))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if concrete else ' no-failing-input-found'))
        rc = 1
    elif nat is not None and nat['status'] in ('nobuild', 'timeout', 'error'):
        if full and nat['status'] in ('timeout',):
            pass
        else:
            print('check error: native stand-in %s\n%s' % (nat['status'], (nat.get('out') or '') + (nat.get('err') or '')))
            rc = 2
    elif nat is None and (limit or not proved):
        print('check error: not decided: %s' % '; '.join('%s: %s' % (r['name'], r['detail']) for r in limit))
        rc = 2
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, k))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in results:
        print('unit %-50s %-6s %d/%d obligations  %.1fs %s' % (r['name'], r['status'], sum(o['result'] == 'unsat' for o in r['obls']), len(r['obls']), r['wall'], r['detail'] if r['status'] != 'ok' else ''))
        for o in r['obls']:
            if o['result'] != 'unsat':
                print('    not discharged: %s [%s] %s' % (o['name'], o['kind'], o['result']))
        for x in r.get('triage') or []:
            print('    triage', x)
    if nat is not None:
        print('native %s cases=%s wall=%.1f' % (nat['status'], nat.get('cases'), nat.get('wall', 0)))
        if nat['status'] != 'ok':
            print(nat.get('out', '')[-1500:])
            print(nat.get('err', '')[-1500:])
    print('%s: %s, %d/%d obligations discharged %s, %d units proved, %d undecided, %.1fs' % (pid, 'held' if rc == 0 else 'VIOLATED' if rc == 1 else 'ERROR', len(dis), len(obls), by, len(proved), len(limit), time.time() - t0))
    for l in lines:
        print(l)
    return rc
