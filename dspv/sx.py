"""Symbolic executor / verification condition generator over clang's AST."""
import math, sys, time
import z3
from fractions import Fraction
from .vals import *
from .front import TU, FrontError, parse_type, qt, norm_type
from . import solve

sys.setrecursionlimit(100000)

EXPR_WRAP = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr', 'CXXBindTemporaryExpr',
             'FullExpr', 'CXXStdInitializerListExpr', 'SubstNonTypeTemplateParmExpr'}
CASTS = {'ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr',
         'CXXReinterpretCastExpr'}


class Obl:
    __slots__ = ('name', 'hyps', 'goal', 'kind', 'result', 'backend', 'time', 'model', 'where', 'unit', 'how')

    def __init__(self, name, hyps, goal, kind, where='', unit=''):
        self.name, self.hyps, self.goal, self.kind = name, hyps, goal, kind
        self.result = self.backend = self.model = None
        self.time = 0.0
        self.where, self.unit = where, unit
        self.how = 'smt'


class Out:
    __slots__ = ('n', 'brk', 'cont', 'ret', 'go')

    def __init__(self, n=None):
        self.n, self.brk, self.cont, self.ret, self.go = n, [], [], [], {}

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        for k, v in o.go.items():
            self.go.setdefault(k, []).extend(v)


class Frame:
    _n = 0

    def __init__(self, fn, this=None, parent=None):
        Frame._n += 1
        self.id = Frame._n
        self.fn, self.this, self.env = fn, this, {}
        self.roots = []
        self.parent = parent
        self.depth = (parent.depth + 1) if parent else 0

    def lookup(self, i):
        f = self
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = getattr(f, 'lex', None)
        return None


def sel(arr, idx):
    """element read; the value just stored at a syntactically equal index is read back"""
    a = arr
    for n in range(8):
        if not z3.is_app_of(a, z3.Z3_OP_STORE):
            break
        d = const_of(simp(a.arg(1) - idx)) if not a.arg(1).eq(idx) else 0
        if d is None:
            break
        if d == 0:
            return a.arg(2)
        a = a.arg(0)
    return z3.Select(arr, idx)


class Engine:
    def __init__(self, tu, params=None, opaque=None, unit='', overflow=True, timeout=10.0):
        self.tu = tu
        self.params = params or {}       # peculiar constant -> symbolic int
        self.opaque = opaque or {}       # record name -> sort (opaque element types)
        self.opaque_ops = {}             # (record, opname) -> fn(*vals)
        self.opaque_ctor = {}            # record -> fn(args)->value
        self.contracts = {}              # qualified name -> callable(eng, st, fr, this, args) -> value
        self.ext_methods = {}            # method name on opaque objects -> callable(eng, st, fr, objlv, argvals, node)
        self.builtins = {}
        self.obls = []
        self.silent = 0
        self.unit = unit
        self.overflow = overflow
        self.real_div_check = False
        self.maxunroll = 5000
        self.templates = []              # callables(LoopCtx) -> [(name, fn(st,k)->z3 Bool)]
        self.htimeout = 3000
        self.sums = {}
        self.axioms = []                 # global hypotheses (definitions)
        self.depth = 0
        self.inlined = set()
        self.contracted = set()
        self.loops = []
        self.timeout = timeout
        self.loop_stack = []
        self.carr_limit = 64
        self.term_unproved = []
        self.inv_log = []
        self.fold_defs = True
        self.hook_store = None
        self.int_facts = []
        self.carr_sym = True
        self.fp = False                  # floating point model hooks
        self.fpop = None
        self.auto_inv = True
        self.auto_int = True             # generic bounds candidates for integers
        self.iter_hook = None            # called after every unrolled iteration
        self.bound = None                # not None: bounded exact mode
        self.cut = 0
        self.decide_cond = False
        self.unroll_dead = 0             # loops without condition: unroll up to this many rounds if they cannot be repeated further
        self.bitcast = None              # contract's view of reinterpreted pointers: fn(pointer, type, state)
        self.independent = False         # loops whose iterations touch disjoint elements are summarised directly
        self.loop_hints = None
        self.indep_log = []
        self.types = {}
        self.modscan = 0
        self.fstack = []
        self.assert_must = False
        self.loopsyms = set()
        self.global_syms = set()
        self.sum_info = {}
        self.fold_info = {}
        self.trans = []                  # applications of transcendental functions met so far
        self.approx = False              # some obligation rests on an invariant / incomplete axioms
        self.defs = {}                   # function symbol name -> unfold(args)->[facts]

    # ------------------------------------------------------------ obligations
    def oblige(self, name, st, goal, kind='post'):
        if self.silent:
            return
        g = simp(goal) if not isinstance(goal, bool) else goal
        if g is True:
            o = Obl(name, [], True, kind, unit=self.unit)
            o.result, o.backend = 'unsat', 'simplifier'
            self.obls.append(o)
            return
        self.obls.append(Obl(name, list(st.pc), Z(goal), kind, unit=self.unit))

    def side(self, name, st, goal, kind):
        """implicit obligation (bounds, overflow ..)"""
        if self.silent or goal is True:
            return
        g = simp(goal)
        if g is True:
            o = Obl(name, [], True, kind, unit=self.unit)
            o.result, o.backend = 'unsat', 'simplifier'
            self.obls.append(o)
            return
        if self.fstack:
            name = '%s (in %s)' % (name, ' <- '.join(reversed(self.fstack[-3:])))
        self.obls.append(Obl(name, list(st.pc), Z(goal), kind, unit=self.unit))

    def fresh(self, name, sort):
        return z3.Const(fresh_name(name), sort)

    def fresh_int(self, name='i'):
        return self.fresh(name, z3.IntSort())

    def fresh_real(self, name='r'):
        return self.fresh(name, z3.RealSort())

    # ------------------------------------------------------------ types and fresh values
    def sort_for(self, ty):
        k = ty[0]
        if k == 'int':
            return z3.IntSort()
        if k == 'float':
            return z3.RealSort()
        if k == 'bool':
            return z3.BoolSort()
        if k == 'rec' and ty[1] in self.opaque:
            return self.opaque[ty[1]]
        return None

    def extent(self, txt, rec=None):
        """array extent text -> symbolic or concrete"""
        try:
            v = int(txt)
        except ValueError:
            raise Unsupported('array extent ' + txt)
        return self.decode(v)

    def decode(self, v):
        if v in self.params:
            return self.params[v]
        if self.params and abs(v) >= 65536 and v not in (65536, 1 << 20, 1 << 24, 1 << 30):
            # instantiated from an expression over a symbolic size
            hits = [simp(m * s + v - m * p) for p, s in sorted(self.params.items()) for m in (1, 2, 3, 4, -1) if abs(v - m * p) <= 64]
            if len(hits) == 1:
                return hits[0]
            raise Unsupported('template argument %d cannot be traced to a size parameter' % v)
        return v

    def field_type(self, rec, fd):
        """field type with symbolic extents taken from the template pattern"""
        ty = self.resolve(parse_type(qt(fd)), rec)
        if ty[0] == 'arr' and rec.pattern is not None:
            for c in rec.pattern.get('inner', []):
                if c.get('kind') == 'FieldDecl' and c.get('name') == fd.get('name'):
                    pt = parse_type(qt(c))
                    if pt[0] == 'arr':
                        env = self.param_env(rec)
                        return ('arr', ty[1], ('sym', pt[2], env, rec))
        return ty

    def resolve(self, ty, rec):
        """element types named by a typedef of the class"""
        if ty[0] == 'arr':
            return ('arr', self.resolve(ty[1], rec)) + tuple(ty[2:])
        if ty[0] == 'rec' and self.tu.record(ty[1]) is None:
            for c in rec.node.get('inner', []):
                if c.get('kind') in ('TypedefDecl', 'TypeAliasDecl') and c.get('name') == ty[1]:
                    return parse_type(qt(c))
        return ty

    def param_env(self, rec):
        env = {}
        for p, a in zip(rec.params, rec.args):
            if isinstance(a, int):
                env[p.get('name')] = self.decode(a)
        return env

    def eval_extent(self, x):
        if isinstance(x, tuple) and x[0] == 'sym':
            return self.eval_text(x[1], x[2], x[3])
        if isinstance(x, str):
            return self.extent(x)
        return x

    def eval_text(self, txt, env, rec):
        import re
        toks = re.findall(r'[A-Za-z_]\w*|\d+|[-+*/()%]', txt)
        pos = [0]

        def prim():
            t = toks[pos[0]]
            pos[0] += 1
            if t == '(':
                v = expr()
                pos[0] += 1
                return v
            if t == '-':
                return neg(prim())
            if t.isdigit():
                return int(t)
            if t in env:
                return env[t]
            if rec is not None and t in rec.statics:
                st = State()
                fr = Frame(None)
                fr.rec = rec
                return self.static_value(rec.statics[t], st)
            raise Unsupported('extent name ' + t)

        def term():
            v = prim()
            while pos[0] < len(toks) and toks[pos[0]] in '*/%':
                o = toks[pos[0]]
                pos[0] += 1
                w = prim()
                v = mul(v, w) if o == '*' else tdiv(v, w) if o == '/' else tmod(v, w)
            return v

        def expr():
            v = term()
            while pos[0] < len(toks) and toks[pos[0]] in '+-':
                o = toks[pos[0]]
                pos[0] += 1
                w = term()
                v = add(v, w) if o == '+' else sub(v, w)
            return v

        v = expr()
        return v if is_c(v) else simp(v)

    def static_value(self, vd, st):
        key = ('static', vd['id'])
        for c in vd.get('inner', []):
            if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups')):
                self.silent += 1
                try:
                    return self.rv(c, st, Frame(None))
                finally:
                    self.silent -= 1
        raise Unsupported('static without initialiser ' + vd.get('name', ''))

    def leaves_of_type(self, ty, pre=()):
        s = self.sort_for(ty)
        if s is not None:
            return [(pre, s)]
        if ty[0] == 'rec':
            r = self.tu.record(ty[1])
            if r is None:
                raise Unsupported('array element type %r' % (ty,))
            out = []
            for b in r.bases:
                out += self.leaves_of_type(('rec', b), pre)
            for f in r.fields:
                out += self.leaves_of_type(self.field_type(r, f), pre + (f['name'],))
            return out
        raise Unsupported('array element type %r' % (ty,))

    def fresh_val(self, ty, name='v', st=None):
        k = ty[0]
        s = self.sort_for(ty)
        if s is not None:
            v = self.fresh(name, s)
            if k == 'int' and st is not None:
                b, sg = ty[1], ty[2]
                lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
                st.assume(z3.And(v >= lo, v <= hi))
            return v
        if k == 'arr':
            n = self.eval_extent(ty[2])
            return self.fresh_arr(ty[1], n, name, st)
        if k == 'rec':
            r = self.tu.record(ty[1])
            if r is None:
                return Opaque(ty[1])
            f = {}
            for b in r.bases:
                bv = self.fresh_val(('rec', b), name, st)
                if isinstance(bv, StructVal):
                    f.update(bv.f)
            for fd in r.fields:
                f[fd['name']] = self.fresh_val(self.field_type(r, fd), name + '.' + fd['name'], st)
            return StructVal(ty[1], f)
        if k == 'ptr':
            return None
        raise Unsupported('fresh value of %r' % (ty,))

    def fresh_arr(self, ety, n, name='a', st=None):
        if isinstance(n, int) and n <= self.carr_limit:
            return CArr(ety, [self.fresh_val(ety, '%s[%d]' % (name, i), st) for i in range(n)])
        if ety[0] == 'arr':
            raise Unsupported('multi-dimensional symbolic array')
        lf = {}
        for p, s in self.leaves_of_type(ety):
            lf[p] = z3.Const(fresh_name(name + '.'.join(('',) + p)), z3.ArraySort(z3.IntSort(), s))
        return Arr(ety, n, lf)

    def zero(self, ty):
        k = ty[0]
        if k == 'int':
            return 0
        if k == 'float':
            return Fraction(0)
        if k == 'bool':
            return False
        if k == 'rec':
            r = self.tu.record(ty[1])
            if r is not None and ty[1] not in self.opaque:
                return StructVal(ty[1], {f['name']: self.zero(self.field_type(r, f)) for f in r.fields})
        if k == 'arr':
            n = self.eval_extent(ty[2])
            if isinstance(n, int):
                return CArr(ty[1], [self.zero(ty[1]) for _ in range(n)])
            v = self.fresh_arr(ty[1], n)
            return Arr(ty[1], n, {p: z3.K(z3.IntSort(), Z(Fraction(0)) if a.sort().range() == z3.RealSort() else z3.IntVal(0)) for p, a in v.lf.items()})
        raise Unsupported('zero of %r' % (ty,))

    # ------------------------------------------------------------ store access
    def arr_get(self, a, idx):
        if isinstance(a, CArr):
            if isinstance(idx, int):
                if not 0 <= idx < len(a.el):
                    raise Unsupported('constant index %d out of range (%d)' % (idx, len(a.el)))
                return a.el[idx]
            c = const_of(simp(idx))
            if c is not None:
                return self.arr_get(a, c)
            v = a.el[-1]
            for i in range(len(a.el) - 2, -1, -1):
                v = merge_val(Z(idx) == i, a.el[i], v)
            return v
        if isinstance(a, Arr):
            z = Z(idx)
            if a.view is not None:
                z = a.view(z)
            if list(a.lf) == [()]:
                return fold(sel(a.lf[()], z))
            return self._build(a, z, a.ety, ())
        raise Unsupported('indexing %r' % type(a))

    def _build(self, a, z, ty, pre):
        if pre in a.lf:
            return fold(sel(a.lf[pre], z))
        gh = [p for p in a.lf if len(p) == len(pre) + 1 and p[:len(pre)] == pre and p[-1].startswith('$')]
        if gh:        # object known by its contract only
            return StructVal(ty[1], {p[-1]: fold(sel(a.lf[p], z)) for p in gh})
        r = self.tu.record(ty[1])
        f = {}
        for b in r.bases:
            bv = self._build(a, z, ('rec', b), pre)
            f.update(bv.f)
        for fd in r.fields:
            f[fd['name']] = self._build(a, z, self.field_type(r, fd), pre + (fd['name'],))
        return StructVal(ty[1], f)

    def arr_set(self, a, idx, v):
        if isinstance(a, CArr):
            if not isinstance(idx, int):
                c = const_of(simp(idx))
                if c is not None:
                    idx = c
            if isinstance(idx, int):
                if not 0 <= idx < len(a.el):
                    raise Unsupported('constant index %d out of range (%d)' % (idx, len(a.el)))
                el = list(a.el)
                el[idx] = v
                return CArr(a.ety, el)
            return CArr(a.ety, [merge_val(Z(idx) == i, v, o) for i, o in enumerate(a.el)])
        if isinstance(a, Arr):
            z = Z(idx)
            lf = {}
            for p, arr in a.lf.items():
                x = v
                for n in p:
                    x = x.f[n]
                x = Z(x, arr.sort().range())
                if z3.is_app_of(x, z3.Z3_OP_SELECT) and x.arg(0).eq(arr) and x.arg(1).eq(z):
                    lf[p] = arr
                else:
                    lf[p] = z3.Store(arr, z, x)
            return Arr(a.ety, a.size, lf)
        raise Unsupported('indexed store into %r' % type(a))

    def read(self, st, lv):
        if lv.root not in st.store:
            raise Unsupported('dangling object %s' % (lv.root,))
        v = st.store[lv.root]
        for p in lv.path:
            if isinstance(p, str):
                if not isinstance(v, StructVal) or p not in v.f:
                    raise Unsupported('field %s of %r' % (p, type(v)))
                v = v.f[p]
            else:
                v = self.arr_get(v, p[1])
        return v

    def write(self, st, lv, val):
        def upd(v, path):
            if not path:
                return val
            p = path[0]
            if isinstance(p, str):
                if not isinstance(v, StructVal):
                    raise Unsupported('field store into %r' % type(v))
                return v.set(p, upd(v.f.get(p), path[1:]))
            if len(path) == 1:
                return self.arr_set(v, p[1], val)
            return self.arr_set(v, p[1], upd(self.arr_get(v, p[1]), path[1:]))
        if self.hook_store is not None:
            self.hook_store(st, lv, val)
        st.store[lv.root] = upd(st.store.get(lv.root), lv.path)

    def alloc(self, st, name, val, fr=None, ty=None):
        r = fresh_name('@' + str(name))
        st.store[r] = val
        if ty is not None:
            self.types[r] = ty
        if fr is not None:
            fr.roots.append(r)
        return LV(r)

    # ------------------------------------------------------------ arithmetic with checks
    def wrap(self, v, ty):
        b, sg = ty[1], ty[2]
        m = 1 << b
        if is_c(v):
            v = int(v) % m
            if sg and v >= m >> 1:
                v -= m
            return v
        z = Z(v)
        if sg:
            return (z + (m >> 1)) % m - (m >> 1)
        return z % m

    def range_ok(self, v, ty):
        b, sg = ty[1], ty[2]
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
        if is_c(v):
            return lo <= v <= hi
        return z3.And(v >= lo, v <= hi)

    def int_res(self, st, v, ty, op):
        if ty[0] != 'int':
            return v
        if ty[2] and op == '<<' and not is_c(v) and self.quick_valid(st, z3.And(Z(v) >= 0, Z(v) < 1 << ty[1])):
            # a result representable in the unsigned type is converted (CWG 1457)
            return v if self.quick_valid(st, self.range_ok(v, ty)) else self.wrap(v, ty)
        if ty[2]:
            if self.overflow:
                self.side('no signed overflow in %s' % op, st, self.range_ok(v, ty), 'overflow')
            elif is_c(v) and not self.range_ok(v, ty):
                raise Unsupported('constant overflow')
            return v
        ok = self.range_ok(v, ty)
        if ok is True:
            return v
        return self.wrap(v, ty)

    def quick_valid(self, st, goal, ms=400):
        g = simp(goal)
        if g is True:
            return True
        if g is False:
            return False
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*st.pc)
        s.add(z3.Not(Z(goal)))
        return s.check() == z3.unsat

    def bitop(self, st, op, a, b, ty):
        if is_c(a) and is_c(b):
            return {'&': a & b, '|': a | b, '^': a ^ b}[op]
        for x, c in ((a, b), (b, a)):
            c = const_of(simp(c))
            if c is None:
                continue
            if op == '&' and c >= 0 and (c & (c + 1)) == 0:
                return Z(x) % (c + 1)
            if op == '&' and c < 0 and ((-c) & (-c - 1)) == 0:
                return Z(x) - Z(x) % (-c)
            if op == '^' and c == 1:
                return Z(x) + 1 - 2 * (Z(x) % 2)
            if op == '|' and c < 0 and ((-c) & (-c - 1)) == 0:
                return Z(c) + Z(x) % (-c)
            if op in '|^' and c == 0:
                return x
        if op in '|^':
            for x, y in ((a, b), (b, a)):
                for m in (8, 16, 24, 1, 2, 4):
                    if self.quick_valid(st, And(cmp('>=', x, 0), cmp('<', x, 1 << m), cmp('==', Z(y) % (1 << m), 0))):
                        return add(x, y)
        bits = ty[1]
        x, y = z3.Int2BV(Z(a), bits), z3.Int2BV(Z(b), bits)
        r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
        return z3.BV2Int(r, ty[2])

    def shift(self, st, op, a, b, ty):
        c = const_of(simp(b))
        if c is None:
            raise Unsupported('shift by symbolic amount')
        self.side('shift amount in range', st, 0 <= c < ty[1], 'overflow')
        if op == '<<':
            if is_c(a):
                return self.wrap(a << c, ty) if not self.overflow else a << c
            r = mul(a, 1 << c)
            return r
        if is_c(a):
            return a >> c
        return Z(a) / (1 << c) if c else a

    def arith(self, st, op, a, b, ty):
        k = ty[0]
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if k == 'bool' and z3.is_expr(a) and z3.is_bool(a):
            a, b = z3.If(a, 1, 0), Z(b)
        if k == 'float':
            if self.fpop is not None:
                r = self.fpop(self, st, op, a, b, ty)
                if r is not None:
                    return r
            if op == '+':
                return add(a, b)
            if op == '-':
                return sub(a, b)
            if op == '*':
                return mul(a, b)
            if op == '/':
                if self.real_div_check:
                    self.side('divisor is not zero', st, cmp('!=', b, Fraction(0)), 'div0')
                if is_c(b) and b == 0:
                    raise Unsupported('division by constant zero')
                return rdiv(a, b)
        if k == 'int':
            if op == '+':
                return self.int_res(st, add(a, b), ty, '+')
            if op == '-':
                return self.int_res(st, sub(a, b), ty, '-')
            if op == '*':
                return self.int_res(st, mul(a, b), ty, '*')
            if op in '/%':
                self.side('integer divisor is not zero', st, cmp('!=', b, 0), 'div0')
                if is_c(b) and b == 0:
                    raise Unsupported('division by constant zero')
                return self.sdiv(st, a, b) if op == '/' else self.smod(st, a, b)
            if op in '&|^':
                return self.bitop(st, op, a, b, ty)
            if op in ('<<', '>>'):
                r = self.shift(st, op, a, b, ty)
                return self.int_res(st, r, ty, '<<') if op == '<<' else r
        raise Unsupported('arith %s on %r' % (op, ty))

    def sdiv(self, st, a, b):
        if not (is_c(a) and is_c(b)):
            if not (is_c(a) and a < 0) and not (is_c(b) and b < 0):
                if (is_c(a) or self.quick_valid(st, Z(a) >= 0)) and (is_c(b) or self.quick_valid(st, Z(b) > 0)):
                    return Z(a) / Z(b)
        return tdiv(a, b)

    def smod(self, st, a, b):
        if not (is_c(a) and is_c(b)):
            if not (is_c(a) and a < 0) and not (is_c(b) and b < 0):
                if (is_c(a) or self.quick_valid(st, Z(a) >= 0)) and (is_c(b) or self.quick_valid(st, Z(b) > 0)):
                    return Z(a) % Z(b)
        return tmod(a, b)

    # ------------------------------------------------------------ expressions
    def kids(self, n):
        return [c for c in n.get('inner', []) if isinstance(c, dict) and c.get('kind')]

    def ekids(self, n):
        return [c for c in self.kids(n) if not c['kind'].endswith('Decl')]

    def nty(self, n):
        return parse_type(qt(n))

    def is_glv(self, n):
        return n.get('valueCategory') in ('lvalue', 'xvalue')

    def val(self, n, st, fr):
        """value of an expression whatever its category"""
        if self.is_glv(n):
            return self.read(st, self.lv(n, st, fr))
        return self.rv(n, st, fr)

    def lv(self, n, st, fr):
        k = n['kind']
        if k in EXPR_WRAP:
            inner = self.ekids(n)[-1]
            if k == 'MaterializeTemporaryExpr' and not self.is_glv(inner):
                return self.alloc(st, 'tmp', self.rv(inner, st, fr), fr)
            return self.lv(inner, st, fr)
        if k in CASTS:
            ck = n.get('castKind')
            inner = self.ekids(n)[-1]
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion'):
                if self.is_glv(inner):
                    return self.lv(inner, st, fr)
                return self.alloc(st, 'tmp', self.rv(inner, st, fr), fr)
            raise Unsupported('lvalue cast ' + str(ck))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            x = fr.lookup(d['id'])
            if x is not None:
                if isinstance(x, LV):
                    return x
                raise Unsupported('lvalue of %s' % d.get('name'))
            return self.global_lv(d, st, fr)
        if k == 'MemberExpr':
            base = self.ekids(n)[0]
            if n.get('isArrow'):
                p = self.rv(base, st, fr)
                b = self.deref(p, st)
            else:
                b = self.lv(base, st, fr) if self.is_glv(base) else self.alloc(st, 'tmp', self.rv(base, st, fr), fr)
            md = self.tu.decl.get(n.get('referencedMemberDecl'))
            if md is not None and md.get('kind') == 'VarDecl':
                return self.global_lv(md, st, fr)
            return b.f(n['name'])
        if k == 'ArraySubscriptExpr':
            b, i = self.ekids(n)
            p = self.rv(b, st, fr)
            iv = self.rv(i, st, fr)
            if not isinstance(p, Ptr):
                raise Unsupported('subscript of non-pointer')
            return self.deref(Ptr(p.lv, add(p.idx, iv)) if p.idx is not None else self._pidx(p, iv), st)
        if k == 'UnaryOperator':
            op = n['opcode']
            e = self.ekids(n)[0]
            if op == '*':
                return self.deref(self.rv(e, st, fr), st)
            if op in ('++', '--') and not n.get('isPostfix'):
                self.rv(n, st, fr)
                return self.lv(e, st, fr)
        if k in ('BinaryOperator',) and n['opcode'] in ('=', ','):
            a, b = self.ekids(n)
            if n['opcode'] == ',':
                self.discard(a, st, fr)
                return self.lv(b, st, fr)
            l = self.assign(a, b, st, fr)
            return l
        if k == 'CompoundAssignOperator':
            return self.compound(n, st, fr)
        if k == 'CXXThisExpr':
            return fr.this
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = self.call(n, st, fr)
            if isinstance(r, LV):
                return r
            return self.alloc(st, 'tmp', r, fr)
        if k == 'ConditionalOperator':
            c, a, b = self.ekids(n)
            cv = self.cond(c, st, fr)
            if cv is True:
                return self.lv(a, st, fr)
            if cv is False:
                return self.lv(b, st, fr)
            la, lb = self.lv(a, st, fr), self.lv(b, st, fr)
            if la.root == lb.root and path_eq(la.path, lb.path):
                return la
            return self.alloc(st, 'tmp', merge_val(cv, self.read(st, la), self.read(st, lb)), fr)
        if k == 'StringLiteral':
            s = n.get('value', '""')
            import ast
            t = ast.literal_eval(s)
            return self.alloc(st, 'str', CArr(('int', 8, True), [ord(c) for c in t] + [0]), fr)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'PredefinedExpr'):
            return self.alloc(st, 'tmp', self.rv(n, st, fr), fr)
        raise Unsupported('lvalue expression ' + k)

    def _pidx(self, p, iv):
        if p.idx is None:
            if is_c(iv) and iv == 0:
                return p
            raise Unsupported('pointer arithmetic on a non-array object')

    def deref(self, p, st):
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.idx is None:
            return p.lv
        a = self.read(st, p.lv)
        if isinstance(a, (Arr, CArr)):
            idx = p.idx if is_c(p.idx) else simp(p.idx)
            n = a.size
            if n is not None:
                ok = And(cmp('>=', idx, 0), cmp('<', idx, n))
                self.side('access inside the array', st, ok, 'bounds')
                if ok is False:
                    raise Unsupported('constant out-of-bounds access')
            return p.lv.i(idx)
        if is_c(p.idx) and p.idx == 0:
            return p.lv
        raise Unsupported('dereference into %r' % type(a))

    def global_lv(self, d, st, fr):
        key = 'g:' + d['id']
        if key not in st.store:
            vd = self.tu.decl.get(d['id'], d)
            init = [c for c in self.kids(vd) if not c['kind'].endswith(('Decl', 'Attr', 'Comment'))]
            if not init:
                raise Unsupported('global %s without visible initialiser' % d.get('name'))
            ty = self.nty(vd)
            self.silent += 1
            try:
                st.store[key] = self.init_value(init[-1], ty, st, Frame(None))
            finally:
                self.silent -= 1
        return LV(key)

    def init_value(self, n, ty, st, fr):
        if n['kind'] == 'InitListExpr' and ty[0] == 'arr':
            ks = self.ekids(n)
            sz = self.eval_extent(ty[2])
            vals = [self.init_value(c, ty[1], st, fr) for c in ks]
            if isinstance(sz, int):
                while len(vals) < sz:
                    vals.append(self.zero(ty[1]))
            return CArr(ty[1], vals)
        return self.val(n, st, fr) if not (ty[0] == 'arr') else self.rv(n, st, fr)

    def discard(self, n, st, fr):
        if n['kind'] in EXPR_WRAP:
            return self.discard(self.ekids(n)[-1], st, fr)
        if self.is_glv(n):
            return self.lv(n, st, fr)
        return self.rv(n, st, fr)

    def cond(self, n, st, fr):
        v = self.val(n, st, fr)
        v = tobool(v)
        return v if isinstance(v, bool) else simp(v)

    def rv(self, n, st, fr):
        k = n['kind']
        m = getattr(self, 'x_' + k, None)
        if m is not None:
            return m(n, st, fr)
        if k in EXPR_WRAP:
            if k == 'SubstNonTypeTemplateParmExpr':
                c = self.ekids(n)[-1]
                v = self.rv(c, st, fr)
                if isinstance(v, int) and not isinstance(v, bool):
                    return self.decode(v)
                return v
            inner = self.ekids(n)[-1]
            return self.val(inner, st, fr)
        if k in CASTS:
            return self.cast(n, st, fr)
        raise Unsupported('expression ' + k)

    def x_IntegerLiteral(self, n, st, fr):
        return int(n['value'])

    def x_CharacterLiteral(self, n, st, fr):
        return int(n['value'])

    def x_CXXBoolLiteralExpr(self, n, st, fr):
        return bool(n['value'])

    def x_FloatingLiteral(self, n, st, fr):
        s = str(n['value'])
        if qt(n) == 'long double':
            return Fraction(s)
        return Fraction(repr(float(s)))

    def x_ImplicitValueInitExpr(self, n, st, fr):
        return self.zero(self.nty(n))

    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        if n.get('name') != 'sizeof':
            raise Unsupported('type trait')
        t = n.get('argType')
        ty = parse_type((t.get('desugaredQualType') or t['qualType'])) if t else self.nty(self.ekids(n)[0])
        if ty[0] == 'int':
            return ty[1] // 8
        if ty[0] == 'float':
            return {'float': 4, 'double': 8, 'long double': 16}[ty[1]]
        if ty[0] == 'arr':
            e = {'int': lambda: ty[1][1] // 8, 'float': lambda: {'float': 4, 'double': 8, 'long double': 16}[ty[1][1]]}.get(ty[1][0])
            if e:
                return mul(e(), self.eval_extent(ty[2]))
        raise Unsupported('sizeof')

    def x_DeclRefExpr(self, n, st, fr):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return ('enum', d.get('name'))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', d)
        if d['kind'] == 'NonTypeTemplateParmDecl':
            raise Unsupported('uninstantiated template parameter')
        return self.read(st, self.lv(n, st, fr))

    def x_CXXThisExpr(self, n, st, fr):
        return Ptr(fr.this, None)

    def x_MemberExpr(self, n, st, fr):
        return self.read(st, self.lv(n, st, fr))

    def x_ArraySubscriptExpr(self, n, st, fr):
        return self.read(st, self.lv(n, st, fr))

    def x_InitListExpr(self, n, st, fr):
        ty = self.nty(n)
        if ty[0] == 'arr':
            return self.init_value(n, ty, st, fr)
        ks = self.ekids(n)
        if ty[0] == 'rec':
            r = self.tu.record(ty[1])
            if r is None:
                raise Unsupported('init list for ' + ty[1])
            f = {}
            for fd, c in zip(r.fields, ks):
                f[fd['name']] = self.init_value(c, self.field_type(r, fd), st, fr)
            return StructVal(ty[1], f)
        if len(ks) == 1:
            return self.val(ks[0], st, fr)
        if not ks:
            return self.zero(ty)
        raise Unsupported('init list')

    def cast(self, n, st, fr):
        ck = n.get('castKind')
        inner = self.ekids(n)[-1]
        ty = self.nty(n)
        if ck == 'LValueToRValue':
            return self.read(st, self.lv(inner, st, fr))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FloatingCast', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return self.val(inner, st, fr)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.rv(inner, st, fr) if not self.is_glv(inner) else self.read(st, self.lv(inner, st, fr))
        if ck == 'IntegralCast':
            v = self.val(inner, st, fr)
            if isinstance(v, bool):
                return int(v)
            if z3.is_expr(v) and z3.is_bool(v):
                return z3.If(v, 1, 0)
            src = self.nty(inner)
            if not isinstance(v, int) and not z3.is_expr(v):
                return v
            if ty[0] == 'bool':
                return tobool(v)
            if is_c(v):
                return self.wrap(v, ty)
            if src[0] == 'int' and ty[0] == 'int':
                wider = (ty[2] == src[2] and ty[1] >= src[1]) or (ty[2] and not src[2] and ty[1] > src[1])
                if wider:
                    return v
            if self.quick_valid(st, self.range_ok(v, ty)):
                return v
            return self.wrap(v, ty)
        if ck == 'IntegralToFloating':
            v = self.val(inner, st, fr)
            if isinstance(v, bool):
                v = int(v)
            if is_c(v):
                return Fraction(v)
            if z3.is_bool(v):
                v = z3.If(v, 1, 0)
            return z3.ToReal(v)
        if ck == 'FloatingToIntegral':
            v = self.val(inner, st, fr)
            if is_c(v):
                return int(v)
            v = Z(v)
            r = None
            if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
                r = v.arg(0)
            else:
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if self.overflow:
                self.side('float to int in range', st, self.range_ok(r, ty), 'overflow')
            return r
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return tobool(self.val(inner, st, fr))
        if ck == 'ArrayToPointerDecay':
            return Ptr(self.lv(inner, st, fr), 0)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.rv(inner, st, fr) if inner['kind'] != 'DeclRefExpr' else ('fn', inner['referencedDecl'])
        if ck == 'ToVoid':
            self.discard(inner, st, fr)
            return None
        if ck == 'NullToPointer':
            return None
        if ck == 'BitCast' and self.bitcast is not None:
            return self.bitcast(self.val(inner, st, fr), ty, st)
        raise Unsupported('cast ' + str(ck))

    def step_val(self, v, d, ty, st):
        if isinstance(v, Ptr):
            if v.idx is None:
                raise Unsupported('++ on object pointer')
            return Ptr(v.lv, add(v.idx, d))
        if ty[0] == 'float':
            return add(v, Fraction(d))
        return self.int_res(st, add(v, d), ty, '++')

    def x_UnaryOperator(self, n, st, fr):
        op = n['opcode']
        e = self.ekids(n)[0]
        ty = self.nty(n)
        if op in ('++', '--'):
            l = self.lv(e, st, fr)
            v = self.read(st, l)
            w = self.step_val(v, 1 if op == '++' else -1, ty, st)
            self.write(st, l, w)
            return v if n.get('isPostfix') else w
        if op == '&':
            l = self.lv(e, st, fr)
            if l.path and not isinstance(l.path[-1], str):
                return Ptr(LV(l.root, l.path[:-1]), l.path[-1][1])
            return Ptr(l, None)
        if op == '*':
            return self.read(st, self.lv(n, st, fr))
        v = self.val(e, st, fr)
        if op == '-':
            if isinstance(v, bool):
                v = int(v)
            r = neg(v)
            return self.int_res(st, r, ty, 'unary -') if ty[0] == 'int' else r
        if op == '+':
            return v
        if op == '!':
            return Not(tobool(v))
        if op == '~':
            return -v - 1 if is_c(v) else -v - 1
        raise Unsupported('unary ' + op)

    def assign(self, a, b, st, fr):
        # C++17: right operand sequenced before left
        v = self.val(b, st, fr)
        l = self.lv(a, st, fr)
        self.write(st, l, v)
        return l

    def ptr_arith(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == '-' and a.lv.root == b.lv.root and path_eq(a.lv.path, b.lv.path):
                return sub(a.idx, b.idx)
            raise Unsupported('pointer difference')
        p, i = (a, b) if isinstance(a, Ptr) else (b, a)
        if p.idx is None:
            if is_c(i) and i == 0:
                return p
            raise Unsupported('arithmetic on object pointer')
        return Ptr(p.lv, add(p.idx, i) if op == '+' else sub(p.idx, i))

    def x_BinaryOperator(self, n, st, fr):
        op = n['opcode']
        a, b = self.ekids(n)
        if op == '=':
            l = self.assign(a, b, st, fr)
            return self.read(st, l)
        if op == ',':
            self.discard(a, st, fr)
            return self.val(b, st, fr)
        if op in ('&&', '||'):
            x = self.cond(a, st, fr)
            if isinstance(x, bool):
                if op == '&&' and not x:
                    return False
                if op == '||' and x:
                    return True
                return self.cond(b, st, fr)
            s2 = st.copy()
            s2.pc.append(x if op == '&&' else Not(x))
            y = self.cond(b, s2, fr)
            self.join_pure(st, s2, x if op == '&&' else Not(x))
            return And(x, y) if op == '&&' else Or(x, y)
        x = self.val(a, st, fr)
        y = self.val(b, st, fr)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op in '+-':
                return self.ptr_arith(op, x, y)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.lv.root == y.lv.root and path_eq(x.lv.path, y.lv.path):
                return cmp(op, x.idx if x.idx is not None else 0, y.idx if y.idx is not None else 0)
            raise Unsupported('pointer comparison')
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if isinstance(x, tuple) or isinstance(y, tuple):
                raise Unsupported('comparison of symbols')
            return cmp(op, x, y)
        return self.arith(st, op, x, y, self.nty(n))

    def join_pure(self, st, s2, guard):
        """fold the (conditionally executed) state s2 back into st"""
        base = len(st.pc)
        extra = s2.pc[base + 1:]
        changed = any(k not in s2.store or not same(v, s2.store[k]) for k, v in st.store.items())
        new = {k: v for k, v in s2.store.items() if k not in st.store}
        if changed:
            for k in list(st.store):
                if k in s2.store:
                    st.store[k] = merge_val(guard, s2.store[k], st.store[k])
        for k in st.ghost:
            st.ghost[k] = merge_val(guard, s2.ghost[k], st.ghost[k])
        st.store.update(new)
        for x in extra:
            st.pc.append(z3.Implies(guard, x))

    def compound(self, n, st, fr):
        op = n['opcode'][:-1]
        a, b = self.ekids(n)
        y = self.val(b, st, fr)
        l = self.lv(a, st, fr)
        x = self.read(st, l)
        if isinstance(x, Ptr):
            self.write(st, l, self.ptr_arith(op, x, y))
            return l
        ct = n.get('computeResultType') or {}
        cty = parse_type(ct.get('desugaredQualType') or ct.get('qualType') or qt(n))
        lt = self.nty(a)
        if cty[0] == 'float' and lt[0] == 'int':
            x = Z(x, z3.RealSort()) if not is_c(x) else Fraction(x)
        if isinstance(x, bool):
            x = int(x)
        v = self.arith(st, op, x, y, cty)
        if cty[0] == 'float' and lt[0] == 'int':
            raise Unsupported('int compound with float')
        if lt[0] == 'int' and cty[0] == 'int' and cty != lt:
            v = self.wrap(v, lt)
        if lt[0] == 'bool':
            v = tobool(v)
        self.write(st, l, v)
        return l

    def x_CompoundAssignOperator(self, n, st, fr):
        return self.read(st, self.compound(n, st, fr))

    def x_ConditionalOperator(self, n, st, fr):
        c, a, b = self.ekids(n)
        cv = self.cond(c, st, fr)
        if cv is True:
            return self.val(a, st, fr)
        if cv is False:
            return self.val(b, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(Z(cv))
        s2.pc.append(Z(Not(cv)))
        v1 = self.val(a, s1, fr)
        v2 = self.val(b, s2, fr)
        m, v = merge_states([(s1, v1), (s2, v2)])
        st.store, st.pc, st.ghost = m.store, m.pc, m.ghost
        return v

    def x_LambdaExpr(self, n, st, fr):
        return Closure(n, fr)

    # ------------------------------------------------------------ calls
    def x_CallExpr(self, n, st, fr):
        r = self.call(n, st, fr)
        return self.read(st, r) if isinstance(r, LV) else r

    x_CXXMemberCallExpr = x_CallExpr
    x_CXXOperatorCallExpr = x_CallExpr

    def call(self, n, st, fr):
        ks = self.ekids(n)
        k = n['kind']
        callee = ks[0]
        args = ks[1:]
        while callee['kind'] in ('ParenExpr',):
            callee = self.ekids(callee)[0]
        if k == 'CXXMemberCallExpr':
            me = callee
            if me['kind'] != 'MemberExpr':
                raise Unsupported('member call through ' + me['kind'])
            base = self.ekids(me)[0]
            if me.get('isArrow'):
                obj = self.deref(self.rv(base, st, fr), st)
            else:
                obj = self.lv(base, st, fr) if self.is_glv(base) else self.alloc(st, 'tmp', self.rv(base, st, fr), fr)
            d = self.tu.decl.get(me.get('referencedMemberDecl'))
            return self.invoke(d, me.get('name'), obj, args, st, fr, n, self.nty(base))
        c = callee
        while c['kind'] in CASTS or c['kind'] in EXPR_WRAP:
            c = self.ekids(c)[-1]
        if c['kind'] == 'DeclRefExpr':
            rd = c['referencedDecl']
            if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConversionDecl'):
                d = self.tu.decl.get(rd['id'])
                if rd['kind'] == 'CXXMethodDecl' and k == 'CXXOperatorCallExpr':
                    o = args[0]
                    obj = self.lv(o, st, fr) if self.is_glv(o) else self.alloc(st, 'tmp', self.rv(o, st, fr), fr)
                    return self.invoke(d, rd.get('name'), obj, args[1:], st, fr, n, self.nty(o))
                return self.invoke(d, rd.get('name'), None, args, st, fr, n, None)
        if c['kind'] == 'MemberExpr':
            d = self.tu.decl.get(c.get('referencedMemberDecl'))
            return self.invoke(d, c.get('name'), None, args, st, fr, n, None)
        v = self.rv(callee, st, fr)
        if isinstance(v, tuple) and v[0] == 'fn':
            return self.invoke(self.tu.decl.get(v[1]['id']), v[1].get('name'), None, args, st, fr, n, None)
        raise Unsupported('indirect call')

    def lookup_contract(self, q, nargs):
        import re
        if q is None:
            return None
        s = q
        while True:
            t = re.sub(r'<[^<>]*>', '', s)
            if t == s:
                break
            s = t
        for key in ('%s/%d' % (q, nargs), q, '%s/%d' % (s, nargs), s):
            if key in self.contracts:
                return self.contracts[key]
        return None

    def eval_args(self, fn, args, st, fr):
        ps = self.tu.params(fn)
        out = []
        for i, p in enumerate(ps):
            ty = self.nty(p)
            if i < len(args) and args[i]['kind'] != 'CXXDefaultArgExpr':
                a = args[i]
                if ty[0] == 'ref':
                    out.append(self.lv(a, st, fr) if self.is_glv(a) else self.alloc(st, 'tmp', self.rv(a, st, fr), fr))
                else:
                    out.append(self.val(a, st, fr))
            else:
                init = [c for c in self.kids(p) if not c['kind'].endswith(('Decl', 'Attr'))]
                if not init:
                    init = self.default_arg(fn, i)
                v = self.val(init[-1], st, Frame(fn))
                out.append(self.alloc(st, 'tmp', v, fr) if ty[0] == 'ref' else v)
        return out

    def default_arg(self, fn, i):
        raise Unsupported('default argument not visible')

    def invoke(self, d, name, obj, args, st, fr, node, oty):
        if d is not None and obj is None and d.get('kind') == 'CXXMethodDecl' and d.get('storageClass') != 'static' and fr.this is not None:
            obj = fr.this
        if oty is not None and oty[0] == 'rec' and oty[1] in self.opaque:
            return self.builtin(name, obj, args, st, fr, node, oty)
        if d is not None and name == 'operator=' and (d.get('isImplicit') or d.get('explicitlyDefaulted')):
            v = self.val(args[0], st, fr)
            self.write(st, obj, v)
            return obj
        q = self.tu.qual.get(d['id']) if d is not None else None
        if d is not None and self.tu.body(d) is None:
            # declaration only: look for the definition among same-named functions
            for f in self.tu.functions.get(q, []):
                if self.tu.body(f) is not None and qt(f) == qt(d) and len(self.tu.params(f)) == len(self.tu.params(d)):
                    d = f
                    break
        if d is not None:
            con = self.lookup_contract(q, len(self.tu.params(d)))
            if con is not None:
                vals = self.eval_args(d, args, st, fr)
                self.callee = q
                r = con(self, st, fr, obj, vals)
                if r is not NotImplemented:
                    self.contracted.add(q)
                    return r
                return self.inline(d, obj, vals, st, fr)      # contract of another overload
            if self.tu.body(d) is not None:
                vals = self.eval_args(d, args, st, fr)
                return self.inline(d, obj, vals, st, fr)
            if d.get('explicitlyDefaulted') or d.get('isImplicit'):
                if name == 'operator=':
                    v = self.val(args[0], st, fr)
                    self.write(st, obj, v)
                    return obj
        # closures
        if obj is not None and name == 'operator()':
            try:
                ov = self.read(st, obj)
            except Unsupported:
                ov = None
            if isinstance(ov, Closure):
                return self.call_closure(ov, args, st, fr)
        return self.builtin(name, obj, args, st, fr, node, oty)

    def call_closure(self, cl, args, st, fr):
        body = None
        rec = [c for c in self.kids(cl.node) if c['kind'] == 'CXXRecordDecl']
        op = None
        for r in rec:
            for c in r.get('inner', []):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                    op = c
        if op is None or self.tu.body(op) is None:
            raise Unsupported('lambda')
        vals = self.eval_args(op, args, st, fr)
        return self.inline(op, cl.fr.this, vals, st, fr, lex=cl.fr)

    def inline(self, fn, obj, vals, st, fr, lex=None):
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported('call depth (recursion without contract)')
        try:
            q = self.tu.qual.get(fn['id'], fn.get('name'))
            self.inlined.add(q)
            self.fstack.append(str(q))
            nf = Frame(fn, obj, fr)
            if lex is not None:
                nf.lex = lex
            self.bind_params(nf, fn, vals, st)
            if fn['kind'] == 'CXXConstructorDecl':
                self.run_inits(fn, st, nf)
            body = self.tu.body(fn)
            o = self.exec(body, st.copy(), nf)
            rets = list(o.ret)
            if o.n is not None:
                rets.append((o.n, None))
            if o.go:
                raise Unsupported('goto out of scope')
            r = merge_ret(rets)
            if r is None:
                # no path returns (assertion always fails)
                st.pc.append(z3.BoolVal(False))
                rty = parse_type(qt(fn).split('(')[0]) if '(' in qt(fn) else ('void',)
                return None if rty[0] == 'void' else self.fresh_val(rty if rty[0] != 'ref' else rty[1], 'dead')
            s, v = r
            for x in nf.roots:
                if isinstance(v, LV) and v.root == x or isinstance(v, Ptr) and v.lv.root == x:
                    continue
                s.store.pop(x, None)
            st.store, st.pc, st.ghost = s.store, s.pc, s.ghost
            return v
        finally:
            self.depth -= 1
            del self.fstack[self.depth:]

    def bind_params(self, nf, fn, vals, st):
        for p, v in zip(self.tu.params(fn), vals):
            ty = self.nty(p)
            if ty[0] == 'ref':
                if not isinstance(v, LV):
                    v = self.alloc(st, p.get('name', 'arg'), v, nf)
                nf.env[p['id']] = v
            else:
                nf.env[p['id']] = self.alloc(st, p.get('name', 'arg'), v, nf, ty)

    def run_inits(self, fn, st, fr):
        rec = self.tu.parent_record.get(fn['id'])
        done = set()
        for c in fn.get('inner', []):
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            init = self.ekids(c)
            if 'anyInit' in c:
                name = c['anyInit']['name']
                done.add(name)
                fd = [f for f in rec.fields if f['name'] == name]
                ty = self.field_type(rec, fd[0]) if fd else parse_type(c['anyInit']['type'].get('desugaredQualType') or c['anyInit']['type']['qualType'])
                if not init:
                    continue
                n = init[-1]
                if n['kind'] == 'CXXDefaultInitExpr':
                    n = [x for x in self.kids(fd[0]) if not x['kind'].endswith('Decl')][-1]
                if ty[0] == 'arr' and n['kind'] == 'CXXConstructExpr':
                    cur = self.construct_array(n, ty, st, fr, rec)
                    self.write(st, fr.this.f(name), cur)
                else:
                    v = self.val(n, st, fr) if n['kind'] != 'InitListExpr' else self.init_value(n, ty, st, fr)
                    self.write(st, fr.this.f(name), v)
            elif 'baseInit' in c:
                bt = norm_type(c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType'])
                if init and init[-1]['kind'] in ('CXXConstructExpr',):
                    v = self.rv(init[-1], st, fr)
                    if isinstance(v, StructVal):
                        cur = self.read(st, fr.this)
                        if isinstance(cur, StructVal):
                            g = dict(cur.f)
                            g.update(v.f)
                            self.write(st, fr.this, StructVal(cur.ty, g))
            else:  # delegating
                if init:
                    v = self.rv(init[-1], st, fr)
                    self.write(st, fr.this, v)

    def construct_array(self, n, ty, st, fr, rec):
        ety = ty[1]
        size = self.eval_extent(ty[2])
        s = self.sort_for(ety)
        if ety[0] == 'rec' and ety[1] in self.opaque:
            return self.fresh_arr(ety, size, 'init')
        # default construct one element and replicate
        v = self.construct(ety[1], n, [], st, fr)
        if isinstance(size, int) and size <= self.carr_limit:
            return CArr(ety, [v] * size)
        lf = {}
        lt = self.leaves_of_type(ety)
        if isinstance(v, StructVal) and any(k.startswith('$') for k in v.f):
            lt = [((k,), Z(x).sort()) for k, x in v.f.items()]
        for p, so in lt:
            x = v
            for nm in p:
                x = x.f[nm]
            if is_c(x):
                lf[p] = z3.K(z3.IntSort(), Z(x, so))
            else:
                lf[p] = z3.Const(fresh_name('init'), z3.ArraySort(z3.IntSort(), so))
        return Arr(ety, size, lf)

    def x_CXXConstructExpr(self, n, st, fr):
        ty = self.nty(n)
        if ty[0] == 'arr':
            return self.construct_array(n, ty, st, fr, None)
        if ty[0] != 'rec':
            raise Unsupported('construct %r' % (ty,))
        return self.construct(ty[1], n, self.ekids(n), st, fr)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct(self, tname, n, args, st, fr):
        if tname in self.opaque:
            if len(args) == 1 and self.nty(args[0])[0] == 'rec':
                return self.val(args[0], st, fr)
            f = self.opaque_ctor.get(tname)
            if f is None:
                return self.fresh(tname, self.opaque[tname])
            return f([self.val(a, st, fr) for a in args])
        r = self.tu.record(tname)
        if r is None:
            if len(args) == 1 and self.nty(args[0]) == ('rec', tname):
                return self.val(args[0], st, fr)
            f = self.builtins.get('ctor:' + tname.split('<')[0])
            if f:
                return f(self, st, fr, args)
            return Opaque(tname)
        ctt = norm_type((n.get('ctorType') or {}).get('desugaredQualType') or (n.get('ctorType') or {}).get('qualType') or 'void()')
        # copy / move
        if len(args) == 1:
            at = self.nty(args[0])
            if at == ('rec', r.name) or at == ('rec', tname):
                cc = [c for c in r.ctors if norm_type(qt(c)) == ctt and not c.get('isImplicit') and self.tu.body(c) is not None]
                if not cc:
                    return self.val(args[0], st, fr)
        cands = [c for c in self.all_ctors(r) if self.tu.body(c) is not None and len(self.tu.params(c)) >= len([a for a in args])]
        exact = [c for c in cands if norm_type(qt(c)) == ctt and len(self.tu.params(c)) == len(args)]
        if not exact:
            exact = [c for c in cands if norm_type(qt(c)) == ctt]
        if not exact:
            want = self.sig(ctt)
            exact = [c for c in cands if self.sig(norm_type(qt(c))) == want]
        if not exact:
            if not args:
                # implicit default constructor
                v = self.fresh_val(('rec', r.name), 'uninit')
                return self.default_members(r, v, st, fr)
            raise Unsupported('constructor %s %s' % (tname, ctt))
        c = exact[0]
        con = self.lookup_contract(r.name + '::ctor', len(self.tu.params(c))) or self.lookup_contract(self.tu.qual.get(c['id']), len(self.tu.params(c)))
        obj = self.alloc(st, r.simple or 'obj', self.fresh_val(('rec', r.name), 'uninit'), None, ('rec', r.name))
        vals = self.eval_args(c, args, st, fr)
        if con is not None:
            self.contracted.add(self.tu.qual.get(c['id']))
            con(self, st, fr, obj, vals)
        else:
            self.inline(c, obj, vals, st, fr)
        v = st.store.pop(obj.root)
        return v

    def all_ctors(self, r):
        cs = list(r.ctors)
        for c in r.node.get('inner', []):
            if c.get('kind') == 'FunctionTemplateDecl':
                for cc in c.get('inner', []):
                    if cc.get('kind') == 'CXXConstructorDecl' and any(x.get('kind') == 'TemplateArgument' for x in cc.get('inner', [])):
                        cs.append(cc)
        return cs

    def sig(self, t):
        i = t.find('(')
        return t[i:].replace('const ', '').replace('noexcept', '').strip()

    def default_members(self, r, v, st, fr):
        """default initialisation of members having class type"""
        for fd in r.fields:
            ty = self.field_type(r, fd)
            init = [x for x in self.kids(fd) if not x['kind'].endswith(('Decl', 'Attr'))]
            if init:
                v = v.set(fd['name'], self.init_value(init[-1], ty, st, fr))
                continue
            if ty[0] == 'rec' and self.tu.record(ty[1]) is not None and ty[1] not in self.opaque:
                v = v.set(fd['name'], self.construct(ty[1], {'ctorType': {'qualType': 'void ()'}}, [], st, fr))
            elif ty[0] == 'arr' and ty[1][0] == 'rec' and ty[1][1] not in self.opaque and self.tu.record(ty[1][1]) is not None:
                v = v.set(fd['name'], self.construct_array({'ctorType': {'qualType': 'void ()'}}, ty, st, fr, r))
        return v

    # ------------------------------------------------------------ builtins
    def builtin(self, name, obj, args, st, fr, node, oty):
        if obj is None and 'std::%s' % name in self.contracts:
            self.contracted.add('std::%s' % name)
            return self.contracts['std::%s' % name](self, st, fr, None, [self.val(a, st, fr) for a in args])
        if name in self.builtins:
            return self.builtins[name](self, st, fr, obj, args, node)
        if oty is not None and oty[0] == 'rec':
            tn = oty[1]
            if tn in self.opaque and name.startswith('operator'):
                if name == 'operator=':
                    v = self.val(args[0], st, fr)
                    self.write(st, obj, v)
                    return obj
                f = self.opaque_ops.get((tn, name))
                if f:
                    return f(self.read(st, obj), *[self.val(a, st, fr) for a in args])
            if name == 'operator()' and tn.startswith('std::'):
                vals = [self.val(a, st, fr) for a in args]
                base = tn.split('<')[0]
                el = parse_type(tn[len(base) + 1:-1]) if '<' in tn else None
                ops = {'std::less': '<', 'std::greater': '>', 'std::equal_to': '==', 'std::less_equal': '<=',
                       'std::greater_equal': '>=', 'std::not_equal_to': '!='}
                if base in ops:
                    if el is not None and el[0] == 'rec':
                        return self.opaque_ops[(el[1], 'operator' + ops[base])](*vals)
                    return cmp(ops[base], *vals)
                ar = {'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*'}
                if base in ar:
                    if el is not None and el[0] == 'rec':
                        return self.opaque_ops[(el[1], 'operator' + ar[base])](*vals)
                    return self.arith(st, ar[base], vals[0], vals[1], el or ('float', 'double'))
            key = name
            if key in self.ext_methods:
                return self.ext_methods[key](self, st, fr, obj, args, node)
        if name and name.startswith('operator') and obj is None and args:
            t0 = self.nty(args[0])
            for a in args:
                t = self.nty(a)
                if t[0] == 'rec' and t[1] in self.opaque:
                    f = self.opaque_ops.get((t[1], name))
                    if f:
                        return f(*[self.val(x, st, fr) for x in args])
            if name in self.ext_methods:
                return self.ext_methods[name](self, st, fr, None, args, node)
        if name == '__assert_fail':
            if not self.assert_must:
                self.side('assertion never fails', st, False, 'assert')
            st.pc.append(z3.BoolVal(False))
            return None
        if name in ('min', 'fmin', 'max', 'fmax') and len(args) == 2:
            a, b = [self.val(x, st, fr) for x in args]
            if name.endswith('min'):
                return merge_val(cmp('<', b, a), b, a)
            return merge_val(cmp('<', a, b), b, a)
        if name in ('abs', 'fabs', 'labs', '__builtin_fabs', 'fabsf', 'fabsl'):
            a = self.val(args[0], st, fr)
            if is_c(a):
                return abs(a)
            return z3.If(a >= 0, a, -a)
        if name in ('sqrt', '__builtin_sqrt', 'sqrtf', 'sqrtl', '__builtin_sqrtf', '__builtin_sqrtl'):
            a = self.val(args[0], st, fr)
            return self.f_sqrt(a, st)
        if name in ('floor', 'ceil', 'trunc', 'nearbyint', 'rint', 'round', 'lrint', 'lround'):
            a = self.val(args[0], st, fr)
            return self.f_round(name, a, st)
        if name == 'copysign':
            a, b = [self.val(x, st, fr) for x in args]
            return self.f_copysign(a, b, st)
        if name in ('sin', 'cos', 'exp', 'pow', 'atan2', 'atan', 'log', 'log10', 'exp2', 'hypot', 'tan', 'log2', 'exp10'):
            vals = [self.val(x, st, fr) for x in args]
            return self.f_trans(name, vals, st)
        if name in ('swap', 'exch', 'iter_swap') and len(args) == 2:
            la, lb = self.lv(args[0], st, fr), self.lv(args[1], st, fr)
            a, b = self.read(st, la), self.read(st, lb)
            self.write(st, la, b)
            self.write(st, lb, a)
            return None
        if name in ('move', 'forward'):
            return self.lv(args[0], st, fr) if self.is_glv(args[0]) else self.val(args[0], st, fr)
        if name in ('exchange',):
            l = self.lv(args[0], st, fr)
            o = self.read(st, l)
            self.write(st, l, self.val(args[1], st, fr))
            return o
        if name == 'clamp' and len(args) == 3:
            x, a, b = [self.val(z, st, fr) for z in args]
            return merge_val(cmp('<', x, a), a, merge_val(cmp('<', b, x), b, x))
        if name in ('fill', 'fill_n'):
            return self.b_fill(name, args, st, fr)
        if name in ('copy', 'copy_n', 'memcpy', 'memmove', 'copy_backward'):
            return self.b_copy(name, args, st, fr)
        if name in ('max', 'min', 'lowest', 'epsilon') and not args:
            return self.f_limits(name, node, st, fr)
        raise Unsupported('call to %s' % name)

    def f_limits(self, name, node, st, fr):
        ty = self.nty(node)
        if ty[0] == 'int':
            b, sg = ty[1], ty[2]
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
            return hi if name == 'max' else lo
        import sys as _s
        if ty[0] == 'float':
            if ty[1] == 'float':
                mx = Fraction((2 ** 24 - 1) * 2 ** 104)
                return {'max': mx, 'lowest': -mx, 'min': Fraction(1, 2 ** 126), 'epsilon': Fraction(1, 2 ** 23)}[name]
            mx = Fraction(_s.float_info.max)
            return {'max': mx, 'lowest': -mx, 'min': Fraction(_s.float_info.min), 'epsilon': Fraction(1, 2 ** 52)}[name]
        raise Unsupported('numeric_limits')

    def b_fill(self, name, args, st, fr):
        p = self.val(args[0], st, fr)
        e = self.val(args[1], st, fr)
        v = self.val(args[2], st, fr)
        lo = p.idx
        hi = e.idx if name == 'fill' else add(lo, e)
        self.range_write(st, p.lv, lo, hi, lambda leaf, j, old: self.leaf(v, leaf))
        return None

    def leaf(self, v, p):
        for n in p:
            v = v.f[n]
        return v

    def b_copy(self, name, args, st, fr):
        vals = [self.val(a, st, fr) for a in args]
        if name == 'copy':
            s, e, d = vals
            n = sub(e.idx, s.idx)
        elif name == 'copy_n':
            s, n, d = vals
        else:
            raise Unsupported(name)
        src = self.read(st, s.lv)
        same_obj = s.lv.root == d.lv.root and path_eq(s.lv.path, d.lv.path)
        if same_obj:
            self.side('std::copy ranges may only overlap forwards', st, Or(cmp('<=', d.idx, s.idx), cmp('>=', d.idx, add(s.idx, n))), 'pre')
        def f(leaf, j, old):
            return z3.Select(src.lf[leaf], j - Z(d.idx) + Z(s.idx))
        if isinstance(src, CArr):
            c = const_of(simp(n)), const_of(simp(s.idx)), const_of(simp(d.idx))
            if None in c:
                raise Unsupported('copy of concrete array with symbolic bounds')
            for i in range(c[0]):
                self.write(st, d.lv.i(c[2] + i), self.read(State({**st.store, '#src': src}), LV('#src').i(c[1] + i)))
            return Ptr(d.lv, add(d.idx, n))
        self.side('access inside the array', st, And(cmp('>=', s.idx, 0), Or(cmp('<=', n, 0), cmp('<=', add(s.idx, n), src.size))), 'bounds')
        self.range_write(st, d.lv, d.idx, add(d.idx, n), f)
        return Ptr(d.lv, add(d.idx, n))

    def range_write(self, st, alv, lo, hi, f):
        a = self.read(st, alv)
        if isinstance(a, CArr):
            l, h = const_of(simp(lo)), const_of(simp(hi))
            if l is None or h is None:
                raise Unsupported('range write with symbolic bounds')
            for i in range(l, h):
                def mk(v, leaf=()):
                    return f(leaf, i, v)
                o = a.el[i]
                nv = f((), i, o) if not isinstance(o, StructVal) else StructVal(o.ty, {k: f((k,), i, o.f[k]) for k in o.f})
                self.write(st, alv.i(i), nv)
            return
        self.side('access inside the array', st, Or(cmp('>=', lo, hi), And(cmp('>=', lo, 0), cmp('<=', hi, a.size))), 'bounds')
        lf = {}
        for p, arr in a.lf.items():
            na = z3.Const(fresh_name('rw'), arr.sort())
            j = z3.Int(fresh_name('j'))
            st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.And(j >= Z(lo), j < Z(hi)), Z(f(p, j, z3.Select(arr, j)), arr.sort().range()), z3.Select(arr, j)), patterns=[z3.Select(na, j)]))
            lf[p] = na
        self.write(st, alv, Arr(a.ety, a.size, lf))

    # real functions: uninterpreted with defining facts
    def f_sqrt(self, a, st):
        if is_c(a):
            n, d = math.isqrt(a.numerator) if a >= 0 else 0, math.isqrt(a.denominator)
            if a >= 0 and n * n == a.numerator and d * d == a.denominator:
                return Fraction(n, d)
        F = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
        z = Z(a, z3.RealSort())
        r = F(z)
        st.assume(z3.Implies(z >= 0, z3.And(r >= 0, r * r == z)))
        return r

    def f_round(self, name, a, st):
        if is_c(a):
            import math as m
            fl = a.numerator // a.denominator
            if name == 'floor':
                return Fraction(fl)
            if name == 'ceil':
                return Fraction(-((-a.numerator) // a.denominator))
            if name == 'trunc':
                return Fraction(int(a))
            r = round(a) if name in ('nearbyint', 'rint', 'lrint') else (int(a + Fraction(1, 2)) if a >= 0 else -int(-a + Fraction(1, 2)))
            return Fraction(r) if name[0] != 'l' else int(r)
        z = Z(a, z3.RealSort())
        if name == 'floor':
            return z3.ToReal(z3.ToInt(z))
        if name == 'ceil':
            return -z3.ToReal(z3.ToInt(-z))
        if name == 'trunc':
            return z3.If(z >= 0, z3.ToReal(z3.ToInt(z)), -z3.ToReal(z3.ToInt(-z)))
        if name in ('nearbyint', 'rint', 'lrint'):
            i = z3.Function('nearbyint', z3.RealSort(), z3.IntSort())(z)
            st.assume(z3.ToReal(i) - z <= z3.RealVal('1/2'), z - z3.ToReal(i) <= z3.RealVal('1/2'))
            return i if name[0] == 'l' else z3.ToReal(i)
        raise Unsupported(name)

    def f_copysign(self, a, b, st):
        # sign of zero is not represented in the reals: only decided for b != 0
        F = z3.Function('signbit', z3.RealSort(), z3.BoolSort())
        aa = abs(a) if is_c(a) else z3.If(a >= 0, a, -a)
        if is_c(b) and b != 0:
            return aa if b > 0 else neg(aa)
        z = Z(b, z3.RealSort())
        st.assume(z3.Implies(z < 0, F(z)), z3.Implies(z > 0, z3.Not(F(z))))
        return ite(F(z), neg(aa), aa)

    def f_trans(self, name, vals, st):
        if is_c(vals[0]) and vals[0] == 0 and name in ('sin', 'cos', 'exp', 'atan', 'tan'):
            return Fraction(1 if name in ('cos', 'exp') else 0)
        if name == 'pow' and is_c(vals[1]) and vals[1] == int(vals[1]) and 0 < vals[1] <= 8:
            r = vals[0]
            for _ in range(int(vals[1]) - 1):
                r = mul(r, vals[0])
            return r
        self.approx = True
        F = z3.Function('c_' + name, *([z3.RealSort()] * (len(vals) + 1)))
        r = F(*[Z(v, z3.RealSort()) for v in vals])
        if not any(x[2].eq(r) for x in self.trans):
            self.trans.append((name, vals, r))
        return r

    # ------------------------------------------------------------ statements
    def exec(self, n, st, fr):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st, fr)
        if k.endswith(('Expr', 'Operator', 'Literal', 'ExprWithCleanups')):
            self.discard(n, st, fr)
            if st.pc and z3.is_false(st.pc[-1]):
                return Out(None)
            return Out(st)
        raise Unsupported('statement ' + k)

    def s_NullStmt(self, n, st, fr):
        return Out(st)

    def s_AttributedStmt(self, n, st, fr):
        return self.exec(self.ekids(n)[-1], st, fr)

    def s_CompoundStmt(self, n, st, fr):
        return self.exec_list(self.kids(n), st, fr)

    def exec_list(self, stmts, st, fr):
        out = Out(st)
        for i, s in enumerate(stmts):
            if s['kind'] == 'LabelStmt':
                o = self.label_loop(s, stmts[i + 1:], out.n, fr)
                out.n = o.n
                out.absorb(o)
                return out
            o = self.exec(s, out.n, fr)
            out.absorb(o)
            out.n = o.n
            if out.n is None:
                return out
        return out

    def label_loop(self, s, rest, st, fr):
        lid = s.get('declId')
        body = [c for c in self.kids(s)] + list(rest)
        done = Out(None)
        exits = []

        def step(x):
            o = self.exec_list(body, x, fr)
            nx = o.go.pop(lid, [])
            return o, nx

        out = Out(None)

        def cond(x):
            return True

        def body_fn(x):
            o, nx = step(x)
            r = Out(None)
            r.ret, r.go = o.ret, o.go
            if o.n is not None:
                r.brk.append(o.n)
            r.brk += o.brk
            r.cont = nx
            return r
        return self.loop(st, fr, None, body_fn, None, s)

    def s_GotoStmt(self, n, st, fr):
        o = Out(None)
        o.go[n.get('targetLabelDeclId')] = [st]
        return o

    def s_DeclStmt(self, n, st, fr):
        union = None
        for d in self.kids(n):
            if d['kind'] == 'CXXRecordDecl' and d.get('tagUsed') == 'union':
                fs = {c['name']: self.nty(c) for c in d.get('inner', []) if c.get('kind') == 'FieldDecl'}
                if not all(t[0] in ('int', 'float') for t in fs.values()):
                    raise Unsupported('union member')
                union = 'union@%s' % d['id']
                UNIONS[union] = fs
            elif d['kind'] == 'VarDecl' and union is not None and 'union' in qt(d):
                v = StructVal(union, {k: self.fresh_val(t, k) for k, t in UNIONS[union].items()})
                init = [c for c in self.kids(d) if not c['kind'].endswith(('Decl', 'Attr', 'Comment'))]
                if init and init[-1]['kind'] == 'InitListExpr' and len(self.ekids(init[-1])) == 1:
                    v = v.set(next(iter(v.f)), self.val(self.ekids(init[-1])[0], st, fr))
                elif init and (init[-1]['kind'] != 'CXXConstructExpr' or self.ekids(init[-1])):
                    raise Unsupported('initialiser of a union')
                fr.env[d['id']] = self.alloc(st, d.get('name', 'v'), v, fr)
            elif d['kind'] == 'VarDecl':
                self.declare(d, st, fr)
            elif d['kind'] in ('TypedefDecl', 'CXXRecordDecl', 'UsingDecl', 'StaticAssertDecl', 'TypeAliasDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])
        return Out(st)

    def declare(self, d, st, fr):
        ty = self.nty(d)
        init = [c for c in self.kids(d) if not c['kind'].endswith(('Decl', 'Attr', 'Comment'))]
        if d.get('storageClass') == 'static':
            fr.env[d['id']] = LV('g:' + d['id'])
            if 'g:' + d['id'] not in st.store:
                self.silent += 1
                try:
                    st.store['g:' + d['id']] = self.init_value(init[-1], ty, st, fr)
                finally:
                    self.silent -= 1
            return
        if ty[0] == 'ref':
            e = init[-1]
            fr.env[d['id']] = self.lv(e, st, fr) if self.is_glv(e) else self.alloc(st, d['name'], self.rv(e, st, fr), fr)
            return
        if init:
            if ty[0] == 'arr':
                ty = self.local_arr(d, ty, fr)
                v = self.construct_array(init[-1], ty, st, fr, None) if init[-1]['kind'] == 'CXXConstructExpr' else self.init_value(init[-1], ty, st, fr)
            else:
                v = self.val(init[-1], st, fr)
        else:
            if ty[0] == 'arr':
                ty = self.local_arr(d, ty, fr)
            if ty[0] == 'ptr':
                v = None
            else:
                v = self.fresh_val(ty, d.get('name', 'v'))
        fr.env[d['id']] = self.alloc(st, d.get('name', 'v'), v, fr, ty)

    def local_arr(self, d, ty, fr):
        """local arrays of template extent: recover the symbolic extent"""
        try:
            c = int(ty[2])
        except (ValueError, TypeError):
            return ty
        return ('arr', ty[1], self.decode(c))

    def s_ReturnStmt(self, n, st, fr):
        ks = self.ekids(n)
        o = Out(None)
        if not ks:
            o.ret.append((st, None))
            return o
        e = ks[0]
        fty = qt(fr.fn) if fr.fn is not None else ''
        isref = False
        if fty:
            d = 0
            for i, ch in enumerate(fty):
                if ch == '<':
                    d += 1
                elif ch == '>':
                    d -= 1
                elif ch == '(' and d == 0:
                    isref = fty[:i].strip().endswith('&')
                    break
        if isref and self.is_glv(e):
            o.ret.append((st, self.lv(e, st, fr)))
        elif qt(e) == 'void':
            self.discard(e, st, fr)
            o.ret.append((st, None))
        else:
            v = self.val(e, st, fr)
            o.ret.append((st, v))
        if st.pc and z3.is_false(st.pc[-1]):
            o.ret = []
        return o

    def fork(self, st, c):
        a, b = st.copy(), st
        a.pc.append(Z(c))
        b = st.copy()
        b.pc.append(Z(Not(c)))
        return a, b

    def s_IfStmt(self, n, st, fr):
        ks = self.kids(n)
        if n.get('hasInit') or n.get('hasVar'):
            while ks[0]['kind'] == 'DeclStmt':
                self.exec(ks[0], st, fr)
                ks = ks[1:]
        c = self.cond(ks[0], st, fr)
        then = ks[1]
        els = ks[2] if len(ks) > 2 else None
        if c is True:
            return self.exec(then, st, fr)
        if c is False:
            return self.exec(els, st, fr) if els else Out(st)
        a, b = self.fork(st, c)
        oa = self.exec(then, a, fr)
        ob = self.exec(els, b, fr) if els else Out(b)
        out = Out(None)
        out.absorb(oa)
        out.absorb(ob)
        live = [(s, None) for s in (oa.n, ob.n) if s is not None]
        m = merge_states(live)
        out.n = m[0] if m else None
        return out

    def s_SwitchStmt(self, n, st, fr):
        ks = self.kids(n)
        v = self.val(ks[0], st, fr)
        body = self.kids(ks[-1])
        # flatten
        items = []

        def push(s):
            if s['kind'] == 'CaseStmt':
                kk = self.ekids(s)
                self.silent += 1
                cv = self.val(kk[0], st, fr)
                self.silent -= 1
                items.append(('case', cv))
                push(kk[-1])
            elif s['kind'] == 'DefaultStmt':
                items.append(('default', None))
                push(self.ekids(s)[-1])
            else:
                items.append(('stmt', s))
        for s in body:
            push(s)
        out = Out(None)
        live = []
        labels = [(i, x[1]) for i, x in enumerate(items) if x[0] == 'case']
        dflt = [i for i, x in enumerate(items) if x[0] == 'default']
        starts = []
        rest = []
        for i, cv in labels:
            starts.append((i, cmp('==', v, cv)))
            rest.append(cmp('!=', v, cv))
        dcond = And(*rest)
        starts.append((dflt[0] if dflt else len(items), dcond))
        prev = []
        cur = st
        for i, c in starts:
            if c is False:
                continue
            if c is True:
                a, cur2 = cur, None
            else:
                a, cur2 = self.fork(cur, c)
            stmts = [x[1] for x in items[i:] if x[0] == 'stmt']
            o = self.exec_list(stmts, a, fr)
            if o.n is not None:
                live.append((o.n, None))
            live += [(b, None) for b in o.brk]
            out.cont += o.cont
            out.ret += o.ret
            cur = cur2
            if cur is None:
                break
        m = merge_states(live)
        out.n = m[0] if m else None
        return out

    def s_BreakStmt(self, n, st, fr):
        o = Out(None)
        o.brk.append(st)
        return o

    def s_ContinueStmt(self, n, st, fr):
        o = Out(None)
        o.cont.append(st)
        return o

    def raw_kids(self, n):
        return n.get('inner', [])

    def s_ForStmt(self, n, st, fr):
        init, cvar, cond, inc, body = self.raw_kids(n)
        if init.get('kind'):
            self.exec(init, st, fr)
        if cvar.get('kind'):
            raise Unsupported('for condition variable')
        cf = (lambda s: self.cond(cond, s, fr)) if cond.get('kind') else None
        inf = (lambda s: self.discard(inc, s, fr)) if inc.get('kind') else None
        return self.loop(st, fr, cf, lambda s: self.exec(body, s, fr), inf, n)

    def s_WhileStmt(self, n, st, fr):
        ks = self.kids(n)
        if n.get('hasVar'):
            raise Unsupported('while condition variable')
        return self.loop(st, fr, lambda s: self.cond(ks[0], s, fr), lambda s: self.exec(ks[1], s, fr), None, n)

    def s_DoStmt(self, n, st, fr):
        body, cond = self.kids(n)
        # first iteration, then a while loop
        o = self.exec(body, st, fr)
        out = Out(None)
        out.ret += o.ret
        live = [(s, None) for s in ([o.n] if o.n is not None else []) + o.cont]
        m = merge_states(live)
        brk = list(o.brk)
        if m is not None:
            o2 = self.loop(m[0], fr, lambda s: self.cond(cond, s, fr), lambda s: self.exec(body, s, fr), None, n)
            out.ret += o2.ret
            if o2.n is not None:
                brk.insert(0, o2.n)
        mm = merge_states([(s, None) for s in brk])
        out.n = mm[0] if mm else None
        return out

    def s_CXXForRangeStmt(self, n, st, fr):
        ks = [c for c in self.raw_kids(n)]
        # init, range, begin, end, cond, inc, loopvar, body
        init, rng, beg, end, cond, inc, lvar, body = (ks + [{}] * 8)[:8]
        for d in (init, rng, beg, end):
            if d.get('kind'):
                self.exec(d, st, fr)

        def bf(s):
            self.exec(lvar, s, fr)
            return self.exec(body, s, fr)
        return self.loop(st, fr, lambda s: self.cond(cond, s, fr), bf, lambda s: self.discard(inc, s, fr), n)

    # ------------------------------------------------------------ loops
    def loop(self, st, fr, cond, body, inc, node):
        """generic loop; body(state)->Out.  Unrolled while the condition is decidable, else by invariant."""
        out = Out(None)
        exits = []
        n = 0
        nsym = 0
        decide = self.decide_cond
        if decide == 'full':
            decide = cond is not None and self.can_unroll(st, cond, body, inc)
        dead = cond is None and self.bound is None and self.unroll_dead and self.ends(st, body)
        while True:
            mark = len(self.obls)
            s = st.copy()
            c = cond(s) if cond is not None else True
            if c is not True and c is not False and decide:
                if self.quick_valid(s, c, 300):
                    c = True
                elif self.quick_valid(s, Not(c), 300):
                    c = False
            if c is False:
                exits.append(s)
                break
            if c is not True or (cond is None and self.bound is None and not dead):
                if self.bound is None:
                    del self.obls[mark:]
                    o = self.loop_inv(st, fr, cond, body, inc, node)
                    out.ret += o.ret
                    for k, v in o.go.items():
                        out.go.setdefault(k, []).extend(v)
                    if o.n is not None:
                        exits.append(o.n)
                    exits += o.brk
                    break
                nsym += 1
                if nsym > self.bound:
                    # bounded mode: executions needing more iterations are not examined
                    self.cut += 1
                    if c is not True:
                        s.pc.append(Z(Not(c)))
                        exits.append(s)
                    break
                if c is not True:
                    s, s2 = self.fork(s, c)
                    exits.append(s2)
            st = s
            n += 1
            if n > self.maxunroll:
                raise Unsupported('loop unrolled %d times' % n)
            o = body(st)
            out.ret += o.ret
            for k, v in o.go.items():
                out.go.setdefault(k, []).extend(v)
            exits += o.brk
            m = merge_states([(s, None) for s in ([o.n] if o.n is not None else []) + o.cont])
            if m is None:
                break
            st = m[0]
            if dead and n == dead:
                st.pc = [c for c in st.pc if not z3.is_quantifier(c)]
                self.oblige('repetition ends after %d rounds' % n, st, z3.BoolVal(False), 'termination')
                break
            if self.iter_hook is not None:
                self.iter_hook(self, st, n)
            if inc is not None:
                inc(st)
        m = merge_states([(s, None) for s in exits])
        out.n = m[0] if m else None
        return out

    def ends(self, st, body):
        """number of rounds after which a loop without condition cannot be repeated, if small"""
        self.silent += 1
        try:
            s = st.copy()
            for n in range(1, self.unroll_dead + 1):
                o = body(s)
                m = merge_states([(x, None) for x in ([o.n] if o.n is not None else []) + o.cont])
                if m is None:
                    return n
                q = m[0].copy()
                q.pc = [c for c in q.pc if not z3.is_quantifier(c)]
                if self.quick_valid(q, z3.Bool('#unreachable'), 2000):
                    return n
                s = m[0]
            return 0
        finally:
            self.silent -= 1

    def can_unroll(self, st, cond, body, inc):
        """the condition is decided by the facts in every iteration up to the last"""
        self.silent += 1
        try:
            s = st.copy()
            for n in range(self.maxunroll):
                c = cond(s)
                if c is not True and c is not False:
                    c = True if self.quick_valid(s, c, 300) else False if self.quick_valid(s, Not(c), 300) else c
                if c is False:
                    return True
                if c is not True:
                    return False
                o = body(s)
                m = merge_states([(x, None) for x in ([o.n] if o.n is not None else []) + o.cont])
                if m is None:
                    return False
                s = m[0]
                if inc is not None:
                    inc(s)
            return False
        finally:
            self.silent -= 1

    def loop_inv(self, st, fr, cond, body, inc, node):
        from .loops import LoopVerifier
        return LoopVerifier(self, st, fr, cond, body, inc, node).run()


def merge_ret(rets):
    if not rets:
        return None
    if len(rets) == 1:
        return rets[0]
    if any(isinstance(v, LV) for _, v in rets):
        vs = [v for _, v in rets]
        if all(isinstance(v, LV) and v.root == vs[0].root and path_eq(v.path, vs[0].path) for v in vs):
            s, _ = merge_states([(s, None) for s, _ in rets])
            return s, vs[0]
        raise Unsupported('returning different references')
    return merge_states(rets)
