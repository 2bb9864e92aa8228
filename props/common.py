"""shared pieces of the contracts"""
import z3
from dspv.core import Unit, Ctx
from dspv.vals import *

EL = z3.DeclareSort('Elem')
ELEM = 'namespace DSP_drv { struct Elem { Elem(); Elem(int); }; }\n'
_of_int = z3.Function('Elem_of_int', z3.IntSort(), EL)


def elem0(i):
    return _of_int(z3.IntVal(i))


def elem_engine(ctx, text):
    tu = ctx.tu(text)
    e = ctx.engine(tu, opaque={'Elem': EL})
    e.opaque_ctor['Elem'] = lambda a: _of_int(Z(a[0])) if a else e.fresh('Elem', EL)
    return e


def forall(e, n, f, name='i'):
    """goal: f(i) for all 0 <= i < n, by a fresh constant"""
    i = e.fresh_int(name)
    return Implies(And(i >= 0, cmp('<', i, n)), f(i))


def assume_forall(st, lo, hi, f, pat=None):
    i = z3.Int(fresh_name('q'))
    b = f(i)
    if b is True:
        return
    p = pat(i) if pat else None
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= Z(lo), i < Z(hi)), Z(b)), **({'patterns': p} if p else {})))
