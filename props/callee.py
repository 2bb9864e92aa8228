"""Contracts of library classes as seen by their callers.

Each is the abstract behaviour proved for the class itself under the property named; the ghost
fields ($X history, $t number of calls) replace the representation.
"""
import z3
from dspv.vals import *

R = z3.RealSort()


def targs(e, st, obj):
    r = e.tu.record(e.read(st, obj).ty)
    return [e.decode(a) if isinstance(a, int) and not isinstance(a, bool) else a for a in r.args]


def hist(e, st, lv, X, t, **more):
    f = {'$X': Arr(('float', 64), None, {(): X}), '$t': t}
    f.update(more)
    e.write(st, lv, StructVal(e.read(st, lv).ty, f))


def X(v):
    return v.f['$X'].lf[()]


def delay(e, sort=R):
    """Delay<T,N> (P03): returns the input of N calls ago, the initial value before"""
    def ctor(e, st, fr, obj, v):
        a = v[0] if v else 0
        hist(e, st, obj, z3.K(z3.IntSort(), Z(a, sort)), z3.IntVal(0))

    def call(e, st, fr, obj, v):
        N = targs(e, st, obj)[1]
        o = e.read(st, obj)
        x, t = X(o), Z(o.f['$t'])
        r = x[t - Z(N)]
        hist(e, st, obj, z3.Store(x, t, Z(v[0], sort)), t + 1)
        return r
    e.contracts['Delay::ctor'] = ctor
    e.contracts['Delay::Delay'] = ctor
    e.contracts['Delay::operator()'] = call


def swa_sum(e):
    """SWA<T,std::plus<T>,N> (P05): returns the sum of the last N inputs, the identity before"""
    def ctor(e, st, fr, obj, v):
        if not str(targs(e, st, obj)[1]).startswith('std::plus'):
            raise Unsupported('sliding window with another operation')
        N = targs(e, st, obj)[2]
        hist(e, st, obj, z3.K(z3.IntSort(), Z(v[0], R)), z3.IntVal(0), **{'$S': mul(Z(N, R), Z(v[0], R))})

    def call(e, st, fr, obj, v):
        N = targs(e, st, obj)[2]
        o = e.read(st, obj)
        x, t = X(o), Z(o.f['$t'])
        r = Z(o.f['$S']) + Z(v[0], R) - x[t - Z(N)]
        hist(e, st, obj, z3.Store(x, t, Z(v[0], R)), t + 1, **{'$S': r})
        return r
    e.contracts['SWA::ctor'] = ctor
    e.contracts['SWA::SWA'] = ctor
    e.contracts['SWA::operator()'] = call


def induct(e, st, name, P, at=()):
    """lemma by induction over k >= 0: base and step become obligations, instances are assumed"""
    k = e.fresh_int('ind')
    s = st.copy()
    e.oblige('lemma: %s (base)' % name, s, P(z3.IntVal(0)), 'lemma')
    s.assume(k >= 0, P(k))
    e.oblige('lemma: %s (step)' % name, s, P(k + 1), 'lemma')
    for t in at:
        st.assume(z3.Implies(Z(t) >= 0, Z(P(Z(t)))))
