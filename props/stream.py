"""Contracts of the standard file streams.

The driver text declares the stream classes in place of <fstream>, so that the header under proof
is parsed unchanged while every stream operation is a call against one of the contracts below:
a file is an array of bytes and a position, put and write store at the position and advance it,
get and read fetch from there, seekp and seekg move it.
"""
import z3
from .common import *

IS = z3.IntSort()
HEAD = '''#define _GLIBCXX_FSTREAM 1
#include <cstdint>
namespace DSP {
struct ios { static const int binary = 1, trunc = 2, cur = 3, beg = 4; };
struct ofstream { ofstream(const char *, int) {} ~ofstream() {} ofstream &put(char); ofstream &write(const char *, long); long tellp(); ofstream &seekp(long); bool good();
ofstream &operator<<(char); ofstream &operator<<(int); };
struct ifstream { ifstream(const char *, int) {} ~ifstream() {} int get(); ifstream &read(char *, long); ifstream &seekg(long, int); bool good(); };
}
namespace std { using DSP::ios; typedef DSP::ios ios_base; using DSP::ofstream; using DSP::ifstream; }
'''
BYTES = z3.ArraySort(IS, IS)


def byte(c):
    return Z(c) % 256 if not is_c(c) else c % 256


def install(e):
    def nothing(e, st, fr, obj, v):
        return None

    def put(e, st, fr, obj, v):
        st.ghost['bytes'] = z3.Store(st.ghost['bytes'], Z(st.ghost['pos']), Z(byte(v[0])))
        st.ghost['pos'] = simp(add(st.ghost['pos'], 1))
        return obj

    def chars(e, st, p, n):
        n = const_of(simp(n))
        if n is None or not isinstance(p, Ptr):
            raise Unsupported('stream transfer of symbolic length')
        arr = e.read(st, p.lv)
        return arr, [add(p.idx or 0, i) for i in range(n)]

    def write(e, st, fr, obj, v):
        arr, ix = chars(e, st, v[0], v[1])
        for i in ix:
            put(e, st, fr, obj, [e.arr_get(arr, i)])
        return obj

    def tellp(e, st, fr, obj, v):
        return st.ghost['pos']

    def seek(e, st, fr, obj, v):
        rel = len(v) > 1 and const_of(simp(v[1])) == 3
        if len(v) > 1 and not rel and const_of(simp(v[1])) != 4:
            raise Unsupported('seek direction')
        st.ghost['pos'] = simp(add(st.ghost['pos'], v[0]) if rel else v[0])
        return obj

    def get(e, st, fr, obj, v):
        r = st.ghost['bytes'][Z(st.ghost['pos'])]
        st.assume(r >= 0, r <= 255)
        st.ghost['pos'] = simp(add(st.ghost['pos'], 1))
        return r

    def read(e, st, fr, obj, v):
        arr, ix = chars(e, st, v[0], v[1])
        for i in ix:
            b = get(e, st, fr, obj, [])
            e.write(st, v[0].lv.i(i), z3.If(b > 127, b - 256, b))
        return obj
    for c, m in (('ofstream', {'put': put, 'write': write, 'tellp': tellp, 'seekp': seek}), ('ifstream', {'get': get, 'read': read, 'seekg': seek})):
        for k in ('ctor', c, '~', '~' + c):
            e.contracts['%s::%s' % (c, k)] = nothing
        for k, f in m.items():
            e.contracts['%s::%s' % (c, k)] = f
    return e


def fresh_file(e, st, pos=None, name='file'):
    st.ghost['bytes'] = z3.Const(fresh_name(name), BYTES)
    st.ghost['pos'] = pos if pos is not None else 0
