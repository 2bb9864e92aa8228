"""WAV files"""
from .stream import *
from .real import R, valid
from dspv.loops import FA, get, int_keys

W = 'WriteWAV<double>'
RD = 'ReadWAV<double>'
DRV = HEAD + '#include "wav.hh"\ntemplate class DSP::WriteWAV<double>;\ntemplate class DSP::ReadWAV<double>;\n'


def engine(ctx):
    return install(ctx.engine(ctx.tu(DRV)))


def digit(v, i):
    return (Z(v) / 256 ** i) % 256


def write_le(b):
    def f(ctx):
        e = engine(ctx)
        st = ctx.state()
        v, p = z3.Ints('v p')
        st.assume(v >= -2**31, v < 2**31, p >= 0)
        fresh_file(e, st, p)
        B0 = st.ghost['bytes']
        ctx.cover(st)
        o = ctx.obj(e, st, W)
        ctx.method(e, st, o, W, 'writeLE', [v, b])
        B = st.ghost['bytes']
        for i in range(b):
            e.oblige('byte %d is digit %d of the value to base 256' % (i, i), st, B[p + i] == digit(v, i))
        e.oblige('position advances by the width', st, Z(st.ghost['pos']) == p + b)
        q = e.fresh_int('q')
        e.oblige('other bytes are unchanged', st, z3.Implies(z3.Or(q < p, q >= p + b), B[q] == B0[q]))
    return f


def value(B, p, b):
    """what reading b bytes at p yields"""
    v = sum([B[p + i] * 256 ** i for i in range(b)], z3.IntVal(0))
    h = 1 << (8 * b - 1)
    return v if b == 1 else z3.If(v >= h, v - 2 * h, v)


def read_le(b):
    def f(ctx):
        e = engine(ctx)
        st = ctx.state()
        p = z3.Int('p')
        st.assume(p >= 0)
        fresh_file(e, st, p)
        B = st.ghost['bytes']
        for i in range(b):
            st.assume(B[p + i] >= 0, B[p + i] <= 255)
        ctx.cover(st)
        o = ctx.obj(e, st, RD)
        r = Z(ctx.method(e, st, o, RD, 'readLE', [b]))
        e.oblige('value of the bytes, two and four bytes signed', st, r == value(B, p, b))
        e.oblige('position advances by the width', st, Z(st.ghost['pos']) == p + b)
        e.oblige('the file is unchanged', st, st.ghost['bytes'] == B)
        v = z3.Int('v')
        s = ctx.state()
        lo, hi = {1: (0, 255), 2: (-2**15, 2**15 - 1), 4: (-2**31, 2**31 - 1)}[b]
        s.assume(v >= lo, v <= hi, *[B[p + i] == digit(v, i) for i in range(b)])
        e.oblige('lemma: reading the digits of a value in range yields it', s, value(B, p, b) == v, 'lemma')
    return f


# ---------------------------------------------------------------- header
BITS = (8, 16, 32)
OVER = {8: 44, 16: 44, 32: 58}
FLOAT, INT = ('float', 'float'), ('int', 32, True)
F2I, I2F = bits(z3.Real('x'), FLOAT, INT).decl(), bits(z3.Int('v'), INT, FLOAT).decl()
FIT = {1: (0, 255), 2: (-2**15, 2**15 - 1), 4: (-2**31, 2**31 - 1)}


def layout(bits, rate, ch, frames):
    """tags and little-endian fields of the header: position -> text, position -> (width, value)"""
    by = bits // 8
    size = frames * ch * by
    over = OVER[bits]
    tags = {0: 'RIFF', 8: 'WAVE', 12: 'fmt ', over - 8: 'data'}
    fields = {4: (4, over - 8 + size), 16: (4, 18 if bits == 32 else 16), 20: (2, 3 if bits == 32 else 1), 22: (2, ch), 24: (4, rate),
              28: (4, rate * ch * by), 32: (2, ch * by), 34: (2, bits), over - 4: (4, size)}
    if bits == 32:
        tags[38] = 'fact'
        fields.update({36: (2, 0), 42: (4, 4), 46: (4, frames)})
    return tags, fields


def domain(st, bits):
    """format whose header fields are representable"""
    rate, ch = z3.Ints('rate channels')
    by = bits // 8
    st.assume(rate >= 1, ch >= 1, ch * by < 2**15, rate < 2**31, rate * ch >= 1, rate * ch * by < 2**31)
    return rate, ch


def domain_of(ctx, bits):
    s = ctx.state()
    domain(s, bits)
    return s.pc


def field_contracts(e):
    """writeLE and readLE (units above) on a file of fields: value fv and width fw at each position"""
    def wr(e, st, fr, obj, v):
        b = const_of(simp(v[1]))
        if b not in FIT:
            raise Unsupported('field width')
        lo, hi = FIT[b]
        if b < 4 and const_of(simp(v[0])) != -1:
            e.oblige('field value is representable in %d bytes' % b, st, z3.And(Z(v[0]) >= lo, Z(v[0]) <= hi), 'pre')
        g = st.ghost
        g['fv'], g['fw'] = z3.Store(g['fv'], Z(g['pos']), Z(v[0])), z3.Store(g['fw'], Z(g['pos']), z3.IntVal(b))
        g['pos'] = simp(add(g['pos'], b))

    def rd(e, st, fr, obj, v):
        b = const_of(simp(v[0]))
        if b not in FIT:
            raise Unsupported('field width')
        g = st.ghost
        e.oblige('a field of %d bytes starts here' % b, st, g['fw'][Z(g['pos'])] == b, 'pre')
        r = g['fv'][Z(g['pos'])]
        st.assume(r >= FIT[b][0], r <= FIT[b][1])
        g['pos'] = simp(add(g['pos'], b))
        return r
    e.contracts['WriteWAV::writeLE'] = wr
    e.contracts['ReadWAV::readLE'] = rd


def fields(e, st, pos=0):
    fresh_file(e, st, pos)
    for k in ('fv', 'fw'):
        st.ghost[k] = z3.Const(fresh_name(k), BYTES)


NAME = z3.Int('name')


def writer(ctx, bits):
    e = engine(ctx)
    field_contracts(e)
    st = ctx.state()
    rate, ch = domain(st, bits)
    fields(e, st)
    ctx.cover(st)
    o = ctx.new(e, st, W, [NAME, rate, bits, ch])
    return e, st, o, rate, ch


def check_header(e, st, bits, rate, ch, frames, skip=()):
    tags, flds = layout(bits, rate, ch, frames)
    g = st.ghost
    for p, t in sorted(tags.items()):
        e.oblige('"%s" at byte %d' % (t, p), st, z3.And(*[g['bytes'][p + i] == ord(c) for i, c in enumerate(t)]))
    for p, (b, v) in sorted(flds.items()):
        e.oblige('field of %d bytes at byte %d' % (b, p), st, g['fw'][p] == b)
        if p not in skip:
            e.oblige('value of the field at byte %d' % p, st, g['fv'][p] == v)


def w_ctor(bits):
    def f(ctx):
        e, st, o, rate, ch = writer(ctx, bits)
        over = OVER[bits]
        check_header(e, st, bits, rate, ch, 0, (4, 46, over - 4))
        e.oblige('samples start after the header', st, Z(st.ghost['pos']) == over)
        e.oblige('rate() returns the rate', st, Z(ctx.method(e, st, o, W, 'rate')) == rate)
        e.oblige('channels() returns the channels', st, Z(ctx.method(e, st, o, W, 'channels')) == ch)
    return f


def w_dtor(bits):
    def f(ctx):
        e, st, o, rate, ch = writer(ctx, bits)
        over, by = OVER[bits], bits // 8
        fr = z3.Int('frames')
        st.assume(fr >= 0, fr * ch * by >= 0, over + fr * ch * by < 2**31)
        st.assume((fr * ch * by) / (by * ch) == fr)
        e.oblige('lemma: size over the size of a frame is the number of frames', plain(ctx, fr, ch), (fr * ch * by) / (by * ch) == fr, 'lemma')
        st.ghost['pos'] = over + fr * ch * by
        fv, fw = st.ghost['fv'], st.ghost['fw']
        ctx.cover(st, 'any number of frames written')
        ctx.method(e, st, o, W, '~', [])
        check_header(e, st, bits, rate, ch, fr)
        q = e.fresh_int('q')
        e.oblige('samples are unchanged', st, z3.Implies(q >= over, z3.And(st.ghost['fv'][q] == fv[q], st.ghost['fw'][q] == fw[q])))
    return f


def plain(ctx, fr, ch):
    s = ctx.state()
    s.assume(fr >= 0, ch >= 1)
    return s


def reader(ctx, bits):
    e = engine(ctx)
    field_contracts(e)
    st = ctx.state()
    rate, ch = domain(st, bits)
    by, over = bits // 8, OVER[bits]
    fr = z3.Int('frames')
    st.assume(fr >= 1, fr * ch * by >= 1, over + fr * ch * by < 2**31, (fr * ch * by) / (by * ch) == fr)
    fields(e, st)
    g = st.ghost
    tags, flds = layout(bits, rate, ch, fr)
    for p, t in tags.items():
        st.assume(*[g['bytes'][p + i] == ord(c) for i, c in enumerate(t)])
    for p, (b, v) in flds.items():
        st.assume(g['fw'][p] == b, g['fv'][p] == v)
    ctx.cover(st)
    e.oblige('lemma: size over the size of a frame is the number of frames', plain(ctx, fr, ch), (fr * ch * by) / (by * ch) == fr, 'lemma')
    o = ctx.new(e, st, RD, [NAME])
    return e, st, o, rate, ch, fr


def r_ctor(bits):
    def f(ctx):
        e, st, o, rate, ch, fr = reader(ctx, bits)
        e.oblige('reading stops after the header', st, Z(st.ghost['pos']) == OVER[bits])
        for nm, v in (('rate', rate), ('channels', ch), ('bits', bits), ('frames', fr)):
            e.oblige('%s() is what was written' % nm, st, Z(ctx.method(e, st, o, RD, nm)) == v)
    return f


# ---------------------------------------------------------------- samples
CONV = {8: (128, 127, 0, 255), 16: (0, 32767, -32768, 32767)}     # offset, factor, lowest and highest code
GRID = z3.ArraySort(IS, IS, IS)


def close(bits, v, x):
    """v is a code at most half a step from the clipped sample x"""
    if bits == 32:
        return v == F2I(x)
    off, fac, lo, hi = CONV[bits]
    y = off + fac * x
    y = z3.If(y < lo, z3.RealVal(lo), z3.If(y > hi, z3.RealVal(hi), y))
    d = z3.ToReal(v) - y
    return z3.And(v >= lo, v <= hi, 2 * d <= 1, 2 * d >= -1)


def grid_contracts(e, st, bits, ch, what='items'):
    """the samples as frames and channels: the cursor (f, g) stands at channel g of frame f"""
    by = bits // 8
    g = st.ghost
    e.fold_defs = e.auto_int = False
    g['f'], g['g'] = z3.IntVal(0), z3.IntVal(0)
    g['items'] = z3.Const(fresh_name(what), GRID)

    def advance(g):
        nx = g['g'] + 1
        g['f'], g['g'] = z3.If(nx == ch, g['f'] + 1, g['f']), z3.If(nx == ch, z3.IntVal(0), nx)

    def wr(e, st, fr, obj, v):
        e.oblige('samples are written with the width of the format', st, cmp('==', v[1], by), 'pre')
        lo, hi = FIT[by]
        if by < 4:
            e.oblige('code is representable', st, z3.And(Z(v[0]) >= lo, Z(v[0]) <= hi), 'pre')
        g = st.ghost
        g['items'] = z3.Store(g['items'], g['f'], g['g'], Z(v[0]))
        advance(g)

    def rd(e, st, fr, obj, v):
        e.oblige('samples are read with the width of the format', st, cmp('==', v[0], by), 'pre')
        g = st.ghost
        r = g['items'][g['f'], g['g']]
        st.assume(r >= FIT[by][0], r <= FIT[by][1])
        advance(g)
        return r
    e.contracts['WriteWAV::writeLE'] = wr
    e.contracts['ReadWAV::readLE'] = rd


def before(f, g, f1, g1):
    return z3.Or(f < f1, z3.And(f == f1, g < g1))


def cursor_templates(ch):
    """the cursor after k iterations"""
    def T(lv):
        c = lambda st: (Z(st.ghost['f']), Z(st.ghost['g']))
        f0, g0 = c(lv.st0)
        return [('cursor inside a frame', lambda st, k: z3.And(c(st)[0] >= 0, c(st)[1] >= 0, c(st)[1] < ch)),
                ('one frame per iteration', lambda st, k: z3.And(c(st)[0] == f0 + k, c(st)[1] == g0)),
                ('one sample per iteration of a frame', lambda st, k: z3.And(k <= ch, z3.If(k < ch, z3.And(c(st)[0] == f0, c(st)[1] == g0 + k), z3.And(c(st)[0] == f0 + 1, c(st)[1] == 0)))),
                ('one sample per iteration', lambda st, k: c(st)[0] * ch + c(st)[1] == f0 * ch + g0 + k)]
    return T


def buffer(e, st, name='buf'):
    A = z3.Const(name, z3.ArraySort(IS, R))
    b = e.alloc(st, 'buf', Arr(('float', 64), None, {(): A}), None, ('arr', ('float', 64), None))
    return Ptr(b, z3.IntVal(0)), A


def strides(st, ch, dflt):
    num = z3.Int('num')
    stride = ch if dflt else z3.Int('stride')
    st.assume(num >= 0, stride >= ch, num * stride < 2**31, num < 2**31, stride < 2**31)
    st.assume(*mono(num, stride))
    return num, stride


def mono(num, s):
    """products of the stride below num*stride (discharged by the unit of lemmas)"""
    n = z3.Int(fresh_name('n'))
    return [z3.ForAll([n], z3.Implies(z3.And(n >= 0, n < num), z3.And(s * n >= 0, s * n + s <= num * s)), patterns=[s * n])]


def w_write(bits, dflt):
    def f(ctx):
        e, st, o, rate, ch = writer(ctx, bits)
        grid_contracts(e, st, bits, ch)
        num, stride = strides(st, ch, dflt)
        p, A = buffer(e, st)
        ctx.cover(st, 'any samples')
        a, b = z3.Ints('a b')

        def done(st):
            g = st.ghost
            return FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0, b < ch, before(a, b, g['f'], g['g'])), close(bits, g['items'][a, b], A[stride * a + b])), patterns=[g['items'][a, b]])
        e.templates.append(cursor_templates(ch))
        e.templates.append(lambda lv: [('samples written so far are close to the input', lambda st, k: done(st))])
        ctx.method(e, st, o, W, 'write', [p, num, -1 if dflt else stride])
        g = st.ghost
        e.oblige('all frames are written', st, z3.And(Z(g['f']) == num, Z(g['g']) == 0))
        i, j = e.fresh_int('n'), e.fresh_int('c')
        st.assume(i >= 0, i < num, j >= 0, j < ch)
        e.oblige('every code is at most half a step from the clipped sample' if bits < 32 else 'every sample is stored as its bits', st, close(bits, g['items'][i, j], A[stride * i + j]))
    return f


def w_silence(bits):
    def f(ctx):
        e, st, o, rate, ch = writer(ctx, bits)
        grid_contracts(e, st, bits, ch)
        num = z3.Int('num')
        st.assume(num >= 0, num < 2**31, num * ch >= 0, num * ch < 2**31)
        ctx.cover(st, 'any number of frames')
        zero = CONV[bits][0] if bits < 32 else 0
        a, b = z3.Ints('a b')
        e.templates.append(cursor_templates(ch))
        e.templates.append(lambda lv: [('samples written so far are silent', lambda st, k: FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0, b < ch, before(a, b, st.ghost['f'], st.ghost['g'])), st.ghost['items'][a, b] == zero), patterns=[st.ghost['items'][a, b]]))])
        ctx.method(e, st, o, W, 'silence', [num])
        g = st.ghost
        F, G = Z(g['f']), Z(g['g'])
        unique(e, st, F, G, num, z3.IntVal(0), ch)
        e.oblige('all frames are written', st, z3.And(F == num, G == 0))
        i, j = e.fresh_int('n'), e.fresh_int('c')
        st.assume(i >= 0, i < num, j >= 0, j < ch)
        e.oblige('every sample is silent', st, g['items'][i, j] == zero)
    return f


def unique(e, st, f, g, f1, g1, ch):
    """frame and channel are determined by the number of the sample"""
    x, y, u, v, c = z3.Ints('x y u v c')
    P = lambda x, y, u, v, c: z3.Implies(z3.And(y >= 0, y < c, v >= 0, v < c, x * c + y == u * c + v), z3.And(x == u, y == v))
    s = State()
    s.pc = [c >= 1]
    for d in (x < u, x > u):
        t = s.copy()
        t.assume(d)
        e.oblige('lemma: frame and channel are determined by the number of the sample', t, z3.Implies(z3.And(y >= 0, y < c, v >= 0, v < c), (u - x) * c != y - v), 'lemma')
    st.assume(P(f, g, f1, g1, ch))


def decode(bits, v):
    if bits == 32:
        return I2F(v)
    off, fac, lo, hi = CONV[bits]
    return z3.ToReal(v - off) / fac


def settle(e, st, o, known):
    """fields of the object in terms of the format where the solver confirms it; facts about the path are dropped"""
    v = e.read(st, o)
    for k, x in list(v.f.items()):
        if z3.is_expr(x) and z3.is_int(x):
            for c in known:
                if e.quick_valid(st, x == c, 2000):
                    v = v.set(k, c)
                    break
    e.write(st, o, v)


def r_read(bits, dflt):
    def f(ctx):
        e, st, o, rate, ch, frames = reader(ctx, bits)
        settle(e, st, o, [ch, rate, bits, bits // 8] + list(CONV.get(bits, (0, 1))[:2]))
        st.pc = domain_of(ctx, bits)
        e.htimeout = 12000
        grid_contracts(e, st, bits, ch)
        num, stride = strides(st, ch, dflt)
        a, b, n = z3.Ints('a b n')
        st.assume(z3.ForAll([a, n], z3.Implies(a < n, stride * a + stride <= stride * n), patterns=[z3.MultiPattern(stride * a, stride * n)]))
        p, A0 = buffer(e, st)
        ctx.cover(st, 'any buffer')
        buf = lambda st: st.store[p.lv.root].lf[()]
        items = st.ghost['items']

        def done(st):
            g = st.ghost
            return FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0, b < ch, before(a, b, g['f'], g['g'])), buf(st)[stride * a + b] == decode(bits, items[a, b])), patterns=[items[a, b]])

        def gaps(st):
            return FA([a, b], z3.Implies(z3.And(a >= 0, b >= ch, b < stride), buf(st)[stride * a + b] == A0[stride * a + b]), patterns=[A0[stride * a + b]])
        e.templates.append(cursor_templates(ch))
        e.templates.append(lambda lv: [('samples read so far are decoded', lambda st, k: done(st)), ('elements between frames are unchanged', lambda st, k: gaps(st))])
        ctx.method(e, st, o, RD, 'read', [p, num, -1 if dflt else stride])
        g = st.ghost
        e.oblige('all frames are read', st, z3.And(Z(g['f']) == num, Z(g['g']) == 0))
        i, j = e.fresh_int('n'), e.fresh_int('c')
        s = st.copy()
        s.assume(i >= 0, i < num, j >= 0, j < ch)
        e.oblige('every sample is decoded', s, buf(s)[stride * i + j] == decode(bits, items[i, j]))
        if not dflt:
            s = st.copy()
            s.assume(i >= 0, i < num, j >= ch, j < stride)
            e.oblige('elements between frames are unchanged', s, buf(s)[stride * i + j] == A0[stride * i + j])
    return f


def r_skip(bits):
    def f(ctx):
        e, st, o, rate, ch, frames = reader(ctx, bits)
        by, over = bits // 8, OVER[bits]
        f0, num = z3.Ints('f num')
        st.ghost['pos'] = over + f0 * ch * by
        st.assume(f0 >= 0, num >= 0, num * ch >= 0, num * ch * by < 2**31)
        ctx.cover(st, 'any frame')
        ctx.method(e, st, o, RD, 'skip', [num])
        e.oblige('skip moves to the frame num later', st, Z(st.ghost['pos']) == over + (f0 + num) * ch * by)
    return f


def lemmas(ctx):
    """what the units above assume about products, and what their conclusions amount to"""
    e = engine(ctx)
    st = ctx.state()
    n, m, num, s, ch, f, g, by = z3.Ints('n m num s ch f g by')
    for nm, hyp, goal in (('products with the stride grow with the frame', [s >= 1, m >= n + 1], s * (m - n) >= s),
                          ('products with the stride are not negative', [s >= 1, n >= 0], s * n >= 0)):
        t = st.copy()
        t.assume(*hyp)
        e.oblige('lemma: ' + nm, t, goal, 'lemma')
    # position of the cursor in the file
    t = st.copy()
    t.assume(ch >= 1, g >= 0, g < ch)
    pos = lambda f, g: (f * ch + g) * by
    f1, g1 = z3.If(g + 1 == ch, f + 1, f), z3.If(g + 1 == ch, 0, g + 1)
    e.oblige('the next sample follows directly behind the last one', t, pos(f1, g1) == pos(f, g) + by, 'lemma')
    x, v = z3.Real('x'), z3.Int('v')
    for bits in (8, 16):
        off, fac, lo, hi = CONV[bits]
        t = st.copy()
        t.assume(close(bits, v, x))
        c = z3.If(x < z3.Q(lo - off, fac), z3.Q(lo - off, fac), z3.If(x > z3.Q(hi - off, fac), z3.Q(hi - off, fac), x))
        d = decode(bits, v) - c
        e.oblige('%d bits: reading a close code yields the clipped sample within half a step' % bits, t, z3.And(2 * fac * d <= 1, 2 * fac * d >= -1))
        e.oblige('%d bits: reading silence yields zero' % bits, st, decode(bits, z3.IntVal(off)) == 0)


UNITS = [Unit('writeLE(v, %d)' % b, write_le(b), ['WriteWAV::writeLE']) for b in (1, 2, 4)] + [Unit('readLE(%d)' % b, read_le(b), ['ReadWAV::readLE']) for b in (1, 2, 4)]
UNITS += [Unit('WriteWAV(%d bits)' % b, w_ctor(b), ['WriteWAV::WriteWAV', 'WriteWAV::rate', 'WriteWAV::channels']) for b in BITS]
UNITS += [Unit('~WriteWAV (%d bits)' % b, w_dtor(b), ['WriteWAV::~WriteWAV']) for b in BITS]
UNITS += [Unit('ReadWAV (%d bits)' % b, r_ctor(b), ['ReadWAV::ReadWAV', 'ReadWAV::cmp4', 'ReadWAV::rate', 'ReadWAV::channels', 'ReadWAV::bits', 'ReadWAV::frames']) for b in BITS]
UNITS += [Unit('write (%d bits%s)' % (b, ', default stride' if d else ''), w_write(b, d), ['WriteWAV::write']) for b in BITS for d in (False, True)]
UNITS += [Unit('silence (%d bits)' % b, w_silence(b), ['WriteWAV::silence']) for b in BITS]
UNITS += [Unit('read (%d bits%s)' % (b, ', default stride' if d else ''), r_read(b, d), ['ReadWAV::read']) for b in BITS for d in (False, True)]
UNITS += [Unit('skip (%d bits)' % b, r_skip(b), ['ReadWAV::skip']) for b in BITS]
UNITS += [Unit('lemmas', lemmas, [])]
ASSUME = ['exact real arithmetic; nearbyint is within one half of its argument; conversion to single precision is not modelled',
          'streams: put and write store bytes at the position and advance it, get and read fetch them, seekp, seekg and tellp set, move and report it; no I/O error; the driver declares the stream classes in place of <fstream> (props/stream.py)',
          'a union member read after writing the other shows the same bits, and these determine the single precision value',
          'rate, channels >= 1 with fields representable: channels*bytes < 2^15, rate*channels*bytes < 2^31, file below 2^31 bytes, at least one frame when reading the header back',
          'num*stride < 2^31, stride >= channels, buffers do not overlap the file; accesses to buf are not checked for bounds',
          'the file of fields and the grid of samples are the byte file of the codec units: fields do not overlap because each is checked to be read and patched with the width it was written, and the lemma places sample (f, g) directly behind its predecessor',
          'the operating system returns on reading the bytes written']
NATIVE = 'P33'
