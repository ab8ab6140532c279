"""I01..I09: images, over FreeImage bitmaps."""
import itertools, math, random, struct
from .util import *
from .fimodel import BITMAP, answers
from .pix import *
from sa.ir import AnalysisError

IMG = 'lib/src/Image.cpp'
KEEPFI = [r'^FreeImage_']
FI = lambda n: n.startswith('FreeImage_')
IMPL = T('q', 'impl')
CELLS = ('image', 'format', 'colorSpace', 'bitsPerPixel', 'width', 'height', 'redMask', 'greenMask', 'blueMask', 'alphaMask',
         'redShift', 'greenShift', 'blueShift', 'alphaShift')
Q = {n: T('q', n) for n in CELLS}
W, H = Q['width'], Q['height']


class Im:
    """vocabulary for the state of an image: the members of the implementation of `*this`"""

    def __init__(self, ctx, keep=KEEPFI):
        self.ctx = ctx
        self.m = ctx.load(IMG, keep=keep, limit=2000)
        self.off = self.m.offsets('cuttlefish::Image::Impl')
        for n in ('image', 'format', 'colorSpace', 'width', 'height'):
            if n not in self.off:
                raise AnalysisError('Image::Impl has no member %s' % n)
        self.name = {v: k for k, v in self.off.items()}
        self.fe = self.m.enum('cuttlefish::Image::Format')
        self.cs = self.m.enum('cuttlefish::ColorSpace')
        self.formats = [f for f in self.fe if f in LAYOUT]
        missing = [f for f in self.fe if f not in LAYOUT and f != 'Invalid']
        if missing:
            raise AnalysisError('image formats without a storage model: ' + ', '.join(missing))

    def fns(self, name):
        """overloads of a member function that are defined here"""
        r = [f for f in self.m.find('cuttlefish::Image::%s(' % name, one=False) if not f.decl]
        if not r:
            raise AnalysisError('no definition of Image::' + name)
        return r

    def this(self, f):
        """index of the parameter holding `this` (behind a result passed by reference)"""
        ps = f.dem[f.dem.index('('):]
        return 1 if f.args and any('sret' in str(x) for x in (f.args[0] if isinstance(f.args[0], (list, tuple)) else [f.args[0]])) else 0

    def run(self, f, fmt=None, cs=None, this=0, a=None, facts=(), mem=None, bind=None, empty=False, consts=None, full=False):
        A = args(f)
        for k, v in (a or {}).items():
            A[k] = v
        c = dict(consts or {})
        if fmt:
            c['format'] = I(self.fe[fmt])
            for n, x in zip(('bitsPerPixel', 'redMask', 'greenMask', 'blueMask'), BITMAP[fmt][1:2] + BITMAP[fmt][3:]):
                c.setdefault(n, I(x))
        if cs:
            c['colorSpace'] = I(self.cs[cs])
        def onload(an, p, ty, st, t):
            if p is A[this] and ty == 'ptr':
                return NULL if empty else IMPL
            b, o, v = split_ptr(p)
            if b is IMPL and not v and o in self.name:
                n = self.name[o]
                return c.get(n) or Q[n]
        kinds = answers(BITMAP[fmt], Q['image']) if fmt else None
        def hook(an, i, dem, ar, st):
            r = bind(an, i, dem, ar, st) if bind else None
            if r is None and kinds:
                r = kinds(an, i, dem, ar, st)
            return r
        fs = list(facts)
        if not empty:
            fs.append(cmp('ne', IMPL, NULL))
        return Analysis(f, A, facts=fs, pure=CONST, keeps=FI, onload=onload, mem=mem, bind=hook)


def row_of(t):
    """(bitmap, row) when t is the start of a row of a bitmap"""
    if t.op == 'call' and t.a[0].split('(')[0] == 'FreeImage_GetScanLine':
        return t.a[2]
    return None


def cellref(p):
    """(row call, byte offset, column, stride) of an address inside a row"""
    b, o, v = split_ptr(p)
    if row_of(b) is None or len(v) > 1:
        return None
    if not v:
        return b, o, None, 0
    x, s = v[0]
    while x.op in ('zext', 'sext'):
        x = x.a[1]
    return b, o, x, s


def size_of(ty):
    return {'float': 4, 'double': 8, 'ptr': 8}.get(ty) or (bits(ty) or 0) // 8


def pixatoms(t):
    """loads of a term that read a row: {load: (row call, offset, column, stride, size)}"""
    r = {}
    for x in walk(t):
        if isinstance(x, Term) and x.op == 'load':
            c = cellref(x.a[0])
            if c:
                r[x] = c + (size_of(x.a[2]),)
    return r


_ty = {('n', 8): 'i8', ('n', 16): 'i16', ('u', 16): 'i16', ('s', 16): 'i16', ('u', 32): 'i32', ('s', 32): 'i32', ('f', 32): 'float', ('f', 64): 'double'}


def cells(fmt):
    """storage cells of a pixel: [(offset, IR type, [channels])]"""
    out = {}
    for ch, (o, enc, bo, w) in LAYOUT[fmt][1].items():
        ty = _ty[(enc, 16 if w < 8 else w)]
        out.setdefault((o, ty), []).append(ch)
    return [(o, ty, chs) for (o, ty), chs in sorted(out.items())]


def pixfn(t, fmt, at, extra=None):
    """the term as a function of the bytes of the pixel `at` = (row test, column) and of `extra` {atom: name}; None when unknown"""
    names = {}
    params = list((extra or {}).values())
    def atom(x):
        if extra and x in extra:
            return extra[x]
        if x.op == 'load':
            c = cellref(x.a[0])
            if c and (at is None or at(c[0], c[2])) and c[3] == LAYOUT[fmt][0] and 0 <= c[1] < c[3]:
                n = 'c%d_%s' % (c[1], x.a[2])
                names[n] = (c[1], x.a[2])
                if n not in params:
                    params.append(n)
                return n
        return None
    params2 = None
    try:
        lines, r = code(t, atom)
    except (Unknown, RecursionError):
        return None
    f = compile_term(t, atom, params)
    if f is None:
        return None
    k = len(extra or {})
    def call(px, *ex):
        v = []
        for n in params[k:]:
            o, ty = names[n]
            s = size_of(ty)
            b = bytes(px[o:o + s])
            v.append(struct.unpack('<f', b)[0] if ty == 'float' else struct.unpack('<d', b)[0] if ty == 'double' else int.from_bytes(b, 'little'))
        return f(*ex, *v)
    call.cells = sorted(set(names.values()))
    return call


def near(x, y, rel=1e-6):
    if x is None or y is None:
        return False
    if x != x or y != y:
        return x != x and y != y
    return x == y or abs(x - y) <= rel * max(1.0, abs(x), abs(y))


rnd = random.Random(1)
FLOATS = [0.0, 1.0, 0.5, -0.25, 2.0, 0.00313, 0.0404, 0.0032, 0.0406, 0.002, 0.03, 0.7, 123.5]


def pixels(fmt, n=24):
    """sample pixels"""
    out = []
    stride, ly = LAYOUT[fmt]
    fl = any(e == 'f' for _, e, _, _ in ly.values())
    for k in range(n):
        px = bytearray(rnd.randrange(256) for _ in range(stride))
        if k == 0: px = bytearray(stride)
        if k == 1 and not fl: px = bytearray([255] * stride)
        if fl:
            for o, e, bo, w in ly.values():
                v = FLOATS[k % len(FLOATS)] if k < len(FLOATS) else rnd.choice([rnd.random(), rnd.random(), rnd.uniform(0, 4)])
                if k >= len(FLOATS) // 2: v = rnd.choice(FLOATS + [rnd.random()])
                struct.pack_into('<f' if w == 32 else '<d', px, o, v)
        out.append(px)
    return out


# ---------------------------------------------------------------- I01
def readcheck(t, fmt, c, at):
    """does the term read channel c of the pixel?  True, a witness, or None"""
    ly = LAYOUT[fmt][1]
    want = 'v' if 'v' in ly and c != 'a' else c
    at_ = pixatoms(t)
    for x, (b, o, col, st, sz) in at_.items():
        if at and not at(b, col):
            return None
        if st != LAYOUT[fmt][0]:
            return 'pixels of %d bytes are addressed in steps of %d' % (LAYOUT[fmt][0], st)
        if o < 0 or o + sz > st:
            return 'reads byte %d of a pixel of %d bytes' % (o + sz - 1, st)
    idx = 'rgba'.index(c)
    if want not in ly:
        v = 1.0 if c == 'a' else 0.0
        if t.op == 'f':
            return True if t.a[0] == v else 'reads as %r instead of %r' % (t.a[0], v)
    f = pixfn(t, fmt, at)
    if f is None:
        return None
    exact = False
    if want in ly:
        off, enc, bo, w = ly[want]
        if len(at_) == 1 and bits(f.cells[0][1]) and bits(f.cells[0][1]) <= 16:
            (x, (_, o, _, _, sz)), = at_.items()
            if o == off and sz * 8 == max(w, 16 if bo or w < 8 else 8):
                r = readcell(t, x, enc, w, bo)
                if r is not None:
                    return r
        elif enc in 'us' and w == 32:
            exact = t.op == ('sitofp' if enc == 's' else 'uitofp') and t.a[1] in at_ and t.a[0] == 'double'
        elif enc == 'f':
            exact = t in at_ or t.op == 'fpext' and t.a[1] in at_
    elif not f.cells:
        exact = True
    for px in pixels(fmt):
        v = f(px)
        e = decode(fmt, px)[idx]
        if not near(v, e, 1e-12):
            return 'the pixel %s reads as %r instead of %r' % (px.hex(), v, e)
    return True if exact else None


_rd = {}


def readcell(t, x, enc, w, bo):
    """every value of the cell x decoded by t: True, a witness, or None"""
    q = T('q', 'v')
    k = rebuild(t, lambda y: q if y is x else y)
    key = (k, enc, w, bo, x.a[2])
    if key not in _rd:
        n = bits(x.a[2])
        f = compile_term(t, lambda y: 'v' if y is x else None, ['v'])
        r = None
        if f:
            r = True
            m = (1 << w) - 1
            for v in range(1 << n):
                raw = v >> bo & m
                if enc == 's' and raw >> w - 1:
                    raw -= 1 << w
                e = raw / m if enc == 'n' else float(raw)
                g = f(v)
                if g != e and not near(g, e, 1e-12):
                    r = 'the stored value %d reads as %r instead of %r' % (v, g, e)
                    break
        _rd[key] = r
    return _rd[key]


_enc = {}


def writecheck(t, v, enc, w, bo=0):
    """does the term store v as a value of that encoding?  True, a witness, or None"""
    key = (noep(rebuild(t, lambda x: T('q', 'v') if x is v else x)), enc, w, bo)
    if key in _enc:
        return _enc[key]
    t = key[0]; v = T('q', 'v')
    r = _enc[key] = _write(t, v, enc, w, bo)
    return r


def _write(t, v, enc, w, bo):
    if enc == 'f':
        x = t
        if w == 32 and x.op == 'fptrunc':
            x = x.a[1]
        if x is v:
            return True
        f = compile_term(t, lambda x: 'v' if x is v else None, ['v'])
        if f is None:
            return None
        for s in FLOATS + [-7.5, 1e10, 1e-10]:
            if not near(f(s), s, 1e-6):
                return 'stores %r for %r' % (f(s), s)
        return None
    f = compile_term(t, lambda x: 'v' if x is v else None, ['v'])
    if f is None:
        return None
    m = (1 << w) - 1
    if enc == 'n':
        pts = [-1.0, -1e-9, 0.0, 1.0, 1.0 + 1e-9, 2.0, 1e30, -1e30, math.inf, -math.inf]
        pts += [k / m for k in range(m + 1)]
        for k in range(m):
            b = (k + 0.5) / m
            pts += [b - 1e-10, b + 1e-10]
    else:
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if enc == 's' else (0, m)
        pts = [float(lo), float(hi), lo - 1.0, hi + 1.0, lo * 2.0 - 5, hi * 2.0 + 5, 1e30, -1e30, math.inf, -math.inf, 0.0, 1.0, -1.0, 0.5, 100.25]
        pts += [float(x) for k in range(w) for x in (1 << k, (1 << k) - 1, -(1 << k))]
        if w <= 16:
            pts += [float(x) for x in range(lo, hi + 1)]
    dummy = {('n', 8): 'Gray8', ('n', 16): 'Gray16', ('s', 16): 'Int16', ('u', 16): 'UInt16', ('s', 32): 'Int32', ('u', 32): 'UInt32'}.get((enc, w))
    for s in pts:
        got = f(s)
        if got is None:
            return 'the conversion of %r to an integer is undefined' % s
        g = got >> bo
        if got & ((1 << bo) - 1):
            return '%r sets bits below bit %d' % (s, bo)
        if enc == 's':
            g = g - (1 << w) if g >> w - 1 & 1 else g
        a, b = (math.ceil(min(max(s, 0.0), 1.0) * m - 0.5 - 1e-6), math.floor(min(max(s, 0.0), 1.0) * m + 0.5 + 1e-6)) if enc == 'n' else encode_range(dummy, 'v', s)
        if enc == 'n' and s > 1e29: a = b = m
        if not a <= g <= b:
            return '%r is stored as %d instead of %d' % (s, g, a)
    if f(math.nan) is None:
        return 'the conversion of a NaN to an integer is undefined'
    body = t
    while body.op in ('zext', 'trunc', 'shl') :
        body = body.a[1]
    if monotone(body, v) is True and (enc == 'n' or w <= 16 or body.op in ('fptosi', 'fptoui')):
        return True
    return None


def parts(t):
    """operands of a combination of bit fields"""
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.op in ('or', 'add') and isinstance(x.a[0], int):
            st += [x.a[1], x.a[2]]
        elif x.op in ('zext', 'trunc') and x.a[1].op in ('or', 'add', 'zext', 'trunc'):
            st.append(x.a[1])
        elif x.op == 'shl' and x.a[1].op == 'or':
            st += [T('shl', x.a[0], x.a[1].a[1], x.a[2]), T('shl', x.a[0], x.a[1].a[2], x.a[2])]
        else:
            out.append(x)
    return out


def result_state(a, want=None):
    """(value, event) of the only return"""
    rs = [(v, e) for v, e in a.rets()]
    return rs[0] if len(rs) == 1 else None


def rowcalls(a):
    return [e for e in a.calls(lambda n: n and n.startswith('FreeImage_GetScanLine')) if a.reachable(e.block)]


def i01(ctx):
    ctx.rule('read', 'for every format, each channel getPixel() answers is the channel the bitmap stores at that place, scaled to its range; channels '
                     'the format lacks read as 0, alpha as 1 (decided for every value of the stored cell)')
    ctx.rule('write', 'for every format, setPixel() stores each channel into the very cell getPixel() reads it from, with the inverse scaling rounded to '
                      'nearest and clamped, and greyscale formats store the luminance when asked to')
    ctx.rule('extent', 'setPixel() writes nothing but the cells of the pixel')
    v = Im(ctx)
    f, = v.fns('getPixel')
    A = args(f)
    ctx.fn(f)
    for fmt in v.formats:
        a = v.run(f, fmt, facts=[cmp('ult', A[2], W), cmp('ult', A[3], H)])
        r = result_state(a)
        at = lambda b, col: col is A[2]
        if r is None:
            ctx.und('read', fmt, f.dem, 'more than one return')
            continue
        rv, e = r
        for k, c in enumerate('rgba'):
            t = noep(a.load(ptr(A[1], 8 * k), 8, 'double', e.st, e.i))
            if t.op == 'load' and root(t.a[0]) is A[1]:
                ctx.check(False if rv.op == 'int' else None, 'read', '%s %s' % (fmt, c), e.where(), 'channel %s of a %s pixel is not set' % (c, fmt))
                continue
            w = readcheck(t, fmt, c, at)
            ctx.check(True if w is True else None if w is None else False, 'read', '%s %s' % (fmt, c), e.where(),
                      'channel %s of %s: %s' % (c, fmt, w or show(t)))
        ctx.check(True if rv is TRUE or rv.op == 'int' and rv.a[0] == 1 else False if rv.op == 'int' else None, 'read', fmt + ' result', e.where(),
                  'getPixel() inside a %s image answers %s' % (fmt, show(rv)))
    f, = v.fns('setPixel')
    ctx.fn(f)
    A = args(f)
    col = {c: T('load', ptr(A[3], 8 * k), 0, 'double') for k, c in enumerate('rgba')}
    for fmt in v.formats:
        for conv in (0, 1):
            for cs in ('Linear', 'sRGB') if conv and fmt in GREY else ('Linear',):
                a = v.run(f, fmt, cs=cs, a={4: I(conv, 1)}, facts=[cmp('ult', A[1], W), cmp('ult', A[2], H)])
                tag = fmt + (' grey' if conv else '') + (' sRGB' if cs == 'sRGB' else '')
                wrpixel(ctx, a, fmt, tag, A[1], col, conv, cs)
    ctx.floor('read', 40)
    ctx.floor('write', 40)


WEIGHTS = (0.2126, 0.7152, 0.0722)


def lin(c):
    return c / 12.92 if c <= 0.04045 else ((c + 0.055) / 1.055) ** 2.4


def srgb(c):
    return c * 12.92 if c <= 0.0031308 else 1.055 * c ** (1 / 2.4) - 0.055


def grey(r, g, b):
    return r * WEIGHTS[0] + g * WEIGHTS[1] + b * WEIGHTS[2]


COLORS = [(0, 0, 0), (1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0.25, 0.5, 0.75), (0.9, 0.1, 0.3), (0.02, 0.6, 0.01)] + \
         [tuple(rnd.random() for _ in range(3)) for _ in range(24)]


def wrpixel(ctx, a, fmt, tag, x, col, conv, cs):
    """one format of setPixel()"""
    stride, ly = LAYOUT[fmt]
    r = result_state(a)
    rows = rowcalls(a)
    if r is None or len(rows) != 1:
        ctx.und('write', tag, a.fn.dem, 'more than one return or row')
        return
    rv, e = r
    base = rows[0].val
    zx = cast('zext', 'i64', x)
    touched = set()
    odd = False
    for s in a.events:
        if s.i.op == 'store' and a.reachable(s.block) and root(s.args[1]) is base:
            c = cellref(s.args[1])
            sz = size_of(s.i.get('vty') or '') or None
            if c is None or c[2] is not x or c[3] != stride:
                if c and c[3] and c[3] != stride and c[2] is x:
                    ctx.bad('extent', tag, s.where(), 'pixels of %d bytes are addressed in steps of %d' % (stride, c[3]))
                else:
                    ctx.und('extent', tag, s.where(), 'address not understood')
                odd = True
                continue
            if c[1] >= stride or c[1] < 0:
                ctx.bad('extent', tag, s.where(), 'byte %d of a pixel of %d bytes is written' % (c[1], stride))
                odd = True
                continue
            touched.add(c[1])
    if odd:
        return
    ctx.ok('extent', tag, rows[0].where(), '')
    for off, ty, chs in cells(fmt):
        sz = size_of(ty)
        t = noep(a.load(ptr(base, off, ((zx, stride),)), sz, ty, e.st, e.i))
        if t.op == 'load' and root(t.a[0]) is noep(base):
            ctx.check(False if not touched & set(range(off, off + sz)) else None, 'write', tag + ' ' + ''.join(chs), e.where(),
                      'setPixel() of a %s image does not store channel %s' % (fmt, '/'.join(chs)))
            continue
        if t.op == 'vec' or t is UNDEF:
            ctx.und('write', tag + ' ' + ''.join(chs), e.where(), show(t))
            continue
        if chs == ['v'] and conv and fmt in GREY:
            greywrite(ctx, t, fmt, tag, col, cs, e)
            continue
        ps = parts(t) if len(chs) > 1 else [t]
        src = {}
        for p in ps:
            at = [c for c in 'rgba' if col[c] in walk(p)]
            src.setdefault(at[0] if len(at) == 1 else None, []).append(p)
        for ch in chs:
            _, enc, bo, w = ly[ch]
            want = 'r' if ch == 'v' else ch
            key = tag + ' ' + ch
            if len(chs) == 1:
                at = [c for c in 'rgba' if col[c] in walk(t)]
                if at and want not in at:
                    ctx.bad('write', key, e.where(), 'channel %s of a %s image takes the value of channel %s' % (ch, fmt, '/'.join(at)))
                    continue
                res = writecheck(t, col[want], enc, w, bo) if at == [want] or not at else None
            elif None not in src and len(src.get(want, ())) == 1:
                res = writecheck(src[want][0], col[want], enc, w, bo)
            else:
                res = packed(t, fmt, ch, col)
            ctx.check(True if res is True else None if res is None else False, 'write', key, e.where(),
                      'channel %s of %s: %s' % (ch, fmt, res or show(t)))
    ctx.check(True if rv.op == 'int' and rv.a[0] == 1 else False if rv.op == 'int' else None, 'write', tag + ' result', e.where(),
              'setPixel() inside a %s image answers %s' % (fmt, show(rv)))


def packed(t, fmt, ch, col):
    """sampled comparison of one field of a packed cell"""
    f = compile_term(t, lambda x: next((c for c in 'rgba' if col[c] is x), None), list('rgba'))
    if f is None:
        return None
    _, enc, bo, w = LAYOUT[fmt][1][ch]
    for c in COLORS:
        got = f(c[0], c[1], c[2], 1.0)
        if got is None:
            return 'the conversion of %s to integers is undefined' % (c,)
        lo, hi = encode_range(fmt, ch, c['rgb'.index(ch)])
        if not lo <= got >> bo & (1 << w) - 1 <= hi:
            return 'the colour %s is stored as %d instead of %d' % (tuple(round(x, 4) for x in c), got >> bo & (1 << w) - 1, lo)
    return None


def greywrite(ctx, t, fmt, tag, col, cs, e):
    """a greyscale cell written with the luminance of the colour"""
    _, enc, bo, w = LAYOUT[fmt][1]['v']
    f = compile_term(t, lambda x: next((c for c in 'rgba' if col[c] is x), None), list('rgba'))
    if f is None:
        ctx.und('write', tag + ' v', e.where(), 'not understood: ' + show(t))
        return
    for c in COLORS:
        g = grey(*c) if cs == 'Linear' else srgb(grey(*[lin(x) for x in c]))
        got = f(c[0], c[1], c[2], 0.5)
        if enc == 'f':
            good = near(got, g, 1e-5)
        else:
            lo, hi = encode_range(fmt, 'v', g)
            good = got is not None and lo <= got <= hi
        if not good:
            ctx.bad('write', tag + ' v', e.where(), 'the %s luminance of %s is stored as %s instead of %s' % (cs, tuple(round(x, 4) for x in c), got, g if enc == 'f' else lo))
            return
    if cs == 'Linear':
        # the luminance is one linear form of the three channels: it takes over the role of the channel value
        lum = [x for x in walk(t) if isinstance(x, Term) and all(col[c] in walk(x) for c in 'rgb') and x.op in ('fadd', 'call') and (x.op == 'fadd' or callname(x)[0] in ('fmuladd', 'fma'))]
        lum = [x for x in lum if not any(y is not x and y in walk(x) for y in lum)]
        res = None
        if len(lum) == 1:
            res = writecheck(t, lum[0], enc, w, bo)
        ctx.check(True if res is True else None if res is None else False, 'write', tag + ' v', e.where(), res or 'agrees on samples only')
    else:
        ctx.ok('write', tag + ' v', e.where(), 'luminance in linear space on %d sample colours' % len(COLORS))


# ---------------------------------------------------------------- I02
DIMS = {'FreeImage_AllocateT': (1, 2), 'FreeImage_Allocate': (0, 1), 'FreeImage_Rescale': (1, 2), 'FreeImage_AllocateExT': (1, 2)}
SAMESIZE = ('FreeImage_Clone', 'FreeImage_ConvertTo')


def dims_of(b, depth=0):
    """(width, height) of a bitmap"""
    b = noep(b)
    if b is Q['image']:
        return W, H
    if b.op == 'call':
        n = b.a[0].split('(')[0]
        if n in DIMS:
            i, j = DIMS[n]
            return b.a[2][i], b.a[2][j]
        if n.startswith(SAMESIZE) and b.a[2]:
            return dims_of(b.a[2][0], depth + 1)
    if b.op == 'ite' and depth < 6:
        x, y = dims_of(b.a[1], depth + 1), dims_of(b.a[2], depth + 1)
        return x if x == y else None
    return None


def dimfold(t):
    """the term with the size queries of bitmaps of known size answered"""
    def f(x):
        if x.op == 'call' and x.a[2]:
            n = x.a[0].split('(')[0]
            if n in ('FreeImage_GetWidth', 'FreeImage_GetHeight'):
                d = dims_of(x.a[2][0])
                if d:
                    return d[n.endswith('Height')]
        if x.op == 'xor' and x.a[2].op == 'int' and sval(x.a[2]) == -1 and x.a[0] > 1:
            return binop('sub', x.a[0], I(-1, x.a[0]), x.a[1])
        return x
    return rebuild(noep(t), f)


def inside(idx, N, facts, an, depth=0):
    """is idx < N under the facts?  True, a witness, or None"""
    fs = set(facts.s) if hasattr(facts, 's') else set(facts)
    def known(c):
        return c in fs or facts.decide(c) is True
    w = width(idx) or width(N) or 32
    if known(cmp('ult', idx, N)):
        return True
    low = [c.a[1] for c in fs if c.op == 'cmp' and c.a[0] == 'ult' and c.a[2] is N]
    if idx.op == 'ite' and depth < 6:
        c, x, y = idx.a
        rs = [inside(x, N, facts.add(c), an, depth + 1), inside(y, N, facts.add(c, False), an, depth + 1)]
        return True if all(r is True for r in rs) else None
    if idx.op == 'int' and idx.a[0] == 0 and low:
        return True
    for y in low:
        if y is idx:
            return True
        one = I(1, w)
        for cand in (binop('sub', w, binop('sub', w, N, y), one), binop('sub', w, binop('sub', w, N, one), y), binop('add', w, N, binop('xor', w, y, I(-1, w)))):
            if cand is idx or same_lin(cand, idx):
                return True
        last = binop('sub', w, N, one)
        if idx is last or same_lin(idx, last):
            return True
        if same_lin(idx, binop('add', w, y, one)) and any(facts.decide(cmp('ne', y, l)) is True for l in (last, binop('add', w, N, I(-1, w)))):
            return True
        if same_lin(idx, binop('sub', w, y, one)) and facts.decide(cmp('ne', y, I(0, w))) is True:
            return True
        if facts.decide(cmp('ule', idx, y)) is True:
            return True
    for c in fs:
        if c.op == 'cmp' and c.a[0] == 'ult' and c.a[1] is idx:
            b = c.a[2]
            if b.op == 'umin' and N in b.a:
                return True
            if b.op == 'ite' and N in (b.a[1], b.a[2]):
                # x < n ? x : n
                k, x, y = b.a
                if k.op == 'cmp' and k.a[0] in ('ult', 'ule') and {k.a[1], k.a[2]} == {x, y} and k.a[1] is x:
                    return True
    # counting down
    for iv in getattr(an, 'ivinfo', {}):
        af = affine(an, iv)
        if af and af[2] < 0 and iv in walk(idx):
            if dimfold(af[1]) is N and same_lin(idx, binop('sub', w, iv, I(1, w))) and facts.decide(cmp('ne', iv, I(0, w))) is True and af[2] == -1:
                return True
    return witness(idx, N, fs, an)


def atoms_of(*ts):
    return {x for t in ts for x in walk(t) if isinstance(x, Term) and x.op in ('q', 'iv', 'arg', 'phi', 'memphi')}


def witness(idx, N, fs, an):
    """values of the sizes and counters for which idx >= N; only counters that run upwards from a known start are given values"""
    ats = atoms_of(idx, N)
    fs = [dimfold(c) for c in fs]
    cons = []
    ivs = set()
    todo = list(ats)
    while todo:
        x = todo.pop()
        if x.op in ('phi', 'memphi') or len(ats) > 7:
            return None
        if x.op == 'iv' and x not in ivs:
            ivs.add(x)
            af = affine(an, x)
            if not af or af[2] != 1:
                return None
            init = dimfold(af[1])
            cons.append(cmp('ule', init, x))
            for y in atoms_of(init):
                if y not in ats:
                    ats.add(y); todo.append(y)
    for c in fs:
        if any(x in ats and x.op in ('iv', 'arg') for x in walk(c) if isinstance(x, Term)) or atoms_of(c) and all(x.op == 'q' for x in atoms_of(c)):
            cons.append(c)
            for y in atoms_of(c):
                if y not in ats:
                    ats.add(y); todo.append(y)
                    if y.op not in ('q', 'arg'):
                        if y.op != 'iv' or not affine(an, y):
                            return None
    ats = sorted(ats, key=tid)
    if not ats or len(ats) > 6:
        return None
    names = {x: 'a%d' % k for k, x in enumerate(ats)}
    fn = [compile_term(t, names.get, list(names.values())) for t in cons]
    fi, fN = compile_term(idx, names.get, list(names.values())), compile_term(N, names.get, list(names.values()))
    if None in fn or fi is None or fN is None:
        return None
    for vals in itertools.product((1, 2, 0, 3, 4) if len(ats) < 6 else (1, 2, 0, 4), repeat=len(ats)):
        if any(x in (W, H) and n == 0 for x, n in zip(ats, vals)):
            continue
        ok = True
        for f in fn:
            c = f(*vals)
            if c is None:
                return None
            if not c:
                ok = False
                break
        if not ok:
            continue
        u, n = fi(*vals), fN(*vals)
        if u is not None and n is not None and u >= n:
            return 'index %d of %d for %s' % (u if u < 1 << 31 else u - (1 << 32), n, ', '.join('%s=%d' % (show(k), x) for k, x in zip(ats, vals)))
    return None


def opruns(v, quick=True):
    """(name, analysis) of every operation that walks over pixels, in representative configurations"""
    pick = ['Gray8', 'RGB565', 'RGB8', 'RGBA16', 'RGBAF', 'Double', 'Complex'] if quick else v.formats
    for op in ('preMultiplyAlpha', 'changeColorSpace', 'grayscale', 'swizzle', 'rotate', 'resize', 'convert', 'createNormalMap'):
        for f in v.fns(op):
            for fmt in pick:
                for dst in ([None] if op not in ('convert', 'createNormalMap') else ['RGBAF', 'Gray8', 'UInt16', 'Complex'] if quick else v.formats):
                    if dst == fmt and op == 'convert':
                        continue
                    if op == 'resize':
                        if fmt in ('RGB5', 'RGB565'):
                            continue      # their pixels are touched by convert()
                        # the conversion to linear space and back around it is another call of resize()
                        for fl, n in sorted(v.m.enum('cuttlefish::Image::ResizeFilter').items(), key=lambda p: p[1]):
                            yield op + ' ' + fl, fmt, dst, f, oprun(v, f, op, fmt, dst, a={4: I(n)}, cs='Linear')
                        continue
                    yield op, fmt, dst, f, oprun(v, f, op, fmt, dst)


def oprun(v, f, op, fmt, dst=None, a=None, **kw):
    """an operation on an image of one format, into an image of another"""
    this = 1 if op in ('rotate', 'resize', 'convert', 'createNormalMap') else 0
    a = dict(a or {})
    if dst:
        k = {'convert': 2, 'createNormalMap': 4}[op]
        a.setdefault(k, I(v.fe[dst]))
    kinds = answers(BITMAP[dst or fmt])
    src = answers(BITMAP[fmt], Q['image'])
    def bind(an, i, dem, ar, st):
        return src(an, i, dem, ar, st) or kinds(an, i, dem, ar, st)
    return v.run(f, fmt, this=this, a=a, bind=bind, **kw)


def i02(ctx):
    ctx.rule('outside', 'under x >= width or y >= height, getPixel(), setPixel() and scanline() answer false or null and neither ask for a row, read one nor write '
                        'one, nor set the result')
    ctx.rule('row', 'inside the image they address row height-1-y of the image\'s own bitmap (bitmaps are stored bottom row first), and answer true or that row')
    ctx.rule('bounds', 'every row and every column that an operation addresses is below the height and the width of the bitmap it belongs to')
    v = Im(ctx)
    for name, xi, yi in (('getPixel', 2, 3), ('setPixel', 1, 2), ('scanline', None, 1)):
        for f in v.fns(name):
            ctx.fn(f)
            A = args(f)
            tag = name + (' const' if f.dem.endswith(' const') and name == 'scanline' else '')
            for fmt in (v.formats if xi else ['RGBA8']):
                outs = [('y', [notc(cmp('ult', A[yi], H))] + ([cmp('ult', A[xi], W)] if xi else []))]
                if xi:
                    outs.append(('x', [notc(cmp('ult', A[xi], W)), cmp('ult', A[yi], H)]))
                for axis, facts in outs:
                    a = v.run(f, fmt, facts=facts)
                    key = '%s %s %s' % (tag, fmt, axis)
                    bad = None
                    for e in a.events:
                        if not a.reachable(e.block):
                            continue
                        if e.i.op in ('load', 'store'):
                            p = e.args[0] if e.i.op == 'load' else e.args[1]
                            r = root(p)
                            if row_of(r) is not None or e.i.op == 'store' and name == 'getPixel' and r is A[1]:
                                bad = e
                                break
                    if bad is not None:
                        # only a definite path counts
                        ctx.check(False if certain(a, bad) else None, 'outside', key, bad.where(), 'outside the image (%s too large) %s still %s' % (
                            axis, name, 'reads or writes the row' if row_of(root(bad.args[0] if bad.i.op == 'load' else bad.args[1])) else 'sets the result'))
                        continue
                    ls = retleaves(a)
                    good = all(x is NULL or x.op == 'int' and x.a[0] == 0 for x in ls)
                    wrong = [x for x in ls if x.op == 'int' and x.a[0] == 1 or row_of(x) is not None]
                    ctx.check(True if good else False if len(ls) == 1 and wrong else None, 'outside', key, f.dem, 'outside the image %s answers %s' % (name, ', '.join(show(x, 4) for x in ls)))
                edge(ctx, v, f, name, tag, fmt, xi, yi)
                a = v.run(f, fmt, facts=[cmp('ult', A[yi], H)] + ([cmp('ult', A[xi], W)] if xi else []))
                rows = rowcalls(a)
                key = '%s %s' % (tag, fmt)
                if len({noep(e.val) for e in rows}) != 1:
                    ctx.und('row', key, f.dem, '%d rows' % len(rows))
                    continue
                b, r = rows[0].args[:2]
                want = binop('sub', 32, binop('sub', 32, H, A[yi]), I(1))
                envs = [{H: h, A[yi]: y, W: 3} for h in (1, 2, 5) for y in range(h)]
                j = judge(dimfold(r), dimfold(want), envs)
                ctx.check(True if j is True else False if j else None, 'row', key, rows[0].where(), 'row %s: %s' % (show(r), j))
                ctx.check(True if b is Q['image'] else None, 'row', key + ' bitmap', rows[0].where(), 'bitmap %s' % show(b))
                if name == 'scanline':
                    ls = retleaves(a)
                    ctx.check(True if ls == [rows[0].val] else None if any(row_of(x) is None and x is not NULL for x in ls) else False, 'row', key + ' result', f.dem,
                              'inside the image scanline() answers %s' % ', '.join(show(x, 4) for x in ls))
    for op, fmt, dst, f, a in opruns(v, ctx.tier == 'quick'):
        ctx.fn(f)
        bounds(ctx, a, '%s %s%s' % (op, fmt, ' ' + dst if dst else ''))
    ctx.floor('outside', 30)
    ctx.floor('row', 20)
    ctx.floor('bounds', 20)


def edge(ctx, v, f, name, tag, fmt, xi, yi):
    """constant sizes and coordinates at the ends of their ranges"""
    top = 2**32 - 1
    for w, h in ((3, 2), (1, 1)):
        for x in (0, w - 1, w, w + 1, 2**31, top - 1, top) if xi else (0,):
            for y in (0, h - 1, h, h + 1, 2**31 - 1, 2**31, top - 1, top):
                if xi and x >= w and y >= h and (x, y) not in ((w, h), (top, top)):
                    continue
                a = v.run(f, fmt, a={k: I(n) for k, n in ((xi, x), (yi, y)) if k}, consts={'width': I(w), 'height': I(h)})
                inside = x < w and y < h
                key = '%s %s at %s of %dx%d' % (tag, fmt, '%d, %d' % (x, y) if xi else 'row %d' % y, w, h)
                ls = retleaves(a)
                yes = [t for t in ls if t.op == 'int' and t.a[0] == 1 or row_of(t) is not None]
                no = [t for t in ls if t is NULL or t.op == 'int' and t.a[0] == 0]
                ctx.check(True if ls and len(yes if inside else no) == len(ls) else False if ls and len(no if inside else yes) == len(ls) else None, 'outside', key, f.dem,
                          '%s answers %s' % (name, ', '.join(show(t, 4) for t in ls)))
                if inside:
                    r = rowcalls(a)
                    ctx.check(None if len({noep(e.val) for e in r}) != 1 or r[0].args[1].op != 'int' else r[0].args[1] is I(h - 1 - y), 'row', key, f.dem, 'row %s of the bitmap is addressed' % (show(r[0].args[1]) if r else '-'))


def certain(a, e):
    """is the event reached under nothing but conditions on the request itself?  (always true for the straight-line
    code of the accessors; conditions on library answers make it uncertain)"""
    for c in e.st.facts.s:
        if any(isinstance(x, Term) and (x.op == 'call' or x.op == 'load' and row_of(root(x.a[0]))) for x in walk(c)):
            return False
    return True


def folded(facts):
    return [dimfold(c) for c in facts.s]


def bounds(ctx, a, tag):
    seen = {}
    for e in a.events:
        if not a.reachable(e.block):
            continue
        if iscall(e, 'FreeImage_GetScanLine'):
            b, idx = e.args[:2]
            d = dims_of(b)
            what, k, N = 'row', (noep(b), noep(idx)), d and d[1]
        elif e.i.op in ('load', 'store'):
            c = cellref(e.args[0] if e.i.op == 'load' else e.args[1])
            if not c or c[2] is None:
                continue
            b = row_of(c[0])[0]
            d = dims_of(b)
            what, idx, k, N = 'column', c[2], (noep(b), noep(c[2])), d and d[0]
        else:
            continue
        key = '%s %s %s' % (tag, what, show(noep(idx), 4))
        if (what, k, e.block) in seen:
            continue
        seen[(what, k, e.block)] = 1
        if N is None:
            ctx.und('bounds', key, e.where(), 'size of %s not known' % show(b, 4))
            continue
        N = dimfold(N)
        fs = Facts()
        for c in folded(a.instate[e.block].facts) + folded(e.st.facts if e.st else a.instate[e.block].facts):
            fs = fs.add(c)
        r = inside(dimfold(idx), N, fs, a)
        ctx.check(True if r is True else False if r else None, 'bounds', key, e.where(), '%s %s: %s' % (what, show(noep(idx), 5), r or 'not bounded by ' + show(N, 5)))


# ---------------------------------------------------------------- pixel maps: what a loop stores into a pixel, given what it read
class Pix:
    pass


def outpixels(a, fmt):
    """the pixels of that format an analysed function writes: one record per (row, column) written in a block region"""
    groups = {}
    odd = []
    stride = LAYOUT[fmt][0]
    for e in a.events:
        if e.i.op == 'store' and a.reachable(e.block):
            r = root(e.args[1])
            if row_of(r) is None:
                continue
            c = cellref(e.args[1])
            if c is None or c[2] is None or c[3] != stride:
                odd.append(e)
                continue
            groups.setdefault((c[0], c[2]), []).append((e, c))
    out = []
    for (b, col), es in groups.items():
        p = Pix()
        p.base, p.col = b, col
        p.events = [e for e, _ in es]
        p.bitmap, p.row = row_of(b)[:2]
        p.where = es[0][0].where()
        p.block = es[-1][0].block
        p.cells = {}
        p.stray = [(e, c) for e, c in es if not 0 <= c[1] < stride]
        st, i = endstate(a, [e for e, _ in es])
        p.state = st
        zx = cast('zext', 'i64', col)
        for off, ty, chs in cells(fmt):
            t = noep(a.load(ptr(b, off, ((zx, stride),)), size_of(ty), ty, st, i)) if st else None
            p.cells[off, ty] = t
        out.append(p)
    return out, odd


def endstate(a, es):
    """state after the stores: at the end of the innermost loop around them"""
    best = None
    for h, body in a.fn.loops.items():
        if all(e.block in body for e in es) and (best is None or len(body) < len(a.fn.loops[best])):
            best = h
    if best is None:
        rs = [e for _, e in a.rets()]
        return (rs[0].st, rs[0].i) if len(rs) == 1 else (None, None)
    latches = [p for p in a.fn.blocks[best].preds if (p, best) in a.exec_edges and p in a.fn.loops[best]]
    if len(latches) != 1:
        return None, None
    return a.edge_state[(latches[0], best)], a.fn.blocks[latches[0]].insts[-1]


def written(p, key):
    """the new value of a cell, None when the loop leaves it as it is"""
    t = p.cells[key]
    if t is not None and t.op == 'load' and cellref(t.a[0]) and noep(root(t.a[0])) is noep(p.base):
        c = cellref(t.a[0])
        if c[1] == key[0] and c[2] is p.col:
            return None
    return t


def iterations(a, block, env, most=4096):
    """the iterations in which a block runs: the list of assignments env + {loop counter: value}, or None; found by stepping the
    counters of the loops around the block until the facts known on an exit edge hold"""
    loops = sorted((h for h, body in a.fn.loops.items() if block in body), key=lambda h: -len(a.fn.loops[h]))
    info = {h: [] for h in loops}
    for iv, x in a.ivinfo.items():
        if x[0] in info:
            af = affine(a, iv)
            if af:
                info[af[0]].append((iv, dimfold(noep(af[1])), af[2]))
    allivs = {iv for l in info.values() for iv, _, _ in l}
    mention = lambda c, s: any(isinstance(x, Term) and x in s for x in walk(c))
    exits = {}
    for h in loops:
        own = {iv for iv, _, _ in info[h]}
        ex = []
        for e in exit_edges(a, h):
            cs = [dimfold(noep(c)) for c in edge_facts(a, e).s if mention(c, own)]
            before = e[0] != block and (e[0] == h or path_avoiding(a, h, {block}, blocks={e[0]}, strict=False) is None)
            ex.append((cs, before))
        if not own or not ex or any(not cs for cs, _ in ex):
            return None
        exits[h] = ex
    here = [dimfold(noep(c)) for c in a.instate[block].facts.s if mention(c, allivs)]
    out = []
    def go(k, env):
        if k == len(loops):
            vs = [teval(c, env) for c in here]
            if any(v == 0 for v in vs):
                return True
            if any(v is None for v in vs):
                return False
            out.append(dict(env))
            return len(out) < most
        h = loops[k]
        env = dict(env)
        for iv, init, _ in info[h]:
            env[iv] = teval(init, env)
            if env[iv] is None:
                del env[iv]
        for _ in range(64):
            stop = None
            for cs, before in exits[h]:
                vs = [teval(c, env) for c in cs]
                if any(v == 0 for v in vs):
                    continue
                if any(v is None for v in vs):
                    return False
                stop = 'before' if before or stop == 'before' else 'after'
            if stop == 'before':
                return True
            if not go(k + 1, env):
                return False
            if stop:
                return True
            for iv, _, step in info[h]:
                if iv in env:
                    env[iv] = env[iv] + step & (1 << (width(iv) or 32)) - 1
        return False
    return out if go(0, env) else None


def covers(a, idx, N, block):
    """does the index take every value below N?  True, a witness, or None"""
    idx, N = dimfold(idx), dimfold(N)
    ivs = {x for x in walk(idx) if isinstance(x, Term) and x.op == 'iv'}
    r = full_range(a, idx, block) if idx.op == 'iv' else None
    for n in (1, 2, 3, 5):
        for m in (1, 4):
            env = {x: m for x in Q.values()}
            env.update({x: m for x in atoms_of(idx, N, *map(dimfold, r if isinstance(r, list) else [])) if x.op in ('q', 'arg')})
            env[N] = n
            its = iterations(a, block, env)
            if its is None:
                if isinstance(r, str):
                    return r
                bound = [b for b in (teval(dimfold(b), env) for b in r or []) if b is not None]
                if not bound or len(ivs) != 1:
                    return None
                iv, = ivs
                its = [dict(env, **{}) | {iv: k} for k in range(bound[0])]
            vals = set()
            for e in its:
                x = teval(idx, e)
                if x is None:
                    return None
                vals.add(x)
            if vals != set(range(n)):
                return 'of %d only %s are visited' % (n, sorted(vals)) if not vals >= set(range(n)) else 'of %d also %s are visited' % (n, sorted(vals - set(range(n))))
    return True


def samepixel(p):
    """test for loads of the pixel that is written"""
    return lambda b, col: noep(b) is noep(p.base) and col is p.col


_map = {}


def mapcheck(p, sfmt, dfmt, at, fun, more=0, stable=()):
    """every cell of the written pixel against fun(r,g,b,a of the read pixel) -> (r,g,b,a); channels in `stable` must keep their stored bits.
    yields (channel, True / witness / None)"""
    for off, ty, chs in cells(dfmt):
        t = written(p, (off, ty))
        if p.cells[off, ty] is None:
            for ch in chs: yield ch, None
            continue
        if t is None:
            t = p.cells[off, ty]
        canon = noep(rebuild(t, lambda x: T('cell', x.a[0].a[1] if x.a[0].op == 'ptr' else 0, x.a[2]) if x.op == 'load' and cellref(x.a[0]) and at(cellref(x.a[0])[0], cellref(x.a[0])[2]) else x))
        key = (canon, sfmt, dfmt, off, fun, more, stable)
        if key not in _map:
            _map[key] = list(_mapcell(t, sfmt, dfmt, off, ty, chs, at, fun, more, stable))
        yield from _map[key]


def unset(t):
    """the value comes straight from something uninitialised"""
    while t.op in ('fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'trunc', 'zext', 'sext') and len(t.a) == 2:
        t = t.a[1]
    return t is UNDEF


def _mapcell(t, sfmt, dfmt, off, ty, chs, at, fun, more, stable):
    f = pixfn(t, sfmt, at)
    if f is None:
        for ch in chs:
            yield ch, 'a value that was never set is stored' if unset(t) else None
        return
    samples = list(pixels(sfmt, 40))
    own = f.cells[0] if len(f.cells) == 1 else None
    if own and bits(own[1]) and bits(own[1]) <= 16:
        n = bits(own[1])
        step = 1 if n <= 8 or more else 61 if not any(stable) else 1
        stride = LAYOUT[sfmt][0]
        for v in list(range(0, 1 << n, step)) + [(1 << n) - 1]:
            px = bytearray((v * 37 + k * 91) & 255 for k in range(stride))
            px[own[0]:own[0] + n // 8] = v.to_bytes(n // 8, 'little')
            samples.append(px)
    for ch in chs:
        dec = 'v' if 'v' in LAYOUT[dfmt][1] else ch
        idx = 0 if ch == 'v' else 'rgba'.index(ch)
        _, enc, bo, w = LAYOUT[dfmt][1][dec]
        res = True
        for px in samples:
            got = f(px)
            src = decode(sfmt, px)
            if got is None:
                res = 'for the pixel %s a conversion to an integer is undefined' % px.hex()
                break
            e = fun(*src)[idx]
            if enc == 'f':
                if not near(got, e, 1e-6 if w == 32 else 1e-9):
                    res = 'the pixel (%s) becomes %.7g instead of %.7g' % (', '.join('%.6g' % x for x in src), got, e)
                    break
            else:
                g = got >> bo & (1 << w) - 1
                if enc == 's' and g >> w - 1:
                    g -= 1 << w
                lo, hi = encode_range(dfmt, dec, e)
                if not lo <= g <= hi:
                    res = 'the pixel (%s) becomes %d instead of %d' % (', '.join('%.6g' % x for x in src), g, lo)
                    break
        yield ch, res


def judge3(r):
    return True if r is True else None if r is None else False


def mapops(ctx, v, a, rule, tag, sfmt, dfmt, fun, at=None, size=(W, H), stable=(), skip=()):
    """the pixel loops of an analysed operation: complete and computing fun"""
    ps, odd = outpixels(a, dfmt)
    for e in odd[:1]:
        ctx.und(rule, tag, e.where(), 'a store into a row was not understood')
    n = 0
    for p in ps:
        n += 1
        for what, idx, N in (('rows', p.row, size[1]), ('columns', p.col, size[0])):
            c = covers(a, idx, N, p.block)
            ctx.check(judge3(c), rule, '%s %s' % (tag, what), p.where, 'not all %s are processed: %s' % (what, c))
        for ch, r in mapcheck(p, sfmt, dfmt, at(p) if at else samepixel(p), fun, ctx.tier != 'quick', stable):
            if ch in skip:
                continue
            ctx.check(judge3(r), rule, '%s %s' % (tag, ch), p.where, 'channel %s: %s' % (ch, r or 'not understood'))
    return n


# ---------------------------------------------------------------- I03
def to_linear(r, g, b, a):
    return lin(r), lin(g), lin(b), a


def to_srgb(r, g, b, a):
    return srgb(r), srgb(g), srgb(b), a


def grey_linear(r, g, b, a):
    x = grey(r, g, b)
    return x, x, x, a


def grey_srgb(r, g, b, a):
    x = srgb(grey(lin(r), lin(g), lin(b)))
    return x, x, x, a


def pre_linear(r, g, b, a):
    return r * a, g * a, b * a, a


def pre_srgb(r, g, b, a):
    return srgb(lin(r) * a), srgb(lin(g) * a), srgb(lin(b) * a), a


def same(r, g, b, a):
    return r, g, b, a


def endcell(v, a, name, e):
    t = a.load(ptr(IMPL, v.off[name]), 4, 'i32', e.st, e.i)
    return t


def i03(ctx):
    ctx.rule('convert', 'changeColorSpace() applies the sRGB decoding to r, g and b on the way to linear, its inverse on the way to sRGB, keeps alpha, '
                        'covers every row and column, records the new space and answers true')
    ctx.rule('no-op', 'changeColorSpace() to the space the image has stores nothing')
    ctx.rule('grey', 'grayscale() replaces r, g and b by the luminance computed in linear space and keeps alpha')
    ctx.rule('premultiply', 'preMultiplyAlpha() multiplies r, g and b by alpha in linear space, keeps alpha, and leaves formats without alpha alone')
    ctx.rule('pixel', 'setPixel() into an sRGB greyscale image computes the luminance in linear space')
    ctx.rule('resize', 'an image in sRGB is resized between a conversion to linear and one back')
    v = Im(ctx)
    f, = v.fns('changeColorSpace')
    ctx.fn(f)
    for fmt in v.formats:
        for cs in ('Linear', 'sRGB'):
            for to in ('Linear', 'sRGB'):
                a = v.run(f, fmt, cs=cs, a={1: I(v.cs[to])})
                tag = '%s %s to %s' % (fmt, cs, to)
                r = result_state(a)
                if cs == to:
                    ps = outpixels(a, fmt)
                    w = [p for p in ps[0] if any(written(p, k) is not None for k in p.cells)] or ps[1]
                    ctx.check(True if not w else None if ps[1] or not all(changes(p, fmt) for p in w) else False, 'no-op', tag, w[0].where if w and not ps[1] else f.dem, 'pixels of an image that is %s already are rewritten' % cs)
                    if r:
                        t = endcell(v, a, 'colorSpace', r[1])
                        ctx.check(True if t.op == 'int' and t.a[0] == v.cs[to] else False if t.op == 'int' else None, 'no-op', tag + ' space', r[1].where(), 'the colour space becomes ' + show(t))
                        answer(ctx, 'no-op', tag, r)
                    continue
                n = mapops(ctx, v, a, 'convert', tag, fmt, fmt, to_linear if to == 'Linear' else to_srgb)
                if not n:
                    ctx.check(None if rowcalls(a) or a.calls(lambda x: x and x.startswith('FreeImage_')) else False, 'convert', tag, f.dem, 'no pixel is written')
                if r is None:
                    ctx.und('convert', tag + ' space', f.dem, 'more than one return')
                    continue
                t = endcell(v, a, 'colorSpace', r[1])
                ctx.check(True if t.op == 'int' and t.a[0] == v.cs[to] else False if t.op == 'int' or t is Q['colorSpace'] else None, 'convert', tag + ' space', r[1].where(), 'the recorded colour space becomes ' + show(t))
                answer(ctx, 'convert', tag, r)
    for name, rule, funs, only in (('grayscale', 'grey', (grey_linear, grey_srgb), None), ('preMultiplyAlpha', 'premultiply', (pre_linear, pre_srgb), ('RGBA8', 'RGBA16', 'RGBAF'))):
        f, = v.fns(name)
        ctx.fn(f)
        for fmt in v.formats:
            for k, cs in enumerate(('Linear', 'sRGB')):
                a = v.run(f, fmt, cs=cs)
                tag = '%s %s' % (fmt, cs)
                noalpha = only and fmt not in only
                n = mapops(ctx, v, a, rule, tag, fmt, fmt, same if noalpha else funs[k])
                if not n:
                    ctx.check(True if noalpha else None if a.calls(lambda x: x and x.startswith('FreeImage_')) else False, rule, tag, f.dem, 'no pixel is written')
                r = result_state(a)
                if r:
                    t = endcell(v, a, 'colorSpace', r[1])
                    ctx.check(True if t.op == 'int' and t.a[0] == v.cs[cs] else False if t.op == 'int' else None, rule, tag + ' space', r[1].where(), 'the recorded colour space becomes ' + show(t))
                    answer(ctx, rule, tag, r)
    f, = v.fns('setPixel')
    A = args(f)
    col = {c: T('load', ptr(A[3], 8 * k), 0, 'double') for k, c in enumerate('rgba')}
    for fmt in GREY:
        sub = Sub(ctx, 'pixel')
        wrpixel(sub, v.run(f, fmt, cs='sRGB', a={4: I(1, 1)}, facts=[cmp('ult', A[1], W), cmp('ult', A[2], H)]), fmt, fmt + ' sRGB', A[1], col, 1, 'sRGB')
    resize_space(ctx)
    for r, n in (('convert', 40), ('no-op', 10), ('grey', 20), ('premultiply', 10)):
        ctx.floor(r, n)


class Sub:
    """forwards the obligations of another property's rules under one rule name"""

    def __init__(self, ctx, rule):
        self.c, self.r = ctx, rule

    def check(self, cond, rule, key, where, msg):
        return self.c.check(cond, self.r, key, where, msg)

    def ok(self, rule, key, where='', msg=''):
        self.c.ok(self.r, key, where, msg)

    def bad(self, rule, key, where, msg):
        self.c.bad(self.r, key, where, msg)

    def und(self, rule, key, where, msg):
        self.c.und(self.r, key, where, msg)


def changes(p, fmt):
    """does the loop definitely change some pixel?"""
    for ch, r in mapcheck(p, fmt, fmt, samepixel(p), same):
        if r not in (True, None):
            return True
    return False


def answer(ctx, rule, tag, r, want=1):
    x = r[0]
    ctx.check(True if x.op == 'int' and x.a[0] == want else False if x.op == 'int' else None, rule, tag + ' result', r[1].where(), 'the answer is ' + show(x))


def resize_space(ctx):
    v = Im(ctx, KEEPFI + [r'Image::resize\(', r'Image::changeColorSpace\('])
    f, = v.fns('resize')
    ctx.fn(f)
    A = args(f)
    this = 1
    for filt, fv in sorted(v.m.enum('cuttlefish::Image::ResizeFilter').items()):
        for fmt, dim in [(x, 2 + k % 2) for k, x in enumerate(v.formats)] + [(None, 2), (None, 3)]:
            a = v.run(f, fmt, cs='sRGB', this=this, a={4: I(fv)}, facts=[cmp('ne', A[2], I(0)), cmp('ne', A[3], I(0)), notc(cmp('eq', A[dim], W if dim == 2 else H))])
            ev = [e for e in a.events if e.i.op in ('call', 'invoke') and a.reachable(e.block) and e.name]
            to = [e for e in ev if cname(e.name).endswith('Image::changeColorSpace')]
            inner = [e for e in ev if cname(e.name).endswith('Image::resize')]
            direct = [e for e in ev if iscall(e, 'FreeImage_Rescale')]
            linear = [e for e in to if e.args[-1].op == 'int' and e.args[-1].a[0] == v.cs['Linear']]
            back = [e for e in to if e.args[-1].op == 'int' and e.args[-1].a[0] == v.cs['sRGB'] or e.args[-1] is Q['colorSpace']]
            other = [e for e in to if e not in linear and e not in back]
            tag = '%s %s%s' % (filt, fmt or 'any format', '' if dim == 2 else ' by height')
            if not inner and not direct:
                ctx.und('resize', tag, f.dem, 'how an sRGB image is resized was not recognised')
                continue
            for e in inner + direct:
                x = evflow(a, None, e, avoid=linear)
                never = x and not other and not any(evflow(a, k, e) for k in linear)
                ctx.check(True if not x else False if never else None, 'resize', tag + ' to linear', e.where(), 'an sRGB image is resized without converting it to linear space first')
                x = evflow(a, e, 'ret', avoid=back)
                never = x and not other and not any(evflow(a, e, k) for k in back)
                ctx.check(True if not x else False if never else None, 'resize', tag + ' back', e.where(), 'a resized sRGB image is not converted back to sRGB')
            for e in inner:
                wrong = [k for k in (2, 3) if e.args[k] is not A[k]] or ([4] if e.args[4] is not I(fv) else [])
                ctx.check(True if not wrong else False if all(e.args[k].op in ('arg', 'int') for k in wrong) else None, 'resize', tag + ' arguments', e.where(), 'the size or filter handed on differs')


# ---------------------------------------------------------------- I04
ANGLE = {'CW90': 270, 'CW180': 180, 'CW270': 90, 'CCW90': 90, 'CCW180': 180, 'CCW270': 270}


def turned(deg, row, col, w, h):
    """where the pixel of a bitmap row (bottom row first) and column goes when the image is turned counter-clockwise"""
    return {0: (row, col), 90: (col, h - 1 - row), 180: (h - 1 - row, w - 1 - col), 270: (w - 1 - col, row)}[deg]


def sites(p, sfmt):
    """the (row call, column) pairs of the pixels that the written pixel is computed from"""
    r = set()
    for t in p.cells.values():
        if t is None:
            return None
        for c in pixatoms(t).values():
            if c[0] is p.base and c[2] is p.col or c[2] is None:
                continue
            r.add((c[0], c[2]))
    return r


def sitemap(a, p, src, place, size):
    """does the loop put every pixel of the source where `place(row, col, w, h)` says, in a bitmap of `size(w, h)`?  True, a witness, None"""
    atoms = [W, H]
    sb, sc = src
    sr = dimfold(row_of(sb)[1])
    sc = dimfold(sc)
    dr, dc = dimfold(p.row), dimfold(p.col)
    dims = [dimfold(x) for x in dims_of(p.bitmap) or ()]
    for w, h in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (3, 3), (4, 5)):
        env = {x: 7 for x in Q.values()}
        env.update({W: w, H: h})
        its = iterations(a, p.block, env)
        if its is None or len(dims) != 2:
            return None
        ds = tuple(teval(x, env) for x in dims)
        if None in ds:
            return None
        if ds != size(w, h):
            return 'the result of an image of %dx%d has %dx%d pixels' % ((w, h) + ds)
        got = {}
        for e in its:
            v = [teval(x, e) for x in (sr, sc, dr, dc)]
            if None in v:
                return None
            if not (v[0] < h and v[1] < w and v[2] < ds[1] and v[3] < ds[0]):
                return 'in an image of %dx%d row %d, column %d goes to row %d, column %d of %dx%d' % ((w, h) + tuple(v) + ds)
            got[v[2], v[3]] = (v[0], v[1])
        want = {place(r, c, w, h): (r, c) for r in range(h) for c in range(w)}
        for d in sorted(want):
            if got.get(d) != want[d]:
                return 'in an image of %dx%d the pixel at row %d, column %d of the bitmap (bottom row first) %s instead of row %d, column %d' % (
                    (w, h) + d + ('comes from row %d, column %d' % got[d] if d in got else 'is left out',) + want[d])
    return True


def i04(ctx):
    ctx.rule('flip', 'flipHorizontal() and flipVertical() flip the image\'s own bitmap once with the library\'s function of that direction and answer whether it succeeded')
    ctx.rule('rotate', 'rotate() asks the library to turn the image\'s own bitmap counter-clockwise by the angle requested')
    ctx.rule('fallback', 'where the library cannot, every pixel is put where the rotation takes it, for every size, in an image of the rotated size')
    ctx.rule('value', 'a rotated pixel keeps every channel')
    ctx.rule('swizzle', 'swizzle() gives each channel the selected channel of the same pixel, 0 for an unused colour and 1 for an unused alpha')
    v = Im(ctx)
    for name, fn, other in (('flipHorizontal', 'FreeImage_FlipHorizontal', 'FreeImage_FlipVertical'), ('flipVertical', 'FreeImage_FlipVertical', 'FreeImage_FlipHorizontal')):
        f, = v.fns(name)
        ctx.fn(f)
        a = v.run(f)
        good = [e for e in a.events if iscall(e, fn) and a.reachable(e.block)]
        bad = [e for e in a.events if iscall(e, other) and a.reachable(e.block)]
        manual = rowcalls(a)
        for e in bad:
            ctx.check(None if manual or len(bad) > 1 else False, 'flip', name + ' direction', e.where(), '%s() calls %s' % (name, other))
        for e in good:
            ctx.check(True if e.args[0] is Q['image'] else None, 'flip', name + ' bitmap', e.where(), 'flips ' + show(e.args[0]))
            x = evflow(a, e, lambda k: k in good)
            ctx.check(True if not x else None, 'flip', name + ' once', e.where(), 'the image may be flipped twice')
        if not bad:
            x = evflow(a, None, 'ret', avoid=good)
            ctx.check(True if good and not x else False if not manual and not a.calls(lambda n: n and n.startswith('FreeImage_Flip')) else None, 'flip', name, f.dem, 'the image is not flipped')
        for w, h in ((2, 3), (3, 2), (4, 5), (5, 4)):
            for fmt in v.formats:
                b = v.run(f, fmt, consts={'width': I(w), 'height': I(h)})
                g = [e for e in b.events if iscall(e, fn) and b.reachable(e.block)]
                if not g and good:
                    ctx.check(None if rowcalls(b) else False, 'flip', '%s %s %dx%d' % (name, fmt, w, h), f.dem, 'an image of %dx%d is not flipped' % (w, h))
        if good and not bad:
            for val, want in ((I(0), 0), (I(1), 1)):
                b = v.run(f, bind=lambda an, i, dem, ar, st: val if dem.split('(')[0] == fn else None)
                ls = retleaves(b)
                ok = all(x.op == 'int' and x.a[0] == want for x in ls)
                ctx.check(True if ok else False if all(x.op == 'int' for x in ls) and len(ls) == 1 else None, 'flip', '%s answer %d' % (name, want), f.dem, '%s() answers %s when the library answers %d' % (name, ', '.join(map(show, ls)), want))
    f, = v.fns('rotate')
    ctx.fn(f)
    angles = v.m.enum('cuttlefish::Image::RotateAngle')
    for an_, deg in sorted(ANGLE.items()):
        if an_ not in angles:
            raise AnalysisError('no rotation ' + an_)
    for an_, n in sorted(angles.items(), key=lambda x: x[1]):
        deg = ANGLE.get(an_)
        if deg is None:
            ctx.und('rotate', an_, f.dem, 'unknown angle')
            continue
        size = (lambda w, h: (h, w)) if deg % 180 else (lambda w, h: (w, h))
        for fmt in v.formats:
            a = oprun(v, f, 'rotate', fmt, a={2: I(n)})
            tag = '%s %s' % (an_, fmt)
            rot = [e for e in a.events if iscall(e, 'FreeImage_Rotate') and a.reachable(e.block)]
            for e in rot:
                d = e.args[1]
                x = float(d.a[0]) if d.op == 'f' else None
                ctx.check(None if x is None else x % 360 == deg, 'rotate', tag, e.where(), 'the bitmap is turned by %s degrees instead of %d' % (show(d), deg))
                ctx.check(True if e.args[0] is Q['image'] else None, 'rotate', tag + ' bitmap', e.where(), 'turns ' + show(e.args[0]))
            ps, odd = outpixels(a, fmt)
            for e in odd[:1]:
                ctx.und('fallback', tag, e.where(), 'a store into a row was not understood')
            if not rot and not ps and not odd:
                ctx.bad('rotate', tag, f.dem, 'neither is the library asked to rotate nor is a pixel copied')
            for p in ps:
                ss = sites(p, fmt)
                if ss is None or len(ss) != 1:
                    ctx.und('fallback', tag, p.where, 'the source of the pixel was not recognised')
                    continue
                (sb, sc), = ss
                if row_of(sb)[0] is not Q['image']:
                    ctx.und('fallback', tag, p.where, 'source bitmap ' + show(row_of(sb)[0]))
                    continue
                r = sitemap(a, p, (sb, sc), lambda row, col, w, h: turned(deg, row, col, w, h), size)
                ctx.check(judge3(r), 'fallback', tag, p.where, r or 'not understood')
                for ch, r in mapcheck(p, fmt, fmt, lambda b, c: b is sb and c is sc, same):
                    ctx.check(judge3(r), 'value', '%s %s' % (tag, ch), p.where, 'channel %s: %s' % (ch, r or 'not understood'))
    f, = v.fns('swizzle')
    ctx.fn(f)
    ce = v.m.enum('cuttlefish::Image::Channel')
    names = ['Red', 'Green', 'Blue', 'Alpha', 'None']
    if any(n not in ce for n in names):
        raise AnalysisError('Image::Channel is not as expected')
    combos = []
    for k in range(4):
        for j in range(5):
            base = [names[(i + j) % 5] for i in range(5)]
            combos.append(tuple(base[(i - k) % 5] for i in range(4)))
    combos += [('Red', 'Green', 'Blue', 'Alpha'), ('Blue', 'Green', 'Red', 'Alpha'), ('Alpha',) * 4, ('None',) * 4]
    if ctx.tier != 'quick':
        combos = list(itertools.product(names, repeat=4))
    for fmt in (['RGBA8', 'RGBA16', 'RGBAF', 'RGB565', 'RGB8', 'RGBF', 'Gray8', 'Float'] if ctx.tier == 'quick' else v.formats):
        for cb in dict.fromkeys(combos):
            a = v.run(f, fmt, a={k + 1: I(ce[n]) for k, n in enumerate(cb)})
            pick = lambda r, g, b, al, n, d: {'Red': r, 'Green': g, 'Blue': b, 'Alpha': al, 'None': d}[n]
            fun = lambda r, g, b, al, cb=cb: tuple(pick(r, g, b, al, n, 1.0 if k == 3 else 0.0) for k, n in enumerate(cb))
            fun = _swz.setdefault(cb, fun)
            tag = '%s %s' % (fmt, ''.join(n[0] for n in cb))
            k = mapops(ctx, v, a, 'swizzle', tag, fmt, fmt, fun)
            if not k:
                ctx.check(None if rowcalls(a) or a.calls(lambda x: x and x.startswith('FreeImage_')) else cb[:4] == tuple(names[:4]), 'swizzle', tag, f.dem, 'no pixel is written')
            r = result_state(a)
            if r:
                answer(ctx, 'swizzle', tag, r)
    for r, n in (('flip', 2), ('rotate', 1), ('swizzle', 20)):
        ctx.floor(r, n)


_swz = {}
