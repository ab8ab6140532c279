"""I10, I11: the pixels of images derived from another one."""
import itertools, math, random, struct
from .util import *
from . import pix
from .conv import PURE
from . import api
from .fimodel import BITMAP, Kinds, meaning
from .image import IMPL, Q, cells, pixels, near, to_linear, grey_linear, grey_srgb, same
from .made import Vocabulary, QUIET
from .pix import LAYOUT, GREY, INTEGER, decode, encode_range
from sa.ir import AnalysisError
from sa.walk import Walk

SRC = Q['image']
SCALED = (1, 2, 6, 9, 10, 11, 12)       # kinds of bitmaps FreeImage_Rescale handles


class Open(Exception):
    """not understood"""


class Wrong(Exception):
    def __init__(self, where, msg):
        super().__init__(msg)
        self.where = where


class Derived:
    """an operation followed on an image of fixed format and size: what the image it answers holds"""

    def __init__(self, v, f, fmt, w, h, cs, a, steps=40000, out=None):
        A = args(f)
        for k, x in a.items():
            A[k] = x
        self.A, self.fmt, self.w, self.h = A, fmt, w, h
        self.ow, self.oh = out or (w, h)
        dims = {SRC: (w, h)}
        c = {'format': I(v.fe[fmt]), 'colorSpace': I(v.cs[cs]), 'width': I(w), 'height': I(h)}
        for n, x in zip(('bitsPerPixel', 'redMask', 'greenMask', 'blueMask'), BITMAP[fmt][1:2] + BITMAP[fmt][3:]):
            c[n] = I(x)
        known = Kinds({SRC: BITMAP[fmt]})
        odd = []

        def onload(an, p, ty, st, t):
            if p is A[1] and ty == 'ptr':
                return IMPL
            b, o, x = split_ptr(p)
            if b is IMPL and not x and o in v.name:
                return c.get(v.name[o]) or Q[v.name[o]]

        def bind(an, i, dem, ar, st):
            n = dem.split('(')[0]
            if n == 'FreeImage_GetScanLine':
                if ar[1].op != 'int':
                    odd.append('a row that is not a constant')
                    return None
                return T('q', 'row', sg(ar[1].a[0]), ar[0])
            if n in ('FreeImage_GetWidth', 'FreeImage_GetHeight'):
                if ar[0] is SRC:
                    return I(w if n.endswith('Width') else h)
                if ar[0].op == 'q' and ar[0].a[0] == 'new':
                    return ar[0].a[2 if n.endswith('Width') else 3]
                if ar[0].op == 'q' and ar[0].a[0] == 'lib':
                    return I(dims.get(ar[0], (w, h))[0 if n.endswith('Width') else 1])
                return None
            if n == 'FreeImage_Rescale' and out:
                k = known.of(ar[0])
                if k is None or any(x.op != 'int' for x in ar[1:4]):
                    odd.append('a use of ' + n)
                    return None
                if k[0] not in SCALED:
                    return NULL
                t = T('q', 'lib', n, ar[0], ar[1], ar[2], ar[3])
                known.given[t] = known.of(T('call', n, 0, tuple(ar)))
                dims[t] = (sg(ar[1].a[0]), sg(ar[2].a[0]))
                self.calls[t] = (i, 'rescale')
                return t
            if n.startswith('FreeImage_Allocate'):
                k = known.of(T('call', n, 0, tuple(ar)))
                x = 0 if n in ('FreeImage_Allocate', 'FreeImage_AllocateEx') else 1
                t = T('q', 'new', i.id, ar[x], ar[x + 1])
                if k:
                    known.given[t] = k
                return t
            if n.startswith('FreeImage_ConvertTo') or n in ('FreeImage_Clone',):
                k = known.of(T('call', n, 0, tuple(ar)))
                m = meaning(n, ar, known.of(ar[0]))
                if m is None or k is None:
                    odd.append('a use of ' + n)
                    return None
                if m == 'null':
                    return NULL
                t = T('q', 'lib', n, ar[0], m)
                known.given[t] = k
                dims[t] = dims.get(ar[0], (w, h))
                self.calls[t] = (i, m)
                return t
            if n == 'FreeImage_Unload':
                return T('void')
            if n in ('FreeImage_FlipVertical', 'FreeImage_FlipHorizontal', 'FreeImage_Invert') and ar[0].op == 'q' and ar[0].a[0] == 'lib':
                self.turned.append((i, n, ar[0]))
                return I(1)
            r = known.bind(an, i, dem, ar, st)
            if r is None and n.startswith('FreeImage_') and not n.startswith(('FreeImage_Get', 'FreeImage_Is', 'FreeImage_Has', 'FreeImage_Initialise', 'FreeImage_DeInitialise')):
                odd.append('a use of ' + n)
            return r

        def guess(t):
            # the library and the allocator succeed
            if t.op == 'cmp' and t.a[0] in ('eq', 'ne') and NULL in t.a[1:]:
                x = t.a[2] if t.a[1] is NULL else t.a[1]
                b = split_ptr(x)[0]
                if b.op == 'q' or b.op == 'call' and b.a[0].startswith('operator new'):
                    return t.a[0] == 'ne'
        self.calls = {}
        self.turned = []
        an = Walk(f, A, onload=onload, pure=PURE, keeps=QUIET, bind=bind, facts=[cmp('ne', IMPL, NULL)], guess=guess, steps=steps)
        self.an = an
        if odd:
            raise Open(odd[0])
        if not an.complete or len(an.traces) != 1:
            raise Open('the path depends on pixel values')
        t, = an.traces
        ret = [e for e in t.events if e.i.op == 'ret'] or t.events[-1:]
        at = ret[-1].i
        p = an.load(A[0], 8, 'ptr', t.st, at)
        self.empty = p is NULL
        self.trace = t
        if self.empty:
            return
        def cell(n, sz):
            return an.load(ptr(p, v.off[n]), sz, 'ptr' if sz == 8 else 'i32', t.st, at)
        self.bitmap = cell('image', 8)
        d = cell('format', 4)
        names = {x & 0xffffffff: n for n, x in v.fe.items()}
        if d.op != 'int':
            raise Open('the format of the result is not known')
        self.format = names.get(d.a[0] & 0xffffffff)
        if self.format not in LAYOUT:
            raise Open('the format of the result is not known')
        self.width, self.height, self.colorSpace = cell('width', 4), cell('height', 4), cell('colorSpace', 4)
        if self.bitmap.op != 'q' or self.bitmap.a[0] not in ('new', 'lib'):
            raise Open('the bitmap of the result was not recognised: ' + show(self.bitmap, 3))
        if self.bitmap.a[0] == 'new':
            self.collect(t)

    def collect(self, t):
        """the last value of every cell of the bitmap"""
        self.final = {}
        n = LAYOUT[self.format][0]
        for e in t.events:
            if e.i.op == 'store':
                b, o, x = split_ptr(e.args[1])
                if b.op == 'q' and b.a[0] == 'row':
                    if x or b.a[2] is not self.bitmap:
                        raise Open('a store to another place')
                    if not (0 <= b.a[1] < self.oh and 0 <= o < n * self.ow):
                        raise Wrong(e.where(), 'for %dx%d pixels, byte %d of row %d of the result is written' % (self.ow, self.oh, o, b.a[1]))
                    self.final[b.a[1], o] = (e, e.args[0], e.i.get('size'))
            elif e.i.op in ('call', 'invoke') and any(hasattr(z, 'op') and rowish(z) for z in e.args):
                raise Open('a row is handed to %s' % short(e.name or 'a function'))

    def atoms(self, t):
        """loads of the source: {load: (row, byte, type)}"""
        r = {}
        for x in walk(t):
            if isinstance(x, Term) and x.op == 'load':
                b, o, var = split_ptr(x.a[0])
                if b.op == 'q' and b.a[0] == 'row' and b.a[2] is SRC and not var:
                    r[x] = (b.a[1], o, x.a[2])
        return r

    def inside(self, at):
        n = LAYOUT[self.fmt][0] * self.w
        return 0 <= at[0] < self.h and 0 <= at[1] and at[1] + _size(at[2]) <= n


def sg(x):
    return x - (1 << 32) if x >= 1 << 31 else x


def rowish(t):
    b = split_ptr(t)[0]
    return b.op == 'q' and b.a[0] == 'row'


def _size(ty):
    return {'float': 4, 'double': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}.get(ty, 99)


def fetch(img, at):
    y, o, ty = at
    b = bytes(img[y][o:o + _size(ty)])
    return struct.unpack('<f', b)[0] if ty == 'float' else struct.unpack('<d', b)[0] if ty == 'double' else int.from_bytes(b, 'little')


_fn = {}


def evaluator(d, t, base, extra=()):
    """(function of the source bytes at `order` then of the extras, order) with places relative to `base` = (row, byte)"""
    at = d.atoms(t)
    for a in at.values():
        if not d.inside(a):
            raise Wrong(None, 'byte %d of row %d is read, outside of the image' % (a[1], a[0]))
    rel = {x: (a[0] - base[0], a[1] - base[1], a[2]) for x, a in at.items()}
    canon = noep(replace(t, {x: T('load', T('cell', a[0], a[1]), 0, a[2]) for x, a in rel.items()}))
    key = (canon,) + tuple(extra)
    if key not in _fn:
        order = sorted(set(rel.values()))
        nm = {a: 'c%d' % k for k, a in enumerate(order)}
        ex = dict(extra)
        def atom(x):
            if x in ex:
                return ex[x]
            if x.op == 'load' and x.a[0].op == 'cell':
                return nm[x.a[0].a[0], x.a[0].a[1], x.a[2]]
        f = pix.compile_term(canon, atom, [nm[a] for a in order] + [n for _, n in extra], strict=True)
        _fn[key] = (canon, f, order)
    return _fn[key]


def stored(dfmt, ch, ty, got):
    """the channel's stored value, of the value of the cell"""
    _, enc, bo, w = LAYOUT[dfmt][1][ch]
    if enc == 'f':
        return got
    g = got >> bo & (1 << w) - 1
    return g - (1 << w) if enc == 's' and g >> w - 1 else g


def differs(dfmt, ch, ty, got, want, rel=None):
    """does the value of the cell represent the channel's value?"""
    _, enc, bo, w = LAYOUT[dfmt][1][ch]
    g = stored(dfmt, ch, ty, got)
    if enc == 'f':
        return None if near(g, want, rel or (1e-6 if w == 32 else 1e-9)) else '%.7g instead of %.7g' % (g, want)
    lo, hi = encode_range(dfmt, ch, want)
    return None if lo <= g <= hi else '%d instead of %d' % (g, lo)


def judge_pixels(ctx, d, rule, tag, where, fun, memo, judgepx):
    """every cell of every pixel of the result"""
    dfmt = d.format
    stride = LAYOUT[dfmt][0]
    n = 0
    for y in range(d.oh):
        for x in range(d.ow):
            for off, ty, chs in cells(dfmt):
                e, t, sz = d.final.get((y, x * stride + off), (None, None, None))
                if e is None:
                    ctx.bad(rule, tag, where, 'in an image of %dx%d, pixel (%d, %d) is not given its channel %s' % (d.ow, d.oh, x, y, chs[0]))
                    return
                if sz != _size(ty):
                    ctx.und(rule, tag, e.where(), 'a store of %s bytes' % sz)
                    return
                try:
                    r = judgepx(d, t, x, y, off, ty, chs)
                except Wrong as w:
                    ctx.bad(rule, tag, w.where or e.where(), 'in an image of %dx%d, for pixel (%d, %d): %s' % (d.ow, d.oh, x, y, w))
                    return
                except (TypeError, ValueError, OverflowError, ZeroDivisionError):
                    r = None
                if r is not True:
                    ctx.check(None if r is None else False, rule, tag, e.where(), 'in an image of %dx%d, pixel (%d, %d): %s' % (d.ow, d.oh, x, y, r or 'the stored value is not understood: ' + show(t, 5)))
                    return
                n += 1
    for y, o in d.final:
        if (o % stride, ) not in {(c[0],) for c in cells(dfmt)}:
            ctx.und(rule, tag, d.final[y, o][0].where(), 'a store at an odd place')
            return
    ctx.ok(rule, tag, where, '%d values' % n)


# ---------------------------------------------------------------- I10
def wanted(src, dst, g, cs):
    """what becomes of (r, g, b, a) and which meanings of the library's conversion do that"""
    if dst in GREY and g and src != 'Complex':
        # the luminance of a grey or single-channel pixel is itself
        if cs == 'Linear':
            return grey_linear, ('luma', 'both') + (('id',) if 'v' in LAYOUT[src][1] else ())
        return grey_srgb, ('both',) + (('id',) if 'v' in LAYOUT[src][1] else ())
    return same, ('id', 'both')


def i10(ctx):
    ctx.rule('library', 'a conversion the imaging library does is one that keeps (or, where asked, combines) the channels of that pair of formats')
    ctx.rule('pixels', 'otherwise every pixel of the result, by constant propagation along the rows of images of fixed size and evaluation of the stored expressions, '
                       'is the encoding of the source pixel at its place')
    v = Vocabulary(ctx)
    for f in v.fns('convert'):
        ctx.fn(f)
        if len(f.args) < 4:
            ctx.und('pixels', f.dem, f.dem, 'convert() has other parameters')
            continue
        ctx.parallel([lambda f=f, s=s: [pair(ctx, v, f, s, d) for d in v.formats if d != s] for s in v.formats])
    ctx.floor('library', 100)
    ctx.floor('pixels', 100)
    ctx.assume('the imaging library (FreeImage 3.18) converts as measured: checks/fimodel.py, MEANING')


_judged = {}
SMALL = ((3, 2), (2, 3), (1, 1))
LARGE = ((70, 3), (3, 70), (300, 1), (1, 300))
HUGE = ((70, 3), (3, 70), (5000, 4999), (2, 65537))
LONG = (('RGBAF', 'RGBF'), ('RGBAF', 'Double'), ('Double', 'Gray8'))


def pair(ctx, v, f, src, dst):
    for g in (0, 1):
        for cs in ('Linear', 'sRGB'):
            tag = '%s %s to %s%s' % (cs, src, dst, ' as grey' if g else '')
            fun, ok = wanted(src, dst, g, cs)
            for w, h in SMALL + (LARGE if (src, dst) in LONG else ()):
                try:
                    d = Derived(v, f, src, w, h, cs, {2: I(v.fe[dst]), 3: I(g, 1)})
                except Open as e:
                    ctx.und('pixels', tag, f.dem, str(e))
                    break
                except Wrong as e:
                    ctx.bad('pixels', tag, e.where, str(e))
                    break
                if d.empty or d.format != dst:
                    ctx.bad('pixels', tag, f.dem, 'the conversion answers ' + ('no image' if d.empty else 'an image of format ' + d.format))
                    break
                if d.bitmap.a[0] == 'lib':
                    library(ctx, d, tag, f, dst, src, ok)
                    continue
                judge_pixels(ctx, d, 'pixels', '%s %dx%d' % (tag, w, h), f.dem, fun, None, lambda d, t, x, y, off, ty, chs: mapped(d, t, x, y, off, ty, chs, fun))
            for w, h in HUGE:
                # only to see whether the library is asked
                try:
                    d = Derived(v, f, src, w, h, cs, {2: I(v.fe[dst]), 3: I(g, 1)}, steps=250)
                except (Open, Wrong):
                    continue
                if not d.empty and d.format == dst and d.bitmap.a[0] == 'lib':
                    library(ctx, d, '%s %dx%d' % (tag, w, h), f, dst, src, ok)


def library(ctx, d, tag, f, dst, src, ok):
    i, m = d.calls[d.bitmap]
    fn = d.bitmap.a[1].split('(')[0]
    if len(d.turned) == 1 and d.turned[0][2] is d.bitmap:
        i, fn, m = d.turned[0][0], d.turned[0][1], 'wrong'
    raw = m == 'raw' and dst in INTEGER     # nothing is promised about normalised values in integers
    m = 'wrong' if 'UInt16' in (src, dst) else m      # a bitmap of that kind counts as Gray16
    if d.bitmap.a[2] is not SRC:
        ctx.und('library', tag, f.dem, 'a conversion in steps')
    else:
        ctx.check(raw or m in ok, 'library', tag, i.where(), '%s() %s' % (fn, {
            'luma': 'answers the luminance of the stored values', 'clamped': 'limits the values to between 0 and 1', 'raw': 'does not scale the values',
            'id': 'keeps the first channel only'}.get(m, 'does not keep the values')))


def mapped(d, t, x, y, off, ty, chs, fun):
    sfmt, dfmt = d.fmt, d.format
    ss = LAYOUT[sfmt][0]
    canon, f, order = evaluator(d, t, (y, x * ss))
    key = (canon, sfmt, dfmt, off, fun)
    if key in _judged:
        return _judged[key]
    if f is None:
        return None
    r = True
    for near_ in samples(sfmt):
        img = near_
        vals = []
        for dy, o, cty in order:
            k, b = divmod(o, ss)
            vals.append(fetch({0: img.setdefault((dy, k), img['spare'][(dy * 7 + k) % 5])}, (0, b, cty)))
        got = f(*vals)
        s = decode(sfmt, img[0, 0])
        e = fun(*s)
        for ch in chs:
            idx = 0 if ch == 'v' else 'rgba'.index(ch)
            m = differs(dfmt, ch, ty, got, e[idx])
            if m:
                r = 'channel %s of the pixel (%s) becomes %s' % (ch, ', '.join('%.6g' % z for z in s), m)
                break
        if r is not True:
            break
    _judged[key] = r
    return r


_smp = {}


def samples(fmt):
    """pixels with other ones around them"""
    if fmt not in _smp:
        ps = list(pixels(fmt, 40))
        _smp[fmt] = [(p, [ps[(k + 3 + j) % len(ps)] for j in range(5)]) for k, p in enumerate(ps)]
    return [{(0, 0): p, 'spare': q} for p, q in _smp[fmt]]


# ---------------------------------------------------------------- I11
SIZES = ((1, 1), (2, 2), (3, 3), (1, 3), (4, 2), (5, 4))
HEIGHTS = (1.0, 2.5, -0.75, 0.0)
KEEP, WRAPX, WRAPY = 1, 2, 4


def i11(ctx):
    ctx.rule('normal', 'by constant propagation along the rows of images of fixed size and evaluation of the stored expressions, every pixel of a normal map is the unit '
                       'normal of the slopes between its neighbours, wrapped or clamped at the borders as asked on each axis, moved to [0, 1] unless signs are kept')
    v = Vocabulary(ctx)
    opts = v.m.enum('cuttlefish::Image::NormalOptions')
    bit = {n: opts.get(n) for n in ('KeepSign', 'WrapX', 'WrapY')}
    if None in bit.values():
        raise AnalysisError('Image::NormalOptions is not as expected')
    ctx.rule('options', 'combining options by | and |= gives exactly the options of both, and & tells whether any is shared')
    ctx.part(api.options, ctx, {n: x for n, x in opts.items() if x < 256}, 'options')
    ctx.floor('options', 50)
    colour = [x for x in v.formats if x.startswith('RGB')]
    work = []
    for f in v.fns('createNormalMap'):
        ctx.fn(f)
        if len(f.args) < 5:
            ctx.und('normal', f.dem, f.dem, 'createNormalMap() has other parameters')
            continue
        for on in itertools.product((0, 1), repeat=3):
            for size in SIZES:
                work.append((f, 'Float', 'RGBF', on, size))
            work.append((f, 'RGBA8', 'RGB8', on, (3, 3)))
        for size in ((70, 2), (2, 70), (260, 1), (1, 260)):
            work.append((f, 'Float', 'RGBF', (1, 1, 1), size))
        for src in v.formats:
            for on in ((0, 0, 0), (1, 1, 0), (1, 0, 1)):
                work.append((f, src, 'RGBAF', on, (3, 2)))
        for dst in colour:
            for on in ((0, 0, 0), (1, 1, 1)):
                work.append((f, 'Gray16', dst, on, (2, 3)))
    ctx.parallel([lambda k=k: [normals(ctx, v, bit, *x) for x in work[k::8]] for k in range(8)])
    ctx.floor('normal', 50)


def normals(ctx, v, bit, f, src, dst, on, size):
    w, h = size
    tag = '%s to %s %dx%d%s' % (src, dst, w, h, ''.join(' ' + n for n, o in zip(('KeepSign', 'WrapX', 'WrapY'), on) if o))
    o = sum(bit[n] for n, x in zip(('KeepSign', 'WrapX', 'WrapY'), on) if x)
    A = args(f)
    try:
        d = Derived(v, f, src, w, h, 'Linear', {2: I(o), 4: I(v.fe[dst])})
    except Open as e:
        ctx.und('normal', tag, f.dem, str(e))
        return
    except Wrong as e:
        ctx.bad('normal', tag, e.where, str(e))
        return
    if d.empty or d.format != dst or d.bitmap.a[0] != 'new':
        if d.empty or d.format != dst:
            ctx.bad('normal', tag, f.dem, 'the normal map is ' + ('no image' if d.empty else 'of format ' + d.format))
        else:
            ctx.und('normal', tag, f.dem, 'the normal map is converted by the library')
        return
    ps = list(pixels(src, 40))
    images = []
    for k in range(6):
        rows = {}
        for y in range(h):
            rows[y] = b''.join(bytes(ps[(7 * k + 3 * y * w + 5 * x + k * x * y) % len(ps)]) for x in range(w))
        images.append(rows)
    ss = LAYOUT[src][0]

    def red(img, x, y):
        return decode(src, img[y][x * ss:x * ss + ss])[0]

    def slope(img, x, y, hgt):
        wx, wy = on[1], on[2]
        dist = 2.0
        l, r = x - 1, x + 1
        if l < 0: l, dist = (w - 1, dist) if wx else (x, 1.0)
        if r >= w: r, dist = (0, dist) if wx else (x, 1.0)
        dx = (red(img, l, y) - red(img, r, y)) * hgt / dist
        dist = 2.0
        b, t = y - 1, y + 1                                # rows are stored from the bottom up
        if b < 0: b, dist = (h - 1, dist) if wy else (y, 1.0)
        if t >= h: t, dist = (0, dist) if wy else (y, 1.0)
        dy = (red(img, x, b) - red(img, x, t)) * hgt / dist
        n = math.sqrt(dx * dx + dy * dy + 1)
        return dx / n, dy / n, 1 / n

    def judgepx(d, t, x, y, off, ty, chs):
        canon, fn, order = evaluator(d, t, (0, 0), ((A[3], 'hgt'),))
        if fn is None:
            return None
        for img in images:
            for hgt in HEIGHTS:
                got = fn(*[fetch(img, a) for a in order], hgt)
                n = slope(img, x, y, hgt)
                if not on[0]:
                    n = [c * 0.5 + 0.5 for c in n]
                n = list(n) + [1.0]
                for ch in chs:
                    m = differs(dst, ch, ty, got, n['rgba'.index(ch)], 1e-6)
                    if m:
                        return 'with the height %g, component %s of the normal is %s' % (hgt, {'r': 'x', 'g': 'y', 'b': 'z', 'a': 'alpha'}[ch], m)
        return True
    judge_pixels(ctx, d, 'normal', tag, f.dem, None, None, judgepx)


# ---------------------------------------------------------------- weighted means
def weights(n, size, k, box):
    """weights of the n source places in place k of `size`: [(exact weight, may be left out or in by rounding)]"""
    from fractions import Fraction as Fr
    s = Fr(n, size)
    c = (k + Fr(1, 2)) * s
    r = max(s, Fr(1))
    out = []
    for i in range(n):
        x = abs(i + Fr(1, 2) - c) / r
        if box:
            out.append((1 if x <= Fr(1, 2) else 0, x == Fr(1, 2)))
        else:
            out.append((max(1 - x, Fr(0)), False))
    return out


def choices(ws):
    """the normalised weights, for each way to treat the places exactly on the border"""
    border = [i for i, (w, t) in enumerate(ws) if t]
    out = []
    for on in itertools.product((1, 0), repeat=len(border)):
        w = [float(x) for x, _ in ws]
        for i, o in zip(border, on):
            w[i] = float(o)
        if sum(w):
            out.append([x / sum(w) for x in w])
    return out


# ---------------------------------------------------------------- T08
TEX = 'lib/src/Texture.cpp'
_IV = 'std::vector<cuttlefish::Image,[^&]*'
SLICES = [r'anonymous namespace.::[^(]*[(]%s&, %s const&, ' % (_IV, _IV), r'anonymous namespace.::[^(]*[(]%s const&, %s&, ' % (_IV, _IV)]
OUT, PREV, BUF = T('q', 'out slices'), T('q', 'previous slices'), T('q', 'slice')


def partypes(dem):
    """the types of the parameters"""
    k = dem.index('anonymous namespace)') + len('anonymous namespace)')
    s = dem[dem.index('(', k) + 1:]
    out, cur, depth = [], '', 0
    for c in s:
        if c in '<(':
            depth += 1
        if c in '>)':
            depth -= 1
            if depth < 0:
                break
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()]


class Slices:
    """the function that averages the slices of a volume, followed for fixed sizes"""

    def __init__(self, ctx):
        self.m = ctx.load(TEX, limit=4000, keep=SLICES)
        self.cs = self.m.enum('cuttlefish::ColorSpace')
        self.fe = self.m.enum('cuttlefish::Image::Format')
        self.filters = self.m.enum('cuttlefish::Image::ResizeFilter')
        self.f = self.roles = None
        for f in self.m.find('', one=False):
            if f.decl or 'anonymous namespace)' not in f.dem:
                continue
            ty = partypes(f.dem)
            role = {}
            sizes = []
            for k, t in enumerate(ty):
                if 'vector<cuttlefish::Image,' in t:
                    role['prev' if 'const' in t else 'out'] = k
                elif t == 'unsigned int':
                    sizes.append(k)
                elif t.endswith('ColorSpace'):
                    role['space'] = k
                elif t.endswith('ResizeFilter'):
                    role['filter'] = k
            if 'prev' not in role or 'out' not in role or len(sizes) != 3 or 'space' not in role or 'filter' not in role or len(ty) != 7:
                continue
            names = [f.params[k].lower() if k < len(f.params) else '' for k in sizes]
            order = {}
            for k, n in zip(sizes, names):
                for w in ('width', 'height', 'depth'):
                    if w in n or n and w.startswith(n):
                        order.setdefault(w, k)
            if sorted(order.values()) != sizes:
                order = dict(zip(('width', 'height', 'depth'), sizes))
            role.update(order)
            self.f, self.roles = f, role

    def walk(self, n, w, h, depth, cs, filt):
        f, role = self.f, self.roles
        A = args(f)
        for k, x in (('width', w), ('height', h), ('depth', depth), ('space', self.cs[cs]), ('filter', self.filters[filt])):
            A[role[k]] = I(x)
        o, p = A[role['out']], A[role['prev']]
        odd, made = [], {}
        state = {'n': 0}

        def slot(t):
            b, off, var = split_ptr(t)
            if b.op == 'q' and b in (OUT, PREV) and not var and off % 8 == 0:
                return b, off // 8
            return None

        def bind(an, i, dem, a, st):
            nm = dem.split('(')[0]
            if a and a[0] in (o, p) and 'vector<cuttlefish::Image' in nm:
                s = short(dem)
                base, cnt = (OUT, lambda: st.mem.get((T('q', 'count'), 4), I(0)).a[0]) if a[0] is o else (PREV, lambda: n)
                if s == 'resize' and a[0] is o and a[1].op == 'int':
                    st.mem[(T('q', 'count'), 4)] = a[1]
                    st.mem[(o, 8)] = OUT
                    st.mem[(ptr(o, 8), 8)] = ptr(OUT, 8 * a[1].a[0])
                    return T('void')
                if s == 'clear' and a[0] is o:
                    st.mem[(T('q', 'count'), 4)] = I(0)
                    st.mem[(o, 8)] = OUT
                    st.mem[(ptr(o, 8), 8)] = OUT
                    return T('void')
                if s in ('operator[]', 'at') and a[1].op == 'int':
                    return ptr(base, 8 * a[1].a[0])
                if s == 'size':
                    return I(cnt(), 64)
                if s in ('begin', 'cbegin', 'data'):
                    return base
                if s in ('end', 'cend'):
                    return ptr(base, 8 * cnt())
                odd.append('vector::' + s)
                return None
            if 'cuttlefish::Image::' in nm:
                s = short(dem)
                q = slot(a[0]) if a else None
                if s == 'initialize' and q and q[0] is OUT and len(a) >= 5:
                    if all(x.op == 'int' for x in a[1:5]):
                        made.setdefault(q[1], []).append((tuple(x.a[0] for x in a[1:5]), i))
                        return I(1, 1)
                if s == 'scanline' and q and a[1].op == 'int':
                    return T('q', 'row', sg(a[1].a[0]), T('q', 'img', q[0], q[1]))
                if s in ('width', 'height') and q:
                    return I(w if s == 'width' else h)
                if s in ('isValid', 'operator bool') and q:
                    return I(1, 1)
                if s == 'colorSpace' and q:
                    return I(self.cs[cs])
                odd.append('Image::' + s)
            return None

        def onload(an, pt, ty, st, t):
            if pt is p:
                return PREV
            if pt is ptr(p, 8):
                return ptr(PREV, 8 * n)
        a = Walk(f, A, pure=PURE, keeps=lambda x: 'cuttlefish::Image::' in x.split('(')[0] or 'std::vector' in x, bind=bind, onload=onload, steps=60000,
                 mem={(o, 8): OUT, (ptr(o, 8), 8): OUT})
        if odd:
            raise Open('use of ' + odd[0])
        if not a.complete or len(a.traces) != 1:
            raise Open('the path depends on pixel values')
        t, = a.traces
        cnt = t.st.mem.get((T('q', 'count'), 4))
        if cnt is None or cnt.op != 'int':
            raise Open('the number of slices is not known')
        self.made = made
        final = {}
        for e in t.events:
            if e.i.op == 'store':
                b, off, var = split_ptr(e.args[1])
                if b.op == 'q' and b.a[0] == 'row':
                    if var or b.a[2].op != 'q' or b.a[2].a[0] != 'img':
                        raise Open('a store at an unknown place')
                    base, d = b.a[2].a[1:]
                    if base is not OUT or not 0 <= d < depth or not 0 <= b.a[1] < h or not 0 <= off < 16 * w:
                        raise Wrong(e.where(), 'byte %d of row %d of slice %d of the %s level is written' % (off, b.a[1], d, 'new' if base is OUT else 'previous'))
                    final[d, b.a[1], off] = (e, e.args[0], e.i.get('size'), e.st)
            elif e.i.op in ('call', 'invoke') and any(hasattr(z, 'op') and rowish(z) for z in e.args):
                raise Open('a row is handed to %s' % short(e.name or 'a function'))
        return cnt.a[0], final


VOLUMES = ((2, 1), (4, 2), (3, 1), (5, 2), (1, 1), (7, 3), (2, 2), (2, 4), (9, 4))
MANY = ((300, 150), (520, 260))


def t08(ctx):
    ctx.rule('slices', 'a generated level gets its slices, in the working format, its size and the colour space')
    ctx.rule('mean', 'by constant propagation along the pixels of volumes of fixed size and evaluation of the stored expressions, every channel is the mean of the slices '
                     'of the previous level within reach, weighted by the filter, computed in linear space, alpha as it is')
    x = Slices(ctx)
    if x.f is None:
        ctx.und('mean', 'slices', TEX, 'no function that makes slices from slices was recognised')
        ctx.floor('mean', 20)
        return
    ctx.fn(x.f)
    work = [(n, d, cs, filt, 2, 3) for n, d in VOLUMES for cs in x.cs for filt in x.filters]
    work += [(4, 2, cs, filt, w, h) for cs in x.cs for filt in x.filters for w, h in ((3, 1), (1, 1), (70, 2), (2, 70))]
    # more slices than narrow types count
    work += [(n, d, cs, filt, 1, 1) for cs in list(x.cs)[:1] for filt in x.filters for n, d in MANY]
    ctx.parallel([lambda k=k: [volume(ctx, x, *y) for y in work[k::8]] for k in range(8)])
    ctx.floor('slices', 20)
    ctx.floor('mean', 20)
    ctx.assume('the slices handed in have the size of the new level (T04)')


def volume(ctx, x, n, depth, cs, filt, w, h):
    tag = '%d to %d slices of %dx%d, %s %s' % (n, depth, w, h, cs, filt)
    where = x.f.where()
    try:
        cnt, final = x.walk(n, w, h, depth, cs, filt)
    except Open as e:
        ctx.und('mean', tag, where, str(e))
        return
    except Wrong as e:
        ctx.bad('mean', tag, e.where or where, str(e))
        return
    ctx.check(cnt == depth, 'slices', tag, where, '%d slices are made instead of %d' % (cnt, depth))
    want = (x.fe['RGBAF'], w, h, x.cs[cs])
    for d in range(depth):
        m = x.made.get(d)
        if m is None:
            ctx.und('slices', '%s %d' % (tag, d), where, 'how slice %d is created was not recognised' % d)
        else:
            ctx.check(m[-1][0] == want, 'slices', '%s %d' % (tag, d), m[-1][1].where(), 'slice %d is created as (format, width, height, colour space) %s instead of %s' % (d, m[-1][0], want))
    rnd = random.Random(5)
    vals = [[struct.unpack('<f', struct.pack('<f', rnd.choice((rnd.random(), rnd.random() * 0.05, rnd.uniform(0, 4)))))[0] for _ in range(n * 4)] for _ in range(4)]
    _, memo = x, _means
    for d in range(depth):
        opts = {'box': choices(weights(n, depth, d, True)), 'tent': choices(weights(n, depth, d, False))}['box' if filt == 'Box' else 'tent']
        for y in range(h):
            for px in range(w):
                for c in range(4):
                    e, t, sz, st = final.get((d, y, 16 * px + 4 * c), (None,) * 4)
                    place = 'slice %d, pixel (%d, %d), channel %s' % (d, px, y, 'rgba'[c])
                    if e is None:
                        ctx.bad('mean', tag, where, place + ' is not set')
                        return
                    if sz != 4:
                        ctx.und('mean', tag, e.where(), 'a store of %s bytes' % sz)
                        return
                    ld = {}
                    for z in walk(t):
                        if isinstance(z, Term) and z.op == 'load':
                            b, off, var = split_ptr(z.a[0])
                            if b.op == 'q' and b.a[0] == 'row' and not var and b.a[2].op == 'q' and b.a[2].a[0] == 'img' and b.a[2].a[1] is PREV and z.a[2] == 'float':
                                if not (0 <= b.a[2].a[2] < n and 0 <= b.a[1] < h and 0 <= off < 16 * w):
                                    ctx.bad('mean', tag, e.where(), '%s is computed from byte %d of row %d of slice %d of %d' % (place, off, b.a[1], b.a[2].a[2], n))
                                    return
                                ld[z] = (b.a[2].a[2], b.a[1] - y, off - 16 * px)
                    other = [k for k in ld.values() if k[1] or not 0 <= k[2] < 16]
                    if other:
                        ctx.check(False, 'mean', tag, e.where(), '%s is computed from another pixel of slice %d' % (place, other[0][0]))
                        return
                    canon = noep(replace(t, {z: T('load', T('cell', k[0], k[2]), 0, 'float') for z, k in ld.items()}))
                    key = (canon, n, depth, d, c, cs, filt == 'Box')
                    if key not in memo:
                        memo[key] = mean(canon, vals, opts, c, cs, n)
                    r = memo[key]
                    if r is not True:
                        ctx.check(None if r is None else False, 'mean', tag, e.where(), '%s: %s' % (place, r or 'the stored value is not understood: ' + show(t, 5)))
                        return
    ctx.ok('mean', tag, where, '%d values' % (depth * w * h * 4))


_means = {}


def mean(t, vals, opts, c, cs, n):
    names = {}
    def atom(z):
        if z.op == 'load' and z.a[0].op == 'cell':
            return names.setdefault((z.a[0].a[0], z.a[0].a[1]), 'c%d_%d' % (z.a[0].a[0], z.a[0].a[1]))
    ps = ['c%d_%d' % (i, 4 * k) for i in range(n) for k in range(4)]
    f = pix.compile_term(t, atom, ps, strict=True)
    if f is None:
        return None
    from .image import lin, srgb
    conv = cs == 'sRGB' and c < 3
    for v in vals:
        try:
            got = f(*v)
        except (TypeError, ValueError, OverflowError, ZeroDivisionError):
            return None
        src = [v[4 * i + c] for i in range(n)]
        if conv:
            src = [lin(z) for z in src]
        best = None
        for w in opts:
            e = sum(a * b for a, b in zip(w, src))
            e = srgb(e) if conv else e
            if near(got, e, 2e-6):
                best = True
                break
            best = e
        if best is not True:
            return 'the values %s of the slices become %.7g instead of %.7g' % (', '.join('%.5g' % v[4 * i + c] for i in range(n)), got, best)
    return True


# ---------------------------------------------------------------- I12
FILTERS = {'Box': 0, 'Linear': 2, 'Cubic': 1, 'CatmullRom': 4, 'BSpline': 3}
OWN = ('Int16', 'Int32', 'UInt32', 'Double', 'Complex')       # the library does not resize these
RESIZES = (((2, 2), (1, 1)), ((4, 2), (2, 1)), ((3, 3), (1, 1)), ((2, 1), (3, 2)), ((5, 3), (2, 2)), ((1, 1), (2, 3)), ((3, 4), (5, 3)), ((7, 1), (3, 1)), ((1, 7), (1, 3)), ((2, 3), (4, 3)),
           ((6, 2), (6, 1)))


def i12(ctx):
    ctx.rule('linear', 'an image in sRGB is resized in linear space: a copy is changed to linear, resized to the size and with the filter asked for, and changed back')
    ctx.rule('library', 'the imaging library is asked for the image\'s size and filter, for the formats it resizes')
    ctx.rule('mean', 'for the other formats, by constant propagation along the pixels of images of fixed size and evaluation of the stored expressions, every pixel is the '
                     'mean of the source pixels in reach, weighted by the filter')
    ctx.rule('refused', 'a size of 0, or a filter the format cannot be resized with, gives no image')
    v = Vocabulary(ctx)
    fe = v.m.enum('cuttlefish::Image::ResizeFilter')
    if set(fe) != set(FILTERS):
        raise AnalysisError('Image::ResizeFilter is not as expected')
    work = []
    for f in v.fns('resize'):
        ctx.fn(f)
        if len(f.args) != 5:
            ctx.und('mean', f.dem, f.dem, 'resize() has other parameters')
            continue
        for fmt in v.formats:
            for filt in FILTERS:
                for a, b in RESIZES if fmt in OWN and filt in ('Box', 'Linear') else RESIZES[:4]:
                    work.append((f, fmt, filt, a, b))
                work.append((f, fmt, filt, (2, 2), (0, 2)))
                work.append((f, fmt, filt, (2, 2), (3, 0)))
        for filt in ('Box', 'Linear'):
            for a, b in (((3, 70), (2, 35)), ((70, 2), (71, 1)), ((130, 1), (40, 1)), ((1, 9), (1, 66)), ((4, 4), (66, 2)), ((1, 520), (1, 260)), ((520, 1), (260, 1))):
                work.append((f, 'Double', filt, a, b))
    ctx.parallel([lambda k=k: [resize(ctx, v, fe, *x) for x in work[k::8]] for k in range(8)])
    linear(ctx, fe)
    ctx.floor('linear', 5)
    ctx.floor('library', 20)
    ctx.floor('mean', 20)
    ctx.floor('refused', 20)
    ctx.assume('the imaging library (FreeImage 3.18) resizes bitmaps of bytes, 16-bit and float colours and no others')


def resize(ctx, v, fe, f, fmt, filt, size, to):
    (w, h), (ow, oh) = size, to
    tag = '%s %s %dx%d to %dx%d' % (fmt, filt, w, h, ow, oh)
    where = f.where()
    try:
        d = Derived(v, f, fmt, w, h, 'Linear', {2: I(ow), 3: I(oh), 4: I(fe[filt])}, out=to, steps=120000)
    except Open as e:
        ctx.und('mean', tag, where, str(e))
        return
    except Wrong as e:
        ctx.bad('mean', tag, e.where or where, str(e))
        return
    if not ow or not oh or fmt in OWN and filt not in ('Box', 'Linear'):
        ctx.check(d.empty, 'refused', tag, where, 'an image is answered')
        return
    if d.empty or d.format != fmt:
        ctx.bad('mean', tag, where, 'the result is ' + ('no image' if d.empty else 'of format ' + d.format))
        return
    got = tuple(x.a[0] if x.op == 'int' else None for x in (d.width, d.height, d.colorSpace))
    want = (ow, oh, v.cs['Linear'])
    if got != want:
        ctx.check(None if None in got else False, 'mean', tag, where, 'the result is recorded with (width, height, colour space) %s instead of %s' % (got, want))
        return
    if fmt not in OWN:
        src = {x for x in terms(d) if x.op == 'q' and x.a[0] == 'lib' and x.a[1] == 'FreeImage_Rescale'}
        if len(src) != 1:
            ctx.und('library', tag, where, 'how the pixels are made was not recognised')
            return
        t, = src
        if t.a[2] is not SRC:
            ctx.und('library', tag, where, 'a bitmap made from another one is resized')
            return
        got = tuple(x.a[0] for x in t.a[3:6])
        want = (ow, oh, FILTERS[filt])
        ctx.check(got == want, 'library', tag, d.calls[t][0].where() if hasattr(d.calls[t][0], 'where') else where, 'the library is asked for (width, height, filter) %s instead of %s' % (got, want))
        return
    if d.bitmap.a[0] != 'new':
        ctx.und('mean', tag, where, 'how the pixels are made was not recognised')
        return
    if any(x.op == 'int' and x.a[0] != y for x, y in zip(d.bitmap.a[2:4], to)):
        ctx.bad('mean', tag, where, 'the result is made with a size of %s' % (tuple(x.a[0] for x in d.bitmap.a[2:4]),))
        return
    box = filt == 'Box'
    X = [choices(weights(w, ow, k, box)) for k in range(ow)]
    Y = [choices(weights(h, oh, k, box)) for k in range(oh)]
    ps = list(pixels(fmt, 40))
    ss = LAYOUT[fmt][0]
    images = [{y: b''.join(bytes(ps[(7 * k + 3 * y * w + 5 * x + k * x * y) % len(ps)]) for x in range(w)) for y in range(h)} for k in range(4)]
    dec = [[[decode(fmt, img[y][x * ss:x * ss + ss]) for x in range(w)] for y in range(h)] for img in images]

    def judgepx(d, t, x, y, off, ty, chs):
        canon, fn, order = evaluator(d, t, (0, 0))
        if fn is None:
            return None
        for img, px in zip(images, dec):
            got = fn(*[fetch(img, a) for a in order])
            for ch in chs:
                i = 0 if ch == 'v' else 'rgba'.index(ch)
                m = None
                for wx in X[x]:
                    for wy in Y[y]:
                        # the library keeps rows from the bottom up; weights are the same from either end
                        e = sum(b * a * px[j][k][i] for j, b in enumerate(wy) if b for k, a in enumerate(wx) if a)
                        big = max([1.0] + [abs(px[j][k][i]) for j, b in enumerate(wy) if b for k, a in enumerate(wx) if a])
                        m = differs(fmt, ch, ty, got, e, 1e-6 if LAYOUT[fmt][1][ch][3] == 32 else 1e-9)
                        if m and LAYOUT[fmt][1][ch][1] != 'f':
                            # sums in another order may round differently
                            lo, hi = encode_range(fmt, ch, e - 1e-12 * big)[0], encode_range(fmt, ch, e + 1e-12 * big)[1]
                            if lo <= stored(fmt, ch, ty, got) <= hi:
                                m = None
                        if m and LAYOUT[fmt][1][ch][1] == 'f' and abs(stored(fmt, ch, ty, got) - e) <= 1e-9 * big:
                            m = None
                        if not m:
                            break
                    if not m:
                        break
                if m:
                    return 'channel %s becomes %s' % (ch, m)
        return True
    judge_pixels(ctx, d, 'mean', tag, where, None, None, judgepx)


def terms(d):
    """every term the pixels of the result depend on"""
    if d.bitmap.a[0] == 'lib':
        yield from (x for x in walk(d.bitmap) if isinstance(x, Term))
        return
    for e, t, sz in d.final.values():
        yield from (x for x in walk(t) if isinstance(x, Term))


def linear(ctx, fe):
    from .mips import Scene, World, canon, THIS
    m = ctx.load('lib/src/Image.cpp', keep=[r'cuttlefish::Image::(Image|~Image|operator=|changeColorSpace|resize|convert|initialize|reset|Impl::create)[(]'], limit=2000)
    off = m.offsets('cuttlefish::Image::Impl')
    name = {o: n for n, o in off.items()}
    class W:
        cs = m.enum('cuttlefish::ColorSpace')
        fe = m.enum('cuttlefish::Image::Format')
        grey = set()
    for f in m.find('cuttlefish::Image::resize(', one=False):
        if f.decl or len(f.args) != 5:
            continue
        for filt in fe:
            for cs in ('sRGB', 'Linear'):
                for size, to in (((4, 6), (4, 6)), ((4, 6), (2, 3)), ((4, 6), (3, 7)), ((5, 4), (5, 9)), ((5, 4), (8, 4)), ((5, 4), (5, 2)), ((5, 4), (3, 4))):
                    if cs == 'Linear' and size != to:
                        continue
                    tag = '%s %s %dx%d to %dx%d' % ((cs, filt) + size + to)
                    s = Scene(W)
                    RES = T('alloca', 'result', 0)
                    me = s.image(('me',), W.fe['RGBA8'], W.cs[cs], *size)
                    s.mem[(THIS, 8)] = me
                    c = {'format': W.fe['RGBA8'], 'colorSpace': W.cs[cs], 'width': size[0], 'height': size[1]}

                    def onload(an, p, ty, st, t):
                        b, o, x = split_ptr(p)
                        im = s.of(b)
                        if im and not x and name.get(o) in c:
                            return I({'format': im[1], 'colorSpace': im[2], 'width': im[3], 'height': im[4]}[name[o]])
                    def bind(an, i, dem, a, st):
                        if s.odd:
                            return None
                        if dem.startswith('cuttlefish::Image::') and '::Impl::' not in dem:
                            return s.imagecall(short(dem), dem, i, a, st)
                        if dem.startswith(('llvm.', '__cxa_', 'FreeImage_Initialise')):
                            return None
                        s.odd = s.odd or 'a call of ' + short(dem)
                    A = args(f)
                    A[0], A[1], A[2], A[3], A[4] = RES, THIS, I(to[0]), I(to[1]), I(fe[filt])
                    a = None
                    try:
                        a = Walk(f, A, pure=CONST, keeps=lambda n: True, bind=bind, onload=onload, mem=s.mem, steps=3000, guess=there)
                        if s.odd or not a.complete or len(a.traces) != 1:
                            raise Open(s.odd or 'the path is not known')
                        r = a.traces[0].st.mem.get((RES, 8))
                        if r is None or r is not NULL and not s.of(r):
                            raise Open('what is answered is not known')
                    except Open as e:
                        direct = cs == 'sRGB' and size != to and s.odd and a and a.complete and all(untouched(t) for t in a.traces)
                        ctx.check(False if direct else None, 'linear', tag, f.where(), 'the values are filtered with no change to linear space' if direct else str(e))
                        continue
                    except Wrong as e:
                        ctx.und('linear', tag, f.where(), str(e))
                        continue
                    want = me if size == to else s.recoloured(s.resized(s.recoloured(me, W.cs['Linear']), to[0], to[1], fe[filt]), W.cs[cs])
                    if r is NULL:
                        ctx.bad('linear', tag, f.where(), 'no image is answered')
                        continue
                    g, e = s.of(r), s.of(want)
                    steps = lambda p: () if p[0] == 'me' else steps(p[1]) + ((p[0],) + p[2:],)
                    ctx.check(steps(g[0]) == steps(e[0]) and g[1:] == e[1:] or (None if any(x[0] == 'convert' for x in steps(g[0])) else False), 'linear', tag, f.where(),
                              'the image is made by the steps %s instead of %s' % (tell_steps(steps(g[0])), tell_steps(steps(e[0]))))


def there(t):
    """images that are there are not null, the library succeeds"""
    if t.op == 'cmp' and t.a[0] in ('ne', 'eq') and NULL in t.a[1:] and any(x.op == 'q' and x.a[0] == 'im' for x in t.a[1:]):
        return t.a[0] == 'ne'
    if t.op == 'cmp' and t.a[0] in ('ne', 'eq') and NULL in t.a[1:] and any(x.op == 'call' and x.a[0].startswith(('FreeImage_', 'operator new', 'cuttlefish::Image::Impl::create(')) for x in t.a[1:]):
        return t.a[0] == 'ne'


def untouched(t):
    """the library resizes, and nothing on the path could have changed the values"""
    n = [e.name or '' for e in t.events if e.i.op in ('call', 'invoke')]
    return 'FreeImage_Rescale' in n and all(x.startswith(('FreeImage_Rescale', 'FreeImage_Get', 'FreeImage_Initialise', 'FreeImage_Unload', 'operator new', 'operator delete', 'llvm.', '__cxa_', 'cuttlefish::Image::Image(',
                                                         'cuttlefish::Image::~Image(', 'cuttlefish::Image::operator=(', 'cuttlefish::Image::Impl::create(')) for x in n)


def tell_steps(p):
    return ', '.join('%s %s' % ({'cs': 'colour space'}.get(x[0], x[0]), 'x'.join(str(y) for y in x[1:])) for x in p) or 'none'
