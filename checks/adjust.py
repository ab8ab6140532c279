"""T07: Texture::adjustImageValueRange."""
import math
from .util import *
from . import pix
from .conv import PURE
from sa.ir import AnalysisError
from sa.walk import Walk

TEX = 'lib/src/Texture.cpp'
FMT = 1 << 12          # where the analysis keeps the format an image object has (no image is that large)
BITS = {'Gray8': (8,) * 4, 'RGB8': (8,) * 4, 'RGBA8': (8,) * 4, 'Gray16': (16,) * 4, 'RGB16': (16,) * 4, 'RGBA16': (16,) * 4,
        'RGB5': (5, 5, 5, None), 'RGB565': (5, 6, 5, None)}
FLOATS = {'Float': 1, 'RGBF': 3, 'RGBAF': 4}
BECOMES = {'Gray8': 'Float', 'Gray16': 'Float', 'Double': 'Float', 'Float': 'Float', 'RGB5': 'RGBF', 'RGB565': 'RGBF', 'RGB8': 'RGBF', 'RGB16': 'RGBF',
           'Complex': 'RGBF', 'RGBF': 'RGBF', 'RGBA8': 'RGBAF', 'RGBA16': 'RGBAF', 'RGBAF': 'RGBAF'}
SIZES = [(1, 1), (3, 2), (2, 3)]
POINTS = [0.0, 1.0, 0.5, 0.25, 1 / 3.0, 0.1, 0.9, 0.7, 0.0019, 0.9981, 0.4999, 0.5001, 1 / 31.0, 5 / 63.0, 200 / 255.0, 40000 / 65535.0, 0.6502]


class Unmodelled(Exception):
    pass


class Adjust:
    def __init__(self, ctx):
        self.m = ctx.load(TEX, limit=4000)
        fs = [f for f in self.m.find('cuttlefish::Texture::adjustImageValueRange(', one=False) if not f.decl]
        if len(fs) != 1:
            raise AnalysisError('%d definitions of adjustImageValueRange' % len(fs))
        self.f = fs[0]
        ctx.fn(self.f)
        self.fmt = self.m.enum('cuttlefish::Image::Format')
        self.name = {v: k for k, v in self.fmt.items()}
        self.type = self.m.enum('cuttlefish::Texture::Type')
        self.image = T('arg', 0, '$image')

    def walk(self, fmt, typ, orig, w, h, valid=True):
        odd = []

        def where(x):
            return ptr(x, FMT)

        def bind(an, i, dem, a, st):
            n = short(dem)
            if not dem.split('(')[0].split(' ')[-1].startswith('cuttlefish::Image::') and 'cuttlefish::Image::' not in dem.split('(')[0]:
                return None
            if n in ('isValid', 'operator bool'):
                return I(int(valid), 1)
            if n == 'format':
                return st.mem.get((where(a[0]), 4)) or odd.append(n)
            if n in ('width', 'height'):
                return I(w if n == 'width' else h)
            if n == 'scanline':
                v = st.mem.get((where(a[0]), 4))
                if v is None or a[1].op != 'int':
                    odd.append(n)
                    return None
                return T('q', 'row', a[1].a[0], v.a[0])
            if n == 'convert' and len(a) >= 3:
                st.mem[(where(a[0]), 4)] = a[2]
                if a[2].op != 'int' or a[1] is not self.image:
                    odd.append(n)
                return T('void')
            if n == 'operator=':
                v = st.mem.get((where(a[1]), 4))
                if v is None:
                    odd.append(n)
                else:
                    st.mem[(where(a[0]), 4)] = v
                return a[0]
            if n in ('~Image',):
                return T('void')
            if n == 'Image' and len(a) == 2:
                v = st.mem.get((where(a[1]), 4))
                if v is not None:
                    st.mem[(where(a[0]), 4)] = v
                    return T('void')
            odd.append(n)
            return None
        a = Walk(self.f, [self.image, I(self.type[typ]), I(self.fmt[orig])], mem={(where(self.image), 4): I(self.fmt[fmt])},
                 pure=PURE, keeps=lambda n: 'cuttlefish::Image::' in n.split('(')[0], bind=bind)
        if odd:
            raise Unmodelled('use of Image::%s' % odd[0])
        if not a.complete or len(a.traces) != 1:
            raise Unmodelled('the path depends on pixel values')
        t = a.traces[0]
        out = t.st.mem.get((where(self.image), 4))
        if out is None or out.op != 'int':
            raise Unmodelled('format of the result')
        # the last value of every float of the image
        final = {}
        for e in t.events:
            if e.i.op == 'store':
                q, o, var = split_ptr(e.args[1])
                if q.op == 'q' and q.a[0] == 'row':
                    if var or q.a[2] != out.a[0]:
                        raise Unmodelled('store at an unknown place or before a conversion')
                    final[(q.a[1], o)] = (e, e.args[0], e.i.get('size'))
                elif q.op not in ('alloca',):
                    raise Unmodelled('store outside the image')
            elif e.i.op in ('call', 'invoke') and any(hasattr(z, 'op') and split_ptr(z)[0].op == 'q' for z in e.args):
                raise Unmodelled('a row is handed to %s' % short(e.name or 'a function'))
        return self.name.get(out.a[0]), final


def expect(typ, orig, c):
    """what a channel value v becomes: (function, tolerance) or None when nothing is promised"""
    if typ == 'SNorm':
        return lambda v: 2 * v - 1
    b = BITS[orig][c]
    if b is None:
        return None
    mx = float((1 << b) - 1)
    off = -float(1 << b - 1) if typ == 'Int' else 0.0
    return lambda v: v * mx + off


def t07(ctx):
    ctx.rule('untouched', 'an image whose original values are not normalised, a type without a range of its own, and an empty image are left alone')
    ctx.rule('format', 'an adjusted image has float channels, as many as before')
    ctx.rule('range', 'every channel of every pixel becomes, by constant propagation along the rows of images of fixed sizes and evaluation of the stored '
                      'expression, the value of the target range: 2v-1 (signed normalised), the integer of the original precision (unsigned), less half the range (signed)')
    x = Adjust(ctx)
    for typ in x.type:
        if typ == 'Count':
            continue
        ctx.parallel([lambda g=g: one(ctx, x, typ, g) for g in list(x.fmt)])
    ctx.floor('untouched', 100)
    ctx.floor('range', 100)
    ctx.assume('Image::convert gives an image of the format asked for (I09), and conversion to float keeps the channels')


def one(ctx, x, typ, g):
    """all image formats for one original format"""
    for f in x.fmt:
        if f == 'Invalid':
            continue
        orig = f if g == 'Invalid' else g
        key = '%s-%s-%s' % (typ, f, g)
        where = x.f.where()
        acts = typ in ('SNorm', 'UInt', 'Int') and orig in BITS and f in BECOMES
        try:
            if g == 'Invalid' or not acts:
                out, final = x.walk(f, typ, g, 2, 2, valid=False)
                ctx.check(not final and out == f, 'untouched', key + '-empty', where, 'an empty image is changed')
            for w, h in SIZES if acts else SIZES[1:2]:
                out, final = x.walk(f, typ, g, w, h)
                if not acts:
                    ev = next(iter(final.values()))[0] if final else None
                    ctx.check(not final and out == f, 'untouched', key, ev.where() if ev else where, 'an image of format %s (originally %s) is changed for type %s' % (f, orig, typ))
                    continue
                ctx.check(out == BECOMES[f], 'format', key, where, 'an image of format %s becomes %s' % (f, out))
                if out != BECOMES[f]:
                    continue
                n = FLOATS[out]
                judge_range(ctx, x, key, typ, orig, n, w, h, final)
        except Unmodelled as e:
            ctx.und('range' if acts else 'untouched', key, where, str(e))


def judge_range(ctx, x, key, typ, orig, n, w, h, final):
    want = {(y, 4 * k) for y in range(h) for k in range(w * n)}
    for p in sorted(final):
        if p not in want:
            ctx.bad('range', key, final[p][0].where(), 'for %dx%d pixels, byte %d of row %d is written' % (w, h, p[1], p[0]))
            return
    memo = {}
    for y, o in sorted(want):
        c = o // 4 % n
        fn = expect(typ, orig, c)
        e, v, sz = final.get((y, o), (None, None, None))
        if fn is None:
            continue
        what = 'channel %d of pixel (%d, %d)' % (c, o // 4 // n, y)
        if e is None:
            # left alone: right only when nothing had to change
            ctx.bad('range', key, x.f.where(), 'for %dx%d pixels, %s is not adjusted' % (w, h, what))
            return
        atoms = {t for t in walk(v) if t.op == 'load' and split_ptr(t.a[0])[0].op == 'q'}
        if sz != 4 or len(atoms) != 1:
            if sz == 4 and atoms:
                ctx.bad('range', key, e.where(), 'for %dx%d pixels, %s depends on %d values' % (w, h, what, len(atoms)))
            else:
                ctx.und('range', key, e.where(), 'stored value not understood')
            return
        (at,) = atoms
        q, oo, var = split_ptr(at.a[0])
        if (q.a[1], oo) != (y, o) or var:
            ctx.bad('range', key, e.where(), 'for %dx%d pixels, %s is computed from byte %d of row %s' % (w, h, what, oo, q.a[1]))
            return
        t = replace(v, {at: T('load', T('chan'), 0, 'float')})
        k = (t, c)
        if k in memo:
            continue
        memo[k] = True
        f = pix.compile_term(t, lambda z: 'v' if z.op == 'load' and z.a[0].op == 'chan' else None, ('v',), strict=True)
        if f is None:
            ctx.und('range', key, e.where(), 'stored value not understood: %s' % show(t, 6))
            return
        b = BITS[orig][c] or 8
        for v0 in POINTS + [k / float((1 << b) - 1) for k in range(0, 1 << b, 1 if b <= 8 else 251)]:
            v0 = pix.f32(v0)
            try:
                got = f(v0)
            except (TypeError, ValueError, OverflowError):
                ctx.und('range', key, e.where(), 'stored value not evaluated')
                return
            ref = fn(v0)
            ok = abs(got - ref) < 1e-5 if typ == 'SNorm' else got == math.floor(got) and abs(got - ref) < 0.5 + abs(ref) * 3e-7 + (1 << b) * 2e-7
            if not ok:
                ctx.bad('range', key, e.where(), 'originally %s, type %s, %s: the value %.6g becomes %.6g, expected %.6g' % (orig, typ, what, v0, got, ref if typ == 'SNorm' else math.floor(ref + 0.5)))
                return
    ctx.ok('range', '%s-%dx%d' % (key, w, h), x.f.where(), '%d values' % len(want))
