"""I07, I09: what images record about the bitmap they hold."""
from .util import *
from .fimodel import BITMAP, SAMPLES, Kinds, same_kind
from .image import IMG, IMPL, Im, Q, dimfold, dims_of
from sa.ir import AnalysisError

BMP = T('q', 'loaded bitmap')
LOADERS = ('FreeImage_Load', 'FreeImage_LoadU', 'FreeImage_LoadFromHandle', 'FreeImage_LoadFromMemory')
QUIET = lambda n: n.startswith(('FreeImage_', 'std::', '__cxa_'))


class Maker:
    """one operation that leaves an image behind, run for one kind of source"""

    def __init__(self, v, f, where, kinds, A, onload, mem=None, facts=()):
        self.v, self.f, self.where = v, f, where
        self.a = Analysis(f, A, facts=list(facts), pure=CONST, keeps=QUIET, onload=onload, mem=mem, bind=kinds)

    def objects(self):
        """[(implementation, event)] a path may leave in the image; None when it cannot be told"""
        out = []
        for x, e in self.a.rets():
            if not self.a.reachable(e.block):
                continue
            p = self.a.load(self.where, 8, 'ptr', e.st, e.i)
            for q in leaves(p):
                if q is NULL:
                    continue
                if q.op == 'call' and q.a[0].startswith('operator new'):
                    out.append((q, e))
                elif q is IMPL:
                    out.append((q, e))
                else:
                    return None
        return out

    def cell(self, q, e, n):
        v = self.v
        if q is IMPL:
            return None
        return self.a.load(ptr(q, v.off[n]), 8 if n == 'image' else v.size[n], 'ptr' if n == 'image' else 'i%d' % (8 * v.size[n]), e.st, e.i)


class Vocabulary(Im):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.size = {}
        for d in self.m.members.get('cuttlefish::Image::Impl'):
            self.size[d[0]] = d[3]

    def source(self, f, this, fmt, cs=None):
        """hooks that make the image passed as parameter `this` one of format fmt"""
        A = args(f)
        c = {'format': I(self.fe[fmt])}
        if cs is not None:
            c['colorSpace'] = I(self.cs[cs])
        def onload(an, p, ty, st, t):
            if p is A[this] and ty == 'ptr':
                return IMPL
            b, o, v = split_ptr(p)
            if b is IMPL and not v and o in self.name:
                n = self.name[o]
                return c.get(n) or Q[n]
        return A, onload


def makers(v):
    """[(tag, function, Maker, format asked for or None, kind of a loaded bitmap or None, requested size or None, colour space wanted)]"""
    def empty(A, this):
        return {(A[this], 8): NULL}
    for f in v.fns('initialize'):
        for fmt in v.formats:
            A = args(f)
            A[1] = I(v.fe[fmt])
            k = Kinds({})
            yield 'initialize %s' % fmt, f, Maker(v, f, A[0], k.bind, A, None, empty(A, 0)), k, fmt, None, (A[2], A[3]), A[4]
    for f in v.fns('load'):
        for name, (kind, tr) in sorted(SAMPLES.items()):
            A = args(f)
            k = Kinds({BMP: kind}, tr)
            def hook(an, i, dem, ar, st, k=k):
                if dem.split('(')[0] in LOADERS:
                    return BMP
                return k.bind(an, i, dem, ar, st)
            yield ('%s %s' % (f.dem[len('cuttlefish::Image::'):], name), f, Maker(v, f, A[0], hook, A, None, empty(A, 0), [cmp('ne', BMP, NULL)]),
                   k, None, kind, None, A[len(A) - 1])
    for f in v.fns('Image') + v.fns('operator='):
        if '(cuttlefish::Image const&)' in f.dem:
            for fmt in v.formats:
                A, onload = v.source(f, 1, fmt)
                k = Kinds({Q['image']: BITMAP[fmt]})
                fs = [cmp('ne', IMPL, NULL), cmp('ne', A[0], A[1])]
                yield 'copy %s by %s' % (fmt, f.dem.split('::')[2].split('(')[0]), f, Maker(v, f, A[0], k.bind, A, onload, empty(A, 0), fs), k, fmt, None, (Q['width'], Q['height']), Q['colorSpace']
    for f in v.fns('convert'):
        for fmt in v.formats:
            for to in v.formats:
                for cs in ('Linear', 'sRGB'):
                    A, onload = v.source(f, 1, fmt, cs)
                    A[2] = I(v.fe[to])
                    k = Kinds({Q['image']: BITMAP[fmt]})
                    yield 'convert %s %s to %s' % (cs, fmt, to), f, Maker(v, f, A[0], k.bind, A, onload, None, [cmp('ne', IMPL, NULL)]), k, to, None, (Q['width'], Q['height']), I(v.cs[cs])
    for f in v.fns('resize'):
        for fmt in v.formats:
            for cs in ('Linear',):      # an image in sRGB is resized by resizing its linear form
                for filt, fv in sorted(v.m.enum('cuttlefish::Image::ResizeFilter').items()):
                    A, onload = v.source(f, 1, fmt, cs)
                    A[4] = I(fv)
                    k = Kinds({Q['image']: BITMAP[fmt]})
                    fs = [cmp('ne', IMPL, NULL), cmp('ne', A[2], I(0)), cmp('ne', A[3], I(0)), cmp('ne', A[2], Q['width'])]
                    yield 'resize %s %s %s' % (filt, cs, fmt), f, Maker(v, f, A[0], k.bind, A, onload, None, fs), k, fmt, None, (A[2], A[3]), I(v.cs[cs])
    for f in v.fns('rotate'):
        for fmt in v.formats:
            for ang, av in sorted(v.m.enum('cuttlefish::Image::RotateAngle').items()):
                A, onload = v.source(f, 1, fmt)
                A[2] = I(av)
                k = Kinds({Q['image']: BITMAP[fmt]})
                size = (Q['width'], Q['height']) if ang.endswith('180') else (Q['height'], Q['width'])
                yield 'rotate %s %s' % (ang, fmt), f, Maker(v, f, A[0], k.bind, A, onload, None, [cmp('ne', IMPL, NULL)]), k, fmt, None, size, Q['colorSpace']
    for f in v.fns('createNormalMap'):
        for fmt in v.formats:
            A, onload = v.source(f, 1, 'RGBA8')
            A[4] = I(v.fe[fmt])
            k = Kinds({Q['image']: BITMAP['RGBA8']})
            yield 'normal map as %s' % fmt, f, Maker(v, f, A[0], k.bind, A, onload, None, [cmp('ne', IMPL, NULL)]), k, fmt, None, (Q['width'], Q['height']), None


GETTERS = ('redMask', 'greenMask', 'blueMask', 'alphaMask', 'redShift', 'greenShift', 'blueShift', 'alphaShift', 'bitsPerPixel')


def shown(v, mk, q, e, memo):
    """{getter: what it answers for the implementation left behind}"""
    cells = {n: mk.cell(q, e, n) for n in v.size}
    key = tuple(sorted((n, c) for n, c in cells.items() if n not in ('image', 'width', 'height', 'colorSpace')))
    if key in memo:
        return memo[key]
    out = {}
    for g in GETTERS:
        f, = v.fns(g)
        A = args(f)
        def onload(an, p, ty, st, t):
            if p is A[0] and ty == 'ptr':
                return IMPL
            b, o, x = split_ptr(p)
            if b is IMPL and not x and o in v.name:
                return cells[v.name[o]]
        a = Analysis(f, A, facts=[cmp('ne', IMPL, NULL)], pure=CONST, keeps=QUIET, onload=onload)
        r = [(x, ev) for x, ev in a.rets() if a.reachable(ev.block)]
        out[g] = r[0] if len(r) == 1 else (None, None)
    memo[key] = out
    return out


def masks(kind):
    alpha = 0xff000000 if kind[:2] == (1, 32) else 0
    m = {'red': kind[3], 'green': kind[4], 'blue': kind[5], 'alpha': alpha}
    r = {c + 'Mask': x for c, x in m.items()}
    r.update({c + 'Shift': (x & -x).bit_length() - 1 if x else 0 for c, x in m.items()})
    r['bitsPerPixel'] = kind[1]
    return r


def i07(ctx):
    ctx.rule('mask', 'whatever made an image, each mask, shift and the bits per pixel it reports are those of that channel of its bitmap')
    v = Vocabulary(ctx)
    memo, done = {}, {}
    for tag, f, mk, k, fmt, loaded, size, cs in makers(v):
        ctx.fn(f)
        obs = mk.objects()
        if obs is None:
            ctx.und('mask', tag, f.dem, 'what the image holds afterwards was not recognised')
            continue
        for q, e in obs:
            if q is IMPL:
                continue
            kind = k.of(mk.cell(q, e, 'image'))
            if kind is None:
                ctx.und('mask', tag, e.where(), 'the kind of the bitmap is not known')
                continue
            got = shown(v, mk, q, e, memo)
            for g, w in masks(kind).items():
                x, ev = got[g]
                if g == 'alphaMask' and kind[:2] == (1, 32) and x is not None and x.op == 'int' and x.a[0] not in (0, w):
                    pass
                key = (g, kind, x)
                sure = x is not None and x.op == 'int'
                if sure and x.a[0] & 0xffffffff == w:
                    ctx.ok('mask', '%s %s' % (tag, g), ev.where())
                elif sure:
                    ctx.bad('mask', '%s %s' % (tag, g), ev.where(), '%s() answers 0x%x, the bitmap\'s is 0x%x' % (g, x.a[0] & 0xffffffff, w))
                else:
                    ctx.und('mask', '%s %s' % (tag, g), f.dem, '%s() does not answer a constant' % g)
    ctx.floor('mask', 100)


def i09(ctx):
    ctx.rule('storage', 'the format an image records is the one that describes its bitmap')
    ctx.rule('asked', 'creating, converting and copying record exactly the format asked for')
    ctx.rule('size', 'the width and height an image records are its bitmap\'s')
    ctx.rule('requested', 'the bitmap has exactly the size asked for; a size the library cannot represent is refused')
    ctx.rule('made', 'every format can be created, copied, rotated and converted to, and what the library loads in a form images do not have becomes a format that keeps its colour and transparency')
    ctx.rule('space', 'the recorded colour space is the one given, or the source\'s')
    ctx.rule('reported', 'the queries for format, size, colour space and validity answer what the image records, or what its bitmap has')
    ctx.rule('constructed', 'an image constructed with a format and size is created with exactly these')
    from .ctors import constructors
    constructors(ctx, 'lib/src/Image.cpp', 'cuttlefish::Image', ('initialize',), 'constructed')
    v = Vocabulary(ctx)
    fname = {x & 0xffffffff: n for n, x in v.fe.items()}
    for tag, f, mk, k, fmt, loaded, size, cs in makers(v):
        ctx.fn(f)
        obs = mk.objects()
        if obs is None:
            ctx.und('storage', tag, f.dem, 'what the image holds afterwards was not recognised')
            continue
        if not tag.startswith('resize') and not (loaded and loaded[3] == 0xf00):
            ctx.check(bool(obs), 'made', tag, f.dem, 'no path leaves an image')
        for q, e in obs:
            if q is IMPL:
                continue
            img, F = mk.cell(q, e, 'image'), mk.cell(q, e, 'format')
            kind = k.of(img)
            where = e.where()
            fn = fname.get(F.a[0] & 0xffffffff) if F.op == 'int' else None
            if kind is None or F.op != 'int':
                ctx.und('storage', tag, where, 'the kind of the bitmap or the recorded format is not known')
            else:
                ctx.check(fn in BITMAP and same_kind(BITMAP[fn], kind), 'storage', tag, where,
                          'the image records %s over a bitmap of type %d with %d bits per pixel and green mask 0x%x' % (fn, kind[0], kind[1], kind[4]))
            if fmt and not tag.startswith(('resize', 'rotate')):
                ctx.check(None if F.op != 'int' else fn == fmt, 'asked', tag, where, 'the image records %s instead of %s' % (fn, fmt))
            if loaded and fn:
                color, alpha = loaded[2][0] not in (0, 1) and loaded[0] == 1 or loaded[0] in (9, 10, 11, 12), k.transparent
                ctx.check((not color or fn.startswith('RGB')) and (not alpha or fn.startswith('RGBA')), 'made', tag + ' channels', where, 'what was loaded is held as ' + fn)
            d = dims_of(img)
            d = d and [dimfold(x) for x in d]
            for n, i in (('width', 0), ('height', 1)):
                c = noep(mk.cell(q, e, n))
                own = c.op == 'call' and c.a[0].split('(')[0] == ('FreeImage_GetWidth', 'FreeImage_GetHeight')[i] and noep(c.a[2][0]) is noep(img)
                other = c.op == 'call' and c.a[0].split('(')[0] == ('FreeImage_GetHeight', 'FreeImage_GetWidth')[i] and noep(c.a[2][0]) is noep(img)
                if not own and d:
                    own = same_size(c, d[i])
                ctx.check(True if own else False if other or c.op == 'int' else None, 'size', '%s %s' % (tag, n), where, 'the %s recorded is not the bitmap\'s' % n)
                if size and d:
                    r = same_size(d[i], size[i])
                    wrong = not r and atomic(d[i]) and atomic(size[i])
                    ctx.check(True if r else False if wrong else None, 'requested', '%s %s' % (tag, n), where, 'the bitmap\'s %s is %s instead of %s' % (n, show(d[i]), show(size[i])))
            if cs is not None:
                c = mk.cell(q, e, 'colorSpace')
                r = same_size(c, cs)
                ctx.check(True if r else False if atomic(c) and atomic(cs) else None, 'space', tag, where, 'the colour space recorded is not the one given')
    reported(ctx, v)
    f, = v.fns('initialize')
    for n in (2, 3):
        A = args(f)
        A[1] = I(v.fe['Gray8'])
        mk = Maker(v, f, A[0], Kinds({}).bind, A, None, {(A[0], 8): NULL}, [cmp('ugt', A[n], I(0x7fffffff))])
        ctx.check(mk.objects() == [] or (None if mk.objects() is None else False), 'requested', 'initialize with a %s above INT_MAX' % ('width', 'height')[n - 2], f.dem, 'the library takes the absolute value of the size as an int')
    A = args(f)
    A[1] = I(v.fe['Invalid'])
    mk = Maker(v, f, A[0], Kinds({}).bind, A, None, {(A[0], 8): NULL})
    ctx.check(mk.objects() == [] or (None if mk.objects() is None else False), 'asked', 'initialize without a format', f.dem, 'an image is created without a format')
    for r in ('storage', 'asked', 'size', 'requested', 'space', 'reported'):
        ctx.floor(r, 10)


def reported(ctx, v):
    """the queries on an image of known records: constants in, the constant recorded out"""
    bmp = T('alloca', 'bitmap', 1)
    sizes = ((1, 1), (5, 3), (3, 5), (16, 1), (1, 256), (70000, 2), (2, 1 << 30))
    cases = [(fmt, w, h, cs) for fmt in v.formats for cs in v.cs for w, h in sizes[:3]] + [('RGBA8', w, h, 'sRGB') for w, h in sizes]
    lib = lambda w, h: {'FreeImage_GetWidth': I(w), 'FreeImage_GetHeight': I(h)}
    for n in ('format', 'width', 'height', 'colorSpace', 'isValid', 'operator bool'):
        for f in v.fns(n):
            ctx.fn(f)
            for fmt, w, h, cs in cases:
                cell = dict(image=bmp, format=I(v.fe[fmt]), width=I(w), height=I(h), colorSpace=I(v.cs[cs]))
                A = args(f)
                def onload(an, p, ty, st, t):
                    if p is A[0] and ty == 'ptr':
                        return IMPL
                    b, o, x = split_ptr(p)
                    if b is IMPL and not x and o in v.name:
                        return cell.get(v.name[o])
                a = Analysis(f, A, facts=[cmp('ne', IMPL, NULL)], pure=CONST, keeps=QUIET, onload=onload,
                             bind=lambda an, i, dem, ar, st: lib(w, h).get(dem.split('(')[0]) if ar and ar[0] is bmp else None)
                r = {x for x, ev in a.rets() if a.reachable(ev.block)}
                want = {'format': v.fe[fmt], 'width': w, 'height': h, 'colorSpace': v.cs[cs]}.get(n, 1)
                x = next(iter(r)) if len(r) == 1 else None
                sure = x is not None and x.op == 'int'
                ctx.check(None if not sure else x.a[0] & 0xffffffff == want & 0xffffffff, 'reported', '%s %s %dx%d %s' % (n, fmt, w, h, cs), f.dem,
                          '%s() of a %dx%d image of %s in %s answers %s' % (n, w, h, fmt, cs, x and show(x)))


def bare(t):
    t = noep(t)
    while t.op in ('zext', 'sext', 'trunc'):
        t = t.a[1]
    return t


def atomic(t):
    return bare(t).op in ('int', 'arg', 'q')


def same_size(x, y):
    x, y = bare(x), bare(y)
    return x is y or x.op == 'int' and y.op == 'int' and x.a[0] == y.a[0]
