"""T01..T06: the texture's shape, storage and state."""
from .util import *
from .fimodel import BITMAP, answers
from sa.ir import AnalysisError

TEX = 'lib/src/Texture.cpp'
TKEEP = ['maxMipmapLevels', 'generateMips3d', r'Texture::(imagesComplete|isFormatValid|hasNativeSRGB)\(', r'Converter::convert\(']
from . import api
PURE = CONST
DIMS = ('Dim1D', 'Dim2D', 'Dim3D', 'Cube')


class Tex:
    """vocabulary for the state of a texture: the cells of `*this` and of its implementation"""

    def __init__(self, ctx, keep=TKEEP):
        self.ctx = ctx
        self.m = ctx.load(TEX, keep=keep)
        self.off = self.m.offsets('cuttlefish::Texture::Impl')
        for n in ('dimension', 'colorSpace', 'width', 'height', 'depth', 'mipLevels', 'faces', 'images', 'format', 'type', 'textures'):
            if n not in self.off:
                raise AnalysisError('Texture::Impl has no member %s' % n)
        self.dim = self.m.enum('cuttlefish::Texture::Dimension')
        self.this = T('arg', 0, '$0')
        self.impl = T('load', self.this, 0, 'ptr')
        Tex.last = self

    def cell(self, n, impl=None):
        return ptr(impl or self.impl, self.off[n])

    def L(self, n):
        return T('load', self.cell(n), 0, 'i32')

    def mem(self, dim, **kw):
        """entry memory for a texture of the given kind; other shape numbers fixed by keyword"""
        d = dict(dimension=self.dim[dim], faces=6 if dim == 'Cube' else 1, **kw)
        return {(self.cell(k), 4): I(v) for k, v in d.items()}

    def null(self):
        return {(self.this, 8): NULL}

    def depthat(self, dim, mip):
        D = self.L('depth')
        if dim == 'Dim3D':
            return mm('umax', binop('lshr', 32, D, mip), I(1))
        return mm('umax', D, I(1))

    def elem(self, vec, idx, size):
        """address of vec[i0][i1][i2] (nested vectors), without epochs"""
        p = self.cell(vec)
        for k, i in enumerate(idx):
            p = ptr(T('load', p, 0, 'ptr'), 0, ((cast('zext', 'i64', i), size[k]),))
        return p

    def storage(self, vec, t):
        """t is (or lies behind) an element of the nested vector vec"""
        t = noep(t)
        root = T('load', self.cell(vec), 0, 'ptr')
        return any(x is root for x in walk(t))

    def fn(self, prefix, **kw):
        f = self.m.find('cuttlefish::Texture::' + prefix, **kw)
        return f


def derefnull(a):
    """events accessing memory through a null pointer"""
    r = []
    for e in a.events:
        if e.i.op in ('load', 'store'):
            p = e.args[0] if e.i.op == 'load' else e.args[1]
            if split_ptr(p)[0] is NULL:
                r.append(e)
    return r


def accesses(t, a, vec):
    """loads through an element of vec (anything deeper than the vector's own begin and end), with the address"""
    r = []
    root = T('load', t.cell(vec), 0, 'ptr')
    for e in a.events:
        if e.i.op in ('load', 'store'):
            p = noep(e.args[0] if e.i.op == 'load' else e.args[1])
            if root in walk(p):
                r.append(e)
    return r


def signature(t, f):
    """(mip argument, depth argument or None, face argument or None) of a query by its parameter list"""
    dem = f.dem
    ps = dem[dem.rindex('(') + 1:dem.rindex(')')].split(', ')
    face = None
    ints = []
    for k, p in enumerate(ps):
        if 'CubeFace' in p:
            face = k + 1
        elif p == 'unsigned int':
            ints.append(k + 1)
    sret = len(f.args) - len(ps) - 1
    return [i + sret for i in ints], (face + sret if face else None)


def t01(ctx):
    ctx.rule('null', 'on a texture without implementation no query dereferences it, and each returns 0, false, null or an empty image')
    ctx.rule('out-of-range', 'under mipLevel >= mipLevels, depth >= depth(mipLevel), a face the texture lacks, or no encoded data, no element of the '
                             'surface or data lists is reached and the result is the neutral one')
    ctx.rule('in-range', 'under in-range arguments every return answers for exactly element [mipLevel][depth][face] or the size of exactly that level')
    t = Tex(ctx)
    queries = [('width(', 'size'), ('height(', 'size'), ('depth(', 'size'), ('getImage(', 'image'), ('dataSize(', 'dsize'), ('data(', 'data')]
    mip, d, face = T('q', 'mip'), T('q', 'depth'), T('q', 'face')
    for prefix, kind in queries:
        for f in t.fn(prefix, one=False):
            if f.decl:
                continue
            ctx.fn(f)
            ints, fa = signature(t, f)
            A = args(f)
            name = short(f.dem) + ('-face' if fa else '')
            query(ctx, t, f, A, name, kind, prefix[:-1], ints, fa)
    for prefix in ('dimension(', 'colorSpace(', 'isArray(', 'mipLevelCount(', 'faceCount(', 'imagesComplete(', 'converted(', 'format(', 'type(',
                   'alphaType(', 'colorMask(', 'generateMipmaps(', 'convert(', 'isValid(', 'operator bool('):
        for f in t.fn(prefix, one=False):
            ctx.fn(f)
            if not f.dem[f.dem.index('('):] or 'Texture' not in f.dem:
                continue
            if f.args and f.sret:
                continue
            if not nonstatic(f):
                continue
            a = Analysis(f, args(f), mem=t.null(), pure=PURE)
            bad = derefnull(a)
            name = short(f.dem)
            ctx.check(not bad, 'null', name, (bad[0] if bad else f).where(), '%s dereferences the missing implementation' % name)
            if name in ('isArray', 'mipLevelCount', 'faceCount', 'imagesComplete', 'converted', 'isValid', 'operator bool', 'generateMipmaps', 'convert'):
                r = [x for x in retleaves(a) if not (x.op == 'int' and x.a[0] == 0)]
                if name == 'convert' and r:
                    # relies on imagesComplete(), analysed above
                    a = Analysis(f, args(f), mem=t.null(), pure=PURE, bind=lambda an, i, dem, ar, st: FALSE if short(dem) == 'imagesComplete' else None)
                    r = [x for x in retleaves(a) if not (x.op == 'int' and x.a[0] == 0)]
                und = r and any(x.op != 'int' for x in r)
                ctx.check(not r if not und else None, 'null', name + '-result', f.where(), '%s of an uninitialised texture returns %s' % (name, r and show(r[0])))
    ctx.floor('null', 15)
    ctx.floor('out-of-range', 30)
    ctx.floor('in-range', 30)
    ctx.assume('the surface and data lists have the texture\'s shape (rule of T03); CubeFace arguments are enumerators')


def nonstatic(f):
    return f.args and (f.args[0]['ty'] if isinstance(f.args[0], dict) else f.args[0]) == 'ptr'


def query(ctx, t, f, A, name, kind, field, ints, fa):
    mip = A[ints[0]]
    d = A[ints[1]] if len(ints) > 1 else None
    face = A[fa] if fa else None
    vec = 'images' if kind == 'image' else 'textures'
    def neutral(x):
        if kind == 'image':
            return not t.storage('images', x) and split_ptr(x)[0].op != 'int'
        if x.op == 'int':
            return x.a[0] == 0
        return x is NULL

    # no implementation
    a = Analysis(f, A, mem=t.null(), pure=PURE)
    bad = derefnull(a)
    ctx.check(not bad, 'null', name, (bad[0] if bad else f).where(), '%s dereferences the missing implementation' % name)
    r = [x for x in retleaves(a) if not neutral(x) or any(y is NULL for y in walk(x)) and x is not NULL]
    ctx.check(not r, 'null', name + '-result', f.where(), '%s of an uninitialised texture returns %s' % (name, r and show(r[0])))

    ne = cmp('ne', t.impl, NULL)
    lv = cmp('ult', mip, t.L('mipLevels'))
    tb = T('load', t.cell('textures'), 0, 'ptr'); te = T('load', ptr(t.cell('textures'), 8), 0, 'ptr')
    conv = [cmp('ne', tb, te)] if vec == 'textures' and kind != 'size' else []
    for dim in DIMS:
        mem = t.mem(dim)
        cases = [('mip', [ne, cmp('ule', t.L('mipLevels'), mip)] + conv)]
        inr = [ne, lv] + conv
        if d is not None:
            dd = t.depthat(dim, mip)
            cases.append(('depth', [ne, lv, cmp('ule', dd, d)] + conv))
            inr.append(cmp('ult', d, dd))
            if fa is None and dim == 'Cube':
                cases.append(('faceless', inr[:]))
                inr = None
            elif fa and dim != 'Cube':
                cases.append(('face', inr + [cmp('ne', face, I(0))]))
                inr.append(cmp('eq', face, I(0)))
            if conv and inr:
                cases.append(('unconverted', [x for x in inr if x is not conv[0]] + [cmp('eq', tb, te)]))
        for cn, facts in cases:
            key = '%s-%s-%s' % (name, dim, cn)
            a = Analysis(f, A, facts=facts, mem=mem, pure=PURE)
            acc = accesses(t, a, vec) if kind != 'size' else []
            rl = retleaves(a)
            r = [x for x in rl if not neutral(x)]
            if acc or r:
                # confirm on a corner case, where everything is constant
                bad = corners(t, f, A, dim, kind, field, ints, fa, cn)
                w = acc[0] if acc else f
                ctx.check(False if bad else None, 'out-of-range', key, w.where(), '%s reaches %s for an argument out of range (%s%s)' % (
                    name, show(r[0]) if r else 'the lists', cn, ': ' + bad if bad else ''))
            else:
                ctx.ok('out-of-range', key, f.where())
        if inr is None:
            continue
        key = '%s-%s' % (name, dim)
        B = list(A)
        if fa and dim != 'Cube':
            B[fa] = I(0)
        a = Analysis(f, B, facts=inr, mem=mem, pure=PURE)
        rl = set(noep(x) for x in retleaves(a))
        want = expected(t, dim, kind, field, mip, d, face)
        good = rl and all(x is want or same_lin(x, want) for x in rl)
        if not good:
            bad = corners(t, f, A, dim, kind, field, ints, fa, 'in')
            ctx.check(False if bad else None, 'in-range', key, f.where(), '%s answers %s for an in-range argument, expected %s%s' % (
                name, ', '.join(show(x) for x in rl), show(want), ' (%s)' % bad if bad else ''))
        else:
            ctx.ok('in-range', key, f.where())


def expected(t, dim, kind, field, mip, d, face):
    if kind == 'size':
        if field == 'depth':
            return t.depthat(dim, mip)
        return mm('umax', binop('lshr', 32, t.L(field), mip), I(1))
    fi = face if face is not None and dim == 'Cube' else I(0)
    vec = 'images' if kind == 'image' else 'textures'
    p = t.elem(vec, (mip, d, fi), (24, 24, 8 if kind == 'image' else 24))
    if kind == 'image':
        return p
    b = T('load', p, 0, 'ptr')
    if kind == 'data':
        return b
    return noep(binop('sub', 64, T('load', ptr(p, 8), 0, 'ptr'), b))


SHAPES = [('Dim1D', 13, 1, 2, 4), ('Dim2D', 13, 7, 3, 4), ('Dim3D', 13, 7, 5, 4), ('Cube', 7, 7, 2, 3), ('Dim1D', 16, 1, 0, 5), ('Dim1D', 16, 1, 3, 5), ('Dim2D', 16, 8, 0, 5), ('Dim2D', 16, 8, 3, 5), ('Dim2D', 16, 8, 1, 2), ('Dim3D', 16, 8, 4, 5),
          ('Dim3D', 4, 4, 16, 5), ('Dim3D', 4, 4, 5, 1), ('Cube', 8, 8, 0, 4), ('Cube', 8, 8, 2, 4), ('Cube', 8, 8, 2, 1)]


def lists(t, dim, levels, dep, unconverted):
    """the extent of every list of a texture of constant shape: each ends as many elements behind its beginning as the shape says"""
    r = {}
    for vec in ('images', 'textures'):
        def extent(p, n):
            b = T('load', p, 0, 'ptr')
            r[(ptr(p, 8), 8)] = ptr(b, n * 24)
            return b
        n = 0 if vec == 'textures' and unconverted else levels
        b = extent(t.cell(vec), n)
        for k in range(n):
            c = extent(ptr(b, 24 * k), dep(k))
            for d in range(dep(k)):
                p = ptr(c, 24 * d)
                e = T('load', p, 0, 'ptr')
                r[(ptr(p, 8), 8)] = ptr(e, (6 if dim == 'Cube' else 1) * (8 if vec == 'images' else 24))
    return r


def beyond(e, ends):
    """an access of a list's elements beyond the list's end, the extents being those of lists()"""
    p = noep(e.args[0] if e.i.op == 'load' else e.args[1])
    b, off, vars = split_ptr(p)
    end = ends.get((ptr(b.a[0], 8), 8)) if b.op == 'load' else None
    return end is not None and not vars and not 0 <= off < split_ptr(end)[1]


def corners(t, f, A, dim, kind, field, ints, fa, case):
    """a constant shape and argument list for which the answer is definitely wrong, or None"""
    vec = 'images' if kind == 'image' else 'textures'
    tb = T('load', t.cell('textures'), 0, 'ptr'); te = T('load', ptr(t.cell('textures'), 8), 0, 'ptr')
    for dm, W, H, D, levels in SHAPES:
        if dm != dim:
            continue
        dep = lambda k: max(D >> k, 1) if dim == 'Dim3D' else max(D, 1)
        for mip in (0, 1, 2, levels - 1, levels, levels + 1, 0xffffffff):
            for d in ((0, 1, dep(mip) - 1, dep(mip), dep(0) - 1, dep(0), D, 0xffffffff) if len(ints) > 1 else (None,)):
                for face in ((0, 1, 5) if fa else (None,)):
                    inside = mip < levels and (d is None or d < dep(mip if mip < 32 else 31))
                    if kind != 'size':
                        if fa is None and dim == 'Cube' or fa and dim != 'Cube' and face:
                            inside = False
                    B = list(A)
                    B[ints[0]] = I(mip)
                    if d is not None: B[ints[1]] = I(d)
                    if fa: B[fa] = I(face)
                    un = case == 'unconverted'
                    if un and not inside:
                        continue
                    facts = [cmp('ne', t.impl, NULL), cmp('eq' if un else 'ne', tb, te)]
                    mem = t.mem(dim, width=W, height=H, depth=D, mipLevels=levels)
                    mem.update(lists(t, dim, levels, dep, un))
                    a = Analysis(f, B, facts=facts, mem=mem, pure=PURE)
                    at = 'for a %dx%dx%d %s with %d levels, level %d%s%s' % (W, H, D, dim, levels, mip, ', depth %d' % d if d is not None else '',
                                                                              ', face %d' % face if fa else '')
                    rl = set(noep(x) for x in retleaves(a))
                    if inside and not un:
                        if kind == 'size':
                            w = I(max({'width': W, 'height': H}[field] >> mip, 1)) if field != 'depth' else I(dep(mip))
                        else:
                            w = expected(t, dim, kind, field, I(mip), I(d), I(face) if fa else None)
                        if len(rl) == 1 and next(iter(rl)) is not w and not same_lin(next(iter(rl)), w):
                            return at
                    else:
                        if kind != 'size' and any(beyond(e, mem) for e in accesses(t, a, vec)):
                            return at
                        if len(rl) == 1:
                            x = next(iter(rl))
                            if kind == 'image':
                                if t.storage('images', x):
                                    return at
                            elif not (x is NULL or x.op == 'int' and x.a[0] == 0):
                                return at
    return None


IMG = 'cuttlefish::Image::'
SUBJ = T('q', 'image')


def imgbind(**kw):
    """results of the image's own queries: dims (w, h) of the caller's image, format, validity, colour space"""
    def hook(an, i, dem, ar, st):
        n = cname(dem)
        if not n.startswith(IMG) or not ar:
            return None
        s = n[len(IMG):]
        if s in ('width', 'height') and ar[0].op == 'arg' and s in kw:
            return kw[s]
        if s == 'format' and 'format' in kw:
            # images made by convert() have the requested format, other locals are copies of the argument
            made = getattr(an, 'made', {})
            return made.get(ar[0], kw['format']) if ar[0].op == 'arg' or root(ar[0]).op == 'alloca' else None
        if s == 'convert' and len(ar) > 2:
            if not hasattr(an, 'made'):
                an.made = {}
            an.made[ar[0]] = ar[2]
            return None
        if s in ('isValid', 'operator bool') and 'valid' in kw:
            return I(kw['valid'], 1)
        if s == 'colorSpace' and 'cs' in kw:
            return kw['cs']
        return None
    return hook


def keepimg(n):
    return cname(n).startswith((IMG, 'std::vector'))


def touched(t, a):
    """events that may change something other than the function's own locals"""
    r = []
    for e in a.events:
        if e.i.op == 'store':
            if root(e.args[1]).op != 'alloca':
                r.append(e)
        elif e.i.op in ('call', 'invoke') and e.name and not CONST(e.name) and not e.name.startswith('llvm.') and not NOEFFECT(e.name):
            ps = [x for x in e.args if x.op in ('ptr', 'arg', 'load') and (root(x).op in ('arg', 'load'))]
            if e.args and any(root(x) is t.this or t.impl in walk(noep(x)) or t.storage('images', x) or t.storage('textures', x) or x.op == 'arg' and x.a[0] == 1
                              for x in ps):
                r.append(e)
    return r


def t02(ctx):
    ctx.rule('refuse', 'assuming a level, layer or face the texture lacks, or a size differing from the level\'s, nothing but locals is modified and '
                       'every return is false')
    ctx.rule('store', 'assuming acceptable arguments, every path assigns exactly element [level][layer][face], no other element, before returning')
    ctx.rule('format', 'what is assigned is a conversion to the working format or an image already in it')
    ctx.rule('colour', 'on every path the stored image is changed to the texture\'s colour space')
    ctx.rule('result', 'the result is true exactly when the stored image is valid')
    t = Tex(ctx)
    four = t.m.enum('cuttlefish::Image::Format')['RGBAF']
    n = 0
    for f in t.fn('setImage(', one=False):
        if f.decl:
            continue
        n += 1
        ctx.fn(f)
        ints, fa = signature(t, f)
        A = args(f)
        mip, d = A[ints[0]], A[ints[1]]
        face = A[fa] if fa else None
        name = 'setImage' + ('-face' if fa else '') + ('-move' if 'Image&&' in f.dem else '')
        iw, ih, ics = T('q', 'iw'), T('q', 'ih'), T('q', 'ics')
        ne = cmp('ne', t.impl, NULL)
        lv = cmp('ult', mip, t.L('mipLevels'))
        W = mm('umax', binop('lshr', 32, t.L('width'), mip), I(1))
        H = mm('umax', binop('lshr', 32, t.L('height'), mip), I(1))
        a = Analysis(f, A, mem=t.null(), pure=PURE, bind=imgbind(width=iw, height=ih), keeps=keepimg)
        bad = derefnull(a) + touched(t, a)
        r = [x for x in retleaves(a) if not (x.op == 'int' and x.a[0] == 0)]
        ctx.check(not bad and not r, 'refuse', name + '-null', (bad or [f])[0].where(), '%s on an uninitialised texture %s' % (
            name, 'touches memory' if bad else 'returns ' + (show(r[0]) if r else '')))
        for dim in DIMS:
            dd = t.depthat(dim, mip)
            ld = cmp('ult', d, dd)
            size = [cmp('eq', iw, W), cmp('eq', ih, H)]
            cases = [('mip', [ne, cmp('ule', t.L('mipLevels'), mip)] + size), ('depth', [ne, lv, cmp('ule', dd, d)] + size),
                     ('width', [ne, lv, ld, cmp('ne', iw, W), size[1]]), ('height', [ne, lv, ld, size[0], cmp('ne', ih, H)])]
            inr = [ne, lv, ld] + size
            if fa is None and dim == 'Cube':
                cases.append(('faceless', inr)); inr = None
            elif fa and dim != 'Cube':
                cases.append(('face', inr + [cmp('ne', face, I(0))]))
            for cn, facts in cases:
                why = None
                for fmt in (four, four - 1):
                    a = Analysis(f, A, facts=facts, mem=t.mem(dim), pure=PURE, keeps=keepimg, bind=imgbind(width=iw, height=ih, format=I(fmt), valid=1, cs=ics))
                    why = why or refuse(t, a)
                if why:
                    bad = setcorner(t, f, A, dim, ints, fa, four, cn)
                    ctx.check(False if bad else None, 'refuse', '%s-%s-%s' % (name, dim, cn), why[0].where(), '%s %s when refused (%s%s)' % (name, why[1], cn, ': ' + bad if bad else ''))
                else:
                    ctx.ok('refuse', '%s-%s-%s' % (name, dim, cn), f.where())
            if inr is None:
                continue
            B = list(A)
            if fa and dim != 'Cube':
                B[fa] = I(0)
            E = t.elem('images', (mip, d, B[fa] if fa else I(0)), (24, 24, 8))
            for fn, fmt in (('four', four), ('other', four - 1)):
                for csn, csf in (('', [cmp('ne', ics, t.L('colorSpace'))]),):
                    a = Analysis(f, B, facts=inr + csf, mem=t.mem(dim), pure=PURE, keeps=keepimg,
                                 bind=imgbind(width=iw, height=ih, format=I(fmt), valid=1, cs=ics))
                    key = '%s-%s-%s' % (name, dim, fn)
                    for rule, why in accept(t, a, E, four, fmt).items():
                        if why:
                            bad = setcorner(t, f, A, dim, ints, fa, four, rule)
                            ctx.check(False if bad else None, rule, key, why[0].where(), '%s %s' % (name, why[1]))
                        else:
                            ctx.ok(rule, key, f.where())
            a = Analysis(f, B, facts=inr, mem=t.mem(dim), pure=PURE, keeps=keepimg, bind=imgbind(width=iw, height=ih, format=I(four - 1), valid=0))
            r = set(retleaves(a))
            ctx.check(True if r and all(x.op == 'int' and x.a[0] == 0 for x in r) else False if r and all(x.op == 'int' and x.a[0] == 1 for x in r) else None,
                      'result', '%s-%s-invalid' % (name, dim), f.where(), '%s reports success although the stored image is not valid' % name)
    ctx.floor('refuse', 60)
    ctx.floor('store', 20)
    ctx.floor('format', 20)
    ctx.floor('colour', 20)
    ctx.assume('Image::convert(), changeColorSpace(), isValid() do what C-, I-properties say; Image::convert returns an image of the requested format')


def refuse(t, a):
    x = touched(t, a)
    if x:
        return x[0], 'modifies something'
    for v, e in a.rets():
        for y in leaves(v, a):
            if not (y.op == 'int' and y.a[0] == 0):
                return e, 'returns %s' % show(y)
    return None


def accept(t, a, E, four, fmt):
    """{rule: None or (event, what is wrong)}"""
    r = dict(store=None, format=None, colour=None, result=None)
    rets = [e for e in a.events if e.i.op == 'ret']
    asg = [e for e in a.events if iscall(e, IMG + 'operator=') and t.storage('images', e.args[0])]
    tot = [e for e in a.events if iscall(e, IMG + 'changeColorSpace')]
    first = (asg + rets)[0]
    good = [e for e in asg if noep(e.args[0]) is E]
    for e in asg:
        if noep(e.args[0]) is not E:
            r['store'] = (e, 'stores to %s instead of %s' % (show(noep(e.args[0])), show(E)))
    p = evflow(a, None, 'ret', good)
    if p is not None:
        r['store'] = r['store'] or (p, 'can return without storing the image')

    def fit(x, at, depth=0):
        """x holds an image in the working format at event `at`: True, False, None unknown"""
        if x.op == 'arg':
            return fmt == four
        if root(x).op != 'alloca' or depth > 4:
            return None
        w = []
        for e in a.events:
            if iscall(e, IMG + 'convert') and e.args[0] is x:
                w.append((e, e.args[2].op == 'int' and e.args[2].a[0] == four and (noep(e.args[1]) is E or e.args[1].op == 'arg' or root(e.args[1]).op == 'alloca')))
            elif (iscall(e, IMG + 'Image') or iscall(e, IMG + 'operator=')) and e.args[0] is x and len(e.args) == 2:
                y = e.args[1]
                w.append((e, True if noep(y) is E else fit(y, e, depth + 1)))
        for e, ok in w:
            if not ok:
                others = [o for o, k in w if o is not e]
                if evflow(a, e, at, others) is not None:
                    return ok
        ws = [e for e, _ in w]
        if evflow(a, None, at, ws) is not None:
            return None
        return True
    for e in good:
        ok = fit(e.args[1], e)
        if ok is None:
            r['format'] = r['format'] or (e, 'stores %s, whose format is unknown' % show(e.args[1]))
        elif not ok:
            # a later conversion of the element itself may still follow: that is another assignment of E
            later = [o for o in good if o is not e]
            if evflow(a, e, 'ret', later) is not None:
                r['format'] = (e, 'stores an image that is not four-channel float')
    cs = t.L('colorSpace')
    def tocs(e):
        return same_lin(noep(e.args[1]), cs) or noep(e.args[1]) is cs
    for e in tot:
        if not tocs(e) and noep(e.args[0]) is E:
            r['colour'] = (e, 'changes the image to %s instead of the texture\'s colour space' % show(e.args[1]))
    for e in good:
        after = [c for c in tot if noep(c.args[0]) is E and tocs(c)]
        if evflow(a, e, 'ret', after + [o for o in good if o is not e]) is None:
            continue
        src = [c for c in tot if c.args[0] is e.args[1] and tocs(c)]
        ws = [w for w in a.events if w.i.op in ('call', 'invoke') and w.name and w.args and w.args[0] is e.args[1] and iscall(w, IMG + 'convert', IMG + 'operator=')]
        if evflow(a, None, e, src) is None and src:
            continue
        r['colour'] = r['colour'] or (e, 'can return without changing the stored image to the texture\'s colour space')
    for v, e in a.rets():
        for y in leaves(v, a):
            if not (y.op == 'int' and y.a[0] == 1):
                r['result'] = (e, 'returns %s for a valid image' % show(y))
    return r


def setcorner(t, f, A, dim, ints, fa, four, case):
    """a constant shape and argument list for which the function is definitely wrong, or None"""
    for dm, W, H, D, levels in SHAPES:
        if dm != dim:
            continue
        dep = lambda k: max(D >> k, 1) if dim == 'Dim3D' else max(D, 1)
        for mip in (0, 1, levels - 1, levels):
            w, h = max(W >> mip, 1), max(H >> mip, 1)
            for d in sorted({0, 1, dep(mip) - 1, dep(mip), dep(0) - 1, dep(0)}):
                for face in ((0, 1, 5) if fa else (None,)):
                    for iw, ih in ((w, h), (w + 1, h), (w, h + 1), (W, H), (h, w)):
                        inside = mip < levels and d < dep(mip) and (iw, ih) == (w, h)
                        if fa is None and dim == 'Cube' or fa and dim != 'Cube' and face:
                            inside = False
                        if inside != (case in ('store', 'format', 'colour', 'result')):
                            continue
                        B = list(A)
                        B[ints[0]] = I(mip); B[ints[1]] = I(d)
                        if fa: B[fa] = I(face)
                        for fmt in (four, four - 1):
                            ics = T('q', 'ics')
                            a = Analysis(f, B, facts=[cmp('ne', t.impl, NULL), cmp('ne', ics, t.L('colorSpace'))], keeps=keepimg, pure=PURE,
                                         mem=t.mem(dim, width=W, height=H, depth=D, mipLevels=levels),
                                         bind=imgbind(width=I(iw), height=I(ih), format=I(fmt), valid=1, cs=ics))
                            at = 'a %dx%d image for level %d, depth %d%s of a %dx%dx%d %s with %d levels' % (
                                iw, ih, mip, d, ', face %d' % face if fa else '', W, H, D, dim, levels)
                            if inside:
                                E = t.elem('images', (I(mip), I(d), I(face) if fa else I(0)), (24, 24, 8))
                                why = accept(t, a, E, four, fmt)[case]
                                if why and 'unknown' not in why[1]:
                                    return at + ' ' + why[1]
                            elif refuse(t, a):
                                return at
    return None


SHAPECELLS = ('dimension', 'width', 'height', 'depth', 'mipLevels', 'faces')
VECMOD = ('resize', 'clear', 'assign', 'operator=', 'swap', 'push_back', 'emplace_back', 'pop_back', 'erase', 'insert', 'reserve', 'shrink_to_fit')


def keepall(n):
    c = cname(n)
    return c.startswith((IMG, 'std::vector', 'std::unordered_map', 'operator delete')) or 'generateMips3d' in n or 'maxMipmapLevels' in n or \
        c == 'cuttlefish::Converter::convert'


def locate(a, t, p, vec='images', impl=None, depth=0):
    """indices of a surface-list address: [] for the list itself, [level], [level, layer], [level, layer, face]; each index is a term, or
    the loop's own pointer for an iteration over the elements.  None: not such an address"""
    p = noep(p)
    cell = t.cell(vec, impl)
    if p is cell:
        return []
    if depth > 4:
        return None
    b, o, v = split_ptr(p)
    if b in a.ivinfo and not o and not v:
        af = affine(a, b)
        if not af:
            return None
        i0 = noep(af[1])
        if i0.op == 'load':
            r = locate(a, t, i0.a[0], vec, impl, depth + 1)
            return None if r is None else r + [b]
        return None
    if o or len(v) > 1 or b.op != 'load':
        return None
    r = locate(a, t, b.a[0], vec, impl, depth + 1)
    if r is None:
        return None
    if v:
        x = v[0][0]
        while x.op in ('zext', 'sext'):
            x = x.a[1]
        return r + [x]
    return r + [I(0)]


def span(a, iv, block, start=0):
    """what a loop counter runs over at `block`: ('list', address of the vector), ('count', [N..]), or a reason string, or None"""
    if iv not in a.ivinfo:
        return None
    af = affine(a, iv)
    if not af:
        return None
    h, i0, step = af
    n0 = noep(i0)
    if n0.op == 'load' or n0.op == 'ptr' and n0.a[0].op == 'load' and not n0.a[2]:
        ld = n0 if n0.op == 'load' else n0.a[0]
        end = T('load', ptr(ld.a[0], 8), 0, 'ptr')
        if n0 is not ld:
            return 'starts %d bytes after the first element' % n0.a[1]
        early = None
        for e in exit_edges(a, h):
            fs = edge_facts(a, e)
            if not any(x.op == 'cmp' and x.a[0] == 'eq' and {noep(x.a[1]), noep(x.a[2])} == {iv, end} for x in fs.s):
                early = e
        return ('list', ld.a[0], early)
    if i0.op == 'int':
        if i0.a[0] != start:
            return 'starts at %d' % i0.a[0]
        if step != 1:
            return 'advances by %d' % step
        bs = bound_of(a, iv, block)
        if not bs:
            for c in a.instate[block].facts.s:
                if c.op == 'cmp' and c.a[0] in ('ult', 'slt'):
                    x = c.a[1]
                    while x.op in ('zext', 'sext'):
                        x = x.a[1]
                    if x.op == 'add' and x.a[1] is iv and x.a[2].op == 'int':
                        bs.append(binop('sub', width(c.a[2]) or 32, c.a[2], x.a[2]))
        return ('count', bs, None)
    return None


def envs_for(t, dim, extra=()):
    """assignments of the shape cells (and a level) for samples of the dimension's shapes"""
    out = []
    for dm, W, H, D, levels in SHAPES:
        if dm != dim:
            continue
        for k, old, new in [(k, o, n) for k in range(levels) for o in sorted({1, levels}) for n in sorted({k + 1, levels})]:
            e = {T('load', t.cell('images'), 0, 'ptr'): 0, T('load', ptr(t.cell('images'), 8), 0, 'ptr'): old*24,
                 t.L('width'): W, t.L('height'): H, t.L('depth'): D, t.L('mipLevels'): old, t.L('faces'): 6 if dim == 'Cube' else 1,
                 t.L('dimension'): t.dim[dim]}
            out.append((e, k, new, (W, H, D)))
    return out


def refill(ctx, t, f, a, dim, start, name, D=None, W=None, H=None, impl=None):
    """rule 'lists' for one function that sets the number of levels: list sizes match the shape"""
    dep = (lambda k: mm('umax', binop('lshr', 32, D, k), I(1))) if dim == 'Dim3D' else (lambda k: mm('umax', D, I(1)))
    F = I(6 if dim == 'Cube' else 1)
    st = [e for e in a.events if e.i.op == 'store' and noep(e.args[1]) is noep(t.cell('mipLevels', impl))]
    key = '%s-%s' % (name, dim)
    if not st:
        ctx.und('lists', key + '-levels', f.where(), '%s does not set the level count' % name)
        return
    M = noep(st[-1].args[0])
    mods = {0: [], 1: [], 2: []}
    other = []
    for e in a.events:
        if e.i.op in ('call', 'invoke') and e.name and cname(e.name).startswith('std::vector') and e.args:
            p = locate(a, t, e.args[0], 'images', impl)
            if p is not None and short(e.name) in VECMOD and len(p) < 3:
                if short(e.name) == 'resize' and len(e.args) == 2:
                    mods[len(p)].append((e, p))
                else:
                    other.append(e)
            elif p is None and t.storage('images', e.args[0]) and short(e.name) in VECMOD:
                other.append(e)
    what = ('levels', 'layers of a level', 'faces of a layer')
    for k in (0, 1, 2):
        if not mods[k]:
            ctx.check(None if other else False, 'lists', '%s-%d' % (key, k), st[-1].where(), '%s sets the level count but never sizes the list of %s' % (name, what[k]))
            continue
        for n, (e, p) in enumerate(mods[k]):
            N = noep(e.args[1])
            while N.op == 'zext':
                N = N.a[1]
            kk = '%s-%d%s' % (key, k, '-%d' % n if n else '')
            lev = p[0] if p else None
            want = M if k == 0 else dep(lev) if k == 1 else F
            envs = []
            for base, l, levels, (w, h, d) in envs_for(t, dim):
                env = dict(base)
                for x, val in ((D, d), (W, w), (H, h), (M, levels)):
                    if x is not None and x.op != 'int':
                        env[x] = val
                if lev is not None and lev in a.ivinfo:
                    env[lev] = l
                if lev is None or l >= start:
                    envs.append(env)
            facts = a.instate[e.block].facts.s if k else ()
            j = judge(N, want, envs, facts)
            ctx.check(True if j is True else False if j else None, 'lists', kk, e.where(), '%s sizes the list of %s to %s' % (name, what[k], j or show(N)))
            for q, x in enumerate(p):
                if x.op == 'int' and x not in a.ivinfo:
                    continue
                s = span(a, x, e.block, start if q == 0 else 0)
                if isinstance(s, str):
                    ctx.bad('lists', '%s-loop%d' % (kk, q), e.where(), '%s: the loop sizing the lists of %s %s' % (name, what[k], s))
                    continue
                if s is None:
                    ctx.und('lists', '%s-loop%d' % (kk, q), e.where(), 'loop shape not understood')
                    continue
                if s[0] == 'list':
                    lp = locate(a, t, s[1], 'images', impl)
                    if s[2]:
                        # leaving early must end the function
                        ctx.und('lists', '%s-loop%d' % (kk, q), e.where(), 'loop can be left early')
                        continue
                    ctx.check(True if lp is not None and lp == p[:q] else None, 'lists', '%s-loop%d' % (kk, q), e.where(), '%s iterates another list' % name)
                else:
                    tot = M if q == 0 else dep(p[0])
                    js = [judge(N2, tot, envs, ()) for N2 in s[1]]
                    ok = True if True in js else None
                    if ok is None and js and all(isinstance(x2, str) for x2 in js):
                        ok = False
                    ctx.check(ok, 'lists', '%s-loop%d' % (kk, q), e.where(), '%s: the loop sizing the lists of %s ends at %s' % (name, what[k], next((x2 for x2 in js if isinstance(x2, str)), '?')))
                h = affine(a, x)[0]
                if q == len(p) - 1 and inloop(a, h, e.block):
                    sk = skip(a, h, e)
                    if sk:
                        ctx.und('lists', '%s-skip%d' % (kk, q), e.where(), 'an iteration can leave the list as it was')


def inloop(a, h, b):
    return b in a.fn.loops.get(h, ())


def skip(a, h, ev):
    from .thread import inloop_skip
    return inloop_skip(a, h, ev)


def t03(ctx):
    ctx.rule('discard', 'every path through a write to a shape field (or to the list of levels) of an existing texture also discards the encoded data')
    ctx.rule('lists', 'the surface lists are sized to the level count, the layer count of each level and the face count, for every level and layer')
    ctx.rule('encoded', 'the encoded lists are sized to the surface lists at every nesting level')
    t = Tex(ctx)
    vecs = [t.cell('textures')]
    nstores = 0
    for f in t.m.fns.values():
        if f.decl or not cname(f.dem).startswith('cuttlefish::Texture::') or not nonstatic(f):
            continue
        if f.dem.endswith(' const') or 'Impl::' in cname(f.dem) or 'CustomMipImage::' in cname(f.dem) or 'ImageIndex' in cname(f.dem):
            continue
        a = Analysis(f, args(f), pure=PURE, keeps=keepall)
        ctx.fn(f)
        writes = shapewrites(t, a)
        name = short(f.dem)
        for k, e in enumerate(writes):
            nstores += 1
            clears = discards(t, a)
            ok = guarded(a, e, clears)
            if not ok:
                # with what is known where the write happens assumed from the start
                fs = [c for c in a.instate[e.block].facts.s if not any(x.op in ('iv', 'phi') for x in walk(c))]
                b = Analysis(f, args(f), facts=fs, pure=PURE, keeps=keepall)
                same = [x for x in b.events if x.i is e.i]
                ok = not same or all(guarded(b, x, discards(t, b)) for x in same)
            ctx.check(ok, 'discard', '%s-%d' % (name, k), e.where(), '%s changes the shape (%s) but can return with the previously encoded data kept' % (
                name, field(t, e)))
    for dim in DIMS:
        f = t.fn('initialize(')
        A = args(f)
        A[1] = I(t.dim[dim])
        MX = T('q', 'max')
        bind = lambda an, i, dem, ar, st: MX if cname(dem) == 'cuttlefish::Texture::maxMipmapLevels' else None
        a = Analysis(f, A, pure=PURE, keeps=keepall, bind=bind)
        new = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and e.name.startswith('operator new')]
        impl = new[0].val if len(new) == 1 else None
        refill(ctx, t, f, a, dim, 0, 'initialize', D=A[4], W=A[2], H=A[3], impl=impl)
        f = t.fn('generateMipmaps(')
        a = Analysis(f, args(f), mem=t.mem(dim), facts=[cmp('ne', t.impl, NULL)], pure=PURE, keeps=keepall, bind=bind)
        refill(ctx, t, f, a, dim, 1, 'generateMipmaps', D=t.L('depth'), W=t.L('width'), H=t.L('height'))
    encodedlists(ctx)
    ctx.floor('discard', 1)
    ctx.floor('lists', 8)
    ctx.assume('Impl\'s copy operations copy every member (T06); a failed conversion clears what it encoded (T05)')


def field(t, e):
    p = noep(e.args[1] if e.i.op == 'store' else e.args[0])
    for n in SHAPECELLS + ('images',):
        if p is t.cell(n):
            return n
    return '?'


def shapewrites(t, a):
    r = []
    fresh = {e.val for e in a.events if e.i.op in ('call', 'invoke') and e.name and e.name.startswith('operator new')}
    for e in a.events:
        if e.i.op == 'store':
            p = e.args[1]
        elif e.i.op in ('call', 'invoke') and e.name and cname(e.name).startswith('std::vector') and short(e.name) in VECMOD and short(e.name) != 'reserve':
            p = e.args[0]
        else:
            continue
        if root(p) in fresh:
            continue
        p = noep(p)
        if any(p is t.cell(n) for n in SHAPECELLS) and e.i.op == 'store' or p is t.cell('images') and e.i.op != 'store':
            r.append(e)
    return r


def discards(t, a):
    """events after which no encoded data of the previous shape is left"""
    r = []
    for e in a.events:
        if e.i.op == 'store' and noep(e.args[1]) is t.this:
            r.append(e)         # the implementation is replaced or dropped
        elif e.i.op in ('call', 'invoke') and e.name and cname(e.name).startswith('std::vector') and noep(e.args[0]) is t.cell('textures'):
            s = short(e.name)
            if s in ('clear', 'operator=', 'assign', 'swap', '_M_move_assign') or s == 'resize' and e.args[1].op == 'int' and e.args[1].a[0] == 0:
                r.append(e)
        elif iscall(e, 'cuttlefish::Texture::reset'):
            r.append(e)
    return r


def guarded(a, e, clears):
    """every path through e passes one of `clears`"""
    em = empties(a)
    return evflow(a, None, e, clears, em) is None or evflow(a, e, 'ret', clears, em) is None


def empties(a):
    """edges on which the encoded list is known to be empty"""
    t = Tex.last
    b, e = T('load', t.cell('textures'), 0, 'ptr'), T('load', ptr(t.cell('textures'), 8), 0, 'ptr')
    r = set()
    for ed in a.exec_edges:
        for c in a.edge_state[ed].facts.s if ed in a.edge_state else ():
            if c.op == 'cmp' and c.a[0] == 'eq' and {noep(c.a[1]), noep(c.a[2])} == {b, e}:
                r.add(ed)
    return r


def encodedlists(ctx):
    """Converter::convert sizes the encoded lists like the surface lists"""
    from .thread import Conv, indices, vecsize
    c = Conv(ctx)
    a = c.a
    src, dst = T('arg', 1, '$1'), T('arg', 2, '$2')
    seen = {0: 0, 1: 0, 2: 0}
    other = False
    for e in a.events:
        if not (e.i.op in ('call', 'invoke') and e.name and cname(e.name).startswith('std::vector') and e.args):
            continue
        p = noep(e.args[0])
        if dst not in walk(p):
            continue
        s = short(e.name)
        if s in ('size', 'empty', 'clear', '~vector') or 'vector<unsigned char' in e.name and not 'vector<std::vector' in e.name:
            continue
        x = ([], p) if p is dst else indices(p)
        if s != 'resize' or not x or x[1] is not dst:
            other = True
            continue
        k = len(x[0])
        v = vecsize(e.args[1])
        y = (([], v) if v is src else indices(v)) if v is not None else None
        seen[k] = seen.get(k, 0) + 1
        if y is None or y[1] is not src:
            N = e.args[1]
            off = None
            if N.op == 'add' and N.a[2].op == 'int' and vecsize(N.a[1]) is not None:
                off = sval(N.a[2])
            ctx.check(False if off else None, 'encoded', 'level%d' % k, e.where(), 'list of encoded data sized to %s' % show(N))
            continue
        ctx.check([i for i, _ in x[0]] == [i for i, _ in y[0]], 'encoded', 'level%d' % k, e.where(),
                  'the encoded list at (%s) gets the size of the surface list at (%s)' % (', '.join(show(i) for i, _ in x[0]), ', '.join(show(i) for i, _ in y[0])))
    for k in (0, 1, 2):
        if not seen[k]:
            ctx.check(None if other else False, 'encoded', 'level%d' % k, c.f.where(), 'the encoded list of nesting level %d is never sized' % k)


# -- T04 ------------------------------------------------------------------------------------------------------

MAXLV = 'cuttlefish::Texture::maxMipmapLevels'
IMGPTR, REPL = 0, 8         # members of CustomMipImage


class Gen:
    """generateMipmaps for one kind of texture; variant: every level has a custom image with the given replacement, none has, or (None) any"""

    def __init__(self, t, dim, variant=None, repl=None):
        self.t = t; self.dim = dim; self.variant = variant
        self.f = f = t.fn('generateMipmaps(')
        self.A = args(f)
        self.END = T('q', 'end'); self.MX = T('q', 'max')
        self.found = {}
        cm = t.m.offsets('cuttlefish::Texture::CustomMipImage')
        self.oi, self.orep = cm.get('image', 0), cm.get('replacement', 8)
        fmt = t.m.enum('cuttlefish::Image::Format')
        self.rgbaf = fmt['RGBAF']
        facts = [cmp('ne', t.impl, NULL)]
        if variant == 'present':
            facts += []
        def bind(an, i, dem, ar, st):
            n = cname(dem)
            if n == MAXLV:
                return self.MX
            if n.startswith('std::unordered_map') and ar and noep(ar[0]) is self.A[3]:
                s = short(dem)
                if s in ('end', 'cend'):
                    return self.END
                if s == 'find':
                    if variant == 'absent':
                        return self.END
                    v = T('q', 'found%d' % i.id)
                    self.found[v] = i
                    return v
            if n == IMG + 'format' and variant:
                return I(self.rgbaf - 1)
            if n in (IMG + 'isValid', IMG + 'operator bool') and variant and ar and root(ar[0]).op != 'alloca':
                return I(1, 1)
            return None
        def onload(an, p, ty, st, tm):
            b, o, v = split_ptr(p)
            if b in self.found and not v and o % 8 == 0 and ty == 'i32' and repl is not None and o >= 24:
                return I(repl)
            return None
        self.a = Analysis(f, self.A, mem=t.mem(dim), facts=facts, pure=PURE, keeps=lambda n: keepall(n), bind=bind, onload=onload)
        a = self.a
        if variant == 'present':
            # found is not the end
            fs = facts + [cmp('ne', v, self.END) for v in self.found]
            a = self.a = Analysis(f, self.A, mem=t.mem(dim), facts=fs, pure=PURE, keeps=lambda n: keepall(n), bind=bind, onload=onload)
        self.keys = {}
        for e in a.events:
            if e.val in self.found:
                k = e.args[1]
                b = root(k)
                self.keys[e.val] = tuple(noep(e.st.mem[(ptr(k, o), 4)]) if (ptr(k, o), 4) in e.st.mem else None for o in (0, 4, 8))
        st = [e for e in a.events if e.i.op == 'store' and noep(e.args[1]) is t.cell('mipLevels')]
        self.stores = st
        self.M = noep(st[-1].args[0]) if st else None
        self.w = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and e.args and (
            cname(e.name).startswith((IMG, 'std::vector')) or 'generateMips3d' in e.name)]
        self._reach = {}

    def dep(self, k):
        D = self.t.L('depth')
        if self.dim == 'Dim3D':
            return mm('umax', binop('lshr', 32, D, k), I(1))
        return mm('umax', D, I(1))

    def size(self, n, k):
        return mm('umax', binop('lshr', 32, self.t.L(n), k), I(1))

    def level(self, block):
        """the loop counter of the level loop around a block: the one starting at 1 (other loops start at 0)"""
        r = []
        for h in self.a.fn.loops_of(block):
            for iv, (hh, init, late) in self.a.ivinfo.items():
                if hh == h and iv not in r:
                    af = affine(self.a, iv)
                    if af and af[2] == 1 and af[1].op == 'int' and af[1].a[0] == 1:
                        r.append(iv)
        return r[0] if len(r) == 1 else None

    def levels(self):
        """every counter that serves as a level"""
        r = set()
        for e in self.a.events:
            if iscall(e, IMG + 'operator='):
                p = locate(self.a, self.t, e.args[0])
                if p and len(p) == 3:
                    r.add(p[0])
        return r

    def envs(self, lev):
        t = self.t
        for base, k, levels, (w, h, d) in envs_for(t, self.dim):
            if k == 0:
                continue
            env = dict(base)
            env[self.M] = levels
            for m, v in ((self.MX, levels), (self.A[2], levels)):
                env[m] = v
            env[lev] = k
            pk = noep(binop('add', 32, lev, I(-1)))
            dp = max(d >> (k - 1), 1) if self.dim == 'Dim3D' else max(d, 1)
            p = t.elem('images', (pk,), (24,))
            env[T('load', p, 0, 'ptr')] = 0
            env[T('load', ptr(p, 8), 0, 'ptr')] = 24*dp
            yield env

    # -- value tracing
    def writers(self, obj):
        """events writing the local image or local vector `obj` (or an element of it)"""
        if obj in self._reach:
            return self._reach[obj]
        r = []
        for e in self.w:
            s = short(e.name)
            cn = cname(e.name)
            x = e.args[0]
            if 'generateMips3d' in e.name:
                if x is obj: r.append(e)
                continue
            if x is not obj:
                rx = root(x)
                if rx is obj and rx is not x or rx.op == 'load' and noep(rx.a[0]) is obj or rx in self.a.ivinfo and self.elemof(x) is obj:
                    if cn.startswith(IMG) and s in ('operator=', 'resize', 'convert', 'Image', 'initialize', 'reset'):
                        r.append(e)
                continue
            if cn.startswith(IMG) and s in ('operator=', 'resize', 'convert', 'Image', 'initialize', 'reset', 'load', 'rotate', 'createNormalMap'):
                if s in ('resize', 'convert') and not e.i.sret if hasattr(e.i, 'sret') else False:
                    continue
                r.append(e)
            elif cn.startswith('std::vector') and s in ('vector', 'operator=', 'resize', 'clear', 'assign', 'swap', '_M_move_assign'):
                r.append(e)
        self._reach[obj] = r
        return r

    def elemof(self, x):
        """the local vector an iterator points into"""
        b = root(x)
        seen = 0
        while b in self.a.ivinfo and seen < 4:
            af = affine(self.a, b)
            if not af:
                return None
            b = root(noep(af[1])); seen += 1
        return noep(b.a[0]) if b.op == 'load' and root(b.a[0]).op == 'alloca' else None

    def reaching(self, obj, use, x=None):
        x = noep(x) if x is not None else None
        ws = self.writers(obj)
        r = []
        for w in ws:
            if w is use:
                continue
            others = [o for o in ws if o is not w and (o.args[0] is obj or root(o.args[0]) is obj or noep(o.args[0]) is x)]
            edges = set()
            # a loop that rewrites every element is passed as a whole
            for o in ws:
                if o is not w and o.args[0] is not obj and root(o.args[0]) is not obj:
                    hs = self.a.fn.loops_of(o.block)
                    if hs and use.block not in self.a.fn.loops[hs[-1]] and inloop_all(self.a, hs[-1], [o]):
                        edges |= {(p, hs[-1]) for p in self.a.fn.blocks[hs[-1]].preds}
            if w.args[0] is not obj and root(w.args[0]) is not obj:
                hs = self.a.fn.loops_of(w.block)
                if hs:
                    edges -= {(p, hs[-1]) for p in self.a.fn.blocks[hs[-1]].preds}
            if evflow(self.a, w, use, [o for o in others if o is not use], edges) is not None:
                r.append(w)
        return r

    def trace(self, x, use, depth=0, seen=None):
        """where an image may come from: a set of ('resize', event) / ('gen3d', event) / ('empty', event) / ('level', idx) / ('custom', key) / None"""
        a, t = self.a, self.t
        seen = set() if seen is None else seen
        if (x, use) in seen:
            return set()
        seen.add((x, use))
        if depth > 8:
            return {None}
        n = noep(x)
        p = locate(a, t, n)
        if p is not None and len(p) == 3:
            return {('level', tuple(p))}
        if n.op == 'load' and root(n.a[0]) in self.found:
            return {('custom', root(n.a[0]))}
        rx = root(x)
        obj = None
        if rx.op == 'alloca':
            obj = x
        elif rx.op == 'load' and root(rx.a[0]).op == 'alloca':
            obj = noep(rx.a[0])
        elif rx in a.ivinfo:
            obj = self.elemof(x)
        if obj is None:
            return {None}
        out = set()
        ws = self.reaching(obj, use, x)
        if not ws:
            return {None}
        for w in ws:
            s = short(w.name)
            if 'generateMips3d' in w.name:
                out.add(('gen3d', w))
            elif cname(w.name).startswith('std::vector'):
                if s in ('clear', 'vector') and len(w.args) == 1:
                    out.add(('empty', w))
                elif s == 'resize':
                    out |= self.trace(x, w, depth + 1, seen) or {('empty', w)}
                elif s in ('operator=', '_M_move_assign', 'swap') and len(w.args) >= 2:
                    out |= self.tracevec(w.args[1], w, depth + 1, seen)
                else:
                    out.add(None)
            elif s == 'resize':
                out.add(('resize', w))
            elif s == 'convert':
                out |= self.trace(w.args[1], w, depth + 1, seen)
            elif s in ('operator=', 'Image') and len(w.args) == 2:
                out |= self.trace(w.args[1], w, depth + 1, seen)
            elif s in ('Image', 'reset') and len(w.args) == 1:
                out.add(('empty', w))
            else:
                out.add(None)
        return out

    def tracevec(self, v, use, depth, seen):
        if root(v).op != 'alloca':
            return {None}
        e = T('load', v, 0, 'ptr')
        return self.trace(e, use, depth, seen)


def inloop_all(a, h, evs):
    """every iteration of the loop passes one of the events"""
    blocks = {e.block for e in evs}
    body = a.fn.loops[h]
    if h in blocks:
        return True
    st = [h]; seen = set()
    while st:
        n = st.pop()
        for s in a.fn.blocks[n].succ:
            if s not in body or (n, s) not in a.exec_edges or s in blocks:
                continue
            if s == h:
                return False
            if s not in seen:
                seen.add(s); st.append(s)
    return True


def reported(ctx, t):
    """the queries on a texture of known shape: constants in, the constant recorded out"""
    cs = t.m.enum('cuttlefish::ColorSpace')
    extra = [('Dim2D', 5, 1, 0, 1), ('Dim2D', 1, 9, 1, 4), ('Dim2D', 4096, 4096, 0, 13), ('Dim1D', 300, 1, 1, 9), ('Dim3D', 1, 1, 1, 1), ('Dim3D', 2, 2, 64, 7), ('Cube', 1, 1, 0, 1),
             ('Cube', 2048, 2048, 1, 12), ('Dim2D', 64, 64, 300, 7)]
    for n in ('dimension', 'colorSpace', 'isArray', 'mipLevelCount', 'faceCount'):
        for f in t.fn(n + '(', one=False):
            ctx.fn(f)
            for dim, w, h, d, levels in SHAPES + extra:
                for c in sorted(cs):
                    mem = t.mem(dim, width=w, height=h, depth=d, mipLevels=levels, colorSpace=cs[c])
                    if d <= 64:
                        mem.update(lists(t, dim, levels, lambda k: max(d >> k, 1) if dim == 'Dim3D' else max(d, 1), True))
                    a = Analysis(f, args(f), facts=[cmp('ne', t.impl, NULL)], mem=mem, pure=PURE)
                    rl = set(retleaves(a))
                    x = next(iter(rl)) if len(rl) == 1 else None
                    sure = x is not None and x.op == 'int'
                    want = {'dimension': t.dim[dim], 'colorSpace': cs[c], 'isArray': int(dim != 'Dim3D' and d > 0), 'mipLevelCount': levels, 'faceCount': 6 if dim == 'Cube' else 1}[n]
                    ctx.check(None if not sure else x.a[0] & 0xffffffff == want, 'reported', '%s %s %dx%dx%d %s %d' % (n, dim, w, h, d, c, levels), f.where(),
                              '%s() of a %s of %dx%dx%d in %s with %d levels answers %s' % (n, dim, w, h, d, c, levels, x and show(x)))
    ctx.floor('reported', 100)


def t04(ctx):
    ctx.rule('maximum', 'maxMipmapLevels is 1 + floor(log2(largest mipmapped dimension)), folded for a grid of sizes of every kind of texture')
    ctx.rule('clamp', 'the stored level count is the request limited to 1..maxMipmapLevels of the texture\'s own size')
    ctx.rule('attributes', 'initialize stores each of kind, colour space, width, height, depth and face count from its own argument')
    ctx.rule('size', 'level k measures max(1, size >> k), and every image resized for a level is resized to that level\'s width and height with the caller\'s filter')
    ctx.rule('source', 'a resized image comes from the previous level of the same layer and face, from the state of that layer and face one level before, '
                       'or from the caller\'s image for exactly that level, layer and face')
    ctx.rule('cover', 'every level after the first, layer and face is assigned, with the caller\'s image where there is one and a generated one where not')
    ctx.rule('colour', 'the caller\'s images are converted to the working format and the texture\'s colour space before they can be used')
    ctx.rule('restore', 'after a replaced level the next one continues from the generated image (once) or from the replacement (continue)')
    ctx.rule('constructed', 'a texture constructed with a shape is initialised with exactly this')
    ctx.rule('reported', 'the queries for kind, colour space, array, level and face count answer what the texture records')
    from .ctors import constructors
    constructors(ctx, 'lib/src/Texture.cpp', 'cuttlefish::Texture', ('initialize',), 'constructed')
    ctx.rule('index', 'an image index made of face, level and layer is of these, of level and layer has the first face; a replacement made of an image points to it, or to its own storage')
    ctx.part(api.index, ctx, 'index')
    t = Tex(ctx)
    reported(ctx, t)
    maximum(ctx, t)
    clamp(ctx, t)
    sizes(ctx, t)
    for dim in DIMS:
        lineage(ctx, t, dim)
    gen3d(ctx, t)
    from .mips import mips
    mips(ctx)
    ctx.floor('maximum', 1)
    ctx.floor('size', 1)
    ctx.floor('source', 1)
    ctx.floor('cover', 1)
    ctx.assume('Image::resize returns an image of the requested size in the source\'s format and colour space (I03)')


def maximum(ctx, t):
    f = t.m.find('cuttlefish::Texture::maxMipmapLevels')
    ctx.fn(f)
    for dim in DIMS:
        bad = und = None
        n = 0
        for w in (1, 2, 3, 4, 15, 16, 17, 1023, 1024, 65535):
            for h in (1, 2, 5, 8, 64, 4096):
                for d in (0, 1, 7, 8, 100, 8192):
                    v, _ = const_call(t.m, MAXLV, t.dim[dim], w, h, d)
                    m = max(w, h, d if dim == 'Dim3D' else 1)
                    n += 1
                    if v is None or v.op != 'int':
                        und = (w, h, d)
                    elif v.a[0] != m.bit_length():
                        bad = bad or (w, h, d, v.a[0], m.bit_length())
                if und:
                    break
            if und:
                break
        ctx.check(False if bad else None if und else True, 'maximum', dim, f.where(), 'maxMipmapLevels(%s, %s)' % (dim, bad and '%d, %d, %d) is %d instead of %d' % bad or und))


def clamp(ctx, t):
    mx = T('q', 'max')
    seen = []
    def bind(an, i, dem, ar, st):
        return mx if cname(dem) == MAXLV else None
    for name, prefix in (('initialize', 'initialize('), ('generateMipmaps', 'generateMipmaps(')):
        for dim in DIMS:
            f = t.fn(prefix)
            ctx.fn(f)
            A = args(f)
            if name == 'initialize':
                A[1] = I(t.dim[dim])
                a = Analysis(f, A, pure=PURE, keeps=keepall, bind=bind)
                new = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and e.name.startswith('operator new')]
                impl = new[0].val if len(new) == 1 else None
                req = A[5]
                own = (A[2], A[3], A[4])
            else:
                a = Analysis(f, A, mem=t.mem(dim), facts=[cmp('ne', t.impl, NULL), cmp('ne', t.L('mipLevels'), I(0))], pure=PURE, keeps=keepall, bind=bind)
                impl = None
                req = A[2]
                own = tuple(mm('umax', t.L(n), I(1)) for n in ('width', 'height', 'depth'))
            key = '%s-%s' % (name, dim)
            if name == 'initialize' and impl is None:
                ctx.und('clamp', key, f.where(), 'implementation object not found')
                continue
            st = [e for e in a.events if e.i.op == 'store' and noep(e.args[1]) is noep(t.cell('mipLevels', impl))]
            if not st:
                ctx.check(None, 'clamp', key, f.where(), 'no store of the level count')
                continue
            envs = [{req: r, mx: m} for r in (0, 1, 2, 3, 5, 6, 0xffffffff) for m in (1, 2, 5)]
            j = judge(st[-1].args[0], mm('umin', mx, mm('umax', req, I(1))), envs, a.instate[st[-1].block].facts.s)
            fin = [e for e in st if evflow(a, e, 'ret', [x for x in st if x is not e]) is not None]
            ctx.check(True if j is True else False if j and len(fin) == 1 else None, 'clamp', key, st[-1].where(), '%s: the level count stored %s' % (name, j or show(st[-1].args[0])))
            for e in a.events:
                if iscall(e, MAXLV):
                    for k, (x, w) in enumerate(zip(e.args, (I(t.dim[dim]),) + own)):
                        if k == 3 and dim != 'Dim3D':
                            continue
                        envs = [{own[0]: W, own[1]: H, own[2]: D, t.L('width'): W, t.L('height'): H, t.L('depth'): D, t.L('mipLevels'): n} for d2, W, H, D, n in SHAPES if d2 == dim]
                        j = judge(x, w, envs, a.instate[e.block].facts.s)
                        if j is None and equalon(x, w, envs):
                            j = True
                        ctx.check(True if j is True else False if j else None, 'clamp', '%s-max%d' % (key, k), e.where(), '%s limits the levels by another size: %s' % (name, j or show(x)))
            if name == 'initialize':
                for n, w in (('dimension', A[1]), ('colorSpace', A[6]), ('width', A[2]), ('height', A[3]), ('depth', A[4]), ('faces', I(6 if dim == 'Cube' else 1))):
                    ws = [e for e in a.events if e.i.op == 'store' and noep(e.args[1]) is noep(t.cell(n, impl))]
                    fin = [e for e in ws if evflow(a, e, 'ret', [x for x in ws if x is not e]) is not None]
                    good = [e for e in fin if noep(e.args[0]) is noep(w)]
                    ctx.check(True if fin and len(good) == len(fin) else False if fin and all(x.op in ('arg', 'int') for e in fin for x in leaves(e.args[0])) else None,
                              'attributes', '%s-%s' % (key, n), (fin or [f])[0].where(), 'initialize stores %s as the %s' % (fin and show(fin[0].args[0]), n))


def equalon(x, y, envs):
    """the terms evaluate alike for every assignment (all evaluable)"""
    x, y = noep(x), noep(y)
    n = 0
    for e in envs:
        u, v = teval(x, e), teval(y, e)
        if u is None or u != v:
            return False
        n += 1
    return n > 0


def sizes(ctx, t):
    for n in ('width', 'height', 'depth'):
        for f in t.fn(n + '(', one=False):
            if f.decl:
                continue
            ctx.fn(f)
            A = args(f)
            k = A[1]
            for dim in DIMS:
                a = Analysis(f, A, facts=[cmp('ne', t.impl, NULL), cmp('ult', k, t.L('mipLevels'))], mem=t.mem(dim), pure=PURE)
                want = expected(t, dim, 'size', n, k, None, None)
                rl = retleaves(a)
                envs = [dict(e, **{}) for e in ({t.L('width'): W, t.L('height'): H, t.L('depth'): D, t.L('mipLevels'): L, k: kk}
                                                for d2, W, H, D, L in SHAPES if d2 == dim for kk in range(L))]
                js = [judge(x, want, envs) for x in rl]
                w = [x for x in js if isinstance(x, str)]
                ctx.check(True if js and all(x is True for x in js) else False if w and len(rl) == 1 else None, 'size', '%s-%s' % (n, dim), f.where(),
                          '%s(%s) answers %s' % (n, dim, w[0] if w else ', '.join(show(x) for x in rl)))


def lineage(ctx, t, dim):
    rep = t.m.enum('cuttlefish::Texture::MipReplacement')
    ctx.fn(t.fn('generateMipmaps('))
    gens = [('absent', Gen(t, dim, 'absent')), ('once', Gen(t, dim, 'present', rep['Once'])), ('continue', Gen(t, dim, 'present', rep['Continue'])), ('any', Gen(t, dim))]
    done = set()
    for vn, g in gens:
        a = g.a
        if g.M is None:
            ctx.und('cover', '%s-%s' % (dim, vn), g.f.where(), 'level count is not stored')
            continue
        n = 0
        for e in a.events:
            if iscall(e, IMG + 'resize'):
                n += 1
                resized(ctx, g, e, '%s-%s-%d' % (dim, vn, n), vn)
            elif e.i.op in ('call', 'invoke') and e.name and 'generateMips3d' in e.name:
                lev = g.level(e.block)
                if lev is None:
                    ctx.und('size', '%s-%s-gen3d' % (dim, vn), e.where(), 'level unknown')
                    continue
                want = (g.size('width', lev), g.size('height', lev), g.dep(lev), t.L('colorSpace'), g.A[1])
                for k, (x, w) in enumerate(zip(e.args[2:], want)):
                    j = judge(x, w, list(g.envs(lev)), a.instate[e.block].facts.s)
                    if j is None and k >= 3 and (x.op in ('arg', 'int') or k == 3 and noep(x).op == 'load'):
                        j = show(x)
                    ctx.check(True if j is True else False if j else None, 'size', '%s-%s-gen3d-%d' % (dim, vn, k), e.where(),
                              'the volume level is generated with %s' % (j or show(x)))
        if vn != 'any':
            cover(ctx, g, dim, vn)
        else:
            carried(ctx, g, dim)
        if vn in ('once', 'continue') and dim != 'Dim3D':
            restored(ctx, g, dim, vn)


def resized(ctx, g, e, key, vn):
    """one Image::resize in generateMipmaps: (result, source, width, height, filter)"""
    t, a = g.t, g.a
    lev = g.level(e.block)
    if lev is None or len(e.args) < 5:
        ctx.und('size', key, e.where(), 'level unknown')
        return
    envs = list(g.envs(lev))
    facts = a.instate[e.block].facts.s
    for n, x in (('width', e.args[2]), ('height', e.args[3])):
        j = judge(x, g.size(n, lev), envs, facts)
        ctx.check(True if j is True else False if j else None, 'size', '%s-%s' % (key, n), e.where(), 'level image resized to another %s: %s' % (n, j or show(x)))
    x = e.args[4]
    ctx.check(True if x is g.A[1] else False if x.op == 'int' else None, 'size', key + '-filter', e.where(), 'resized with %s instead of the caller\'s filter' % show(x))
    # source
    out = dest(g, e)
    for s in g.trace(e.args[1], e):
        if s is None:
            ctx.und('source', key, e.where(), 'source not recognised: %s' % show(noep(e.args[1])))
        elif s[0] == 'level':
            idx = s[1]
            j = judge(idx[0], binop('add', 32, lev, I(-1)), envs, facts)
            if j is None:
                j = judge(cast('zext', 'i64', idx[0]) if width(idx[0]) == 32 else idx[0], cast('zext', 'i64', binop('add', 32, lev, I(-1))), envs, facts)
            ctx.check(True if j is True else False if j else None, 'source', key + '-level', e.where(), 'level is generated from another than the previous level: %s' % (j or show(idx[0])))
            if out:
                for q, n in ((1, 'layer'), (2, 'face')):
                    same = sameidx(a, idx[q], out[q - 1])
                    ctx.check(same, 'source', '%s-%s' % (key, n), e.where(), 'generated for %s %s from %s %s' % (n, show(out[q - 1]), n, show(idx[q])))
            else:
                ctx.und('source', key + '-dest', e.where(), 'the destination of the resized image is not recognised')
        elif s[0] == 'custom':
            k = g.keys.get(s[1])
            if not k or None in k or not out:
                ctx.und('source', key + '-custom', e.where(), 'key or destination of the custom image not recognised')
                continue
            for n, x, w in (('face', k[0], out[1] if g.dim != 'Dim3D' else I(0)), ('level', k[1], lev), ('layer', k[2], out[0])):
                same = sameidx(a, x, w)
                ctx.check(same, 'source', '%s-custom-%s' % (key, n), e.where(), 'the custom image of %s %s is used for %s %s' % (n, show(x), n, show(w)))
        else:
            ctx.ok('source', key + '-' + s[0], e.where())


def sameidx(a, x, y):
    """True: the same index; False: certainly different values somewhere; None"""
    s = lambda v: s(v.a[1]) if v.op in ('zext', 'sext') else v
    x, y = s(noep(x)), s(noep(y))
    if x is y or same_lin(x, y):
        return True
    if x.op == 'int' and y.op == 'int':
        return False
    ivs = {v for v in walk(x) if v in a.ivinfo} | {v for v in walk(y) if v in a.ivinfo}
    if len(ivs) == 1 and (x.op != 'int' and y.op != 'int') and not (x in a.ivinfo and y in a.ivinfo):
        iv, = ivs
        if any(u is not None and v is not None and u != v for u, v in ((teval(x, {iv: k}), teval(y, {iv: k})) for k in (1, 2, 3))):
            return False
    # two counters of the same loop from the same start
    ax, ay = affine(a, x) if x in a.ivinfo else None, affine(a, y) if y in a.ivinfo else None
    if ax and ay:
        if ax[0] == ay[0]:
            if ax[1:] == ay[1:]:
                return True
            return False if ax[1].op == ay[1].op == 'int' else None
        return False if ax[1].op == 'int' == ay[1].op and a.fn.loops_of(max(ax[0], ay[0])) and (ax[0] in a.fn.loops_of(ay[0]) or ay[0] in a.fn.loops_of(ax[0])) else None
    if ax and y.op == 'int' or ay and x.op == 'int':
        # a counter against a constant: differ unless the loop makes a single iteration
        return False
    if x.op in ('add', 'sub') or y.op in ('add', 'sub'):
        d = linear_diff(x, y)
        if d:
            return False
    return None


def linear_diff(x, y):
    """x - y when it is a constant"""
    try:
        d = binop('sub', 32, x, y)
    except Exception:
        return None
    return sval(d) if d.op == 'int' else None


def dest(g, e):
    """(layer, face) a resized image is meant for: of the list element it is assigned to, directly or by way of locals"""
    a, t = g.a, g.t
    seen = set()
    st = [e.args[0]]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        p = locate(a, t, x)
        if p is not None and len(p) == 3:
            return p[1], p[2]
        for w in g.w:
            if short(w.name) in ('operator=', 'convert') and len(w.args) >= 2 and (w.args[1] is x):
                if evflow(a, e, w, ()) is None:
                    continue
                if g.dim == 'Dim3D':
                    # an element of a list of slices: its own index
                    b, o, v = split_ptr(w.args[0])
                    if b.op == 'load' and root(b.a[0]).op == 'alloca' and len(v) == 1 and not o:
                        return v[0][0], I(0)
                    if b in a.ivinfo and g.elemof(w.args[0]) is not None:
                        return None
                st.append(w.args[0])
    # every level image is assigned inside the loops over layer and face
    if g.dim == 'Dim3D':
        return None
    ds = set()
    for w in g.w:
        if short(w.name) == 'operator=':
            p = locate(a, t, w.args[0])
            if p is not None and len(p) == 3:
                ds.add((noep(p[1]), noep(p[2])))
    return next(iter(ds)) if len(ds) == 1 else None


def cover(ctx, g, dim, vn):
    a, t = g.a, g.t
    asg = {}
    for e in g.w:
        if short(e.name) == 'operator=' and cname(e.name).startswith(IMG):
            p = locate(a, t, e.args[0])
            if p is not None and len(p) == 3:
                asg.setdefault(tuple(noep(x) for x in p), []).append(e)
    key = '%s-%s' % (dim, vn)
    if not asg:
        ctx.check(None, 'cover', key, g.f.where(), 'no level image is assigned')
        return
    if len(asg) > 1:
        ctx.und('cover', key, g.f.where(), 'level images are assigned at several indices')
        return
    (p, evs), = asg.items()
    tot = (g.M, g.dep(p[0]), I(6 if dim == 'Cube' else 1))
    inner = None
    for q, x in enumerate(p):
        n = ('levels', 'layers', 'faces')[q]
        if x.op == 'int':
            ctx.check(True if q == 2 and dim != 'Cube' and x.a[0] == 0 else False, 'cover', '%s-%s' % (key, n), evs[0].where(), 'only index %d of the %s is assigned' % (x.a[0], n))
            continue
        s = span(a, x, evs[0].block, 1 if q == 0 else 0)
        if isinstance(s, str):
            ctx.bad('cover', '%s-%s' % (key, n), evs[0].where(), 'the loop over the %s %s' % (n, s))
            continue
        if s is None or s[0] == 'count' and not s[1] and not a.instate[evs[0].block].facts.decide(cmp('eq', x, I(0))):
            w = early_exit(a, x, list(g.envs(p[0])), tot[q])
            ctx.check(False if w else None, 'cover', '%s-%s' % (key, n), evs[0].where(), 'the loop over the %s %s' % (n, w or 'is not understood'))
            continue
        if s[0] == 'list':
            lp = locate(a, t, s[1])
            ctx.check(True if lp is not None and not s[2] and q and lp == list(p[:q]) else None, 'cover', '%s-%s' % (key, n), evs[0].where(), 'loop over another list')
        else:
            lev = p[0]
            envs = list(g.envs(lev)) if lev in a.ivinfo else []
            fs = a.instate[evs[0].block].facts.s if q else ()
            js = [judge(N, tot[q], envs, fs) for N in s[1]]
            if not js and tot[q] is I(1) and a.instate[evs[0].block].facts.decide(cmp('eq', x, I(0))):
                js = [True]
            ctx.check(True if True in js else False if js and all(isinstance(j, str) for j in js) else None, 'cover', '%s-%s' % (key, n), evs[0].where(),
                      'the loop over the %s ends elsewhere: %s' % (n, next((j for j in js if isinstance(j, str)), '?')))
        h = affine(a, x)[0] if affine(a, x) else None
        if h is not None and (inner is None or h in a.fn.loops[inner]):
            inner = h
    if inner is not None:
        ctx.check(inloop_all(a, inner, evs) or None, 'cover', key + '-skip', evs[0].where(), 'an iteration can leave a level image unassigned')
    # what is assigned
    for k, e in enumerate(evs):
        src = g.trace(e.args[1], e)
        kinds = set()
        for s in src:
            if s is None:
                kinds.add(None)
            elif s[0] == 'resize':
                sub = g.trace(s[1].args[1], s[1])
                kinds |= {'custom' if x and x[0] == 'custom' else None if x is None else 'generated' for x in sub}
            elif s[0] == 'gen3d':
                kinds.add('generated')
            elif s[0] == 'level':
                kinds.add(('self' if tuple(noep(x) for x in s[1]) == p else 'level'))
            else:
                kinds.add(s[0])
        kinds.discard('self')
        want = 'generated' if vn == 'absent' else 'custom'
        # an assignment overwritten on every path does not count
        if evs[k + 1:] and evflow(a, e, 'ret', evs[k + 1:], backedges(a, inner)) is None:
            continue
        ctx.check(True if kinds <= {want} else None if None in kinds or want in kinds and 'empty' in kinds else False, 'cover', '%s-what%d' % (key, k), e.where(),
                  'a level %s gets %s' % ('without replacement' if vn == 'absent' else 'with a replacement', ', '.join(str(x) for x in kinds)))
    if vn != 'absent':
        converted(ctx, g, key, evs, p)


def backedges(a, h):
    if h is None:
        return ()
    return {(n, h) for n in a.fn.loops[h] if h in a.fn.blocks[n].succ}


def converted(ctx, g, key, evs, p):
    """custom images reach the texture converted and in its colour space"""
    a, t = g.a, g.t
    cs = t.L('colorSpace')
    for e in g.w:
        if not iscall(e, IMG + 'resize'):
            continue
        src = g.trace(e.args[1], e)
        if not src or not all(s and s[0] == 'custom' for s in src):
            continue
        # the object holding it
        holders = {e.args[0]} | {w.args[0] for w in g.w if short(w.name) in ('operator=', 'convert') and w.args[1] is e.args[0]}
        holders = {noep(x) for x in holders}
        for w in g.w:
            if short(w.name) in ('operator=',) and noep(w.args[1]) in holders and evflow(a, e, w) is not None:
                holders.add(noep(w.args[0]))
        changes = [c for c in g.w if iscall(c, IMG + 'changeColorSpace') and noep(c.args[0]) in holders]
        wrong = [c for c in changes if noep(c.args[1]) is not cs]
        okc = [c for c in changes if noep(c.args[1]) is cs]
        edges = set()
        miss = evflow(a, e, 'ret', okc)
        if wrong:
            ctx.check(False if all(noep(c.args[1]).op in ('int', 'call') for c in wrong) and miss else None, 'colour', key + '-space', wrong[0].where(), 'custom image changed to %s' % show(wrong[0].args[1]))
        else:
            ctx.check(False if miss is not None and not any(root(c.args[0]) in a.ivinfo for c in g.w if iscall(c, IMG + 'changeColorSpace')) and
                      not unknownchange(g, okc) else True if miss is None else None, 'colour', key + '-space', e.where(),
                      'a custom image can be used without changing it to the texture\'s colour space')
        convs = [c for c in g.w if iscall(c, IMG + 'convert') and noep(c.args[1]) in holders and c.args[2].op == 'int' and c.args[2].a[0] == g.rgbaf]
        pre = [c for c in g.w if iscall(c, IMG + 'convert') and noep(e.args[1]) is noep(c.args[0])]
        miss = evflow(a, e, 'ret', convs)
        other = [c for c in g.w if iscall(c, IMG + 'convert') and c not in convs]
        ctx.check(True if miss is None else False if not other else None, 'colour', key + '-format', e.where(), 'a custom image in another format can be used unconverted')


def unknownchange(g, okc):
    return [c for c in g.w if iscall(c, IMG + 'changeColorSpace') and c not in okc]


def locals_used(g):
    """local images and local image lists from which something is resized"""
    r = set()
    for e in g.w:
        if iscall(e, IMG + 'resize'):
            x = e.args[1]
            if root(x).op == 'alloca':
                r.add((x, e))
            elif g.elemof(x) is not None:
                r.add((g.elemof(x), e))
            elif root(x).op == 'load' and root(root(x).a[0]).op == 'alloca':
                r.add((noep(root(x).a[0]), e))
    return r


def early_exit(a, iv, envs, N):
    """a counter value below N at which the loop is certainly left, as a string, or None"""
    af = affine(a, iv)
    if not af or af[1].op != 'int' or af[2] != 1:
        return None
    h = af[0]
    base = a.instate[h].facts.s
    for e in exit_edges(a, h):
        fs = edge_facts(a, e).s
        mine = [noep(c) for c in fs if iv in walk(c)]
        rest = [noep(c) for c in fs if iv not in walk(c) and c not in base]
        if not mine:
            continue
        for env in envs:
            n = teval(noep(N), env)
            if n is None:
                continue
            for v in range(af[1].a[0], min(n, 8)):
                en = dict(env); en[iv] = v
                if all(teval(c, en) == 1 for c in mine) and all(teval(c, en) == 1 for c in rest) and not any(teval(noep(c), en) == 0 for c in base):
                    return 'is left at %d of %d' % (v, n)
    return None


def carried(ctx, g, dim):
    """a local holding state from the previous level is renewed at each level and does not pass from one layer or face to the next"""
    a, t = g.a, g.t
    for obj, use in locals_used(g):
        ws = g.writers(obj)
        lev = g.level(use.block)
        if lev is None:
            ctx.und('source', '%s-carried' % dim, use.where(), 'level unknown')
            continue
        h = affine(a, lev)[0]
        body = a.fn.loops[h]
        key = '%s-carried' % dim
        # whole-object writes count as renewals
        whole = [w for w in ws if w.args[0] is obj]
        empt = emptyedges(g, obj)
        if not [w for w in whole if w.block in body]:
            ctx.und('source', key, use.where(), 'the state is not kept between levels')
            continue
        miss = around(a, h, whole, empt, use, obj)
        ctx.check(miss is None, 'source', key + '-level', use.where(), 'the state kept for the next level can be that of an earlier level')
        if dim == 'Dim3D':
            for w in whole:
                if cname(w.name).startswith('std::vector') and short(w.name) == 'resize' and w.block in body:
                    N = noep(w.args[1])
                    pk = noep(binop('add', 32, lev, I(-1)))
                    want = [binop('sdiv', 64, binop('sub', 64, T('load', ptr(t.elem('images', (pk,), (24,)), 8), 0, 'ptr'), T('load', t.elem('images', (pk,), (24,)), 0, 'ptr')), I(24, 64))]
                    j = judge(N, want[0], list(g.envs(lev)), a.instate[w.block].facts.s)
                    if j is None and equalon(N, want[0], list(g.envs(lev))):
                        j = True
                    ctx.check(True if j is True else False if j else None, 'source', key + '-count', w.where(), 'not every slice of the previous level is used: %s' % (j or show(N)))
        # layers and faces: outer loops of the level loop
        outer = [x for x in a.fn.loops_of(h) if x != h and h in a.fn.loops[x]]
        for o in outer:
            resets = [w for w in whole if w.block not in body or isempty(w)]
            leak = None
            for w in whole:
                if w.block not in body or isempty(w):
                    continue
                if leaks(a, w, o, use, resets, empt):
                    leak = w
            ctx.check(leak is None, 'source', '%s-outer%d' % (key, outer.index(o)), use.where(), 'the state of one layer or face can be used for the next')


def isempty(w):
    s = short(w.name)
    return s in ('clear', 'reset') or s in ('Image', 'vector') and len(w.args) == 1


def emptyedges(g, obj):
    """edges on which the object is known to be empty"""
    a = g.a
    r = set()
    b, e = T('load', obj, 0, 'ptr'), T('load', ptr(obj, 8), 0, 'ptr')
    for ed in a.exec_edges:
        if ed not in a.edge_state:
            continue
        for c in a.edge_state[ed].facts.s:
            if c.op == 'cmp' and c.a[0] == 'eq':
                x, y = noep(c.a[1]), noep(c.a[2])
                if {x, y} == {b, e}:
                    r.add(ed)
                if x.op == 'call' and cname(x.a[0]) in (IMG + 'operator bool', IMG + 'isValid') and obj in x.a[2] and y.op == 'int' and y.a[0] == 0:
                    r.add(ed)
            if c.op == 'not' and c.a[-1].op == 'call' and cname(c.a[-1].a[0]) in (IMG + 'operator bool', IMG + 'isValid') and obj in c.a[-1].a[2]:
                r.add(ed)
    return r


def around(a, h, ws, edges, use, obj):
    """a path around the loop that avoids the writes: state from before is still there"""
    body = a.fn.loops[h]
    blocks = {w.block for w in ws}
    if h in blocks:
        return None
    st = [h]; seen = set()
    while st:
        n = st.pop()
        for s in a.fn.blocks[n].succ:
            if s not in body or (n, s) not in a.exec_edges or s in blocks or (n, s) in edges:
                continue
            if s == h:
                return n
            if s not in seen:
                seen.add(s); st.append(s)
    return None


def leaks(a, w, o, use, resets, edges):
    """can the value written at w reach `use` through the head of the outer loop o without a reset?"""
    by = {}
    for e in a.events:
        by.setdefault(e.block, []).append(e)
    rs = set(resets)
    def walkfrom(start_block, start_idx, stop):
        """blocks reached (entered) without passing a reset; True when `stop` hits"""
        st = [(start_block, start_idx)]; seen = set()
        while st:
            n, k = st.pop()
            hit = False
            for e in by.get(n, ())[k:]:
                if stop(e):
                    return True, seen
                if e in rs:
                    hit = True; break
            if hit:
                continue
            for s in a.fn.blocks[n].succ:
                if (n, s) in a.exec_edges and (n, s) not in edges and s not in seen:
                    seen.add(s); st.append((s, 0))
        return False, seen
    _, seen = walkfrom(w.block, by[w.block].index(w) + 1, lambda e: False)
    if o not in seen:
        return False
    ok, _ = walkfrom(o, 0, lambda e: e is use)
    return ok


def restored(ctx, g, dim, vn):
    a = g.a
    for obj in {o for o, _ in locals_used(Gen(g.t, dim))} if False else {o for o, _ in locals_used(g)} or carriedlocals(g):
        ends = [w for w in g.writers(obj) if w.args[0] is obj and a.fn.loops_of(w.block)]
        kinds = set()
        for w in ends:
            s = short(w.name)
            if s == 'operator=' and len(w.args) == 2:
                lev = g.level(w.block)
                if lev is None:
                    continue
                for x in g.trace(w.args[1], w):
                    kinds.add(x and x[0])
        if not kinds:
            continue
        want = 'resize' if vn == 'once' else 'empty'
        ctx.check(True if kinds == {want} else None if None in kinds or len(kinds) > 1 else False, 'restore', '%s-%s' % (dim, vn), ends[0].where(),
                  'after a level replaced %s the state carried on is %s' % ('once' if vn == 'once' else 'for good', ', '.join(str(x) for x in kinds)))


def carriedlocals(g):
    r = set()
    for e in g.w:
        if short(e.name) == 'operator=' and cname(e.name).startswith(IMG) and root(e.args[0]).op == 'alloca' and g.level(e.block) is not None:
            lev = g.level(e.block)
            # constructed outside the level loop
            h = affine(g.a, lev)[0]
            if any(short(w.name) == 'Image' and w.args[0] is e.args[0] and w.block not in g.a.fn.loops[h] for w in g.w):
                r.add(e.args[0])
    return r


def gen3d(ctx, t):
    """the images a volume level is averaged into have the level's size, count, format and colour space"""
    for f in t.m.fns.values():
        if f.decl or 'generateMips3d' not in f.dem:
            continue
        ctx.fn(f)
        A = args(f)
        a = Analysis(f, A, pure=PURE, keeps=keepall)
        k = 0
        rs = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and cname(e.name).startswith('std::vector') and short(e.name) == 'resize' and noep(e.args[0]) is A[0]]
        for e in rs:
            N = noep(e.args[1])
            while N.op == 'zext':
                N = N.a[1]
            j = judge(N, A[4], [{A[4]: d, A[2]: 16, A[3]: 8} for d in (1, 2, 7)])
            ctx.check(True if j is True else False if j else None, 'size', 'gen3d-count', e.where(), 'the list of slices is sized to %s' % (j or show(N)))
        for e in a.events:
            if iscall(e, IMG + 'initialize'):
                k += 1
                for n, x, w in (('format', e.args[1], I(t.m.enum('cuttlefish::Image::Format')['RGBAF'])), ('width', e.args[2], A[2]), ('height', e.args[3], A[3]), ('space', e.args[4], A[5])):
                    same = True if noep(x) is noep(w) else False if x.op in ('int', 'arg') else None
                    ctx.check(same, 'size' if n != 'space' else 'colour', 'gen3d-%d-%s' % (k, n), e.where(), 'a slice is created with %s as its %s' % (show(x), n))


# -- T05 ------------------------------------------------------------------------------------------------------

NATIVE = set('R8G8B8 B8G8R8 R8G8B8A8 B8G8R8A8 A8B8G8R8 BC1_RGB BC1_RGBA BC2 BC3 BC7 ETC2_R8G8B8 ETC2_R8G8B8A1 ETC2_R8G8B8A8'.split())
CONVERT = 'cuttlefish::Converter::convert'


def t05(ctx):
    ctx.rule('gate', 'assuming an incomplete texture, an unsupported pair, or an sRGB texture and a pair without native sRGB representation, '
                     'nothing is modified, the converter is not called and every return is false')
    ctx.rule('asked', 'support and sRGB representation are asked for the requested format and type')
    ctx.rule('record', 'the requested format, type, alpha mode and colour mask are in their fields when the converter runs and when convert returns true')
    ctx.rule('failure', 'when the converter fails every path drops the encoded data and returns false')
    ctx.rule('complete', 'imagesComplete visits every surface of every level, layer and face and answers true only past valid ones')
    ctx.rule('native', 'hasNativeSRGB is true exactly for the 8-bit colour formats and the colour block formats as UNorm')
    ctx.rule('answer', 'each attribute query answers the field convert records')
    ctx.rule('mask', 'a colour mask made of channels has exactly these channels, alpha and a default mask all')
    ctx.part(api.mask, ctx, 'mask')
    t = Tex(ctx)
    f = t.fn('convert(')
    ctx.fn(f)
    A = args(f)
    cs = t.m.enum('cuttlefish::ColorSpace')
    lin, srgb = cs['Linear'], cs['sRGB']
    def run(complete=1, valid=1, native=1, space=lin, ok=None):
        calls = []
        def bind(an, i, dem, ar, st):
            n = cname(dem)
            if n == 'cuttlefish::Texture::imagesComplete':
                calls.append(('complete', ar)); return I(complete, 1)
            if n == 'cuttlefish::Texture::isFormatValid':
                calls.append(('valid', ar)); return I(valid, 1)
            if n == 'cuttlefish::Texture::hasNativeSRGB':
                calls.append(('native', ar)); return I(native, 1)
            if n == CONVERT and ok is not None:
                return I(ok, 1)
            return None
        facts = [cmp('ne', t.impl, NULL)]
        a = Analysis(f, A, facts=facts, mem={(t.cell('colorSpace'), 4): I(space)}, pure=PURE, bind=bind,
                     keeps=lambda n: keepall(n) or short(n) in ('imagesComplete', 'isFormatValid', 'hasNativeSRGB'))
        return a, calls
    cases = [('incomplete', dict(complete=0)), ('unsupported', dict(valid=0)), ('incomplete-srgb', dict(complete=0, space=srgb)),
             ('unsupported-srgb', dict(valid=0, space=srgb)), ('no-native-srgb', dict(native=0, space=srgb))]
    for key, kw in cases:
        a, calls = run(**kw)
        want = {'incomplete': 'complete', 'unsupported': 'valid', 'no-native-srgb': 'native'}[key if key in ('incomplete', 'unsupported', 'no-native-srgb') else key[:-5]]
        asked = any(c == want for c, _ in calls)
        tc = [e for e in a.events if iscall(e, CONVERT)]
        w = [e for e in a.events if e.i.op == 'store' and root(e.args[1]).op != 'alloca'] + [e for e in a.events if e.i.op in ('call', 'invoke') and e.name
             and cname(e.name).startswith('std::vector') and short(e.name) in VECMOD and t.impl in walk(noep(e.args[0]))]
        r = [x for x in retleaves(a) if not (x.op == 'int' and x.a[0] == 0)]
        bad = tc or w or r
        ctx.check(True if not bad else False if asked or not anycall(f, a, want) else None, 'gate', key, (tc or w or [f])[0].where(),
                  'convert %s for %s' % ('calls the converter' if tc else 'modifies the texture' if w else 'returns %s' % (r and show(r[0])), key))
    for key, kw in (('linear', dict(native=0)), ('srgb', dict(space=srgb))):
        a, calls = run(ok=1, **kw)
        for c, ar in calls:
            if c in ('valid', 'native'):
                good = len(ar) >= 2 and ar[0] is A[1] and ar[1] is A[2]
                ctx.check(True if good else False if all(x.op in ('arg', 'int') or x.op == 'load' for x in ar[:2]) else None, 'asked', '%s-%s' % (key, c), f.where(),
                          '%s asked for (%s)' % (c, ', '.join(show(x) for x in ar)))
        tc = [e for e in a.events if iscall(e, CONVERT)]
        ctx.check(True if tc else None, 'gate', 'accept-' + key, f.where(), 'an acceptable texture does not reach the converter')
        fields = (('format', A[1]), ('type', A[2]), ('alphaType', A[4]), ('colorMask', A[5]))
        for e in tc:
            good = noep(e.args[1]) is noep(t.cell('images')) and noep(e.args[2]) is noep(t.cell('textures')) and e.args[0] is A[0]
            ctx.check(True if good else None, 'record', key + '-lists', e.where(), 'the converter gets (%s)' % ', '.join(show(x) for x in e.args[:3]))
            recorded(ctx, t, a, e, fields[:2] + fields[2:], '%s-before' % key, 'when the converter runs')
        for v, e in a.rets():
            recorded(ctx, t, a, e, fields, '%s-after' % key, 'when convert returns')
            for y in leaves(v, a):
                ctx.check(True if y.op == 'int' and y.a[0] == 1 else False if y.op == 'int' and tc else None, 'record', key + '-result', e.where(), 'a successful conversion returns %s' % show(y))
            cl = discards(t, a)
            drop = [c for c in cl if any(evflow(a, x, c) is not None for x in tc)]
            ctx.check(not drop, 'record', key + '-kept', (drop or [e])[0].where(), 'the encoded data is dropped after a successful conversion')
        a, calls = run(ok=0, **kw)
        cl = discards(t, a)
        for e in a.events:
            if iscall(e, CONVERT):
                ctx.check(True if evflow(a, e, 'ret', cl, empties(a)) is None else False, 'failure', key + '-drop', e.where(), 'data encoded by a failed conversion is kept')
        for v, e in a.rets():
            for y in leaves(v, a):
                ctx.check(True if y.op == 'int' and y.a[0] == 0 else False if y.op == 'int' or any(teval(y, {A[6]: k, A[3]: k, A[1]: k, A[2]: k}) for k in (0, 1, 2, 8)) else None, 'failure', key + '-result', e.where(), 'a failed conversion returns %s' % show(y))
    complete(ctx, t)
    native(ctx, t)
    for n in ('format', 'type', 'alphaType', 'colorMask'):
        for g in t.fn(n + '(', one=False):
            if g.decl or not nonstatic(g):
                continue
            ctx.fn(g)
            a = Analysis(g, args(g), facts=[cmp('ne', t.impl, NULL)], pure=PURE)
            want = t.L(n) if n != 'colorMask' else None
            rl = [noep(x) for x in retleaves(a)]
            def of(x):
                return x.op == 'load' and split_ptr(x.a[0])[0] is t.impl and t.off[n] <= split_ptr(x.a[0])[1] < t.off[n] + 4
            if n == 'colorMask':
                masked(ctx, t, g)
                good = rl and all(any(of(y) for y in walk(x)) for x in rl)
                wrong = rl and all(x.op == 'int' or x.op == 'load' for x in rl) and not good
            else:
                good = rl and all(of(x) for x in rl)
                wrong = rl and not good and all(x.op == 'int' or x.op == 'load' for x in rl)
            ctx.check(True if good else False if wrong else None, 'answer', n, g.where(), '%s() answers %s' % (n, ', '.join(show(x) for x in rl)))
    g = t.fn('converted(')
    tb = T('load', t.cell('textures'), 0, 'ptr'); te = T('load', ptr(t.cell('textures'), 8), 0, 'ptr')
    for key, fact, want in (('encoded', 'ne', 1), ('none', 'eq', 0)):
        a = Analysis(g, args(g), facts=[cmp('ne', t.impl, NULL), cmp(fact, tb, te)], pure=PURE)
        rl = retleaves(a)
        ctx.check(True if rl and all(x.op == 'int' and x.a[0] == want for x in rl) else False if rl and all(x.op == 'int' for x in rl) else None,
                  'answer', 'converted-' + key, g.where(), 'converted() answers %s' % ', '.join(show(x) for x in rl))
    ctx.floor('gate', 3)
    ctx.floor('record', 1)
    ctx.floor('complete', 1)
    ctx.floor('native', 100)
    ctx.assume('the converter reads format, type, alpha mode and colour mask from the texture (C01..C03); it fills the lists it is given (C06)')


def masked(ctx, t, g):
    """colorMask() for every mask that can be recorded"""
    off = t.m.offsets('cuttlefish::Texture::ColorMask')
    order = sorted(off, key=off.get)
    for k in range(1 << len(order)):
        cells = {n: k >> i & 1 for i, n in enumerate(order)}
        mem = {(ptr(t.cell('colorMask'), off[n]), 1): I(x, 8) for n, x in cells.items()}
        a = Analysis(g, args(g), facts=[cmp('ne', t.impl, NULL)], mem=mem, pure=PURE)
        rl = set(retleaves(a))
        x = next(iter(rl)) if len(rl) == 1 else None
        sure = x is not None and x.op == 'int'
        ctx.check(None if not sure else all((x.a[0] >> 8 * off[n] & 0xff) == c for n, c in cells.items()), 'answer', 'colorMask %s' % ''.join(n for n in order if cells[n]), g.where(),
                  'colorMask() answers %s for a mask of %s' % (x and hex(x.a[0]) if sure else None, ''.join(n for n in order if cells[n]) or 'nothing'))


def anycall(f, a, want):
    """the function asks the question at all (in its own code)"""
    n = {'complete': 'imagesComplete', 'valid': 'isFormatValid', 'native': 'hasNativeSRGB'}[want]
    return any(e.i.op in ('call', 'invoke') and e.name and short(e.name) == n for e in a.events)


def recorded(ctx, t, a, e, fields, key, when):
    for n, w in fields:
        c = t.cell(n)
        ws = [x for x in a.events if x.i.op == 'store' and overlaps(noep(x.args[1]), c, 4)]
        last = [x for x in ws if evflow(a, x, e, [o for o in ws if o is not x]) is not None]
        lack = evflow(a, None, e, ws) is not None
        if lack:
            ctx.bad('record', '%s-%s' % (key, n), e.where(), 'the requested %s is not recorded %s' % (n, when))
            continue
        good = [x for x in last if w in walk(x.args[0]) or n == 'colorMask' and root(w) in walk(x.args[0])]
        exact = [x for x in good if x.args[0] is w or n == 'colorMask']
        ctx.check(True if last and len(exact) == len(last) else False if last and all(x.args[0].op in ('int', 'arg') for x in last) else None, 'record',
                  '%s-%s' % (key, n), (last or [e])[0].where(), '%s the recorded %s is %s' % (when, n, ', '.join(show(x.args[0]) for x in last)))


def overlaps(p, c, size):
    b, o, v = split_ptr(p)
    cb, co, cv = split_ptr(c)
    return b is cb and not v and not cv and co <= o < co + size


def complete(ctx, t):
    f = t.fn('imagesComplete(')
    ctx.fn(f)
    asks = lambda e: iscall(e, IMG + 'isValid', IMG + 'operator bool')
    a = Analysis(f, args(f), facts=[cmp('ne', t.impl, NULL)], pure=PURE, keeps=keepall,
                 bind=lambda an, i, dem, ar, st: FALSE if cname(dem) in (IMG + 'isValid', IMG + 'operator bool') else None)
    evs = [e for e in a.events if asks(e)]
    if len(evs) != 1:
        ctx.und('complete', 'ask', f.where(), '%d validity tests' % len(evs))
        return
    e, = evs
    # after a missing surface only false
    true = truths(a, e)
    ctx.check(True if true is False else False if true else None, 'complete', 'missing', e.where(), 'imagesComplete can answer true after meeting a missing surface')
    b = Analysis(f, args(f), facts=[cmp('ne', t.impl, NULL)], pure=PURE, keeps=keepall,
                 bind=lambda an, i, dem, ar, st: TRUE if cname(dem) in (IMG + 'isValid', IMG + 'operator bool') else None)
    evs = [x for x in b.events if asks(x)]
    if len(evs) != 1:
        ctx.und('complete', 'scan', f.where(), 'validity test not unique')
        return
    e, = evs
    p = locate(b, t, e.args[0])
    if p is None or len(p) != 3:
        one = single(b, e)
        ctx.check(False if one else None, 'complete', 'scan', e.where(), one or 'surface not recognised')
        return
    for q, x in enumerate(p):
        n = ('levels', 'layers', 'faces')[q]
        if x.op == 'int':
            ctx.bad('complete', n, e.where(), 'only index %d of the %s is tested' % (x.a[0], n))
            continue
        s = span(b, x, e.block)
        if isinstance(s, str):
            ctx.bad('complete', n, e.where(), 'the scan of the %s %s' % (n, s))
            continue
        if s is None:
            ctx.und('complete', n, e.where(), 'scan of the %s not understood' % n)
            continue
        af = affine(b, x)
        if s[0] == 'list':
            lp = locate(b, t, s[1])
            stride = 8 if q == 2 else 24
            if s[2] and lp == p[:q]:
                v = truthedge(b, s[2])
                ctx.check(False if v else None, 'complete', n, e.where(), 'the scan of the %s can end early' % n)
                continue
            ctx.check(True if lp is not None and lp == list(p[:q]) and not s[2] and af[2] == stride else False if lp is not None and af[2] != stride else None,
                      'complete', n, e.where(), 'the scan of the %s runs over another list or leaves elements out' % n)
        else:
            want = {0: 'mipLevels', 2: 'faces'}.get(q)
            good = False
            for N in s[1]:
                N = noep(N)
                if N.op in ('sdiv', 'lshr', 'ashr', 'call') or want and N is t.L(want):
                    good = True
            vec = cell(b, t, p, q)
            envs = [{T('load', vec, 0, 'ptr'): 0, T('load', ptr(vec, 8), 0, 'ptr'): (8 if q == 2 else 24)*k, **({t.L(want): k} if want else {})} for k in (1, 2, 3, 6)] if vec else []
            w = None if good or not vec else early_exit(b, x, envs, binop('sdiv', 64, binop('sub', 64, T('load', ptr(vec, 8), 0, 'ptr'), T('load', vec, 0, 'ptr')), I(8 if q == 2 else 24, 64)))
            ctx.check(True if good else False if w else None, 'complete', n, e.where(), w or 'the scan of the %s ends at %s' % (n, ', '.join(show(N) for N in s[1])))
        if af:
            h = af[0]
            inner = e.block
            # each iteration reaches the next inner loop
            if q < 2 and p[q + 1] in b.ivinfo:
                h2 = b.ivinfo[p[q + 1]][0]
                if h2 != h and h2 in b.fn.loops[h]:
                    class Ev: pass
                    x2 = Ev(); x2.block = h2
                    ctx.check(inloop_skip_block(b, h, h2) is None or None, 'complete', n + '-each', e.where(), 'the scan can skip some of the %s' % n)
            elif q == 2:
                ctx.check(inloop_skip_block(b, h, e.block) is None or None, 'complete', n + '-each', e.where(), 'the scan can skip some of the %s' % n)


def single(a, e):
    """the surface tested is the one at a fixed place of its list of faces"""
    b, o, v = split_ptr(noep(e.args[0]))
    if v or b.op != 'load':
        return None
    c, o2, v2 = split_ptr(noep(b.a[0]))
    if o2 not in (0, 8) or v2 and any(s == 8 for _, s in v2):
        return None
    af = affine(a, c)
    if v2 and all(s == 24 for _, s in v2) or af and af[2] == 24:
        return 'of every list of faces only the %s is tested' % ('first' if o2 == 0 else 'last') + (' or one at distance %d' % (o//8) if o else '')
    return None


def cell(a, t, p, q):
    """address of the list that index q of a surface address selects from"""
    v = t.cell('images')
    for k in range(q):
        x = noep(p[k])
        af = affine(a, x) if x in a.ivinfo else None
        if af and af[1].op in ('load', 'ptr'):
            v = x
        else:
            v = ptr(T('load', v, 0, 'ptr'), 0, ((x if width(x) == 64 else cast('zext', 'i64', x), 24),))
    return v


def inloop_skip_block(a, h, blk):
    class Ev:
        pass
    x = Ev(); x.block = blk
    from .thread import inloop_skip
    return inloop_skip(a, h, x)


def under(f, t):
    """the term with choices the facts settle made"""
    def choose(x):
        if x.op == 'ite':
            d = f.decide(x.a[0])
            if d is not None:
                return x.a[1] if d else x.a[2]
        if x.op == 'cmp':
            d = f.decide(x)
            if d is not None:
                return TRUE if d else FALSE
        return x
    return rebuild(t, choose, {})


def feasible(a, e):
    """blocks that can follow event e, leaving out edges that contradict what is known at e within the same iteration of its loops"""
    F = a.instate[e.block].facts
    st = [(e.block, F)]
    seen = {}
    out = set()
    while st:
        n, f = st.pop()
        for s in a.fn.blocks[n].succ:
            if (n, s) not in a.exec_edges:
                continue
            es = a.edge_state.get((n, s))
            if es and any(f.decide(c) is False or under(f, c) is FALSE for c in es.facts.s):
                continue
            g = f
            if s in a.fn.loops and n in a.fn.loops[s]:
                ivs = {iv for iv, x in a.ivinfo.items() if x[0] == s or x[0] in a.fn.loops[s]}
                g = type(F)(frozenset(c for c in f.s if not any(x in ivs for x in walk(c))))
            k = (s, g.s)
            if k not in seen:
                seen[k] = 1
                out.add((n, s))
                st.append((s, g))
            if len(seen) > 4000:
                return None
    return out


def truths(a, e):
    """can a nonzero result be returned after event e?  True / False / None"""
    ed = feasible(a, e)
    if ed is None:
        return None
    out = False
    for v, r in a.rets():
        if v is None:
            continue
        st = [(v, r.block)]; seen = set()
        while st:
            x, blk = st.pop()
            if (x, blk) in seen:
                continue
            seen.add((x, blk))
            if x.op == 'phi':
                for pb, y in x.a[2]:
                    if y.op == 'int' and y.a[0]:
                        if any(p == pb for p, _ in ed) or pb == e.block:
                            return True
                    elif y.op != 'int':
                        st.append((y, pb))
            elif x.op == 'int':
                if x.a[0] and any(s == blk for _, s in ed):
                    return True
            else:
                x2 = under(a.instate[e.block].facts, x)
                for y in leaves(x2, a):
                    if y is UNDEF or y.op == 'int' and y.a[0] == 0:
                        continue
                    if y.op == 'phi':
                        st.append((y, blk))
                    else:
                        out = None
    return out


def truthedge(a, edge):
    class E:
        pass
    for v, r in a.rets():
        if v is not None and v.op == 'phi':
            for pb, x in v.a[2]:
                if x.op == 'int' and x.a[0] and (pb in edge or path_avoiding(a, edge[1], {pb}) is not None):
                    return True
    return False


def native(ctx, t):
    f = t.m.find('cuttlefish::Texture::hasNativeSRGB(')
    ctx.fn(f)
    ty = t.m.enum('cuttlefish::Texture::Type')
    for fn, fv in formats(t.m):
        for tn, tv in types(t.m):
            want = tn == 'UNorm' and (fn in NATIVE or fn.startswith(('ASTC_', 'PVRTC')))
            v, _ = const_call(t.m, 'cuttlefish::Texture::hasNativeSRGB(', fv, tv)
            ctx.check(None if v is None or v.op != 'int' else bool(v.a[0]) == want, 'native', '%s-%s' % (fn, tn), f.where(),
                      'hasNativeSRGB(%s, %s) is %s' % (fn, tn, show(v) if v is not None else '?'))


# -- T06 ------------------------------------------------------------------------------------------------------

COPYING = ('operator=', 'assign', '_M_move_assign', 'swap')


def transfer(a, dst, src, off, size, whole, equal=()):
    """(events giving bytes [off, off+size) of dst the source's, events giving them something else, opaque events)"""
    good, wrong, opaque = [], [], []
    same = lambda x, o: noep(x) is noep(ptr(src, o)) or o == off and any(noep(x) is noep(y) for y in equal)
    for e in a.events:
        if e.i.op == 'store':
            b, o, v = split_ptr(noep(e.args[1]))
            if b is not noep(dst) or v:
                continue
            n = max((bits(e.i.ty_of_store) if hasattr(e.i, 'ty_of_store') else width(e.args[0]) or 64)//8, 1)
            if o + n <= off or off + size <= o:
                continue
            x = noep(e.args[0])
            while x.op in ('zext', 'trunc'):
                x = x.a[1]
            if x.op == 'load' and same(x.a[0], o) or x.op == 'load' and noep(x.a[0]) is noep(ptr(src, o)):
                good.append((e, o, o + n))
            else:
                wrong.append(e)
        elif e.i.op in ('call', 'invoke') and e.name and e.args:
            b, o, v = split_ptr(noep(e.args[0]))
            nm = e.name
            if nm.startswith(('llvm.memcpy', 'llvm.memmove')) or nm in ('memcpy', 'memmove'):
                if b is not noep(dst) or v or e.args[2].op != 'int':
                    continue
                n = e.args[2].a[0]
                if o + n <= off or off + size <= o:
                    continue
                sb = split_ptr(noep(e.args[1]))
                if sb == split_ptr(noep(ptr(src, o))):
                    good.append((e, o, o + n))
                else:
                    wrong.append(e)
            elif nm.startswith('llvm.memset') and b is noep(dst) and not v and e.args[2].op == 'int' and not (o + e.args[2].a[0] <= off or off + size <= o):
                wrong.append(e)
            elif nm.startswith('llvm.') or nm.startswith('operator delete') or short(nm).startswith('~'):
                continue
            elif b is noep(dst) and not v:
                s = short(nm)
                if o == off and whole:
                    if len(e.args) >= 2 and (same(e.args[1], off)) and (s in COPYING or cname(nm).split('::')[-1].split('<')[0] in ('vector', 'Image')):
                        good.append((e, off, off + size))
                    elif len(e.args) >= 2 and s in COPYING and root(noep(e.args[1])).op == 'alloca':
                        tmp = [x for x in a.events if x.i.op in ('call', 'invoke') and x.name and x.args and noep(x.args[0]) is noep(e.args[1]) and not short(x.name).startswith('~')]
                        if tmp and all(len(x.args) == 1 and short(x.name) in ('vector', 'Image') for x in tmp):
                            wrong.append(e)
                        elif tmp and all(len(x.args) >= 2 and same(x.args[1], off) for x in tmp):
                            good.append((e, off, off + size))
                        else:
                            opaque.append(e)
                    elif s in ('clear', 'resize', 'reset') or len(e.args) == 1 and s in ('vector', 'Image') or len(e.args) >= 2 and s in COPYING:
                        wrong.append(e)
                    elif not nm.endswith(' const'):
                        opaque.append(e)
                elif o == 0 and off and not whole and not nm.endswith(' const'):
                    opaque.append(e)
            elif any(root(noep(x)) is noep(dst) for x in e.args) and not nm.endswith(' const') and not NOEFFECT(nm):
                opaque.append(e)
    return good, wrong, opaque


def member(ctx, a, f, rule, key, dst, src, name, off, size, whole, equal=(), nul=None):
    good, wrong, opaque = transfer(a, dst, src, off, size, whole, equal)
    step = size if whole else 1
    miss = None
    for o in range(off, off + size, step):
        evs = [e for e, lo, hi in good if lo <= o and o + step <= hi]
        m = evflow(a, None, 'ret', evs)
        if m is not None:
            miss = miss or m
        for w in wrong:
            if evflow(a, w, 'ret', evs) is not None and evs and not whole:
                miss = miss or w
            elif whole and evflow(a, w, 'ret', evs) is not None:
                miss = miss or w
    ctx.check(True if miss is None else None if opaque else False, rule, key + '-' + name, (miss or f).where(), '%s: the %s can differ from the source\'s' % (key, name))


IMPLM = [('dimension', 4, 0), ('colorSpace', 4, 0), ('width', 4, 0), ('height', 4, 0), ('depth', 4, 0), ('mipLevels', 4, 0), ('faces', 4, 0), ('images', 24, 1),
         ('format', 4, 0), ('type', 4, 0), ('alphaType', 4, 0), ('colorMask', 4, 0), ('textures', 24, 1)]


def t06(ctx):
    ctx.rule('member', 'on every path of a copy each member of the target receives the source\'s same member and nothing else afterwards')
    ctx.rule('empty', 'copying an empty object leaves the target empty')
    ctx.rule('move', 'a move hands the source\'s implementation over on every path')
    ctx.rule('image', 'an image copy is built from a clone of the source\'s pixels with the source\'s colour space and format, in that order')
    ctx.rule('storage', 'a replacement holding its own image points to its own copy, one referring to an outside image keeps referring to it')
    t = Tex(ctx)
    declared = t.m.members.get('cuttlefish::Texture::Impl')
    known = {n for n, _, _ in IMPLM}
    mem = list(IMPLM)
    for d in declared:
        if d[0] not in known:
            ty, size = d[2], d[3]
            mem.append((d[0], size, 1 if 'vector' in ty or 'List' in ty or 'Image' in ty or 'string' in ty else 0))
    self_, other = T('arg', 0, '$0'), T('arg', 1, '$1')
    simpl, dimpl = T('load', other, 0, 'ptr'), T('load', self_, 0, 'ptr')
    apart = cmp('ne', self_, other)
    for f in t.m.fns.values():
        if f.decl:
            continue
        d = ir.strip_ret(f.dem)
        kind = None
        for cls in ('Texture', 'Texture::CustomMipImage'):
            q = 'cuttlefish::' + cls
            last = cls.split('::')[-1]
            for sfx, k in ((' const&)', 'copy'), ('&&)', 'move')):
                if d == '%s::%s(%s%s' % (q, last, q, sfx):
                    kind = (cls, k, 'construct')
                if d == '%s::operator=(%s%s' % (q, q, sfx):
                    kind = (cls, k, 'assign')
        if not kind:
            continue
        cls, how, op = kind
        ctx.fn(f)
        key = '%s-%s-%s' % (cls.split('::')[-1], how, op)
        if cls == 'Texture':
            if how == 'move':
                moved(ctx, f, key, self_, other, apart)
                continue
            for tn, tf in (('empty', cmp('eq', dimpl, NULL)), ('full', cmp('ne', dimpl, NULL))) if op == 'assign' else (('new', None),):
                fs = [apart, cmp('ne', simpl, NULL)] + ([tf] if tf is not None else [])
                a = Analysis(f, args(f), facts=fs, pure=PURE, keeps=keepall)
                copied(ctx, t, a, f, '%s-%s' % (key, tn), self_, dimpl, simpl, mem)
                fs[1] = cmp('eq', simpl, NULL)
                a = Analysis(f, args(f), facts=fs, pure=PURE, keeps=keepall)
                emptied(ctx, a, f, '%s-%s' % (key, tn), self_, dimpl, tn)
        else:
            off = t.m.offsets('cuttlefish::Texture::CustomMipImage')
            oi, orp, os_ = off['image'], off['replacement'], off['imageStorage']
            img = T('load', ptr(other, oi), 0, 'ptr')
            own = ptr(other, os_)
            for cn, fact in (('own', cmp('eq', img, own)), ('outside', cmp('ne', img, own))):
                a = Analysis(f, args(f), facts=[apart, fact], pure=PURE, keeps=keepall)
                k = '%s-%s' % (key, cn)
                member(ctx, a, f, 'member', k, self_, other, 'replacement', orp, 4, 0)
                ws = [e for e in a.events if e.i.op == 'store' and noep(e.args[1]) is noep(ptr(self_, oi))]
                want = ptr(self_, os_) if cn == 'own' else img
                ok = [e for e in ws if noep(e.args[0]) is noep(want)]
                bad = evflow(a, None, 'ret', ok)
                for w in ws:
                    if w not in ok and evflow(a, w, 'ret', ok) is not None:
                        bad = bad or w
                ctx.check(True if bad is None else False, 'storage', k + '-image', (bad or f).where(), '%s: the image referred to is %s' % (k, ws and show(ws[-1].args[0]) or 'not set'))
                if cn == 'own':
                    member(ctx, a, f, 'storage', k, self_, other, 'imageStorage', os_, 8, 1, equal=(img,))
            for d in t.m.members.get('cuttlefish::Texture::CustomMipImage'):
                if d[0] not in ('image', 'replacement', 'imageStorage'):
                    a = Analysis(f, args(f), facts=[apart], pure=PURE, keeps=keepall)
                    member(ctx, a, f, 'member', key, self_, other, d[0], d[1], d[3], 0)
    images(ctx, self_, other, simpl, dimpl, apart)
    ctx.floor('member', 1)
    ctx.floor('move', 1)
    ctx.floor('image', 1)
    ctx.floor('storage', 1)
    ctx.assume('std::vector\'s and std::unique_ptr\'s copies and moves are complete; FreeImage_Clone copies pixels and masks')


def target(a, self_, dimpl):
    """the implementation objects the target may end up with: terms, NULL among them"""
    ws = [e for e in a.events if e.i.op == 'store' and noep(e.args[1]) is self_]
    fin = [e for e in ws if evflow(a, e, 'ret', [x for x in ws if x is not e]) is not None]
    r = [(e.args[0], e) for e in fin]
    if evflow(a, None, 'ret', ws) is not None:
        r.append((dimpl, None))
    return r


def copied(ctx, t, a, f, key, self_, dimpl, simpl, mem):
    for dst, e in target(a, self_, dimpl):
        if dst is NULL:
            ctx.bad('member', key + '-null', e.where(), '%s: the target can end up empty' % key)
            continue
        if noep(dst) is simpl:
            ctx.bad('member', key + '-shared', e.where(), '%s: both objects share one implementation' % key)
            continue
        fresh = dst.op == 'call' and dst.a[0].startswith('operator new')
        if not fresh and noep(dst) is not dimpl:
            ctx.und('member', key, (e or f).where(), 'target not recognised: %s' % show(dst))
            continue
        if not fresh and evflow(a, None, 'ret', []) is None:
            continue
        for n, size, whole in mem:
            # only the paths that end with this object
            member(ctx, a, f, 'member', key, dst, simpl, n, t.off[n], size, whole)


def emptied(ctx, a, f, key, self_, dimpl, tn):
    bad = None; und = False
    for dst, e in target(a, self_, dimpl):
        if dst is NULL:
            continue
        if noep(dst) is dimpl and tn == 'empty':
            continue
        if noep(dst) is T('load', T('arg', 1, '$1'), 0, 'ptr'):
            continue
        if noep(dst) is dimpl or dst.op == 'call' and dst.a[0].startswith('operator new'):
            bad = e or f
        else:
            und = True
    ctx.check(False if bad else None if und else True, 'empty', key, (bad or f).where(), '%s: the target keeps or gets contents although the source is empty' % key)


def moved(ctx, f, key, self_, other, apart):
    src = T('load', other, 0, 'ptr')
    a = Analysis(f, args(f), facts=[apart], pure=PURE, keeps=keepall)
    ws = [e for e in a.events if e.i.op == 'store' and noep(e.args[1]) is self_]
    word = T('load', other, 0, 'i64')
    ok = [e for e in ws if noep(e.args[0]) in (src, word)]
    bad = evflow(a, None, 'ret', ok)
    for w in ws:
        if w not in ok and evflow(a, w, 'ret', ok) is not None:
            bad = bad or w
    op = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and any(x is self_ for x in e.args) and not e.name.endswith(' const')]
    ctx.check(True if bad is None else None if op else False, 'move', key, (bad or f).where(), '%s: the source\'s implementation is not handed over' % key)


def images(ctx, self_, other, simpl, dimpl, apart):
    m = ctx.load('lib/src/Image.cpp', keep=['Image::Impl::create'])
    off = m.offsets('cuttlefish::Image::Impl')
    def bind(an, i, dem, ar, st):
        return None
    for f in m.fns.values():
        if f.decl:
            continue
        d = ir.strip_ret(f.dem)
        q = 'cuttlefish::Image'
        how = 'copy' if d in ('%s::Image(%s const&)' % (q, q), '%s::operator=(%s const&)' % (q, q)) else 'move' if d in (
            '%s::Image(%s&&)' % (q, q), '%s::operator=(%s&&)' % (q, q)) else None
        if not how:
            continue
        ctx.fn(f)
        op = 'assign' if 'operator=' in d else 'construct'
        key = 'Image-%s-%s' % (how, op)
        if how == 'move':
            moved(ctx, f, key, self_, other, apart)
            continue
        for tn, tf in (('empty', cmp('eq', dimpl, NULL)), ('full', cmp('ne', dimpl, NULL))) if op == 'assign' else (('new', None),):
            k = '%s-%s' % (key, tn)
            clone = T('q', 'clone')
            seen = []
            def bind(an, i, dem, ar, st):
                if dem.startswith('FreeImage_Clone'):
                    seen.append(ar[0]); return clone
                return None
            keeps = lambda n: n.startswith(('FreeImage_', 'operator delete')) or 'Impl::create' in n
            fs = [apart, cmp('ne', simpl, NULL), cmp('ne', clone, NULL)] + ([tf] if tf is not None else [])
            a = Analysis(f, args(f), facts=fs, pure=PURE, keeps=keeps, bind=bind)
            for x in seen:
                ctx.check(True if noep(x) is T('load', ptr(simpl, off['image']), 0, 'ptr') else None, 'image', k + '-clone', f.where(), 'the clone is of %s' % show(x))
            for dst, e in target(a, self_, dimpl):
                if dst is NULL or e is None and noep(dst) is dimpl:
                    ctx.bad('image', k + '-null', (e or f).where(), '%s: the target can end up %s' % (k, 'empty' if dst is NULL else 'with its old contents'))
                    continue
                if dst.op == 'call' and 'Impl::create' in dst.a[0]:
                    ar = dst.a[2]
                    want = (clone, T('load', ptr(simpl, off['colorSpace']), 0, 'i32'), T('load', ptr(simpl, off['format']), 0, 'i32'))
                    for n, x, w in zip(('pixels', 'colour space', 'format'), ar, want):
                        x = noep(x)
                        ctx.check(True if x is noep(w) else False if x.op in ('int', 'load', 'arg') else None, 'image', '%s-%s' % (k, n.replace(' ', '')), e.where(),
                                  '%s: the %s of the copy is %s' % (k, n, show(x)))
                else:
                    ctx.und('image', k, (e or f).where(), 'target not recognised: %s' % show(dst))
            a = Analysis(f, args(f), facts=[apart, cmp('eq', simpl, NULL)] + ([tf] if tf is not None else []), pure=PURE, keeps=keeps)
            emptied(ctx, a, f, k, self_, dimpl, tn)
    # what create() makes of them
    f = m.find('cuttlefish::Image::Impl::create', one=False)
    for f in f:
        if f.decl:
            continue
        ctx.fn(f)
        for nm, v in sorted(m.enum('cuttlefish::Image::Format').items(), key=lambda t: t[1]):
            if nm not in BITMAP:
                continue
            A = args(f)
            A[2] = I(v)
            a = Analysis(f, A, facts=[cmp('ne', A[0], NULL)], pure=PURE, keeps=lambda n: n.startswith('FreeImage_'), bind=answers(BITMAP[nm], A[0]))
            rl = retleaves(a)
            for x in rl:
                if not (x.op == 'call' and x.a[0].startswith('operator new')):
                    ctx.check(False if x is NULL else None, 'image', 'create', f.where(), 'create() of a valid %s image answers %s' % (nm, show(x)))
                    continue
                for n, w in (('image', A[0]), ('format', A[2]), ('colorSpace', A[1])):
                    ws = [e for e in a.events if e.i.op == 'store' and noep(e.args[1]) is noep(ptr(x, off[n]))]
                    ok = [e for e in ws if noep(e.args[0]) is noep(w)]
                    ctx.check(True if ws and len(ok) == len(ws) else False if ws and all(noep(e.args[0]).op in ('arg', 'int') for e in ws) else None, 'image', 'create-' + n,
                              (ws or [f])[0].where(), 'create() stores %s as the %s of a %s image' % (ws and show(ws[0].args[0]), n, nm))
