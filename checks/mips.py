"""The texture's image storage and mip chains, followed for fixed shapes and fixed sets of replacements.

Every number that governs the shape is a constant; images are symbols that carry where they came from.  The path through
the function is then a single one, and the images it leaves in each level, layer and face can be compared with the lineage
the documentation gives.
"""
import itertools
from .util import *
from .derive import Open, Wrong, partypes
from sa.walk import Walk

TEX = 'lib/src/Texture.cpp'
IMG = 'cuttlefish::Image::'
KEEPM = ['maxMipmapLevels', r'anonymous namespace.::[^(]*[(]std::vector<cuttlefish::Image', r'^std::(vector|unordered_map)<']
BIG = 1 << 20


def levels(dim, w, h, d):
    return max(w, h, d if dim == 'Dim3D' else 1).bit_length()


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = m = ctx.load(TEX, keep=KEEPM, limit=4000)
        self.off = m.offsets('cuttlefish::Texture::Impl')
        self.idx = m.offsets('cuttlefish::Texture::ImageIndex')
        self.cm = m.offsets('cuttlefish::Texture::CustomMipImage')
        self.dims = m.enum('cuttlefish::Texture::Dimension')
        self.cs = m.enum('cuttlefish::ColorSpace')
        self.fe = m.enum('cuttlefish::Image::Format')
        self.grey = {v for k, v in self.fe.items() if k.startswith('Gray') or k in ('Int16', 'UInt16', 'Int32', 'UInt32', 'Float', 'Double')}
        self.filters = m.enum('cuttlefish::Image::ResizeFilter')
        self.rep = m.enum('cuttlefish::Texture::MipReplacement')
        self.tf = m.enum('cuttlefish::Texture::Format')


THIS, IMPL, MAP = T('alloca', 'texture', 0), T('alloca', 'impl', 0), T('alloca', 'map', 0)


class Scene:
    """one run of a function of the texture over concrete storage"""

    def __init__(self, w):
        self.w = w
        self.mem = {}
        self.images = []
        self.n = 0
        self.nodes = {}
        self.odd = None

    # -- images
    def image(self, prov, fmt, cs, width, height):
        t = T('q', 'im', len(self.images))
        self.images.append((prov, fmt, cs, width, height))
        return t

    def of(self, t):
        return self.images[t.a[1]] if t.op == 'q' and t.a[0] == 'im' else None

    def resized(self, t, w, h, filt):
        p, fmt, cs, ow, oh = self.of(t)
        return t if (ow, oh) == (w, h) else self.image(('resize', p, w, h, filt), fmt, cs, w, h)

    def converted(self, t, fmt, grey):
        p, f, cs, w, h = self.of(t)
        return t if f == fmt else self.image(('convert', p, fmt) + ((grey,) if fmt in self.w.grey else ()), fmt, cs, w, h)

    def recoloured(self, t, cs):
        p, f, c, w, h = self.of(t)
        return t if c == cs else self.image(('cs', p, cs), f, cs, w, h)

    # -- vectors
    def block(self, mem, v, n, size, cells=None):
        self.n += 1
        b = T('alloca', 'block', self.n)
        for k in range(n):
            for o in range(0, size, 8):
                mem[(ptr(b, k * size + o), 8)] = NULL
        for (k, o), x in (cells or {}).items():
            mem[(ptr(b, k * size + o), 8)] = x
        mem[(v, 8)] = b
        mem[(ptr(v, 8), 8)] = mem[(ptr(v, 16), 8)] = ptr(b, n * size)
        return b

    def span(self, mem, v, size):
        a, b = mem.get((v, 8)), mem.get((ptr(v, 8), 8))
        if a is None or b is None:
            raise Open('a list in an unknown state')
        if a is NULL and b is NULL:
            return NULL, 0
        x, o, xv = split_ptr(a)
        y, q, yv = split_ptr(b)
        if x is not y or xv or yv or (q - o) % size:
            raise Open('a list in an unknown state')
        return a, (q - o) // size

    def storage(self, mem, v, shape):
        """nested lists of images: shape is None, an image, or a list"""
        b = self.block(mem, v, len(shape), 8 if not shape or not isinstance(shape[0], list) else 24)
        for k, x in enumerate(shape):
            if isinstance(x, list):
                self.storage(mem, ptr(b, 24 * k), x)
            else:
                mem[(ptr(b, 8 * k), 8)] = x

    def contents(self, mem, v, depth):
        a, n = self.span(mem, v, 24 if depth else 8)
        if not depth:
            return [mem.get((ptr(a, 8 * k), 8)) for k in range(n)]
        return [self.contents(mem, ptr(a, 24 * k), depth - 1) for k in range(n)]

    # -- calls
    def bind(self, an, i, dem, a, st):
        nm = dem.split('(')[0]
        mem = st.mem
        if dem.startswith('std::vector<'):
            return self.vector(dem, i, a, st)
        if dem.startswith('std::unordered_map<'):
            return self.map(an, dem, i, a, st)
        if nm.endswith('::maxMipmapLevels'):
            k = a[-4:]
            if not all(x.op == 'int' for x in k):
                raise Open('the number of levels depends on unknown values')
            d = {v: n for n, v in self.w.dims.items()}.get(k[0].a[0])
            return I(levels(d, *[x.a[0] for x in k[1:]]))
        if 'operator new' in nm:
            self.n += 1
            return T('alloca', 'new', self.n)
        if 'operator delete' in nm:
            return T('void')
        if dem.startswith(IMG):
            return self.imagecall(short(dem), dem, i, a, st)
        if 'anonymous namespace)' in dem and 'vector<cuttlefish::Image,' in dem:
            return self.average(dem, i, a, st)
        if nm.startswith('llvm.'):
            return None
        self.odd = self.odd or 'call of ' + short(dem)
        return None

    def imagecall(self, s, dem, i, a, st):
        mem = st.mem
        def get(p):
            x = mem.get((p, 8))
            if x is None:
                raise Open('an image in an unknown state')
            return x
        if s in ('Image', 'operator=') and len(a) == 2 and ('Image&&' in dem or 'Image const&' in dem):
            x = get(a[1])
            mem[(a[0], 8)] = x
            if 'Image&&' in dem and a[0] is not a[1]:
                mem[(a[1], 8)] = NULL
            return a[0]
        if s == 'Image' and len(a) == 1:
            mem[(a[0], 8)] = NULL
            return T('void')
        if s == '~Image':
            return T('void')
        if s == 'reset':
            mem[(a[0], 8)] = NULL
            return T('void')
        if s in ('isValid', 'operator bool'):
            return I(int(get(a[0]) is not NULL), 1)
        me = a[1] if s in ('resize', 'convert') else a[0]
        x = get(me)
        if x is NULL or not self.of(x):
            raise Wrong_at(i, '%s of an empty image' % s) if x is NULL else Open('an unknown image')
        _, fmt, cs, w, h = self.of(x)
        if s in ('format', 'colorSpace', 'width', 'height'):
            return I({'format': fmt, 'colorSpace': cs, 'width': w, 'height': h}[s])
        v = [z.a[0] if z.op == 'int' else None for z in a[2 if me is a[1] else 1:]]
        if None in v:
            raise Open('%s with unknown values' % s)
        if s == 'resize' and len(v) == 3:
            if not v[0] or not v[1]:
                raise Wrong_at(i, 'an image is resized to %d by %d' % (v[0], v[1]))
            mem[(a[0], 8)] = self.resized(x, *v)
            return T('void')
        if s == 'convert' and len(v) == 2:
            mem[(a[0], 8)] = self.converted(x, v[0], bool(v[1] & 1))
            return T('void')
        if s == 'changeColorSpace' and len(v) == 1:
            mem[(a[0], 8)] = self.recoloured(x, v[0])
            return I(1, 1)
        raise Open('use of Image::' + s)

    def average(self, dem, i, a, st):
        ty = partypes(dem)
        names = self.params(dem, i)
        k = {}
        sizes = []
        for n, t in enumerate(ty):
            if 'vector<cuttlefish::Image,' in t:
                k['prev' if 'const' in t else 'out'] = a[n]
            elif t == 'unsigned int':
                sizes.append(n)
            elif t.endswith('ColorSpace'):
                k['cs'] = a[n]
            elif t.endswith('ResizeFilter'):
                k['filter'] = a[n]
        if set(k) != {'prev', 'out', 'cs', 'filter'} or len(sizes) != 3 or len(ty) != 7:
            raise Open('use of ' + short(dem))
        order = {}
        for n in sizes:
            for w in ('width', 'height', 'depth'):
                if w in names[n].lower():
                    order.setdefault(w, n)
        if sorted(order.values()) != sizes:
            order = dict(zip(('width', 'height', 'depth'), sizes))
        v = [a[order[w]] for w in ('width', 'height', 'depth')] + [k['cs'], k['filter']]
        if not all(x.op == 'int' for x in v):
            raise Open('slices averaged with unknown values')
        w, h, n, cs, filt = [x.a[0] for x in v]
        src = self.contents(st.mem, k['prev'], 0)
        if not src or any(x is NULL for x in src):
            raise Wrong_at(i, 'slices are averaged from %s' % ('an empty image' if src else 'no images'))
        for x in src:
            if self.of(x)[3:] != (w, h):
                raise Wrong_at(i, 'slices of %dx%d are averaged from images of %dx%d' % ((w, h) + self.of(x)[3:]))
        if n > 4096:
            raise Wrong_at(i, '%d slices are made' % n)
        p = tuple(self.of(x)[0] for x in src)
        self.block(st.mem, k['out'], n, 8, {(d, 0): self.image(('slice', p, w, h, n, cs, filt, d), self.w.fe['RGBAF'], cs, w, h) for d in range(n)})
        return T('void')

    def params(self, dem, i):
        f = self.w.m.fns.get(i.callee)
        p = list(getattr(f, 'params', None) or []) if f else []
        return p + [''] * (16 - len(p))

    def vector(self, dem, i, a, st):
        mem = st.mem
        head = dem[:dem.index('(')] if not dem.split('::')[-1].startswith('operator') else dem
        s = short(dem)
        c = re_class(dem)
        size = 8 if c.startswith('std::vector<cuttlefish::Image,') else 24 if c.startswith('std::vector<std::vector<') else None
        if size is None:
            raise Open('a list of another kind: ' + s)
        v = a[0]
        if s == 'vector' and len(a) == 1:
            self.block(mem, v, 0, size)
            return T('void')
        if s in ('vector', 'operator=') and len(a) >= 2 and ('&&' in dem[len(c):] or ' const&' in dem[len(c):]) and a[1].op != 'int':
            if '&&' in dem[len(c):]:
                if a[1] is not v:
                    for o in (0, 8, 16):
                        mem[(ptr(v, o), 8)] = mem.get((ptr(a[1], o), 8), NULL)
                        mem[(ptr(a[1], o), 8)] = NULL
                return v
            if size == 8:
                x = self.contents(mem, a[1], 0)
                self.block(mem, v, len(x), 8, {(k, 0): z for k, z in enumerate(x)})
                return v
            raise Open('a copy of nested lists')
        if s == '~vector':
            return T('void')
        if s == 'vector':
            mem[(v, 8)] = mem[(ptr(v, 8), 8)] = NULL
        first, n = self.span(mem, v, size)
        if s == 'size':
            return I(n, 64)
        if s == 'empty':
            return I(int(n == 0), 1)
        if s in ('begin', 'cbegin', 'data'):
            return first
        if s in ('end', 'cend'):
            return ptr(first, n * size) if n else first
        if s in ('operator[]', 'at'):
            if a[1].op != 'int':
                raise Open('an unknown place of a list')
            if a[1].a[0] >= n:
                raise Wrong_at(i, 'element %d of a list of %d is used' % (a[1].a[0], n))
            return ptr(first, a[1].a[0] * size)
        if s in ('front', 'back'):
            if not n:
                raise Wrong_at(i, '%s of an empty list' % s)
            return ptr(first, (n - 1) * size if s == 'back' else 0)
        def again(k, fill=None):
            if k > 65536:
                raise Wrong_at(i, 'a list gets %d elements' % k)
            cells = {(j, o): mem.get((ptr(first, j * size + o), 8), NULL) for j in range(min(k, n)) for o in range(0, size, 8)}
            if fill:
                cells.update({(j, 0): fill for j in range(n, k)})
            self.block(mem, v, k, size, cells)
        if s in ('vector', 'resize') and len(a) >= 2 and a[1].op == 'int' and (len(a) == 2 or 'allocator' in dem.split('(')[-1]):
            again(a[1].a[0])
            return T('void')
        if s == 'clear':
            self.block(mem, v, 0, size)
            return T('void')
        if s in ('reserve', 'shrink_to_fit'):
            return T('void')
        if s in ('push_back', 'emplace_back') and len(a) == 2 and size == 8:
            x = mem.get((a[1], 8))
            if x is None:
                raise Open('an image in an unknown state')
            again(n + 1, x)
            if '&&' in dem[len(c):]:
                mem[(a[1], 8)] = NULL
            return ptr(mem[(v, 8)], n * size)
        if s in ('emplace_back',) and len(a) == 1:
            again(n + 1)
            return ptr(mem[(v, 8)], n * size)
        if s == 'swap' and len(a) == 2:
            for o in (0, 8, 16):
                p, q = (ptr(v, o), 8), (ptr(a[1], o), 8)
                mem[p], mem[q] = mem.get(q, NULL), mem.get(p, NULL)
            return T('void')
        if s == 'pop_back' and n:
            again(n - 1)
            return T('void')
        raise Open('use of vector::' + s)

    def map(self, an, dem, i, a, st):
        s = short(dem)
        order = list(self.nodes.values())
        if s in ('begin', 'cbegin'):
            return order[0] if order else NULL
        if s in ('end', 'cend'):
            return NULL
        if s == 'size':
            return I(len(order), 64)
        if s == 'empty':
            return I(int(not order), 1)
        if s in ('find', 'count', 'at'):
            key = []
            for n in ('cubeFace', 'mipLevel', 'depth'):
                x = an.load(ptr(a[1], self.w.idx[n]), 4, 'i32', st, i)
                if x.op != 'int':
                    raise Open('a replacement is looked for under an unknown index')
                key.append(x.a[0])
            r = self.nodes.get(tuple(key))
            if s == 'count':
                return I(int(r is not None), 64)
            if s == 'at':
                if r is None:
                    raise Open('map::at of an absent replacement')
                return ptr(r, 24)
            return NULL if r is None else r
        raise Open('use of the map: ' + s)

    def customs(self, items):
        """[(face, mip, layer), image term, replacement]"""
        prev = None
        for k, (key, im, rep) in enumerate(items):
            n, p = T('alloca', 'node', k), T('alloca', 'custom', k)
            self.nodes[key] = n
            self.mem[(p, 8)] = im
            self.mem[(n, 8)] = NULL
            for name, v in zip(('cubeFace', 'mipLevel', 'depth'), key):
                self.mem[(ptr(n, 8 + self.w.idx[name]), 4)] = I(v)
            self.mem[(ptr(n, 24 + self.w.cm['image']), 8)] = p
            self.mem[(ptr(n, 24 + self.w.cm['replacement']), 4)] = I(rep)
            if prev is not None:
                self.mem[(prev, 8)] = n
            prev = n

    def fields(self, **kw):
        for n, v in kw.items():
            self.mem[(ptr(IMPL, self.w.off[n]), 4)] = I(v)

    def follow(self, f, A, steps=80000):
        def bind(an, i, dem, a, st):
            try:
                return self.bind(an, i, dem, a, st)
            except Wrong as e:
                raise
        self.mem.setdefault((THIS, 8), IMPL)
        a = Walk(f, A, pure=CONST, keeps=lambda n: n.startswith(('cuttlefish::', 'std::')), bind=bind, mem=self.mem, steps=steps)
        if self.odd:
            raise Open(self.odd)
        if not a.complete or len(a.traces) != 1:
            raise Open('the path depends on the images')
        return a.traces[0]


def Wrong_at(i, msg):
    e = Wrong(None, msg)
    e.line = i
    return e


def re_class(dem):
    """the class a method belongs to"""
    d = 0
    for k, c in enumerate(dem):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
            if d == 0:
                return dem[:k + 1]
    return dem


# ---------------------------------------------------------------- lineage
def canon(p):
    """resizes in order, the other steps in any order"""
    rs, others = [], []
    while p[0] in ('resize', 'convert', 'cs'):
        (rs if p[0] == 'resize' else others).append((p[0],) + p[2:])
        p = p[1]
    if p[0] == 'slice':
        p = ('slice', tuple(canon(x) for x in p[1])) + p[2:]
    return (p, tuple(reversed(rs)), frozenset(others))


def tell(p, names):
    if p[0] == 'src':
        return 'image %d/%d/%d' % p[1:]
    if p[0] == 'custom':
        return 'the replacement for level %d, layer %d, face %d' % (p[1][1], p[1][2], p[1][0])
    if p[0] == 'resize':
        return '%s at %dx%d' % (tell(p[1], names), p[2], p[3])
    if p[0] == 'convert':
        return '%s converted' % tell(p[1], names)
    if p[0] == 'cs':
        return '%s in colour space %d' % (tell(p[1], names), p[2])
    return 'slice %d of %d of (%s)' % (p[7], p[4], ', '.join(tell(x, names) for x in p[1][:3]))


class Case:
    """one shape with its replacements: what the levels have to be"""

    def __init__(self, w, dim, size, cs, old, ask, customs, filt='Linear', hole=None):
        self.w, self.dim, self.size, self.cs, self.old, self.ask, self.items, self.filt, self.hole = w, dim, size, cs, old, ask, customs, filt, hole
        W, H, D = size
        self.max = levels(dim, W, H, D)
        self.n = min(max(ask, 1), self.max)
        self.faces = 6 if dim == 'Cube' else 1
        self.name = '%s %dx%dx%d %s, %d levels asked%s%s' % (dim, W, H, D, cs, ask, ', image %s missing' % (hole,) if hole else '', ', replacements ' + ' '.join(
            '%d/%d/%d%s%s' % (k[1], k[2], k[0], 'oc'[r == 'Continue'], '' if v else '!') for k, v, r in customs) if customs else '')

    def dims(self, k):
        W, H, D = self.size
        return max(W >> k, 1), max(H >> k, 1), max(D >> k, 1) if self.dim == 'Dim3D' else max(D, 1)

    def scene(self):
        w = self.w
        s = Scene(w)
        cs, other = w.cs[self.cs], [v for v in w.cs.values() if v != w.cs[self.cs]][0]
        fmt = w.fe['RGBAF']
        W, H, D = self.size
        s.fields(dimension=w.dims[self.dim], colorSpace=cs, width=W, height=H, depth=D, mipLevels=self.old, faces=self.faces, format=w.tf['R8G8B8A8'])
        s.src = [[[NULL if (k, d, f) == self.hole else s.image(('src', k, d, f), fmt, cs, *self.dims(k)[:2]) for f in range(self.faces)] for d in range(self.dims(k)[2])] for k in range(self.old)]
        s.storage(s.mem, ptr(IMPL, w.off['images']), s.src)
        s.block(s.mem, ptr(IMPL, w.off['textures']), self.old, 24)
        s.customs([(k, s.image(('custom', k), fmt if n % 2 else w.fe['RGBA8'], other if n % 3 == 1 else cs, 5 + n, 9) if v else NULL, w.rep[r]) for n, (k, v, r) in enumerate(self.items)])
        s.before = dict(s.mem)
        return s

    def refused(self):
        """the call has to fail, changing nothing"""
        if any(not v for _, v, _ in self.items):
            return True
        if self.hole and self.hole[0] == 0:
            return True
        if self.dim == 'Dim3D':
            have = {(k[1], k[2]): r for k, _, r in self.items if k[0] == 0}
            for k in range(1, self.n):
                x = {have.get((k, d)) for d in range(self.dims(k)[2])}
                if len(x) > 1:
                    return True
        return False

    def want(self, s):
        """[level][layer][face] -> lineage"""
        w = self.w
        filt = w.filters[self.filt]
        cs = w.cs[self.cs]
        out = [[[('src', 0, d, f) for f in range(self.faces)] for d in range(self.dims(0)[2])]]
        custom = {k: s.mem[(T('alloca', 'custom', n), 8)] for n, (k, v, r) in enumerate(self.items)}
        rep = {k: r for k, v, r in self.items}
        def own(k, W, H):
            return s.of(s.recoloured(s.converted(s.resized(custom[k], W, H, filt), w.fe['RGBAF'], False), cs))[0]
        size = self.dims(0)[:2]
        def rs(p, a, b):
            return p if a == b else ('resize', p, b[0], b[1], filt)
        if self.dim == 'Dim3D':
            cur = [x[0] for x in out[0]]
            for k in range(1, self.n):
                W, H, D = self.dims(k)
                gen = tuple(rs(p, size, (W, H)) for p in cur)
                gen = [('slice', gen, W, H, D, cs, filt, d) for d in range(D)]
                if (0, k, 0) in custom:
                    st = [own((0, k, d), W, H) for d in range(D)]
                    cur = gen if rep[(0, k, 0)] == 'Once' else st
                else:
                    cur = st = gen
                out.append([[x] for x in st])
                size = (W, H)
            return out
        cur = [[x for x in y] for y in out[0]]
        for k in range(1, self.n):
            W, H, D = self.dims(k)
            level = [[None] * self.faces for _ in range(D)]
            for d in range(D):
                for f in range(self.faces):
                    gen = rs(cur[d][f], size, (W, H))
                    if (f, k, d) in custom:
                        level[d][f] = own((f, k, d), W, H)
                        cur[d][f] = gen if rep[(f, k, d)] == 'Once' else level[d][f]
                    else:
                        level[d][f] = cur[d][f] = gen
            out.append(level)
            size = (W, H)
        return out

    def judge(self, ctx, f):
        w = self.w
        s = self.scene()
        want = None if self.refused() else self.want(s)
        A = args(f)
        A[0] = THIS
        ty = types(f.dem)
        for k, t in enumerate(ty, 1):
            if k >= len(A):
                break
            A[k] = I(w.filters[self.filt]) if t.endswith('ResizeFilter') else I(self.ask) if t == 'unsigned int' else MAP
        where = f.where()
        try:
            t = s.follow(f, A)
            mem = t.st.mem
            got = s.contents(mem, ptr(IMPL, w.off['images']), 2)
            def cell(n):
                v = mem.get((ptr(IMPL, w.off[n]), 4))
                return v.a[0] if v is not None and v.op == 'int' else None
            kept = s.span(mem, ptr(IMPL, w.off['textures']), 24)[1]
        except Open as e:
            ctx.und('followed', self.name, where, str(e))
            return
        except Wrong as e:
            ctx.bad('followed', self.name, place(f, e.line), str(e))
            return
        rule = 'followed' if want else 'refused'
        if t.ret is None or t.ret.op != 'int':
            ctx.und(rule, self.name, where, 'the answer is not known')
            return
        if bool(t.ret.a[0] & 1) != bool(want):
            ctx.bad(rule, self.name, where, 'generateMipmaps answers %s' % ('true' if t.ret.a[0] & 1 else 'false'))
            return
        if not want:
            bad = [n for n in ('dimension', 'colorSpace', 'width', 'height', 'depth', 'mipLevels', 'faces', 'format') if mem.get((ptr(IMPL, w.off[n]), 4)) is not s.before[(ptr(IMPL, w.off[n]), 4)]]
            ctx.check(not bad and got == s.src and kept == self.old, 'refused', self.name, where, 'a refused call changes %s' % (bad[0] if bad else 'the images'))
            return
        for n, v in (('mipLevels', self.n), ('width', self.size[0]), ('height', self.size[1]), ('depth', self.size[2]), ('faces', self.faces), ('colorSpace', w.cs[self.cs])):
            if cell(n) != v:
                ctx.bad('followed', self.name, where, '%s becomes %s instead of %d' % (n, cell(n), v))
                return
        if cell('format') != w.tf['Unknown'] or kept:
            ctx.bad('followed', self.name, where, 'data encoded for the old shape is kept')
            return
        shape = [[len(y) for y in x] for x in got]
        if shape != [[len(y) for y in x] for x in want]:
            ctx.bad('followed', self.name, where, 'levels, layers and faces are %s instead of %s' % (shape, [[len(y) for y in x] for x in want]))
            return
        names = w
        for k, (gl, wl) in enumerate(zip(got, want)):
            for d, (gd, wd) in enumerate(zip(gl, wl)):
                for fc, (g, e) in enumerate(zip(gd, wd)):
                    at = 'level %d, layer %d, face %d' % (k, d, fc)
                    x = s.of(g) if g is not None and g is not NULL else None
                    if x is None:
                        ctx.bad('followed', self.name, where, '%s has no image' % at)
                        return
                    if canon(x[0]) != canon(e):
                        ctx.bad('followed', self.name, where, '%s is %s instead of %s' % (at, tell(x[0], names), tell(e, names)))
                        return
                    W, H, _ = self.dims(k)
                    if x[1:] != (w.fe['RGBAF'], w.cs[self.cs], W, H):
                        ctx.bad('followed', self.name, where, '%s has (format, colour space, width, height) %s instead of %s' % (at, x[1:], (w.fe['RGBAF'], w.cs[self.cs], W, H)))
                        return
        ctx.ok('followed', self.name, where)


def types(dem):
    """parameter types of a method (without this)"""
    s = dem[dem.index('(') + 1:]
    out, cur, depth = [], '', 0
    for c in s:
        if c in '<(':
            depth += 1
        if c in '>)':
            depth -= 1
            if depth < 0:
                break
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


def place(f, i):
    loc = i.get('loc') if i is not None else None
    try:
        return '%s:%d' % (rel(loc[0][0]), loc[0][1])
    except (TypeError, IndexError, KeyError):
        return f.where()


def rel(p):
    k = p.find('lib/src')
    return p[k:] if k >= 0 else p


def cases(w):
    out = []
    def add(dim, size, ask, items=(), cs='Linear', old=1, filt='Linear', hole=None):
        out.append(Case(w, dim, size, cs, old, ask, list(items), filt, hole))
    shapes = [('Dim1D', (9, 1, 0)), ('Dim1D', (1, 1, 2)), ('Dim2D', (13, 6, 0)), ('Dim2D', (5, 16, 3)), ('Dim2D', (1, 1, 0)), ('Cube', (8, 8, 0)), ('Cube', (4, 4, 2)),
              ('Dim3D', (8, 6, 5)), ('Dim3D', (4, 4, 1)), ('Dim3D', (2, 3, 17)), ('Dim3D', (16, 2, 4)), ('Dim3D', (1, 1, 1))]
    for dim, size in shapes:
        m = levels(dim, *size)
        for ask in sorted({0, 1, 2, m, m + 1, 0xffffffff}):
            for cs in w.cs:
                add(dim, size, ask, cs=cs)
        add(dim, size, 3, old=m)
        add(dim, size, 0xffffffff, old=m)
        for filt in w.filters:
            add(dim, size, m, filt=filt)
        c = Case(w, dim, size, 'Linear', 1, m, [])
        add(dim, size, m, hole=(0, c.dims(0)[2] - 1, c.faces - 1))
        every = lambda k: [(f, k, d) for d in range(c.dims(k)[2]) for f in range(c.faces)]
        if m > 1:
            # all places of a level or of several
            for ks in itertools.chain([(k,) for k in range(1, m)], itertools.combinations(range(1, m), 2), [tuple(range(1, m))] if m > 3 else []):
                for rs in itertools.product(('Once', 'Continue'), repeat=min(len(ks), 2)):
                    add(dim, size, m, [(p, True, rs[n % len(rs)]) for n, k in enumerate(ks) for p in every(k)], cs='sRGB' if len(ks) == 1 else 'Linear')
            # a single place
            for r in ('Once', 'Continue'):
                add(dim, size, m, [(every(1)[-1], True, r)])
                add(dim, size, m, [(every(m - 1)[0], True, r)], cs='sRGB')
                add(dim, size, m, [(every(1)[0], True, r)])
            add(dim, size, m, [(every(1)[-1], False, 'Once')])
            add(dim, size, m, [(p, p != every(m - 1)[0], 'Once') for p in every(m - 1)])
            add(dim, size, m, [((0, m, 0), False, 'Continue')])
            add(dim, size, m, [(p, p != every(1)[0], 'Once') for p in every(1)])
            add(dim, size, m - 1, [(p, True, 'Continue') for p in every(m - 1)])
            if len(every(1)) > 1:
                add(dim, size, m, [(p, True, 'Continue' if n % 2 else 'Once') for n, p in enumerate(every(1))])
                add(dim, size, m, [(p, True, 'Continue' if n == len(every(1)) - 1 else 'Once') for n, p in enumerate(every(1))])
                add(dim, size, m, [(p, True, 'Once') for p in every(1)[1:]])
                add(dim, size, m, [(p, True, 'Continue') for p in every(1)[:-1]])
        # replacements that have no place in the chain
        add(dim, size, m, [((0, m, 0), True, 'Once'), ((0, 0, 0), True, 'Continue'), ((c.faces % 6 + (1 if c.faces == 6 else 0), 1, 0), True, 'Once')] if c.faces == 1 else
            [((0, m, 0), True, 'Once'), ((0, 0, 0), True, 'Continue')])
        add(dim, size, m, [((0, 1, c.dims(1)[2]), True, 'Continue')])
    return out


def mips(ctx):
    ctx.rule('followed', 'by constant propagation along the path of generateMipmaps for fixed shapes and sets of replacements, the shape left behind and the lineage of the image in every level, layer and face')
    ctx.rule('refused', 'replacements without image, missing base images and partly or differently replaced slices of a volume are refused, changing nothing')
    w = World(ctx)
    ctx.rule('initial', 'by constant propagation, initialize and the constructor of the same arguments leave exactly the storage of the shape asked for, empty, or nothing for a size of 0')
    initial(ctx, w)
    ctx.rule('key', 'two indices of replacements are the same exactly when level, layer and face are, and indices that are the same hash alike')
    key(ctx)
    f = w.m.find('cuttlefish::Texture::generateMipmaps(')
    ctx.fn(f)
    cs = cases(w)
    ctx.parallel([lambda k=k: [c.judge(ctx, f) for c in cs[k::8]] for k in range(8)])
    ctx.floor('followed', 20)
    ctx.floor('refused', 5)
    ctx.floor('initial', 40)


def initial(ctx, w):
    sizes = [('Dim1D', (9, 1, 0)), ('Dim1D', (7, 1, 2)), ('Dim2D', (13, 6, 0)), ('Dim2D', (5, 16, 3)), ('Dim2D', (1, 1, 1)), ('Cube', (8, 8, 0)), ('Cube', (4, 4, 2)),
             ('Dim3D', (8, 6, 5)), ('Dim3D', (2, 3, 17)), ('Dim2D', (0, 4, 1)), ('Dim2D', (4, 0, 1)), ('Dim3D', (4, 4, 0)), ('Cube', (0, 0, 1)), ('Dim1D', (0, 1, 0))]
    for name in ('initialize(', 'Texture('):
        for f in w.m.find('cuttlefish::Texture::' + name, one=False):
            ty = types(f.dem)
            if f.decl or len(ty) != 6:
                continue
            ctx.fn(f)
            for dim, size in sizes:
                for ask in (0, 1, 2, 0xffffffff):
                    for cs in w.cs:
                        begin(ctx, w, f, name[:-1], ty, dim, size, ask, cs)


def begin(ctx, w, f, name, ty, dim, size, ask, cs):
    W, H, D = size
    tag = '%s %s %dx%dx%d %s, %d levels' % (name, dim, W, H, D, cs, ask)
    s = Scene(w)
    if name == 'initialize':
        s.fields(dimension=w.dims['Dim2D'], colorSpace=1 - w.cs[cs], width=3, height=2, depth=0, mipLevels=2, faces=1, format=w.tf['R8G8B8A8'])
        s.storage(s.mem, ptr(IMPL, w.off['images']), [[[s.image(('src', 0, 0, 0), w.fe['RGBAF'], 0, 3, 2)]], [[NULL]]])
        s.block(s.mem, ptr(IMPL, w.off['textures']), 1, 24)
    else:
        s.mem[(THIS, 8)] = NULL
    A = args(f)
    A[0] = THIS
    vals = [w.dims[dim], W, H, D, ask, w.cs[cs]]
    kinds = ['Dimension', 'unsigned int', 'unsigned int', 'unsigned int', 'unsigned int', 'ColorSpace']
    if not all(t.endswith(k) for t, k in zip(ty, kinds)):
        return
    A[1:] = [I(v) for v in vals]
    fail = not W or not H or dim == 'Dim3D' and not D
    try:
        t = s.follow(f, A)
        mem = t.st.mem
        impl = mem.get((THIS, 8))
        if impl is None or impl is not NULL and impl.op != 'alloca':
            raise Open('what the texture holds is not known')
        if impl is NULL or impl is IMPL:
            got = None
        else:
            got = s.contents(mem, ptr(impl, w.off['images']), 2)
            kept = s.span(mem, ptr(impl, w.off['textures']), 24)[1]
    except Open as e:
        ctx.und('initial', tag, f.where(), str(e))
        return
    except Wrong as e:
        ctx.bad('initial', tag, place(f, e.line), str(e))
        return
    if t.ret is not None and t.ret.op == 'int' and bool(t.ret.a[0] & 1) == fail and name == 'initialize':
        ctx.bad('initial', tag, f.where(), 'initialize answers %s' % ('true' if fail else 'false'))
        return
    if fail:
        ctx.check(impl is NULL, 'initial', tag, f.where(), 'a texture without pixels is made')
        return
    if got is None:
        ctx.check(None if impl is IMPL else False, 'initial', tag, f.where(), 'no texture is made')
        return
    n = min(max(ask, 1), levels(dim, *size))
    for k, v in (('dimension', w.dims[dim]), ('colorSpace', w.cs[cs]), ('width', W), ('height', H), ('depth', D), ('mipLevels', n), ('faces', 6 if dim == 'Cube' else 1), ('format', w.tf['Unknown'])):
        x = mem.get((ptr(impl, w.off[k]), 4))
        if x is None or x.op != 'int':
            wide = any(c[0].op in ('ptr', 'alloca') and split_ptr(c[0])[0] is impl and split_ptr(c[0])[1] < w.off[k] + 4 and w.off[k] < split_ptr(c[0])[1] + (c[1] or BIG) for c in mem)
            copied = any(e.i.op in ('call', 'invoke') and (e.name or '').startswith('llvm.mem') and e.args and split_ptr(e.args[0])[0] is impl for e in t.events)
            ctx.check(False if x is None and not wide and not copied else None, 'initial', tag, f.where(), '%s is %s instead of %d' % (k, 'never set' if x is None else show(x), v))
            return
        if x.a[0] != v:
            ctx.bad('initial', tag, f.where(), '%s is %s instead of %d' % (k, 'never set' if x is None else show(x), v))
            return
    want = [[[NULL] * (6 if dim == 'Cube' else 1) for _ in range(max(D >> k, 1) if dim == 'Dim3D' else max(D, 1))] for k in range(n)]
    ctx.check(got == want and not kept, 'initial', tag, f.where(), 'levels, layers and faces are %s instead of %s' % ([[len(y) for y in x] for x in got], [[len(y) for y in x] for x in want]))


def key(ctx):
    m = ctx.load(TEX, keep=['ImageIndex(Hash)?::'], limit=4000)
    off = m.offsets('cuttlefish::Texture::ImageIndex')
    fields = [off[n] for n in ('cubeFace', 'mipLevel', 'depth')]
    vals = [(0, 1, 0), (3, 1, 0), (0, 2, 0), (0, 1, 1), (5, 11, 7), (5, 7, 11), (1, 0, 0), (0, 0, 1), (0, 1, 3), (3, 1, 3)]
    P, Q = T('alloca', 'key', 0), T('alloca', 'key', 1)
    def run(f, ks):
        mem = {}
        for p, k in zip((P, Q), ks):
            for o, v in zip(fields, k):
                mem[(ptr(p, o), 4)] = I(v)
        A = args(f)
        A[-len(ks):] = [P, Q][:len(ks)]
        a = Walk(f, A, pure=CONST, mem=mem)
        r = a.traces[0].ret if a.complete and len(a.traces) == 1 else None
        return r.a[0] if r is not None and r.op == 'int' else None
    for name, same in (('==', 1), ('!=', 0)):
        for f in m.find('cuttlefish::Texture::ImageIndex::operator' + name + '(', one=False):
            if f.decl or len(f.args) != 2:
                continue
            ctx.fn(f)
            for x in vals:
                for y in vals:
                    r = run(f, (x, y))
                    want = same if x == y else 1 - same
                    ctx.check(None if r is None else r & 1 == want, 'key', '%s %s %s' % (x, name, y), f.where(), '(face, level, layer) %s %s %s is %s' % (x, name, y, bool(r)))
    for f in m.find('cuttlefish::Texture::ImageIndexHash::operator()(', one=False):
        if f.decl or len(f.args) != 2:
            continue
        ctx.fn(f)
        a = Analysis(f, args(f), pure=CONST)
        rs = [r for r, _ in a.rets()]
        ok = rs and all(x.op != 'load' or split_ptr(x.a[0])[0] is T('arg', 1, '$1') and x.a[1] == 0 for r in rs for x in walk(r) if hasattr(x, 'op'))
        pure = ok and not any(x.op in ('call', 'phi', 'iv', 'alloca', 'undef') or x.op == 'arg' and x.a[0] != 1 for r in rs for x in walk(r) if hasattr(x, 'op'))
        ctx.check(True if pure else None, 'key', 'hash', f.where(), 'the hash depends on more than the index')
