"""U02, U03: what the command line tool does with the settings that were parsed - operations, their order, and the exit status."""
import itertools, random
from .util import *
from sa.ir import AnalysisError, strip_ret
from sa.walk import Walk
from .tool import Line, Defaults, MAIN, Q, QI, word, isword, VEC, STR, MAP, ENUMS, EMPTY, text

KEEPRUN = [r'^std::endl', r'operator<<', r'^[^(]*std::.*basic_ostream', r'^std::vector<', r'^[^(]*[^,] std::vector<', r'^std::unordered_map<', r'^[^(]*[^,] std::unordered_map<',
           r'^std::__cxx11::basic_string<', r'^[^(]*[^,] std::__cxx11::basic_string<',
           r'^cuttlefish::Image::', r'^cuttlefish::Texture::CustomMipImage::', r'^cuttlefish::Texture::[~a-zA-Z=]+\(', r'^CommandLine::(parse|CommandLine|~CommandLine)']
TRACE = T('alloca', 'trace', 0)
IMG = 'cuttlefish::Image::'
PIXELWISE = ('convert', 'space', 'grayscale', 'swizzle', 'premultiply', 'adjust')
GEOMETRIC = ('flipx', 'flipy', 'rotate')


def load(ctx, peel=20):
    return ctx.load(MAIN, keep=KEEPRUN, limit=6000, base_keep=False, **({'peel': (peel, '^main$')} if peel else {}))


def img(op, prev, *a):
    return T('img', op, prev, *a)


class Run(Line):
    """main() propagated over one set of settings: files {name: (width, height, format)}, the settings `over` the
    defaults, the results of the fallible calls in `fate`"""

    def __init__(self, m, d, names, files, over, mips=(), fate=None):
        self.m, self.d = m, d
        fate = fate or {}
        f = m.find('main')
        self.f = f
        self.words = list(names) + [x[5] for x in mips] + [over.get('output', 'out.dds')]
        outk = len(self.words) - 1
        self.files = files
        self.over_, self.nulls = [], []
        fmts = m.enums.get(QI + 'Format') or {}
        self.rgbaf = fmts.get('RGBAF')
        self.rgbf = fmts.get('RGBF')

        def setup(me, mem):
            self.me = me
            for (o, s), v in d.cells.items():
                mem[(ptr(me, o), s)] = v
            for n, v in over.items():
                if n == 'output':
                    continue
                o, s = d.off[n]
                mem[(ptr(me, o), s)] = v if hasattr(v, 'op') else F(v, 'double') if isinstance(v, float) else I(v, 8 * s)
            mem[(ptr(me, d.off['output'][0]), 8)] = word(outk)
            cm = d.off['colorMask'][0]
            mem[(ptr(me, cm), 4)] = I(sum((mem[(ptr(me, cm + k), 1)].a[0] & 255) << 8 * k for k in range(4)))
            self.imgs = ptr(me, d.off['images'][0])
            self.mips = ptr(me, d.off['customMipImages'][0])
            mem[self.count(self.imgs)] = I(len(names), 64)
            for k in range(len(names)):
                mem[(ptr(self.elems(self.imgs), 32 * k), 8)] = word(k)
            mem[self.count(self.mips)] = I(len(mips), 64)
            for k, (face, level, depth, repl, _, _) in enumerate(mips):
                b = self.node(mem, self.mips, k, [(0, I(face)), (4, I(level)), (8, I(depth))], k)
                mem[(ptr(b, 24), 8)] = word(len(names) + k)
                mem[(ptr(b, 56), 4)] = I(repl)

        def rec(st, *a):
            st.mem[(TRACE, 8)] = T('rec', st.mem.get((TRACE, 8), NULL), *a)

        def image(st, p):
            return st.mem.get((p, 8))

        def calls(st, what):
            """how many of these calls came before, None when that is not determined"""
            t = st.mem.get((TRACE, 8), NULL)
            n = 0
            while t.op == 'rec':
                n += t.a[1] == what
                t = t.a[0]
            return n if t is NULL else None

        def bind(an, i, dem, a, st):
            full = dem
            dem = strip_ret(dem)
            n = short(dem)
            c = cname(dem)
            if c == 'CommandLine::parse':
                setup(a[0], st.mem)
                return I(fate.get('parse', 1), 1)
            if c == 'mkdir':
                p = self.path(an, a[0], st)
                k = calls(st, 'mkdir')
                rec(st, 'mkdir', p)
                r, e = fate.get('mkdir', {}).get(k, (0, 0))
                if e:
                    st.mem[(T('alloca', 'errno', 0), 4)] = I(e)
                return I(r)
            if dem == '__errno_location':
                return T('alloca', 'errno', 0)
            if c.startswith(IMG):
                return self.image_call(an, i, n, dem, a, st, rec, fate, image)
            if c.startswith(Q + 'CustomMipImage::'):
                me, sig = a[0], dem[len(c):]
                if n.startswith('~'):
                    return None
                src = a[1] if len(a) > 1 else None
                v = image(st, src) if src is not None else None
                st.mem[(me, 8)] = v if v is not None else UNDEF
                if '(cuttlefish::Texture::CustomMipImage' in sig:
                    st.mem[(ptr(me, 8), 4)] = an.load(ptr(src, 8), 4, 'i32', st, i)
                elif len(a) > 2:
                    st.mem[(ptr(me, 8), 4)] = a[2]
                if '&&' in sig and src is not None:
                    st.mem[(src, 8)] = NULL
                return me if n == 'operator=' else None
            if c.startswith(Q):
                return self.texture_call(an, i, n, dem, a, st, rec, fate, image, calls)
            if VEC.match(dem):
                if 'vector<cuttlefish::Image,' in dem[:60] or 'vector<cuttlefish::Image>' in dem[:60]:
                    return self.image_vector(an, i, n, dem, a, st)
                return self.vector(an, i, n, dem, a, st)
            if STR.match(dem):
                return self.path_string(an, i, n, dem, a, st)
            if MAP.match(dem):
                return self.texture_map(an, i, n, dem, a, st)

        def onload(an, p, ty, st, t):
            b, o, v = split_ptr(p)
            if isword(b) and ty == 'i8' and not v:
                w = self.words[b.a[1] - 100]
                if 0 <= o <= len(w):
                    return I(ord(w[o]) if o < len(w) else 0, 8)

        A = args(f)
        self.a = self.engine(f, A, pure=CONST, keeps=lambda n: True, bind=bind, onload=onload, mem={})

    # -- models
    def size(self, t):
        """width, height and format of an image, or None"""
        if t is None or t.op != 'img':
            return None
        op = t.a[0]
        if op == 'load':
            return self.files.get(t.a[2])
        s = self.size(t.a[1])
        if s is None:
            return None
        if op == 'convert':
            return s[:2] + (t.a[2],)
        if op == 'resize':
            return (t.a[2], t.a[3], s[2])
        if op == 'rotate':
            q = {v: k for k, v in (self.m.enums.get(QI + 'RotateAngle') or {}).items()}.get(t.a[2])
            return None if q is None else s if q.endswith('180') else (s[1], s[0], s[2])
        if op == 'normal':
            return s[:2] + (t.a[4],)
        return s

    def space(self, t):
        while t is not None and t.op == 'img':
            if t.a[0] == 'load':
                return t.a[3]
            if t.a[0] == 'space':
                return t.a[2]
            t = t.a[1]
        return None

    def image_call(self, an, i, n, dem, a, st, rec, fate, image):
        sig = dem[len(cname(dem)):]
        if n == '~Image':
            return None
        ival = lambda x: x.a[0] if x is not None and x.op in ('int', 'f') else None

        def unknown(p):
            st.mem[(p, 8)] = UNDEF
        if n in ('Image', 'operator='):
            me = a[0]
            if sig.startswith('()'):
                st.mem[(me, 8)] = NULL
            elif sig.startswith('(cuttlefish::Image'):
                v = image(st, a[1])
                st.mem[(me, 8)] = v if v is not None else UNDEF
                if '&&' in sig and me is not a[1]:
                    st.mem[(a[1], 8)] = NULL
            elif sig.startswith('(char const*, cuttlefish::ColorSpace') and n == 'Image':
                x = self.name(an, a[1], st)
                ok = fate.get('load', {}).get(x, 1)
                st.mem[(me, 8)] = img('load', NULL, x, ival(a[2])) if x is not None and ival(a[2]) is not None and ok else NULL if not ok else UNDEF
            else:
                unknown(me)
            return me if n == 'operator=' else None
        if n == 'load':
            me = a[0]
            x = self.name(an, a[1], st) if sig.startswith('(char const*') else None
            if x is None or ival(a[2]) is None:
                unknown(me)
                return None
            ok = fate.get('load', {}).get(x, 1)
            st.mem[(me, 8)] = img('load', NULL, x, ival(a[2])) if ok else NULL
            return I(ok, 1)
        byval = n in ('convert', 'resize', 'rotate', 'createNormalMap')
        me = a[1] if byval else a[0]
        t = image(st, me)
        if n in ('width', 'height', 'format', 'colorSpace', 'isValid', 'operator bool'):
            if t is NULL:
                return I(0, 1) if n in ('isValid', 'operator bool') else I(0) if n in ('width', 'height') else None
            s = self.size(t)
            if s is None:
                return None
            if n == 'colorSpace':
                cs = self.space(t)
                return None if cs is None else I(cs)
            if n in ('isValid', 'operator bool'):
                return I(1, 1)
            return I(s[{'width': 0, 'height': 1, 'format': 2}[n]])
        x = [ival(y) for y in a[2 if byval else 1:]]
        op = {'convert': 'convert', 'resize': 'resize', 'rotate': 'rotate', 'createNormalMap': 'normal', 'changeColorSpace': 'space', 'grayscale': 'grayscale', 'flipHorizontal': 'flipx',
              'flipVertical': 'flipy', 'swizzle': 'swizzle', 'preMultiplyAlpha': 'premultiply'}.get(n)
        if n == 'reset':
            st.mem[(me, 8)] = NULL
            return None
        if op is None or t is None or t is UNDEF or None in x:
            unknown(a[0])
            return None
        r = NULL if t is NULL else img(op, t, *(x[:1] if op == 'convert' else x))
        st.mem[(a[0], 8)] = r
        return None if byval else I(int(t is not NULL), 1)

    def texture_call(self, an, i, n, dem, a, st, rec, fate, image, calls):
        sig = dem[len(cname(dem)):]
        ival = lambda x: x.a[0] if x is not None and x.op in ('int', 'f') else None
        if n == '~Texture':
            return None
        if n == 'adjustImageValueRange':
            t = image(st, a[0])
            x = [ival(y) for y in a[1:]]
            if t is None or t.op != 'img' or None in x:
                st.mem[(a[0], 8)] = UNDEF
            else:
                st.mem[(a[0], 8)] = img('adjust', t, *x)
            return None
        if n == 'maxMipmapLevels' and all(ival(x) is not None for x in a):
            dim, w, h, dd = [ival(x) for x in a]
            big = max(w, h, dd if dim == (self.m.enums.get(Q + 'Dimension') or {}).get('Dim3D') else 1)
            return I(big.bit_length())
        if n in ('Texture', 'initialize') and sig.startswith('(cuttlefish::Texture::Dimension'):
            rec(st, 'texture', *[ival(x) for x in a[1:]])
            return I(1, 1) if n == 'initialize' else None
        if n == 'Texture' and sig.startswith('()'):
            return None
        if n == 'setImage':
            face = '(cuttlefish::Image const&, cuttlefish::Texture::CubeFace' in sig or '(cuttlefish::Image&&, cuttlefish::Texture::CubeFace' in sig
            t = image(st, a[1])
            x = [ival(y) for y in a[2:]]
            rec(st, 'set', t if t is not None else UNDEF, *(x if face else [0] + x))
            if '&&' in sig:
                st.mem[(a[1], 8)] = NULL
            return I(1, 1)
        if n == 'generateMipmaps':
            mp = a[3]
            c = st.mem.get(self.count(mp))
            content = None
            if c is not None and c.op == 'int':
                content = ()
                for k in range(c.a[0]):
                    b = T('alloca', 'node', (mp, k))
                    key = tuple(ival(st.mem.get((ptr(b, 8 + o), 4))) for o in (0, 4, 8))
                    content += (key + (st.mem.get((ptr(b, 24), 8), UNDEF), ival(st.mem.get((ptr(b, 32), 4)))),)
            rec(st, 'mipmaps', ival(a[1]), ival(a[2]), content)
            return I(fate.get('generateMipmaps', 1), 1)
        if n == 'convert':
            rec(st, 'convert', *[ival(x) for x in a[1:]])
            return I(fate.get('convert', 1), 1)
        if n == 'save':
            k = calls(st, 'save')
            x = self.name(an, a[1], st) if sig.startswith('(char const*') else None
            rec(st, 'save', x, ival(a[2]) if len(a) > 2 else None)
            r = fate.get('save', [])
            ok = (self.m.enums.get(Q + 'SaveResult') or {}).get('Success')
            return None if k is None or ok is None else I(r[k] if k < len(r) else ok)
        if n in ('isFormatValid', 'hasNativeSRGB'):
            return I(1, 1)
        rec(st, 'other', n)
        return None

    def image_vector(self, an, i, n, dem, a, st):
        obj = a[0]
        ck = self.count(obj)
        if n == 'vector' and len(a) == 1:
            st.mem[ck] = I(0, 64)
            return None
        if n == 'vector' and '(unsigned long' in dem and a[1].op == 'int':
            st.mem[ck] = I(0, 64)
            n, a = 'resize', a[:2]
        c = st.mem.get(ck)
        if c is None or c.op != 'int':
            return None
        k, el = c.a[0], self.elems(obj)
        if n == 'size':
            return I(k, 64)
        if n == 'empty':
            return I(int(k == 0), 1)
        if n in ('operator[]', 'at') and a[1].op == 'int':
            return ptr(el, 8 * a[1].a[0]) if a[1].a[0] < k else None
        if n in ('begin', 'cbegin', 'data', 'front'):
            return el
        if n in ('end', 'cend'):
            return ptr(el, 8 * k)
        if n == 'back' and k:
            return ptr(el, 8 * (k - 1))
        if n == 'resize' and a[1].op == 'int' and len(a) == 2 and a[1].a[0] <= 100000:
            for j in range(k, a[1].a[0]):
                st.mem[(ptr(el, 8 * j), 8)] = NULL
            st.mem[ck] = a[1]
            return None
        if n in ('push_back', 'emplace_back'):
            v = NULL if len(a) == 1 else st.mem.get((a[1], 8), UNDEF)
            st.mem[(ptr(el, 8 * k), 8)] = v
            if len(a) > 1 and 'const&' not in dem:
                st.mem[(a[1], 8)] = NULL
            st.mem[ck] = I(k + 1, 64)
            return ptr(el, 8 * k)
        if n == 'clear':
            st.mem[ck] = I(0, 64)
            return None
        if n in ('reserve', '~vector', 'capacity'):
            return None
        st.mem.pop(ck, None)
        return None

    def texture_map(self, an, i, n, dem, a, st):
        if 'CommandLine::CustomMipImage' in dem[:200]:
            return self.map(an, i, n, dem, a, st)
        obj = a[0]
        ck = self.count(obj)
        sig = dem[len(cname(dem)):]

        def put(key, v, r):
            k = st.mem[ck].a[0]
            for j in range(k):
                b = T('alloca', 'node', (obj, j))
                if all(st.mem.get((ptr(b, 8 + 4 * q), 4)) is key[q] for q in range(3)):
                    return b, 0
            b = self.node(st.mem, obj, k, [(4 * q, key[q]) for q in range(3)], k)
            st.mem[(ptr(b, 24), 8)] = v
            st.mem[(ptr(b, 32), 4)] = r
            st.mem[ck] = I(k + 1, 64)
            return b, 1
        if n == 'unordered_map':
            st.mem[ck] = I(0, 64)
            if '(std::unordered_map' in sig:
                o = a[1]
                c = st.mem.get(self.count(o))
                if c is None or c.op != 'int':
                    st.mem.pop(ck, None)
                    return None
                for j in range(c.a[0]):
                    b = T('alloca', 'node', (o, j))
                    put([st.mem.get((ptr(b, 8 + 4 * q), 4), UNDEF) for q in range(3)], st.mem.get((ptr(b, 24), 8), UNDEF), st.mem.get((ptr(b, 32), 4), UNDEF))
                if '&&' in sig.split(')')[0]:
                    st.mem[self.count(o)] = I(0, 64)
            elif not sig.startswith('()'):
                st.mem.pop(ck, None)
            return None
        c = st.mem.get(ck)
        if c is None or c.op != 'int':
            return None
        k = c.a[0]
        if n == 'empty':
            return I(int(k == 0), 1)
        if n == 'size':
            return I(k, 64)
        if n in ('begin', 'cbegin'):
            return T('alloca', 'node', (obj, 0)) if k else NULL
        if n in ('end', 'cend'):
            return NULL
        if n == 'clear':
            st.mem[ck] = I(0, 64)
            return None
        if n == 'emplace' and len(a) == 3:
            key = [an.load(ptr(a[1], 4 * q), 4, 'i32', st, i) for q in range(3)]
            if all(x.op == 'int' for x in key):
                b, new = put(key, st.mem.get((a[2], 8), UNDEF), an.load(ptr(a[2], 8), 4, 'i32', st, i))
                if new:
                    st.mem[(a[2], 8)] = NULL
                return T('vec', b, I(new, 8))
        if n in ('insert',) and len(a) == 2:
            key = [an.load(ptr(a[1], 4 * q), 4, 'i32', st, i) for q in range(3)]
            if all(x.op == 'int' for x in key):
                b, new = put(key, st.mem.get((ptr(a[1], 16), 8), UNDEF), an.load(ptr(a[1], 24), 4, 'i32', st, i))
                return T('vec', b, I(new, 8))
        if n in ('~unordered_map', 'reserve'):
            return None
        st.mem.pop(ck, None)
        return None

    def name(self, an, p, st):
        b, o, v = split_ptr(p)
        return text(an, p, self.words)

    # the string createParentDir() works on: a copy whose characters may be overwritten
    def path(self, an, p, st):
        """the C string at p, with the characters that were overwritten"""
        b, o, v = split_ptr(p)
        t = text(an, p, self.words)
        if t is None:
            return None
        out = ''
        for k in range(len(t)):
            w = st.mem.get((ptr(b, o + k), 1))
            if w is not None and w.op != 'int':
                return None
            if w is not None and w.a[0] & 255 == 0:
                break
            out += t[k] if w is None else chr(w.a[0] & 255)
        return out

    def path_string(self, an, i, n, dem, a, st):
        me = a[0] if a else None
        sig = dem[len(cname(dem)):]
        cur = st.mem.get((me, 8)) if me is not None else None
        t = None if cur is None else text(an, cur, self.words)
        if n in ('find_first_of', 'find', 'find_last_of', 'rfind') and t is not None and len(a) >= 3:
            pos = a[2].a[0] if a[2].op == 'int' else None
            if sig.startswith('(char const*'):
                x = text(an, a[1], self.words)
            elif sig.startswith('(char'):
                x = chr(a[1].a[0] & 255) if a[1].op == 'int' else None
            else:
                x = None
            if pos is None or x is None or not n.startswith('find') or n == 'find_last_of':
                return None
            if n == 'find' and len(x) != 1:
                k = t.find(x, pos)
            else:
                k = min([j for j in range(pos, len(t)) if t[j] in x] or [-1])
            return I(k if k >= 0 else 2**64 - 1, 64)
        return self.string(an, i, n, dem, a, st)

    # -- results
    def trace(self):
        mem = self.final()
        t = mem and mem.get((TRACE, 8), NULL)
        out = []
        while t is not None and t.op == 'rec':
            out.append(t.a[1:])
            t = t.a[0]
        return None if t is not NULL else out[::-1]


# ---------------------------------------------------------------- what is expected

def po2(n):
    return 1 << max(n - 1, 0).bit_length()


def near(n):
    hi = po2(n)
    lo = hi >> 1
    return hi if lo == 0 or hi - n < n - lo else lo


SIZED = {'NextPO2': lambda c, w, h: po2(c), 'NearestPO2': lambda c, w, h: near(c), 'Width': lambda c, w, h: w, 'WidthNextPO2': lambda c, w, h: po2(w),
         'WidthNearestPO2': lambda c, w, h: near(w), 'Height': lambda c, w, h: h, 'HeightNextPO2': lambda c, w, h: po2(h), 'HeightNearestPO2': lambda c, w, h: near(h),
         'Min': lambda c, w, h: min(w, h), 'MinNextPO2': lambda c, w, h: po2(min(w, h)), 'MinNearestPO2': lambda c, w, h: near(min(w, h)), 'Max': lambda c, w, h: max(w, h),
         'MaxNextPO2': lambda c, w, h: po2(max(w, h)), 'MaxNearestPO2': lambda c, w, h: near(max(w, h)), 'OriginalSize': lambda c, w, h: c}


class Followed(Run):
    """main() followed along its one path, however many iterations its loops take"""

    def engine(self, *a, **k):
        return Walk(*a, steps=200000, alts=4, **k)

    def result(self):
        return super().result() if self.alone() else None

    def trace(self):
        return super().trace() if self.alone() else None

    def alone(self):
        return self.a.complete and len(self.a.traces) == 1


class Tool:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = load(ctx)
        self.loops = load(ctx, 0)
        self.d = Defaults(ctx)
        f = self.m.find('main')
        ctx.fn(f)
        self.where = f.where()
        self.jobs = []
        self.E = {}
        for q, full in (('fmt', QI + 'Format'), ('angle', QI + 'RotateAngle'), ('filter', QI + 'ResizeFilter'), ('chan', QI + 'Channel'), ('opt', QI + 'NormalOptions'),
                        ('cs', 'cuttlefish::ColorSpace'), ('dim', Q + 'Dimension'), ('type', Q + 'Type'), ('alpha', Q + 'Alpha'), ('quality', Q + 'Quality'), ('file', Q + 'FileType'),
                        ('face', Q + 'CubeFace'), ('repl', Q + 'MipReplacement'), ('save', Q + 'SaveResult'), ('kind', 'CommandLine::ImageType'), ('size', 'CommandLine::Size'),
                        ('log', 'CommandLine::Log'), ('format', Q + 'Format')):
            self.E[q] = self.m.enums.get(full) or self.d.m.enums.get(full) or {}

    def e(self, q, n):
        if n not in self.E[q]:
            raise AnalysisError('there is no %s %s' % (q, n))
        return self.E[q][n]

    def default(self, n):
        v = self.d.cells.get(self.d.off[n])
        return v.a[0] if v is not None and v.op in ('int', 'f') else None

    def get(self, s, n):
        v = s[n] if n in s else self.default(n)
        if isinstance(v, int) and n in ('width', 'height', 'mipLevels', 'jobs'):
            v = v % 2**32
        return v

    # -- the images
    def target(self, s, files, names):
        w, h, _ = files[names[0]]
        out = []
        for n, c in (('width', w), ('height', h)):
            v = self.get(s, n)
            kw = [k for k, x in self.E['size'].items() if x % 2**32 == v]
            out.append(SIZED[kw[0]](c, w, h) if kw and kw[0] in SIZED else v)
        return out

    def chain(self, s, files, names, name, level=0):
        g = lambda n: self.get(s, n)
        W, H = self.target(s, files, names)
        t = [max(W >> level, 1), max(H >> level, 1)]
        n = [W, H] if g('normalMap') else list(t)
        orig = files[name][2]
        ops = [('load', name, g('imageColorSpace')), ('convert', self.e('fmt', 'RGBAF')), ('space', g('textureColorSpace')), ('resize', n[0], n[1], g('resizeFilter'))]
        if g('rotate'):
            ops.append(('rotate', g('rotateAngle')))
            if self.quarter(g('rotateAngle')):
                t.reverse(); n.reverse()
        if g('grayscale'):
            ops.append(('grayscale',))
        if g('normalMap'):
            o = g('normalOptions') | (self.e('opt', 'KeepSign') if g('type') in [self.e('type', x) for x in ('SNorm', 'Int', 'Float')] else 0)
            orig = self.e('fmt', 'RGBF')
            ops += [('normal', o, g('normalHeight'), orig), ('resize', t[0], t[1], g('resizeFilter'))]
        for x, op in (('flipX', 'flipx'), ('flipY', 'flipy')):
            if g(x):
                ops.append((op,))
        if g('swizzle'):
            ops.append(('swizzle',) + tuple(g(x) for x in ('redSwzl', 'greenSwzl', 'blueSwzl', 'alphaSwzl')))
        if g('preMultiply'):
            ops.append(('premultiply',))
        return ops + [('adjust', g('type'), orig)]

    def quarter(self, v):
        return v in [x for n, x in self.E['angle'].items() if not n.endswith('180')]

    def canon(self, ops, files):
        """operations that change nothing dropped; those that commute in one order"""
        out, seg = [], ([], [])
        w, h, f = files[ops[0][1]]
        cs = ops[0][2]

        def close():
            geo = seg[1]
            k = 0
            while k + 1 < len(geo):        # flips of different axes commute
                if geo[k] == ('flipy',) and geo[k + 1] == ('flipx',):
                    geo[k], geo[k + 1] = geo[k + 1], geo[k]
                    k = max(k - 1, 0)
                else:
                    k += 1
            out.extend(seg[0] + geo)
            seg[0].clear(); seg[1].clear()
        for o in ops[1:]:
            if o[0] == 'convert':
                if o[1] == f:
                    continue
                f = o[1]
            elif o[0] == 'space':
                if o[1] == cs:
                    continue
                cs = o[1]
            elif o[0] == 'resize':
                if o[1:3] == (w, h):
                    continue
                w, h = o[1:3]
            elif o[0] == 'rotate':
                if self.quarter(o[1]):
                    w, h = h, w
            elif o[0] == 'normal':
                f = o[3]
            if o[0] in PIXELWISE:
                seg[0].append(o)
            elif o[0] in GEOMETRIC:
                seg[1].append(o)
            else:
                close()
                out.append(o)
        close()
        return [ops[0]] + out, (w, h)

    def ops(self, t):
        """the operations an image went through, or None"""
        out = []
        while t is not None and t.op == 'img':
            if t.a[0] == 'load':
                return [('load',) + tuple(t.a[2:])] + out[::-1]
            out.append((t.a[0],) + tuple(t.a[2:]))
            t = t.a[1]
        return None

    def spell(self, ops):
        q = {'convert': ['fmt'], 'space': ['cs'], 'resize': [None, None, 'filter'], 'rotate': ['angle'], 'normal': [None, None, 'fmt'], 'swizzle': ['chan'] * 4, 'adjust': ['type', 'fmt']}
        inv = lambda k, v: ({x: n for n, x in self.E[k].items()}.get(v, v) if k else v)
        return ' > '.join(o[0] + ('(%s)' % ', '.join(str(inv(k, v)) for k, v in zip(q[o[0]], o[1:])) if o[0] in q else '') for o in ops[1:] or [('load',)])

    def run(self, s, names, files, mips=(), fate=None):
        if len(names) <= 18:
            r = Run(self.m, self.d, names, files, s, mips, fate)
            if r.result() is not None and r.trace() is not None:
                return r
        return Followed(self.loops, self.d, names, files, s, mips, fate)

    # -- U02
    def compare(self, rule, key, s, names, files, mips=()):
        ctx = self.ctx
        r = self.run(s, names, files, mips)
        tr = r.trace()
        res = r.result()
        if tr is None or res is None:
            return ctx.und(rule, key, self.where, 'the operations are not evaluated')
        bad, und = self.judge(s, names, files, mips, tr)
        if bad is None and und is None and res != 0:
            bad = 'the exit status is %d' % res
        ctx.check(False if bad else None if und else True, rule, key, self.where, bad or 'not evaluated: %s' % und if bad or und else '')

    def judge(self, s, names, files, mips, tr):
        g = lambda n: self.get(s, n)
        kind = {v: k for k, v in self.E['kind'].items()}[g('imageType')]
        want, final = {}, None
        for k, x in enumerate(names):
            c, size = self.canon(self.chain(s, files, names, x), files)
            final = final or size
            want[(k % 6 if kind.startswith('Cube') else 0, 0, k // 6 if kind == 'CubeArray' else k if kind == 'Array' else 0)] = (x, c)
        depth = {'Array': len(names), 'CubeArray': len(names) // 6}.get(kind, 0)
        got = {k: [t for t in tr if t[0] == k] for k in ('texture', 'set', 'mipmaps', 'convert', 'save', 'other')}
        if got['other']:
            return None, 'Texture::%s is used' % got['other'][0][1]
        if len(got['texture']) != 1 or len(got['convert']) != 1 or len(got['save']) != 1:
            return 'the texture is made %d times, converted %d times and saved %d times' % tuple(len(got[k]) for k in ('texture', 'convert', 'save')), None
        order = [t[0] for t in tr]
        if order.index('texture') > min([k for k, x in enumerate(order) if x == 'set'] or [99]) or order.index('convert') < max([k for k, x in enumerate(order) if x in ('set', 'mipmaps')]) \
                or order.index('save') < order.index('convert'):
            return 'the order is %s' % ', '.join(order), None
        t = got['texture'][0][1:]
        w = (g('dimension'), final[0], final[1], depth)
        if None in t:
            return None, 'the size of the texture'
        if t[:4] != w or len(t) > 5 and t[5] != g('textureColorSpace'):
            return 'a texture of dimension %s, %sx%s, depth %s and colour space %s is made from images of %dx%d, depth %d' % (t[0], t[1], t[2], t[3], t[5], final[0], final[1], depth), None
        seen = {}
        for x in got['set']:
            o = self.ops(x[1])
            at = x[2:]
            if x[1] is NULL:
                return 'an image that was moved away or never loaded is set', None
            if o is None or None in at or len(at) != 3:
                return None, 'an image'
            if at in seen:
                return 'face %d, level %d, layer %d is set twice' % at, None
            seen[at] = o
        for at in sorted(set(want) | set(seen)):
            if at not in seen:
                return 'face %d, level %d, layer %d is never set' % at, None
            if at not in want:
                return 'face %d, level %d, layer %d is set' % at, None
            r = self.same(seen[at], want[at], files)
            if r:
                return r, None
        levels = g('mipLevels')
        dims3 = g('dimension') == self.e('dim', 'Dim3D')
        top = max(final[0], final[1], depth if dims3 else 1).bit_length()
        mm = [x for x in got['mipmaps'] if x[2] is None or x[2] > 1]
        if levels > 1:
            if len(mm) != 1 or order.index('mipmaps') < max(k for k, x in enumerate(order) if x == 'set'):
                return 'mipmaps are generated %d times' % len(mm), None
            f, n, content = mm[0][1:]
            if f is None or n is None or content is None:
                return None, 'the mipmaps'
            if f != g('mipFilter') or min(n, top) != min(levels, top):
                return 'mipmaps are generated with filter %s and %s levels' % (f, n), None
            wanted = {(x[0], x[1], x[2]): x for x in mips}
            have = {x[:3]: x for x in content}
            if set(wanted) != set(have):
                return 'the custom mips are %s instead of %s' % (sorted(have), sorted(wanted)), None
            for k, x in wanted.items():
                o = self.ops(have[k][3])
                if o is None or have[k][4] is None:
                    return None, 'a custom mip'
                if have[k][4] != x[3]:
                    return 'the custom mip of level %d has replacement %s' % (k[1], have[k][4]), None
                r = self.same(o, (x[5], self.canon(self.chain(s, files, names, x[5], k[1]), files)[0]), files)
                if r:
                    return 'custom mip: ' + r, None
        elif mm:
            return 'mipmaps are generated without being asked for', None
        mask = sum((self.get(s, 'colorMask.' + c) & 255) << 8 * k for k, c in enumerate('rgba'))
        w = (g('format'), g('type'), g('quality'), g('alpha'), mask, g('jobs'))
        c = got['convert'][0][1:]
        if None in c or len(c) != 6:
            return None, 'the conversion'
        for k, n in enumerate(('format', 'type', 'quality', 'alpha', 'colour mask', 'jobs')):
            if c[k] % 2**32 != w[k] % 2**32:
                return 'the texture is converted with %s %s instead of %s' % (n, c[k], w[k]), None
        x = got['save'][0][1:]
        if None in x:
            return None, 'the output'
        if x != (s.get('output', 'out.dds'), g('fileType')):
            return 'the texture is saved to %s as %s' % x, None
        return None, None

    def same(self, got, want, files):
        name, w = want
        if got[0][1] != name:
            return '%s is used instead of %s' % (got[0][1], name)
        if got[0] != w[0]:
            return '%s is loaded with colour space %s' % (name, got[0][2])
        c, _ = self.canon(got, files)
        if c != w:
            return 'the operations on %s are: %s; instead of: %s' % (name, self.spell(c), self.spell(w))


def u02(ctx):
    ctx.rule('flags', 'constants propagated through everything the tool does after parsing: for each combination of requested operations, the chain of operations each image went through when it '
             'reaches the texture is the requested one, in order, each once (operations that commute or change nothing aside)')
    ctx.rule('value', 'the parameters of each operation, of the texture, of mipmap generation, of the conversion and of saving are those of the settings')
    ctx.rule('size', 'each resize keyword gives the size it names, from the first image')
    ctx.rule('place', 'every image and custom mip reaches its face, level and layer, for every kind of texture')
    ctx.assume('the methods of Image and Texture behave as their own properties state')
    t = Tool(ctx)
    e = t.e
    files = {'a.png': (16, 8, e('fmt', 'RGB8')), 'b.png': (16, 8, e('fmt', 'RGBAF')), 'c.png': (5, 21, e('fmt', 'RGBA16')), 'd.png': (7, 7, e('fmt', 'Gray8'))}
    base = {'format': e('format', 'R8G8B8A8'), 'fileType': e('file', 'KTX')}
    J = lambda *a: t.jobs.append(lambda: t.compare(*a))
    spaces = [(a, b) for a in ('Linear', 'sRGB') for b in ('Linear', 'sRGB') if (a, b) != ('Linear', 'sRGB')]
    flags = ('flipX', 'flipY', 'rotate', 'grayscale', 'normalMap', 'swizzle', 'preMultiply')
    for bits in range(1 << len(flags)):
        on = [n for k, n in enumerate(flags) if bits >> k & 1]
        for a, b in spaces:
            for size in (None, (32, 4)):
                s = dict(base, imageColorSpace=e('cs', a), textureColorSpace=e('cs', b), **{n: 1 for n in on})
                if size:
                    s.update(width=size[0], height=size[1])
                if 'swizzle' in on:
                    s.update(redSwzl=e('chan', 'Blue'), greenSwzl=e('chan', 'Red'), blueSwzl=e('chan', 'None'), alphaSwzl=e('chan', 'Green'))
                J('flags', '%s %s to %s%s' % ('+'.join(on) or 'nothing', a, b, ', resized' if size else ''), s, ['a.png'], files)
    def values(n, vs, names=['a.png'], mips=(), **more):
        for label, v in vs:
            J('value', '%s %s%s' % (n, label, ' '.join(['', *more])), dict(base, **dict(more, **{n: v})), names, files, mips)
    every = lambda q: [(n, v) for n, v in t.E[q].items() if n not in ('Count', 'Auto')]
    values('rotateAngle', every('angle'), rotate=1)
    values('rotateAngle', every('angle'), rotate=1, width=12, height=20)
    values('rotateAngle', every('angle'), rotate=1, normalMap=1)
    values('rotateAngle', every('angle'))
    values('resizeFilter', every('filter'), width=3, height=3)
    values('mipFilter', every('filter'), mipLevels=4)
    values('normalOptions', [('WrapX', e('opt', 'WrapX')), ('WrapY', e('opt', 'WrapY')), ('none', 0)], normalMap=1)
    for x in every('type'):
        values('type', [x], normalMap=1)
        values('type', [x], normalMap=1, normalOptions=e('opt', 'WrapX') | e('opt', 'WrapY'))
        values('type', [x])
    values('normalHeight', [('0.25', 0.25), ('-3', -3.0)], normalMap=1)
    for n in ('redSwzl', 'greenSwzl', 'blueSwzl', 'alphaSwzl'):
        values(n, every('chan'), swizzle=1)
        values(n, every('chan')[:2])
    values('quality', every('quality'))
    values('alpha', every('alpha'))
    values('fileType', every('file'))
    values('jobs', [(str(n), n) for n in (1, 2, 7, 2**32 - 1)])
    values('mipLevels', [(str(n), n) for n in (0, 1, 2, 3, 5, 6, 100, 2**32 - 1)])
    values('log', every('log'))
    values('log', every('log'), mipLevels=3, flipX=1, flipY=1, rotate=1, grayscale=1, normalMap=1, swizzle=1, preMultiply=1, width=4, height=4, imageColorSpace=e('cs', 'sRGB'))
    for c in 'rgba':
        values('colorMask.' + c, [('off', 0)])
    fmts = every('format')
    values('format', fmts[1::7] + fmts[-1:])
    values('output', [('with folders', 'some/where/out.ktx')])
    for f in every('fmt'):
        if f[0] == 'Invalid':
            continue
        g = dict(files, **{'a.png': (16, 8, f[1])})
        J('value', 'image format ' + f[0], base, ['a.png'], g)
        J('value', 'image format %s, operations' % f[0], dict(base, normalMap=1, flipX=1, imageColorSpace=e('cs', 'sRGB'), width=3, height=9), ['a.png'], g)
    for k, v in every('size'):
        for w, h in ((5, 21), (37, 16), (1, 1), (9, 1), (31, 31), (64, 128), (1025, 700)):
            g = dict(files, **{'a.png': (w, h, e('fmt', 'RGB8'))})
            J('size', '%s of %dx%d' % (k, w, h), dict(base, width=v, height=e('size', 'OriginalSize')), ['a.png'], g)
            J('size', '%s of %dx%d for the height' % (k, w, h), dict(base, width=e('size', 'OriginalSize'), height=v), ['a.png'], g)
            if w == 5:
                J('size', '%s for the second image' % k, dict(base, width=v, height=v, imageType=e('kind', 'Array')), ['a.png', 'd.png'], g)
        for n in (255, 256, 65535):         # sizes that could be mistaken for a marker
            g = dict(files, **{'a.png': (n, n, e('fmt', 'RGB8'))})
            J('size', '%s of %dx%d for the second image' % (k, n, n), dict(base, width=v, height=v, imageType=e('kind', 'Array')), ['a.png', 'd.png'], g)
    cube = e('dim', 'Cube')
    for k, dim, n in (('Image', None, 1), ('Array', None, 1), ('Array', None, 3), ('Array', 'Dim1D', 4), ('Array', 'Dim3D', 4), ('Cube', 'Cube', 6), ('CubeArray', 'Cube', 6), ('CubeArray', 'Cube', 12), ('CubeArray', 'Cube', 18), ('Array', None, 8), ('Image', 'Dim1D', 1), ('Image', 'Dim3D', 1)):
        names = [chr(65 + j) + '.png' for j in range(n)]
        g = {x: (8 if j else 12, 8 + j, e('fmt', 'RGB8' if j % 2 else 'RGBAF')) for j, x in enumerate(names)}
        g['m.png'] = (4, 4, e('fmt', 'RGBA8'))
        g['n.png'] = (6, 4, e('fmt', 'RGBAF'))
        s = dict(base, imageType=e('kind', k))
        if dim:
            s['dimension'] = e('dim', dim)
        what = '%s of %d%s' % (k, n, ' ' + dim if dim else '')
        J('place', what, s, names, g)
        J('place', what + ', mipmaps', dict(s, mipLevels=2**32 - 1), names, g)
        faces = [e('face', x) for x in ('PosX', 'NegZ')] if dim == 'Cube' else [e('face', 'PosX')]
        layers = [0, n - 1] if k == 'Array' and n > 1 and dim != 'Dim3D' else [0, n // 6 - 1] if k == 'CubeArray' and n > 6 else [0]
        for fl in ({}, {'normalMap': 1}, {'rotate': 1}, {'rotate': 1, 'normalMap': 1}, {'width': 20, 'height': 7}, {'flipX': 1, 'swizzle': 1, 'imageColorSpace': e('cs', 'sRGB')}):
            mips = [(f, 1, l, e('repl', 'Once'), None, 'm.png') for f in faces[:1] for l in layers[:1]] + [(f, 2, l, e('repl', 'Continue'), None, 'n.png') for f in faces[-1:] for l in layers[-1:]]
            J('place', '%s, custom mips%s' % (what, ' '.join(['', *fl])), dict(s, mipLevels=3, **fl), names, g, mips)
    # more images than narrow types count
    for k, dim, n in (('Array', 'Dim2D', 300), ('Array', 'Dim1D', 257), ('Array', 'Dim3D', 260), ('CubeArray', 'Cube', 258), ('CubeArray', 'Cube', 1560)) + ((('Array', 'Dim2D', 66000),) if ctx.tier != 'quick' else ()):
        names = ['%d.png' % j for j in range(n)]
        g = {x: (4, 8, e('fmt', 'RGB8')) for x in names}
        g['m.png'] = (4, 4, e('fmt', 'RGBA8'))
        last = n // 6 - 1 if dim == 'Cube' else 0 if dim == 'Dim3D' else n - 1
        J('place', '%s of %d %s' % (k, n, dim), dict(base, imageType=e('kind', k), dimension=e('dim', dim)), names, g)
        J('place', '%s of %d %s, custom mip' % (k, n, dim), dict(base, imageType=e('kind', k), dimension=e('dim', dim), mipLevels=3), names, g,
          [(e('face', 'NegZ' if dim == 'Cube' else 'PosX'), 1, last, e('repl', 'Once'), None, 'm.png')])
    for w, h in ((1, 16), (16, 1), (2, 16), (16, 16)):
        for mw, mh in ((4, 4), (1, 16), (1, 8), (8, 1), (1, 4), (8, 8)):
            g = {'e.png': (w, h, e('fmt', 'RGB8')), 'm.png': (mw, mh, e('fmt', 'RGBA8')), 'n.png': (mh, mw, e('fmt', 'RGBAF'))}
            for fl in ({}, {'normalMap': 1}, {'normalMap': 1, 'rotate': 1}, {'normalMap': 1, 'width': 16, 'height': 1}):
                J('place', '%dx%d, custom mips of %dx%d%s' % (w, h, mw, mh, ' '.join(['', *fl])), dict(base, mipLevels=3, **fl), ['e.png'], g,
                  [(0, 1, 0, e('repl', 'Once'), None, 'm.png')] + [(0, 2, 0, e('repl', 'Continue'), None, 'n.png')] * (w > 3 or h > 3 or 'width' in fl))
    rnd = random.Random(1)
    for k in range(200 if ctx.tier == 'quick' else 3000):
        s = dict(base)
        for n in flags:
            s[n] = int(rnd.random() < .4)
        for n, q in (('rotateAngle', 'angle'), ('resizeFilter', 'filter'), ('mipFilter', 'filter'), ('redSwzl', 'chan'), ('greenSwzl', 'chan'), ('blueSwzl', 'chan'), ('alphaSwzl', 'chan'),
                     ('type', 'type'), ('alpha', 'alpha'), ('quality', 'quality'), ('log', 'log')):
            s[n] = rnd.choice(every(q))[1]
        a, b = rnd.choice(spaces)
        s.update(imageColorSpace=e('cs', a), textureColorSpace=e('cs', b), imageType=e('kind', 'Array'), mipLevels=rnd.choice([1, 2, 4]))
        if rnd.random() < .6:
            s.update(width=rnd.choice([3, 8, e('size', 'Max')]), height=rnd.choice([5, 2, e('size', 'WidthNextPO2')]))
        J('value', 'mixture %d' % k, s, ['a.png', 'c.png'], files, [(0, 1, 1, e('repl', 'Once'), None, 'd.png')] if s['mipLevels'] > 1 else ())
    ctx.parallel(t.jobs)
    for r in ('flags', 'value', 'size', 'place'):
        ctx.floor(r, 5)


def u03(ctx):
    ctx.rule('exit', 'constants propagated through the tool with one fallible step failing: the exit status is not zero')
    ctx.rule('zero', 'the exit status is zero when the last attempt to save succeeded, and only then')
    ctx.rule('retry', 'with --create-dir the folders of the output are made, from the outermost, after a write error, and saving is tried once more')
    t = Tool(ctx)
    e = t.e
    fm = e('fmt', 'RGB8')
    base = {'format': e('format', 'R8G8B8A8'), 'fileType': e('file', 'KTX')}
    ok = e('save', 'Success')
    fails = [(n, v) for n, v in t.E['save'].items() if v != ok]

    def run(rule, key, s, names, mips, fate, zero):
        files = {x: (8, 8, fm) for x in list(names) + [y[5] for y in mips]}
        r = t.run(s, names, files, mips, fate)
        v = r.result()
        if v is None:
            lv = retleaves(r.a)
            if zero is False and all(x.op == 'int' and x.a[0] % 256 for x in lv):
                return ctx.ok(rule, key, t.where)
            return ctx.und(rule, key, t.where, 'the exit status is not evaluated')
        ctx.check((v % 256 == 0) == zero, rule, key, t.where, 'the exit status is %d' % v)
        return r
    J = lambda *a: t.jobs.append(lambda: run(*a))
    kinds = [('Image', None, 1), ('Array', None, 3), ('Array', 'Dim3D', 2), ('Cube', 'Cube', 6), ('CubeArray', 'Cube', 6), ('CubeArray', 'Cube', 12)]
    for k, dim, n in kinds:
        names = [chr(65 + j) + '.png' for j in range(n)]
        for log in ('Quiet', 'Normal', 'Verbose'):
            for levels, mips in ((1, ()), (3, ()), (3, [(0, 1, 0, 0, None, 'm.png')]), (4, [(0, 1, 0, 0, None, 'm.png'), (0, 2, 0, 1, None, 'n.png')])):
                if dim == 'Dim3D' and len(mips) > 1:
                    mips = mips[1:]
                s = dict(base, imageType=e('kind', k), mipLevels=levels, log=e('log', log), **({'dimension': e('dim', dim)} if dim else {}))
                what = '%s%s of %d, %d levels, %d custom, %s' % (k, ' 3D' if dim == 'Dim3D' else '', n, levels, len(mips), log.lower())
                J('zero', what, s, names, mips, {}, True)
                J('exit', what + ': parse', s, names, mips, {'parse': 0}, False)
                J('exit', what + ': convert', s, names, mips, {'convert': 0}, False)
                if levels > 1:
                    J('exit', what + ': generateMipmaps', s, names, mips, {'generateMipmaps': 0}, False)
                for x in names + [y[5] for y in mips]:
                    J('exit', '%s: loading %s' % (what, x), s, names, mips, {'load': {x: 0}}, False)
                for q, v in fails:
                    J('exit', '%s: save gives %s' % (what, q), s, names, mips, {'save': [v, ok]}, False)
    names = ['%d.png' % j for j in range(300)]
    s = dict(base, imageType=e('kind', 'Array'))
    J('zero', 'Array of 300', s, names, (), {}, True)
    for j in (0, 44, 255, 256, 299):
        J('exit', 'Array of 300: loading image %d' % j, s, names, (), {'load': {names[j]: 0}}, False)
    E13, E17, E2 = 13, 17, 2
    for out in ('out.ktx', 'x/out.ktx', 'x/y/z.w/out.ktx', '/x/yy/out.ktx', 'x//y/out.ktx'):
        dirs = [out[:j] for j in range(1, len(out)) if out[j] == '/' and out[j - 1] != '/']
        s = dict(base, createOutputDir=1, output=out)
        we = e('save', 'WriteError')
        for q, v in fails:
            t.jobs.append(lambda s=s, q=q, v=v, out=out, dirs=dirs: retried(ctx, t, '%s, then %s' % (out, q), s, {'save': [we, v]}, dirs, [we, v], run))
            if v != we:
                J('exit', 'with --create-dir %s: save gives %s' % (out, q), s, ['a.png'], (), {'save': [v, ok]}, False)
        t.jobs.append(lambda s=s, out=out, dirs=dirs: retried(ctx, t, '%s, then Success' % out, s, {'save': [we, ok]}, dirs, [we, ok], run))
        t.jobs.append(lambda s=s, out=out, dirs=dirs: retried(ctx, t, '%s, folders exist' % out, s, {'save': [we, ok], 'mkdir': {j: (-1, E17) for j in range(9)}}, dirs, [we, ok], run))
        for j in range(len(dirs)):
            for er in (E13, E2, 30):
                J('exit', 'folder %d of %s fails with error %d' % (j, out, er), s, ['a.png'], (), {'save': [we, we], 'mkdir': {j: (-1, er)}}, False)
        J('zero', out + ' at once', s, ['a.png'], (), {}, True)
        J('exit', out + ' without --create-dir', dict(base, output=out), ['a.png'], (), {'save': [we, ok]}, False)
    ctx.parallel(t.jobs)
    for r in ('exit', 'zero', 'retry'):
        ctx.floor(r, 3)


def retried(ctx, t, key, s, fate, dirs, saves, run):
    r = run('zero', key, s, ['a.png'], (), fate, saves[-1] == t.e('save', 'Success'))
    tr = r.trace() if r is not None else None
    if tr is None:
        return ctx.und('retry', key, t.where, 'the operations are not evaluated')
    made = [x[1] for x in tr if x[0] == 'mkdir']
    n = sum(x[0] == 'save' for x in tr)
    if None in made:
        return ctx.und('retry', key, t.where, 'a path is not evaluated')
    made = [x.rstrip('/') or '/' for x in made]
    need = list(dict.fromkeys(dirs))
    got = [x for x in dict.fromkeys(made) if x in need]
    ctx.check(got == need and n == 2, 'retry', key, t.where, 'the folders made for %s are %s, and saving is tried %d times' % (s['output'], made, n))


def limits(ctx):
    """U05: what is only known once the images were loaded"""
    t = Tool(ctx)
    e = t.e
    base = {'format': e('format', 'R8G8B8A8'), 'fileType': e('file', 'KTX')}

    def run(key, s, n, mips, size, accepted):
        names = [chr(65 + j) + '.png' for j in range(n)]
        files = {x: size + (e('fmt', 'RGB8'),) for x in names}
        files['m.png'] = (4, 4, e('fmt', 'RGB8'))
        r = t.run(dict(base, **s), names, files, [x + (0, None, 'm.png') for x in mips])
        v, tr = r.result(), r.trace()
        if v is None or tr is None:
            return ctx.und('loaded', key, t.where, 'not evaluated')
        if accepted:
            return ctx.check(v == 0, 'loaded', key, t.where, 'it is refused')
        done = [x[0] for x in tr if x[0] in ('convert', 'save')]
        ctx.check(v % 256 != 0 and not done, 'loaded', key, t.where, 'it is not refused')
    J = lambda *a: t.jobs.append(lambda: run(*a))
    every = 2**32 - 1
    for size in ((8, 8), (8, 3), (1, 16), (5, 5)):
        for k, dim, n in (('Image', 'Dim2D', 1), ('Array', 'Dim2D', 4), ('Array', 'Dim3D', 2), ('Cube', 'Cube', 6), ('CubeArray', 'Cube', 6), ('CubeArray', 'Cube', 12), ('Array', 'Dim1D', 3)):
            s = {'imageType': e('kind', k), 'dimension': e('dim', dim)}
            top = max(*size, n if dim == 'Dim3D' else 1).bit_length()
            for levels in (every, 2, 3):
                for lv in range(1, top + 3):
                    J('%s of %dx%d, %s levels, custom level %d' % (k + ' 3D' * (dim == 'Dim3D'), *size, 'all' if levels == every else levels, lv), dict(s, mipLevels=levels), n, [(0, lv, 0)], size,
                      lv < min(levels, top))
            for f, v in t.E['face'].items():
                J('%s of %dx%d, custom face %s' % (k + ' 3D' * (dim == 'Dim3D'), *size, f), dict(s, mipLevels=every), n, [(v, 1, 0)], size, dim == 'Cube' or f == 'PosX')
    # more slices than narrow types count
    s = {'imageType': e('kind', 'Array'), 'dimension': e('dim', 'Dim3D'), 'mipLevels': every}
    for n in (256, 260, 520):
        for lv in range(1, 12):
            J('Array 3D of %d, custom level %d' % (n, lv), s, n, [(0, lv, 0)], (4, 4), lv < n.bit_length())
    ctx.parallel(t.jobs)
    ctx.floor('loaded', 5)
