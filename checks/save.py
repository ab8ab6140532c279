"""S01..S07: container files and saving."""
from .util import *
from . import conv
from .texture import keepall, TEX, PURE
from sa.ir import AnalysisError
from sa.absint import ite

DIMS = ('Dim1D', 'Dim2D', 'Dim3D', 'Cube')
SHAPES = [('Dim2D', 0), ('Dim1D', 0), ('Cube', 1), ('Dim3D', 0), ('Dim2D', 1), ('Cube', 0), ('Dim1D', 1)]
ALPHAS = ('None', 'Standard', 'PreMultiplied', 'Encoded')
WRITE = 'std::ostream::write'
PUT = 'std::ostream::put'


def q(n):
    return T('q', n)


def keepout(n):
    """handing bytes to a stream changes nothing but the stream"""
    return cname(n) in (WRITE, PUT) or keepall(n) or n.startswith('cuttlefish::Texture::') and (n.endswith(' const') or short(n) in ('blockSize', 'blockWidth', 'blockHeight', 'hasAlpha', 'isFormatValid', 'hasNativeSRGB'))


class Save:
    """one container writer under facts fixing the texture it is given"""

    def __init__(self, ctx, kind):
        self.ctx = ctx
        self.kind = kind
        self.src = 'lib/src/Save%s.cpp' % kind
        self.m = ctx.load(self.src, keep=[], limit=4000)
        self.f = self.m.find('cuttlefish::save%s(' % kind)
        ctx.fn(self.f)
        self.t = ctx.load(TEX, keep=[], limit=400, defs=CODECS_ON)
        e = self.m.enum
        self.fmt = e('cuttlefish::Texture::Format'); self.type = e('cuttlefish::Texture::Type')
        self.dim = e('cuttlefish::Texture::Dimension'); self.alpha = e('cuttlefish::Texture::Alpha')
        self.cs = e('cuttlefish::ColorSpace'); self.res = e('cuttlefish::Texture::SaveResult')
        self._c = {}

    def const(self, name, *v):
        """answer of a static query of Texture for constant arguments"""
        k = (name,) + v
        if k not in self._c:
            sig = {'isFormatValid': 'isFormatValid(cuttlefish::Texture::Format, cuttlefish::Texture::Type)'}.get(name, name + '(')
            r, _ = const_call(self.t, 'cuttlefish::Texture::' + sig, *v)
            self._c[k] = r.a[0] if r.op == 'int' else None
        return self._c[k]

    def pairs(self):
        """(format, type, colour space) the library admits"""
        for F, fv in formats(self.m):
            for Tn, tv in types(self.m):
                if self.const('isFormatValid', fv, tv):
                    yield F, Tn, 'Linear'
                    if self.const('hasNativeSRGB', fv, tv):
                        yield F, Tn, 'sRGB'

    def run(self, F, Tn, cs='Linear', alpha='Standard', dim='Dim2D', arr=0, mips=None, good=True, noface=False, before=None):
        """before: what an earlier save left in variables that outlive it; by default they are as they start"""
        fixed = {'format': I(self.fmt[F]), 'type': I(self.type[Tn]), 'colorSpace': I(self.cs[cs]), 'alphaType': I(self.alpha[alpha]),
                 'dimension': I(self.dim[dim]), 'isArray': I(int(arr), 1), 'faceCount': I(6 if dim == 'Cube' else 1),
                 'mipLevelCount': I(mips) if mips else q('mips')}
        me = T('arg', 0, '$0')

        def bind(an, i, dem, ar, st):
            c = cname(dem)
            if c in ('__cxa_guard_acquire', '__cxa_guard_release') and ar and ar[0].op == 'glob':
                if c.endswith('release'):
                    st.mem[(ar[0], 1)] = I(1, 8)
                    return T('void')
                v = an.load(ar[0], 1, 'i8', st, i)
                return I(int(v.a[0] == 0)) if v.op == 'int' else None
            if not c.startswith('cuttlefish::Texture::'):
                return None
            n = c[21:]
            if n in fixed and len(ar) == 1 and noep(ar[0]) is me:
                return fixed[n]
            if n in ('width', 'height', 'depth') and len(ar) == 2 and noep(ar[0]) is me:
                if ar[1].op == 'int' and ar[1].a[0] == 0 or n == 'depth' and dim != 'Dim3D':
                    return q(n)
                return mm('umax', binop('lshr', 32, q(n), ar[1]), I(1))
            if n == 'dataSize' and len(ar) == 4 and noep(ar[0]) is me:
                return self.datasize(F, dim, *ar[1:])
            if n in ('blockWidth', 'blockHeight', 'blockSize', 'hasAlpha') and len(ar) == 1 and ar[0].op == 'int':
                v = self.const(n, ar[0].a[0])
                if v is not None:
                    return I(v, 1 if n == 'hasAlpha' else 32)
            return None

        def onload(an, p, ty, st, t):
            if ty == 'i32' and state(p):
                return I(0)
            b, o, v = split_ptr(p)
            if b.op == 'glob' and not v and before is None and t.a[1] == 0:
                G = an.mod.globals.get(b.a[0])
                if G and G['local'] and 'init' in G:
                    return an._ci(G['init'], o, bits(ty) // 8 if bits(ty) else 8 if ty in ('ptr', 'double') else 4, ty)
            return None
        return Analysis(self.f, args(self.f), pure=PURE, keeps=keepout if good else keepall, bind=bind, onload=onload if good else None, mem=dict(before or {}))

    def datasize(self, F, dim, face, level, idx):
        """bytes of one encoded surface (established by T01, T03 and C05)"""
        bs, bw, bh = (self.const(x, self.fmt[F]) for x in ('blockSize', 'blockWidth', 'blockHeight'))
        up = lambda n, b: binop('udiv', 32, binop('add', 32, mm('umax', binop('lshr', 32, q(n), level), I(1)), I(b - 1)), I(b))
        n = cast('zext', 'i64', binop('mul', 32, binop('mul', 32, up('width', bw), up('height', bh)), I(bs)))
        D = mm('umax', binop('lshr', 32, q('depth'), level), I(1)) if dim == 'Dim3D' else q('depth')
        for x, y in ((face, I(6 if dim == 'Cube' else 1)), (level, q('mips')), (idx, D)):
            n = ite(cmp('ult', x, y), n, I(0, 64))
        return n

    def name(self, *x):
        return ' '.join(str(y) for y in x if y != '')


def state(p):
    """p addresses the error state of the destination stream"""
    p = noep(p)
    b, o, v = split_ptr(p)
    if o != 32:
        return False
    return any(x.op == 'arg' and x.a[0] == 1 for x in walk(p))


def outs(a):
    """the events handing bytes to the destination, with their length (a term)"""
    r = []
    for e in a.events:
        if e.i.op in ('call', 'invoke') and e.name:
            c = cname(e.name)
            if c == WRITE:
                r.append((e, e.args[2]))
            elif c == PUT:
                r.append((e, I(1, 64)))
    return r


def unknownout(a):
    """a call that may write to the stream but is not understood"""
    s = T('arg', 1, '$1')
    for e in a.events:
        if e.i.op in ('call', 'invoke') and e.name and any(noep(x) is s for x in e.args):
            c = cname(e.name)
            if c in (WRITE, PUT) or e.name.endswith(' const'):
                continue
            return e
    return None


class Header:
    """bytes written before the first encoded surface, in order"""

    def __init__(self, a):
        self.a = a
        self.why = None
        self.parts = []
        w = outs(a)
        x = unknownout(a)
        if x:
            self.why = 'a call of %s on the stream is not understood' % cname(x.name)
            return
        data = [e for e, n in w if payload(a, e)]
        for e, n in w:
            if a.fn.loops_of(e.block) and not any(d.block in a.fn.loops[h] for h in a.fn.loops_of(e.block) for d in data):
                self.why = 'the write at %s happens in a loop of its own' % e.where()
                return
        hs = [(e, n) for e, n in w if not a.fn.loops_of(e.block) and not payload(a, e)]
        off = 0
        for k, (e, n) in enumerate(hs):
            if n.op != 'int':
                self.why = 'the length of the write at %s is not constant' % e.where()
                return
            if evflow(a, None, 'ret', avoid=[e]) is not None:
                self.why = 'the write at %s does not always happen' % e.where()
                return
            if k and evflow(a, None, e, avoid=[hs[k - 1][0]]) is not None:
                self.why = 'the order of the writes is not fixed'
                return
            self.parts.append((off, n.a[0], e))
            off += n.a[0]
        self.size = off

    def at(self, off, size):
        """(term of the field, event) - None when it is not written or not understood"""
        a = self.a
        for o, n, e in self.parts:
            if o <= off and off + size <= o + n:
                if cname(e.name) == PUT:
                    x = e.args[1]
                    return cast('trunc', 'i8', x) if (width(x) or 8) > 8 else x, e
                p = ptr(e.args[1], off - o)
                v = a.load(p, size, 'i%d' % (size * 8), e.st, e.i)
                if v.op == 'load' and never(a, p, size):
                    v = UNDEF
                return v, e
        if size > 1 and not size & 1:
            lo, hi = self.at(off, size // 2), self.at(off + size // 2, size // 2)
            if lo and hi and lo[0] is not None and hi[0] is not None and lo[0].op == hi[0].op == 'int':
                return I(lo[0].a[0] | hi[0].a[0] << size * 4, size * 8), lo[1]
        return None


def never(a, p, size):
    """nothing in the function sets these bytes of a local variable"""
    b, off, var = split_ptr(p)
    if b.op != 'alloca' or var:
        return False
    for e in a.events:
        if e.i.op in ('call', 'invoke') and e.name and cname(e.name) == WRITE:
            continue
        for k, x in enumerate(e.args):
            if not isinstance(x, Term):
                continue
            if e.i.op in ('load', 'getelementptr', 'bitcast', 'icmp') or not any(y is b for y in walk(x)):
                continue
            xb, xo, xv = split_ptr(x)
            n = None
            if e.i.op == 'store' and k == 1:
                n = e.i.get('size')
            elif e.i.op == 'call' and e.name and e.name.startswith('llvm.') and k == 0 and len(e.args) > 2 and e.args[2].op == 'int':
                n = e.args[2].a[0]
            elif e.i.op == 'call' and e.name and e.name.startswith(('llvm.lifetime', 'llvm.dbg')):
                continue
            if xb is not b or xv or n is None or xo < off + size and off < xo + n:
                return False
    return True


def payload(a, e):
    """the event writes encoded data of the texture"""
    return cname(e.name) == WRITE and any(x.op == 'call' and cname(x.a[0]) == 'cuttlefish::Texture::data'
                                          for y in leaves(e.args[1], a) for x in walk(y))


ENVS = [{q('width'): w, q('height'): h, q('depth'): d, q('mips'): n} for w, h, d, n in ((1, 1, 1, 1), (5, 7, 3, 3), (37, 16, 9, 2), (64, 1, 2, 7), (3, 65537, 1, 4))]


def fieldcheck(ctx, key, name, got, want, e):
    """compare one field of a header; want: ints allowed, a predicate over ints, or a term"""
    where = e.where()
    if isinstance(want, Term):
        if got is want or same_lin(got, want):
            return ctx.ok('field', '%s %s' % (key, name), where, 'is %s' % show(want))
        if UNDEF in leaves(got):
            return ctx.bad('field', '%s %s' % (key, name), where, 'the field %s is written without having been set' % name)
        r = judge(got, want, ENVS)
        if r not in (True, None):
            return ctx.bad('field', '%s %s' % (key, name), where, 'the field %s: %s' % (name, r))
        return ctx.und('field', '%s %s' % (key, name), where, 'the field %s is %s' % (name, show(got)))
    if got is UNDEF:
        return ctx.bad('field', '%s %s' % (key, name), where, 'the field %s is written without having been set' % name)
    allowed = want if callable(want) else lambda v: v in want
    text = 'one that does not fit the texture' if callable(want) else 'not ' + ' or '.join('%#x' % v for v in sorted(want))
    if got.op == 'int':
        if allowed(got.a[0]):
            return ctx.ok('field', '%s %s' % (key, name), where, '%#x' % got.a[0])
        return ctx.bad('field', '%s %s' % (key, name), where, 'the field %s is %#x, %s' % (name, got.a[0], text))
    for env in ENVS:
        v = teval(noep(got), env)
        if v is not None and not allowed(v):
            return ctx.bad('field', '%s %s' % (key, name), where, 'the field %s is %#x (%s), %s' % (
                name, v, ', '.join('%s=%d' % (k.a[0], n) for k, n in env.items()), text))
    ctx.und('field', '%s %s' % (key, name), where, 'the field %s is %s' % (name, show(got)))


def leftover(a):
    """what the variables that outlive the function hold when it returns"""
    rets = [e for e in a.events if e.i.op == 'ret' and a.reachable(e.block)]
    out = {}
    for e in rets[-1:]:
        for (p, z), v in e.st.mem.items():
            if split_ptr(p)[0].op == 'glob':
                out[(p, z)] = v if v.op in ('int', 'f', 'null', 'zero') or v is ZERO else T('q', 'left', v)
    return out


def headers(ctx, s, cases, expect, total):
    """every case: the fields of the header against the container's definition"""
    later, left = [], None
    for n, case in enumerate(cases):
        k = leftover(onecase(ctx, s, case, expect, total, '', None)) if n < 60 else None
        if k and left:
            onecase(ctx, s, case, expect, total, 'after another file, ', left)
        left = k or left
        if n >= 60:
            onecase(ctx, s, case, expect, total, '', None)


def onecase(ctx, s, case, expect, total, tag, before):
    F, Tn, cs, alpha, dim, arr, mips = case
    key = tag + s.name(F, Tn, cs, alpha, dim, 'array' if arr else '', 'levels=%s' % (mips or 'n'))
    a = s.run(F, Tn, cs, alpha, dim, arr, mips, before=before)
    if not outs(a):
        return a            # refused: S06 compares that with the documentation
    h = Header(a)
    if h.why:
        ctx.und('field', key, s.f.name, h.why)
        return a
    fs = expect(s, F, Tn, cs, alpha, dim, arr, mips)
    if fs is None:
        ctx.und('field', key, s.f.name, 'the specification analysed has no code for this format')
        return a
    for name, off, size, want in fs:
        if isinstance(off, tuple):
            g = [h.at(o, z) for o, z in zip(off, size)]
            if any(x is None for x in g):
                ctx.bad('field', key + ' ' + name, s.f.name, 'the field %s is not written' % name) if off[-1] + size[-1] > h.size else \
                    ctx.und('field', key + ' ' + name, s.f.name, 'the field %s is not understood' % name)
                continue
            vs = [x[0] for x in g]
            if any(v is UNDEF for v in vs):
                ctx.bad('field', key + ' ' + name, g[0][1].where(), 'the fields %s are written without having been set' % name)
            elif all(v.op == 'int' for v in vs):
                tup = tuple(v.a[0] for v in vs)
                ctx.check(tup in want, 'field', key + ' ' + name, g[0][1].where(), 'the fields %s are %s, not %s' % (
                    name, ', '.join('%#x' % v for v in tup), ' or '.join('(' + ', '.join('%#x' % v for v in w) + ')' for w in sorted(want))))
            else:
                ctx.und('field', key + ' ' + name, g[0][1].where(), 'the fields %s are %s' % (name, ', '.join(show(v) for v in vs)))
            continue
        g = h.at(off, size)
        if g is None or g[0] is None:
            if off + size > h.size:
                ctx.bad('field', key + ' ' + name, s.f.name, 'the field %s at byte %d is not written: the header has %d bytes' % (name, off, h.size))
            else:
                ctx.und('field', key + ' ' + name, s.f.name, 'the field %s is not understood' % name)
            continue
        fieldcheck(ctx, key, name, g[0], want, g[1])
    total(ctx, s, key, h, (F, Tn, cs, alpha, dim, arr, mips))
    return a


def cases(ctx, s):
    """quick: every format, type and colour space in two shapes, every alpha mode for formats whose header
    depends on it, every shape and level count for representative formats; thorough: the full product"""
    out = []
    pairs = list(s.pairs())
    if ctx.tier == 'thorough':
        for F, Tn, cs in pairs:
            for dim, arr in SHAPES:
                for mips in (1, None):
                    for al in ALPHAS if mips is None else ('Standard',):
                        out.append((F, Tn, cs, al, dim, arr, mips))
    for k, (F, Tn, cs) in enumerate(pairs):
        dim, arr = SHAPES[k % len(SHAPES)]
        out.append((F, Tn, cs, 'Standard', 'Dim2D', 0, 1 + k % 3))
        out.append((F, Tn, cs, ALPHAS[(0, 2, 3)[k % 3]], dim, arr, None))
    for F, Tn in (('R8G8B8A8', 'UNorm'), ('R5G6B5', 'UNorm'), ('BC1_RGB', 'UNorm'), ('BC2', 'UNorm'), ('BC3', 'UNorm'), ('PVRTC1_RGBA_2BPP', 'UNorm')):
        for al in ALPHAS:
            out.append((F, Tn, 'Linear', al, 'Dim2D', 0, 1))
    for F, Tn in (('R8G8B8A8', 'UNorm'), ('BC1_RGBA', 'UNorm')):
        for dim, arr in SHAPES:
            for mips in (1, 2, 5, None):
                out.append((F, Tn, 'Linear', 'Standard', dim, arr, mips))
    seen = set()
    return [c for c in out if not (c in seen or seen.add(c))]


# ---------------------------------------------------------------- DDS

DXGI = {}


def _dxgi():
    def arr(n, **kw):
        DXGI.update({(n, k): v for k, v in kw.items()})
    arr('R8', UNorm=61, SNorm=63, UInt=62, Int=64)
    arr('R8G8', UNorm=49, SNorm=51, UInt=50, Int=52)
    arr('R8G8B8A8', UNorm=28, sUNorm=29, SNorm=31, UInt=30, Int=32)
    arr('B8G8R8A8', UNorm=87, sUNorm=91)
    arr('A2B10G10R10', UNorm=24, UInt=25)
    arr('R16', UNorm=56, SNorm=58, UInt=57, Int=59, Float=54)
    arr('R16G16', UNorm=35, SNorm=37, UInt=36, Int=38, Float=34)
    arr('R16G16B16A16', UNorm=11, SNorm=13, UInt=12, Int=14, Float=10)
    arr('R32', UInt=42, Int=43, Float=41)
    arr('R32G32', UInt=17, Int=18, Float=16)
    arr('R32G32B32', UInt=7, Int=8, Float=6)
    arr('R32G32B32A32', UInt=3, Int=4, Float=2)
    arr('A4R4G4B4', UNorm=115)
    arr('R5G6B5', UNorm=85)
    arr('A1R5G5B5', UNorm=86)
    arr('R4G4', UNorm=112)
    arr('B10G11R11_UFloat', UFloat=26)
    arr('E5B9G9R9_UFloat', UFloat=67)
    for n, v in (('BC1_RGB', 71), ('BC1_RGBA', 71), ('BC2', 74), ('BC3', 77), ('BC7', 98)):
        arr(n, UNorm=v, sUNorm=v + 1)
    arr('BC4', UNorm=80, SNorm=81)
    arr('BC5', UNorm=83, SNorm=84)
    arr('BC6H', UFloat=95, Float=96)


_dxgi()


def dds_fields(s, F, Tn, cs, alpha, dim, arr, mips):
    code = DXGI.get((F, ('s' if cs == 'sRGB' else '') + Tn))
    if code is None:
        return None
    vol, cube = dim == 'Dim3D', dim == 'Cube'
    n = I(mips) if mips else q('mips')
    f = [('magic', 0, 4, {0x20534444}),
         ('size', 4, 4, {124}),
         ('flags', 8, 4, lambda v: v & 0x1007 == 0x1007 and (v & 0x20000 or mips == 1) and (not v & 0x800000) == (not vol) and not (v & 8 and v & 0x80000)),
         ('height', 12, 4, q('height')), ('width', 16, 4, q('width')),
         ('pixel format size', 76, 4, {32}), ('pixel format flags', 80, 4, {4}), ('fourcc', 84, 4, {0x30315844}),
         ('dxgi format', 128, 4, {code}),
         ('resource dimension', 132, 4, {{'Dim1D': 2, 'Dim2D': 3, 'Dim3D': 4, 'Cube': 3}[dim]}),
         ('misc flag', 136, 4, {4 if cube else 0}),
         ('array size', 140, 4, {1} if vol else q('depth')),
         ('caps2', 112, 4, {0xFE00 if cube else 0x200000 if vol else 0}),
         ('mip count', 28, 4, n if mips != 1 else {0, 1})]
    f.append(('depth', 24, 4, q('depth') if vol else lambda v: v in (0, 1)))
    if mips:
        need = 0x1000 | (0x400008 if mips > 1 else 8 if cube else 0)
        may = need | 8 | (0 if mips > 1 else 0)
        f.append(('caps', 108, 4, lambda v: v & need == need and not v & ~may))
    am = {'None': {0, 3}, 'Standard': {1}, 'PreMultiplied': {2}, 'Encoded': {4}}[alpha] if s.const('hasAlpha', s.fmt[F]) else {0, 3}
    f.append(('alpha mode', 144, 4, am))
    bs, bw, bh = (s.const(x, s.fmt[F]) for x in ('blockSize', 'blockWidth', 'blockHeight'))
    if None not in (bs, bw, bh):
        f.append(('pitch', 20, 4, binop('mul', 32, binop('udiv', 32, binop('add', 32, q('width'), I(bw - 1)), I(bw)), I(bs))))
    return f


def s01(ctx):
    ctx.rule('field', 'for every admitted format, type, colour space, alpha mode and shape each header field, read back from the bytes handed to the stream, '
                      'holds the value the DDS specification assigns')
    ctx.rule('size', 'the header is 4 + 124 + 20 bytes long')
    s = Save(ctx, 'Dds')

    def total(ctx, s, key, h, case):
        ctx.check(h.size == 148, 'size', key, s.f.name, 'the header is %d bytes long, not 148' % h.size)
    headers(ctx, s, cases(ctx, s), dds_fields, total)
    ctx.floor('field', 1); ctx.floor('size', 1)
    ctx.assume('the accessors of Texture return what T01 to T05 establish')


# ---------------------------------------------------------------- KTX

GLI = dict(R4G4B4A4=0x8056, B4G4R4A4=0x8056, R5G6B5=0x8D62, B5G6R5=0x8D62, R5G5B5A1=0x8057, B5G5R5A1=0x8057, A1R5G5B5=0x8057,
           B10G11R11_UFloat=0x8C3A, E5B9G9R9_UFloat=0x8C3D, EAC_R11=(0x9270, 0x9271), EAC_R11G11=(0x9272, 0x9273),
           BC1_RGB=(0x83F0, 0x8C4C), BC1_RGBA=(0x83F1, 0x8C4D), BC2=(0x83F2, 0x8C4E), BC3=(0x83F3, 0x8C4F), BC7=(0x8E8C, 0x8E8D),
           ETC1=0x8D64, ETC2_R8G8B8=(0x9274, 0x9275), ETC2_R8G8B8A1=(0x9276, 0x9277), ETC2_R8G8B8A8=(0x9278, 0x9279),
           PVRTC1_RGB_2BPP=(0x8C01, 0x8A54), PVRTC1_RGB_4BPP=(0x8C00, 0x8A55), PVRTC1_RGBA_2BPP=(0x8C03, 0x8A56),
           PVRTC1_RGBA_4BPP=(0x8C02, 0x8A57), PVRTC2_RGBA_2BPP=(0x9137, 0x93F0), PVRTC2_RGBA_4BPP=(0x9138, 0x93F1))
ASTC = ['4x4', '5x4', '5x5', '6x5', '6x6', '8x5', '8x6', '8x8', '10x5', '10x6', '10x8', '10x10', '12x10', '12x12']
for _k, _n in enumerate(ASTC):
    GLI['ASTC_' + _n] = (0x93B0 + _k, 0x93D0 + _k)
# sized internal formats of 1, 2, 3, 4 channels
SIZED = {(8, 'UNorm'): (0x8229, 0x822B, 0x8051, 0x8058), (8, 'SNorm'): (0x8F94, 0x8F95, 0x8F96, 0x8F97),
         (8, 'UInt'): (0x8232, 0x8238, 0x8D7D, 0x8D7C), (8, 'Int'): (0x8231, 0x8237, 0x8D8F, 0x8D8E),
         (16, 'UNorm'): (0x822A, 0x822C, 0x8054, 0x805B), (16, 'SNorm'): (0x8F98, 0x8F99, 0x8F9A, 0x8F9B),
         (16, 'UInt'): (0x8234, 0x823A, 0x8D77, 0x8D76), (16, 'Int'): (0x8233, 0x8239, 0x8D89, 0x8D88),
         (16, 'Float'): (0x822D, 0x822F, 0x881B, 0x881A),
         (32, 'UInt'): (0x8236, 0x823C, 0x8D71, 0x8D70), (32, 'Int'): (0x8235, 0x823B, 0x8D83, 0x8D82),
         (32, 'Float'): (0x822E, 0x8230, 0x8815, 0x8814)}
GLT = {(8, 'UNorm'): 0x1401, (8, 'UInt'): 0x1401, (8, 'SNorm'): 0x1400, (8, 'Int'): 0x1400, (16, 'UNorm'): 0x1403, (16, 'UInt'): 0x1403,
       (16, 'SNorm'): 0x1402, (16, 'Int'): 0x1402, (16, 'Float'): 0x140B, (32, 'UInt'): 0x1405, (32, 'Int'): 0x1404, (32, 'Float'): 0x1406}
RED, RG, RGB, RGBA, BGRA = 0x1903, 0x8227, 0x1907, 0x1908, 0x80E1
INTEGER = {RED: 0x8D94, RG: 0x8228, RGB: 0x8D98, RGBA: 0x8D99, BGRA: 0x8D9B}
# packed formats: glType, its size and glFormat
GLP = dict(R4G4B4A4={(0x8033, 2, RGBA)}, B4G4R4A4={(0x8033, 2, BGRA)}, R5G6B5={(0x8363, 2, RGB)}, B5G6R5={(0x8364, 2, RGB)},
           R5G5B5A1={(0x8034, 2, RGBA)}, B5G5R5A1={(0x8034, 2, BGRA)}, A1R5G5B5={(0x8366, 2, BGRA)},
           A8B8G8R8={(0x8035, 4, RGBA)}, B8G8R8A8={(0x8367, 4, BGRA), (0x1401, 1, BGRA)}, A2R10G10B10={(0x8368, 4, BGRA)},
           A2B10G10R10={(0x8368, 4, RGBA)}, B10G11R11_UFloat={(0x8C3B, 4, RGB)}, E5B9G9R9_UFloat={(0x8C3E, 4, RGB)})
BASES = {1: {0x1903, 0x1909}, 2: {0x8227, 0x190A}, 3: {RGB}, 4: {RGBA, BGRA}}


def plain(F):
    """(channels, bits) of an array format such as R16G16B16"""
    m = re.fullmatch(r'R(\d+)(G\1)?(B\1)?(A\1)?', F)
    return (len(re.findall('[RGBA]', F)), int(m[1])) if m and int(m[1]) >= 8 else None


def channels(F):
    if F.startswith(('BC1_RGB', 'PVRTC')):
        return 4 if 'RGBA' in F else 3
    if F in ('BC4', 'EAC_R11'):
        return 1
    if F in ('BC5', 'EAC_R11G11'):
        return 2
    if F in ('BC6H', 'ETC1', 'ETC2_R8G8B8', 'B10G11R11_UFloat', 'E5B9G9R9_UFloat'):
        return 3
    if F in ('BC2', 'BC3', 'BC7', 'ETC2_R8G8B8A1', 'ETC2_R8G8B8A8') or F.startswith('ASTC'):
        return 4
    return len(re.findall('[RGBA]', F))


def ktx_fields(s, F, Tn, cs, alpha, dim, arr, mips):
    srgb = cs == 'sRGB'
    p = plain(F)
    ch = channels(F)
    if p:
        if (p[1], Tn) not in SIZED:
            return None
        internal = SIZED[p[1], Tn][ch - 1]
        if srgb:
            internal = {3: 0x8C41, 4: 0x8C43}.get(ch) if (p[1], Tn) == (8, 'UNorm') else None
        base = {1: RED, 2: RG, 3: RGB, 4: RGBA}[ch]
        fm = {(GLT[p[1], Tn], p[1] // 8, INTEGER[base] if Tn in ('UInt', 'Int') else base)}
        if F == 'R8G8B8A8' and Tn == 'UNorm':
            fm.add((0x8367, 4, RGBA))
    elif F in GLP:
        fm = {(t, z, INTEGER[g] if Tn in ('UInt', 'Int') else g) for t, z, g in GLP[F]}
        if F in ('A8B8G8R8', 'B8G8R8A8'):
            internal = (0x8C43 if srgb else 0x8058) if Tn == 'UNorm' else None
        elif F.startswith('A2'):
            internal = {'UNorm': 0x8059, 'UInt': 0x906F}.get(Tn)
        else:
            internal = GLI[F] if Tn in ('UNorm', 'UFloat') and not srgb else None
    else:
        fm = {(0, 1, 0)}
        if F in ('BC4', 'BC5'):
            internal = {'UNorm': 0, 'SNorm': 1}.get(Tn)
            internal = None if internal is None else (0x8DBB if F == 'BC4' else 0x8DBD) + internal
        elif F == 'BC6H':
            internal = {'UFloat': 0x8E8F, 'Float': 0x8E8E}.get(Tn)
        elif F.startswith('EAC'):
            internal = GLI[F][Tn == 'SNorm'] if Tn in ('UNorm', 'SNorm') else None
        elif F in GLI:
            g = GLI[F]
            internal = g[srgb] if isinstance(g, tuple) else None if srgb else g
        else:
            internal = None
    if internal is None:
        return None
    f = [('identifier', 0, 8, {0xBB31312058544BAB}), ('identifier end', 8, 4, {0x0A1A0A0D}),
         ('endianness', 12, 4, {0x04030201}),
         ('type, type size and format', (16, 20, 24), (4, 4, 4), fm),
         ('internal format', 28, 4, {internal}), ('base format', 32, 4, BASES[ch]),
         ('width', 36, 4, q('width')), ('height', 40, 4, {0} if dim == 'Dim1D' else q('height')),
         ('depth', 44, 4, q('depth') if dim == 'Dim3D' else {0}),
         ('array elements', 48, 4, q('depth') if arr else {0}),
         ('faces', 52, 4, {6 if dim == 'Cube' else 1}),
         ('levels', 56, 4, I(mips) if mips else q('mips'))]
    return f


def s02(ctx):
    ctx.rule('field', 'for every admitted format, type, colour space and shape each header field, read back from the bytes handed to the stream, holds '
                      'the value the KTX and OpenGL specifications assign')
    ctx.rule('size', 'the header is 64 bytes followed by exactly the key/value bytes it announces')
    s = Save(ctx, 'Ktx')

    def total(ctx, s, key, h, case):
        g = h.at(60, 4)
        if h.size < 64:
            ctx.bad('size', key, s.f.name, 'the header is %d bytes long, not 64' % h.size)
        elif g and g[0] is not None and g[0].op == 'int':
            ctx.check(g[0].a[0] == h.size - 64, 'size', key, g[1].where(), '%d bytes of key/value data are announced and %d follow' % (g[0].a[0], h.size - 64))
        else:
            ctx.und('size', key, s.f.name, 'the number of key/value bytes is not constant')
    headers(ctx, s, cases(ctx, s), ktx_fields, total)
    ctx.floor('field', 1); ctx.floor('size', 1)
    ctx.assume('the accessors of Texture return what T01 to T05 establish; the host is little-endian')


# ---------------------------------------------------------------- PVR

PVRS = dict(PVRTC1_RGB_2BPP=0, PVRTC1_RGBA_2BPP=1, PVRTC1_RGB_4BPP=2, PVRTC1_RGBA_4BPP=3, PVRTC2_RGBA_2BPP=4, PVRTC2_RGBA_4BPP=5, ETC1=6,
            BC1_RGB=7, BC1_RGBA=7, BC2=9, BC3=11, BC4=12, BC5=13, BC6H=14, BC7=15, E5B9G9R9_UFloat=19,
            ETC2_R8G8B8=22, ETC2_R8G8B8A8=23, ETC2_R8G8B8A1=24, EAC_R11=25, EAC_R11G11=26)
for _k, _n in enumerate(ASTC):
    PVRS['ASTC_' + _n] = 27 + _k
NORM = {'UNorm': 0, 'SNorm': 1, 'UInt': 2, 'Int': 3}


def pvr_fields(s, F, Tn, cs, alpha, dim, arr, mips):
    pre = alpha == 'PreMultiplied'
    if F in PVRS:
        code = PVRS[F] - (1 if pre and F in ('BC2', 'BC3') else 0)
    else:
        ps = re.findall(r'([RGBA])(\d+)', F.split('_')[0])
        if not ps or ''.join(a + b for a, b in ps) != F.split('_')[0]:
            return None
        code = 0
        for k, (c, n) in enumerate(ps):
            code |= ord(c.lower()) << 8 * k | int(n) << 8 * (k + 4)
    if Tn == 'Float':
        ct = {12}
    elif Tn == 'UFloat':
        ct = {13}
    else:
        b = NORM[Tn]
        p = plain(F)
        if p:
            ct = {b + {8: 0, 16: 4, 32: 8}[p[1]]}
        elif F in PVRS or F == 'R4G4':
            ct = {b, b + 4, b + 8}
        else:
            size = s.const('blockSize', s.fmt[F])
            ct = {b + {2: 4, 4: 8}.get(size, 0)} if F not in ('A8B8G8R8', 'B8G8R8A8', 'B8G8R8') else {b}
    return [('version', 0, 4, {0x03525650}), ('flags', 4, 4, {2 if pre else 0}), ('pixel format', 8, 8, {code}),
            ('colour space', 16, 4, {int(cs == 'sRGB')}), ('channel type', 20, 4, ct),
            ('height', 24, 4, q('height')), ('width', 28, 4, q('width')),
            ('depth', 32, 4, q('depth') if dim == 'Dim3D' else {1}),
            ('surfaces', 36, 4, q('depth') if arr else {1}),
            ('faces', 40, 4, {6 if dim == 'Cube' else 1}),
            ('levels', 44, 4, I(mips) if mips else q('mips'))]


def four(x):
    return sum(ord(c) << 8 * k for k, c in enumerate(x))


def s03(ctx):
    ctx.rule('field', 'for every admitted format, type, colour space, alpha mode and shape each header field, read back from the bytes handed to the '
                      'stream, holds the value the PVR specification assigns')
    ctx.rule('kind', 'the metadata tells BC1 with and without alpha, arrays and one-dimensional textures apart')
    ctx.rule('metadata', 'the header is 52 bytes followed by exactly the metadata bytes it announces, which form a list of complete blocks')
    s = Save(ctx, 'Pvr')

    def total(ctx, s, key, h, case):
        g = h.at(48, 4)
        if h.size < 52:
            ctx.bad('metadata', key, s.f.name, 'the header is %d bytes long, not 52' % h.size)
            return
        if not g or g[0] is None or g[0].op != 'int':
            ctx.und('metadata', key, s.f.name, 'the metadata size is not constant')
            return
        if g[0].a[0] != h.size - 52:
            ctx.bad('metadata', key, g[1].where(), '%d bytes of metadata are announced and %d follow' % (g[0].a[0], h.size - 52))
            return
        p = 52
        keys = []
        while p < h.size:
            z = h.at(p + 8, 4)
            if p + 12 > h.size:
                ctx.bad('metadata', key, g[1].where(), 'the metadata ends inside a block')
                return
            if not z or z[0] is None or z[0].op != 'int':
                ctx.und('metadata', key, g[1].where(), 'the size of a metadata block is not constant')
                return
            k = h.at(p + 4, 4)
            keys.append(k[0].a[0] if k and k[0] is not None and k[0].op == 'int' else None)
            p += 12 + z[0].a[0]
        if None not in keys:
            F, dim, arr = case[0], case[4], case[5]
            want = [four(x) for x, c in (('BC1A', F == 'BC1_RGBA'), ('BC1\0', F == 'BC1_RGB'), ('ARRY', arr), ('DIM1', dim == 'Dim1D')) if c]
            ctx.check(sorted(keys) == sorted(want), 'kind', key, g[1].where(), 'the metadata keys are %s instead of %s' % (
                ', '.join('%#x' % v for v in keys) or 'none', ', '.join('%#x' % v for v in want) or 'none'))
        ctx.check(p == h.size, 'metadata', key, g[1].where(), 'the last metadata block announces %d bytes more than follow' % (p - h.size))
    headers(ctx, s, cases(ctx, s), pvr_fields, total)
    ctx.floor('field', 1); ctx.floor('metadata', 1)
    ctx.assume('the accessors of Texture return what T01 to T05 establish; the host is little-endian')


# ---------------------------------------------------------------- order of the encoded surfaces

class Und(Exception):
    pass


def closed(a, t, inside):
    """the value of t with what loops not in `inside` accumulate replaced by initial value + trip count * step"""
    def sub(x):
        if x.op == 'memphi' and x.a[1] not in inside:
            h, k = x.a[1], x.a[2]
            ins = [(p, a.edge_state[p, h].mem.get(k)) for p in a.fn.blocks[h].preds if (p, h) in a.edge_state]
            late = [v for p, v in ins if p in a.fn.loops[h]]
            init = [v for p, v in ins if p not in a.fn.loops[h]]
        elif x in a.ivinfo and a.ivinfo[x][0] not in inside:
            h, init, late = a.ivinfo[x]
        else:
            return x
        if len(set(late)) != 1 or len(set(init)) != 1 or late[0] is None or init[0] is None:
            return x
        v = late[0]
        if v.op != 'add' or v.a[1] is not x and v.a[2] is not x:
            return x
        step = v.a[2] if v.a[1] is x else v.a[1]
        if any(y is x or y.op == 'memphi' and y.a[1] == h or y in a.ivinfo and a.ivinfo[y][0] == h for y in walk(step)):
            return x
        N = trips(a, h)
        if N is None:
            return x
        w = v.a[0]
        n = N if (width(N) or 32) == w else cast('zext' if w == 64 else 'trunc', 'i%d' % w, N)
        return binop('add', w, closed(a, init[0], inside), binop('mul', w, n, closed(a, step, inside)))
    return rebuild(t, sub)


def trips(a, h):
    """the number of iterations of a loop counting 0, 1, .., N-1"""
    for x, (hh, init, late) in a.ivinfo.items():
        if hh != h:
            continue
        for p in a.fn.blocks[h].preds:
            if p in a.fn.loops[h]:
                r = full_range(a, x, p)
                if isinstance(r, list):
                    return r[0]
    return None


def newfacts(a, n, s):
    have = set(a.instate[n].facts.s)
    return [c for c in a.edge_state[n, s].facts.s if c not in have]


def surfaces(a, env0, limit=20000):
    """the stream of surfaces, lengths and padding for one small shape: the iteration space of the writer's loops,
    each branch decided by its condition over loop counters and shape.  Raises Und when a branch depends on anything else"""
    env = dict(env0)
    ptrs = {}
    by = {}
    for e, n in outs(a):
        by.setdefault(e.block, []).append((e, n))

    def num(t):
        return teval(noep(t), env)

    def place(t, own=None):
        b, o, v = split_ptr(noep(t))
        if b.op == 'cast' or b.op == 'bitcast':
            b = b.a[-1]
        for k, z in v:
            n = num(k)
            if n is None:
                raise Und('the offset %s' % show(k))
            o += (n - (1 << 64) if n >> 63 else n) * z
        if b in ptrs:
            r = ptrs[b]
            return r[:3] + (r[3] + o,)
        if b.op == 'call' and cname(b.a[0]) == 'cuttlefish::Texture::data':
            r = tuple(num(x) for x in b.a[2][1:4]) if len(b.a) > 2 and isinstance(b.a[2], tuple) else None
            if r is None or None in r:
                raise Und('the surface %s' % show(b))
            return r + (o,)
        return None
    out = []
    n = 0
    heads = {}
    for x, (h, init, late) in a.ivinfo.items():
        heads.setdefault(h, []).append((x, init, late))
    while limit:
        limit -= 1
        for e, ln in by.get(n, ()):
            if cname(e.name) == PUT:
                v = num(e.args[1])
                out.append(('v', 1, None if v is None else v & 0xff, e))
                continue
            z = num(ln)
            pl = place(e.args[1])
            if pl:
                if z is None:
                    raise Und('the length %s' % show(ln))
                out.append(('d',) + pl + (z, e))
            else:
                if z is None:
                    raise Und('the length %s' % show(ln))
                v = None
                if z in (1, 2, 4, 8):
                    v = a.load(e.args[1], z, 'i%d' % (8 * z), e.st, e.i)
                    if v is not None:
                        v = teval(noep(closed(a, v, set(a.fn.loops_of(e.block)))), env)
                out.append(('v', z, v, e))
        ss = sorted({s for s in a.fn.blocks[n].succ if (n, s) in a.exec_edges})
        if not ss:
            return out
        if len(ss) > 1:
            ok = []
            for s in ss:
                vs = [teval(noep(c), env) for c in newfacts(a, n, s)]
                if 0 in vs:
                    continue
                if None in vs or not vs:
                    ok.append((s, False))
                else:
                    ok.append((s, True))
            if len(ok) != 1:
                raise Und('a branch at %s' % a.fn.blocks[n].insts[-1].where())
            s = ok[0][0]
        else:
            s = ss[0]
        if s in heads:
            back = n in a.fn.loops.get(s, ())
            new = {}; newp = {}
            for x, init, late in heads[s]:
                src = late if back else init
                if len(set(src)) != 1:
                    continue
                t = src[0]
                if t.op == 'iv' or t in env or width(t):
                    v = num(t)
                    if v is not None:
                        new[x] = v
                        continue
                try:
                    r = place(t)
                except Und:
                    r = None
                if r:
                    newp[x] = r
            for x, _, _ in heads[s]:
                env.pop(x, None); ptrs.pop(x, None)
            env.update(new); ptrs.update(newp)
        n = s
    raise Und('the loops do not end')


def squash(out):
    """merge adjacent pieces of one surface and adjacent padding"""
    r = []
    for x in out:
        if x[0] == 'd':
            if x[5] == 0:
                continue
            if r and r[-1][0] == 'd' and r[-1][1:4] == x[1:4] and r[-1][4] + r[-1][5] == x[4]:
                r[-1] = r[-1][:5] + (r[-1][5] + x[5], x[6])
                continue
        elif x[1] == 0:
            continue
        elif r and r[-1][0] == 'v' and r[-1][2] == 0 and x[2] == 0 and x[1] < 4 and r[-1][1] + x[1] < 4:
            r[-1] = ('v', r[-1][1] + x[1], 0, x[3])
            continue
        r.append(x)
    return r


def expected(s, kind, F, dim, arr, env):
    W, H, D, M = (env[q(x)] for x in ('width', 'height', 'depth', 'mips'))
    bs, bw, bh = (s.const(x, s.fmt[F]) for x in ('blockSize', 'blockWidth', 'blockHeight'))
    faces = 6 if dim == 'Cube' else 1
    w = lambda l: max(W >> l, 1)
    h = lambda l: max(H >> l, 1)
    d = lambda l: max(D >> l, 1) if dim == 'Dim3D' else D
    size = lambda l: -(-w(l) // bw) * -(-h(l) // bh) * bs
    out = []
    if kind == 'Dds':
        for e in range(D if arr else 1):
            for f in range(faces):
                for l in range(M):
                    for z in range(d(l) if dim == 'Dim3D' else 1):
                        out.append(('d', f, l, e + z, 0, size(l)))
        return out
    for l in range(M):
        if kind == 'Ktx':
            row = w(l) * bs if bw == 1 else None
            pad = -row % 4 if row else 0
            n = (row + pad) * h(l) if row else size(l)
            n *= d(l) * (faces if arr else 1)
            out.append(('v', 4, n))
        for z in range(d(l)):
            for f in range(faces):
                if kind == 'Ktx' and pad:
                    for y in range(h(l)):
                        out.append(('d', f, l, z, y * row, row))
                        out.append(('v', pad, 0))
                else:
                    out.append(('d', f, l, z, 0, size(l)))
    return out


def tell(x):
    if x is None:
        return 'nothing'
    if x[0] == 'd':
        return 'face %d level %d slice %d bytes %d to %d' % (x[1], x[2], x[3], x[4], x[4] + x[5])
    return '%d bytes%s' % (x[1], '' if x[2] is None else ' of value %d' % x[2])


def compare(got, want):
    """None when the streams agree; else (event or None, text)"""
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        if g is None or w is None or g[0] != w[0]:
            return g and g[-1], '%s where %s belongs' % (tell(g), tell(w))
        gg = g[:-1]
        if g[0] == 'v' and g[2] is None:
            gg = g[:2] + (w[2],)
        if gg != w:
            return g[-1], '%s where %s belongs' % (tell(g), tell(w))
    return None


def nest(a, e):
    """the loops around an event, outermost first, without those running exactly once: [(header, counter, bound)], and the
    counters of the others; None when not understood"""
    hs = sorted(a.fn.loops_of(e.block), key=lambda h: -len(a.fn.loops[h]))
    out = []; once = {}
    for h in hs:
        if skippable(a, h, e):
            return None
        c = []
        one = False
        for x, (hh, init, late) in a.ivinfo.items():
            if hh == h and affine(a, x) and len(init) == 1 and init[0].op == 'int':
                if a.instate[e.block].facts.decide(cmp('eq', x, I(0, width(x) or width(init[0]) or 32))) is True:
                    once[x] = I(0, width(init[0]) or 32)
                    one = True
                    continue
                r = full_range(a, x, e.block)
                if isinstance(r, list):
                    c.append((x, r))
        if one:
            continue
        if not c:
            return None
        out.append((h,) + c[0])
    return out, once


def skippable(a, h, e):
    """an iteration of the loop h may come back to its head without the event"""
    for p in a.fn.blocks[h].preds:
        if p in a.fn.loops[h] and (p, h) in a.exec_edges:
            if e.block == h:
                continue
            if path_avoiding(a, h, {p}, blocks={e.block} | {b for b in range(len(a.fn.blocks)) if b not in a.fn.loops[h]}, strict=False) is not None:
                if inner(a, h, e, p):
                    return True
    return False


def inner(a, h, e, p):
    """the way round avoids the event by more than an inner loop that may run zero times"""
    ls = [x for x in a.fn.loops_of(e.block) if x in a.fn.loops[h] and x != h]
    if not ls:
        return True
    o = max(ls, key=lambda x: len(a.fn.loops[x]))
    return path_avoiding(a, h, {p}, blocks={o} | {b for b in range(len(a.fn.blocks)) if b not in a.fn.loops[h]}, strict=False) is not None


def proof(s, kind, a, dim, arr, F):
    """the single write of encoded data sits in the loop nest the container defines, each loop complete and each surface
    named by its own counters"""
    ds = [(e, n) for e, n in outs(a) if payload(a, e)]
    if len(ds) != 1:
        return False
    e, ln = ds[0]
    n = nest(a, e)
    if n is None:
        return False
    loops, once = n
    c = split_ptr(noep(e.args[1]))[0]
    rows = False
    if c in a.ivinfo:           # rows: a pointer advanced by the length written
        h, init, late = a.ivinfo[c]
        if len(set(init)) != 1 or len(set(late)) != 1 or not loops or loops[-1][0] != h or kind != 'Ktx':
            return False
        b, o, v = split_ptr(noep(late[0]))
        L = noep(ln)
        step = I(o, 64)
        for k, z in v:
            step = binop('add', 64, step, binop('mul', 64, k, I(z, 64)))
        if b is not c or judge(step, L, [{**x, loops[0][1]: l} for x in ENVS for l in (0, 1, 3)]) not in (True, None) or not loops[-1][2]:
            return False
        y, ys = loops[-1][1], loops[-1][2]
        rows = True
        loops = loops[:-1]
        c = split_ptr(noep(init[0]))[0]
    if c.op != 'call' or len(c.a) < 3 or cname(c.a[0]) != 'cuttlefish::Texture::data':
        return False
    f, l, i = [rebuild(noep(x), lambda y: once.get(y, y)) for x in c.a[2][1:4]]
    D = lambda lv: mm('umax', binop('lshr', 32, q('depth'), lv), I(1)) if dim == 'Dim3D' else q('depth')
    want = []
    lv = l
    if kind == 'Dds':
        want += [(i, q('depth'))] if arr else []
        want += [(f, I(6))] if dim == 'Cube' else []
        want += [(l, q('mips'))]
        want += [(i, D(l))] if dim == 'Dim3D' else []
        if not arr and dim != 'Dim3D' and i is not I(0):
            return False
    else:
        want = [(l, q('mips')), (i, D(l))] + ([(f, I(6))] if dim == 'Cube' else [])
    if dim != 'Cube' and f is not I(0):
        return False
    if len(want) != len(loops):
        return False
    for (t, N), (h, x, r) in zip(want, loops):
        if t is not x or not any(n is N for n in (noep(z) for z in r)):
            return False
    if rows:
        Hn = mm('umax', binop('lshr', 32, q('height'), l), I(1))
        if not any(noep(z) is Hn for z in ys):
            return False
        bs = s.const('blockSize', s.fmt[F])
        w = cast('zext', 'i64', binop('mul', 32, mm('umax', binop('lshr', 32, q('width'), l), I(1)), I(bs)))
        return same_lin(noep(ln), w) or noep(ln) is w
    full = s.datasize(F, dim, f, l, i)
    g = rebuild(noep(ln), lambda y: once.get(y, y))
    if g is full:
        return True
    # the length of another surface of the same level
    while g.op == 'ite':
        g = g.a[1]
    while full.op == 'ite':
        full = full.a[1]
    return g is full


SMALL = {'Dim1D': [dict(width=5, height=1, depth=1, mips=3), dict(width=7, height=1, depth=1, mips=1)],
         'Dim2D': [dict(width=5, height=3, depth=1, mips=3), dict(width=4, height=2, depth=1, mips=2)],
         'Dim3D': [dict(width=5, height=3, depth=4, mips=3), dict(width=2, height=1, depth=5, mips=2), dict(width=1, height=1, depth=1, mips=1)],
         'Cube': [dict(width=3, height=3, depth=1, mips=2), dict(width=4, height=4, depth=1, mips=1)]}


def s04(ctx):
    ctx.rule('stream', 'the loops around the write of encoded data are exactly those of the container, in its order, complete, and name every surface by '
                       'their counters; otherwise the iteration space is enumerated for small shapes and compared with the order the container defines')
    ctx.rule('lengths', 'every length field and every run of padding between surfaces equals what the container defines, for small shapes of every kind')
    kinds = {'Dds': ['R8G8B8A8', 'R8', 'BC1_RGB'], 'Ktx': ['R8G8B8A8', 'R8', 'R8G8B8', 'R16', 'R16G16B16', 'BC1_RGB', 'BC3'], 'Pvr': ['R8G8B8A8', 'R8G8B8', 'BC1_RGB']}
    for kind, fs in kinds.items():
        s = Save(ctx, kind)
        for F in fs:
            for dim, arr in SHAPES:
                key = '%s %s %s%s' % (kind, F, dim, ' array' if arr else '')
                a = s.run(F, 'UNorm', dim=dim, arr=arr)
                ds = [e for e, n in outs(a) if payload(a, e)]
                where = ds[0].where() if ds else s.f.name
                x = unknownout(a)
                if x:
                    ctx.und('stream', key, where, 'a call of %s on the stream is not understood' % cname(x.name))
                    continue
                proved = proof(s, kind, a, dim, arr, F)
                bad = None; why = None
                n = 0
                for sh in SMALL[dim]:
                    for depth in ((sh['depth'],) if not arr else (1, 3)):
                        env = {q(k): v for k, v in dict(sh, depth=depth).items()}
                        try:
                            got = surfaces(a, env)
                        except Und as u:
                            why = str(u)
                            continue
                        # what precedes the first surface and its length field is the header
                        want = expected(s, kind, F, dim, arr, env)
                        skip = sum(1 for g in got if g[0] == 'v' and not a.fn.loops_of(g[-1].block))
                        if any(g[0] == 'd' for g in got[:skip]):
                            skip = next(k for k, g in enumerate(got) if g[0] == 'd')
                        b = compare(squash(got[skip:]), squash([w + (None,) for w in want]) and [w[:-1] for w in squash([w + (None,) for w in want])])
                        n += 1
                        if b:
                            bad = b + (env,)
                            break
                    if bad:
                        break
                if bad:
                    e, text, env = bad
                    ctx.bad('stream' if 'face' in text else 'lengths', key, e.where() if e else where, '%s (%s)' % (text, ', '.join('%s=%d' % (k.a[0], v) for k, v in env.items())))
                else:
                    if proved:
                        ctx.ok('stream', key, where, 'proved for every shape')
                    elif n:
                        ctx.ok('stream', key, where, 'agrees on %d small shapes' % n)
                    else:
                        ctx.und('stream', key, where, 'not decided: %s' % why)
                    if n:
                        ctx.ok('lengths', key, where, 'agree on %d small shapes' % n)
    ctx.floor('stream', 1); ctx.floor('lengths', 1)
    ctx.assume('data() and dataSize() return what T01 establishes; the destination accepts every byte (S05 covers failures)')


# ---------------------------------------------------------------- S05

STATECALLS = {'fail': 1, 'bad': 1, 'operator!': 1, 'good': 0, 'operator bool': 0}


def statecall(n):
    """a query of a stream's error state"""
    return n is not None and short(n) in STATECALLS and cname(n).startswith('std::') and ('basic_ios' in n or 'stream' in n)


def statecells(a, e0, bad, local=None):
    """values of the queries of the stream's error state executed after event e0, if the stream fails there with state `bad`"""
    env = {}
    after = set()
    evflow(a, e0, lambda e: after.add(e) and False)
    for e in after:
        if e.i.op == 'load' and e.i.ty == 'i32':
            p = noep(e.args[0])
            b, o, v = split_ptr(p)
            if state(p) or local is not None and o == 32 and v and b is local:
                env[T('load', e.args[0], e.st.epoch, 'i32')] = bad
                x = a.env.get(e.i.id)
                if x is not None and x.op != 'int':
                    env[x] = bad
        elif e.i.op in ('call', 'invoke') and statecall(e.name):
            n = short(e.name)
            x = a.env.get(e.i.id)
            if x is not None:
                env[x] = (bad & 1) if n == 'bad' else STATECALLS[n]
        elif e.i.op in ('call', 'invoke') and e.name and short(e.name) == 'rdstate':
            x = a.env.get(e.i.id)
            if x is not None:
                env[x] = bad
    return env


def info(a):
    return getattr(a, 'ivinfo', {})


def fates(a, e0, env0, avoid=(), limit=20000):
    """{value: event} of what the function can return after event e0 when the terms of env0 have the given values; the value is None when it is
    not understood.  Paths passing an event of avoid are not followed.  Path-sensitive in the conditions the result depends on"""
    stop = {}
    for e in avoid:
        stop.setdefault(e.block, []).append(e)
    order = eventpos(a)
    rets = {}
    for e in a.events:
        if e.i.op == 'ret':
            rets[e.block] = e
    # the conditions and merged values the result depends on
    phis = {}
    conds = set()
    st = [e.args[0] for e in rets.values() if e.args]
    used = {}
    for n, s in a.exec_edges:
        if len(a.fn.blocks[n].succ) > 1:
            for c in newfacts(a, n, s):
                st.append(c)
                used.setdefault(c, set()).add(n)
    seen = set()
    while st:
        for y in walk(st.pop()):
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'ite':
                conds |= set(walk(y.a[0]))
            if y.op == 'phi':
                phis.setdefault(y.a[1], set()).add(y)
                st += [v for _, v in y.a[2]]
            elif y in info(a):
                st += info(a)[y][1] + info(a)[y][2]
    conds |= {c for c, n in used.items() if len(n) > 1}
    conds = {c for c in conds if c.op in ('cmp', 'load', 'call', 'not')} - set(env0)
    conds |= {notc(c) for c in conds if c.op == 'cmp'}
    heads = {}
    for x, (h, init, late) in info(a).items():
        if x in seen:
            heads.setdefault(h, []).append((x, init, late))
    out = {}

    def known(facts):
        r = {}
        for c in facts:
            if c.op == 'not' and c.a[-1] in conds:
                r[c.a[-1]] = 0
            elif c in conds:
                r[c] = 1
            n = notc(c)
            if n in conds:
                r[n] = 0
        return r
    first = (e0.block, frozenset(known(a.instate[e0.block].facts.s).items()), True)
    work = [first]
    done = {first}
    while work:
        limit -= 1
        if not limit:
            out[None] = e0
            return out
        n, kn, start = work.pop()
        env = dict(kn); env.update(env0)
        if any(not start or order[x] > order[e0] for x in stop.get(n, ())):
            continue
        if n in rets and (not start or order[rets[n]] > order[e0]):
            r = rets[n]
            v = teval(r.args[0], env) if r.args else 0
            if v is None and r.args:
                vs = {teval(x, env) for x in leaves(under2(r.args[0], env), a)}
                v = vs.pop() if len(vs) == 1 else None
            out.setdefault(v, r)
            continue
        for s in sorted(set(a.fn.blocks[n].succ)):
            if (n, s) not in a.exec_edges:
                continue
            nf = newfacts(a, n, s) if len(set(a.fn.blocks[n].succ)) > 1 else []
            if any(teval(c, env) == 0 for c in nf):
                continue
            new = dict(kn)
            new.update(known(nf))
            back = n in a.fn.loops.get(s, ())
            if s in heads or back:
                if back:
                    keep = known(a.instate[s].facts.s)
                    new = {k: v for k, v in new.items() if k in keep or k in info(a) and info(a)[k][0] != s and n in a.fn.loops[info(a)[k][0]]}
                vals = {}
                for x, init, late in heads.get(s, ()):
                    src = late if back else init
                    vs = {teval(t, env) for t in src}
                    if len(vs) == 1 and None not in vs:
                        vals[x] = vs.pop()
                for x, _, _ in heads.get(s, ()):
                    new.pop(x, None)
                # counters are only known in the first iteration, values that settle always
                new.update({k: v for k, v in vals.items() if not back or settled(a, k)})
            for p in phis.get(s, ()):
                new.pop(p, None)
                for pb, t in p.a[2]:
                    if pb == n:
                        v = teval(t, env)
                        if v is not None:
                            new[p] = v
            k = (s, frozenset(new.items()), False)
            if k not in done:
                done.add(k)
                work.append(k)
    return out


def settled(a, iv):
    """the loop-carried value is a choice among constants and itself, not a counter"""
    h, init, late = info(a)[iv]
    return not any(y.op in ('add', 'sub', 'mul', 'ptr', 'shl', 'lshr') and iv in walk(y) for x in late for y in walk(x))


def under2(t, env):
    """the term with its choices decided where env decides them"""
    while t.op == 'ite':
        c = teval(t.a[0], env)
        if c is None:
            break
        t = t.a[1] if c & 1 else t.a[2]
    return t


def s05(ctx):
    ctx.rule('write', 'from every event handing bytes to the stream, with the stream\'s state failed from there on, every path returns the write error')
    ctx.rule('refuse', 'under facts making the texture unconverted, the name null or the container unknown, every overload returns that result and neither '
                       'opens nor writes anything')
    ctx.rule('open', 'with the file not open, the write error is returned')
    ctx.rule('result', 'the result of the container writer reaches the caller unchanged')
    ctx.rule('flush', 'success is returned only on paths passing a close or flush of the file, and never after one that failed')
    ctx.rule('bytes', 'saving to memory returns the bytes of the stream saved to exactly when saving succeeded')
    writers(ctx)
    front(ctx)
    readback(ctx)
    ctx.floor('write', 1)


SOME = {T('q', 'width'): 37, T('q', 'height'): 19, T('q', 'depth'): 11, T('q', 'mips'): 3}      # at least one of everything


def writers(ctx):
    for kind, fs in (('Dds', ['R8G8B8A8', 'BC1_RGB']), ('Ktx', ['R8G8B8A8', 'R8G8B8', 'BC1_RGB']), ('Pvr', ['R8G8B8A8', 'BC1_RGB'])):
        s = Save(ctx, kind)
        OK, ERR = s.res['Success'], s.res['WriteError']
        shapes = SHAPES if ctx.tier == 'thorough' else [('Dim2D', 0), ('Dim3D', 0), ('Cube', 1)]
        for F in fs:
            for dim, arr in shapes:
                for al in ('Standard', 'PreMultiplied') if kind == 'Pvr' else ('Standard',):
                    key = '%s %s %s%s %s' % (kind, F, dim, ' array' if arr else '', al)
                    a = s.run(F, 'UNorm', dim=dim, arr=arr, alpha=al, good=False)
                    x = unknownout(a)
                    if x:
                        ctx.und('write', key, x.where(), 'a call of %s on the stream is not understood' % cname(x.name))
                        continue
                    for e, n in outs(a):
                        env = statecells(a, e, 1)
                        env.update(SOME)
                        r = fates(a, e, env)
                        wrong = [v for v in r if v not in (None, ERR)]
                        if wrong:
                            ctx.bad('write', key, e.where(), 'a failure of this write is not reported: the function can return %s at %s' % (
                                '/'.join(k for k, v in s.res.items() if v in wrong), r[wrong[0]].where()))
                        elif None in r:
                            ctx.und('write', key, e.where(), 'the result after a failed write is not understood')
                        else:
                            ctx.ok('write', key, e.where(), 'returns the write error')


FRONTKEEP = [r'basic_[iof]*(string)?stream<', r'basic_ios<', r'Texture::fileType\(', r'readStreamData\(', r'Texture::save\(', r'cuttlefish::save(Dds|Ktx|Pvr)\(', r'basic_filebuf<']
FLUSH = ('close', 'flush', 'sync', 'pubsync')


def front(ctx):
    """the overloads of Texture::save: refusals, opening, results and flushing"""
    from .texture import Tex
    t = Tex(ctx, keep=FRONTKEEP)
    res = t.m.enum('cuttlefish::Texture::SaveResult'); ft = t.m.enum('cuttlefish::Texture::FileType')
    ff = t.m.find('cuttlefish::Texture::save(char const*')
    fs = t.m.find('cuttlefish::Texture::save(std::ostream')
    fv = t.m.find('cuttlefish::Texture::save(std::vector')
    pure = lambda n: n.endswith(' const') and not statecall(n)
    iswriter = lambda e: e.i.op in ('call', 'invoke') and e.name and re.fullmatch(r'cuttlefish::save(Dds|Ktx|Pvr)', cname(e.name))
    issave = lambda e: e.i.op in ('call', 'invoke') and e.name and cname(e.name) == 'cuttlefish::Texture::save'
    opens = lambda e: e.i.op in ('call', 'invoke') and e.name and (short(e.name) in ('basic_ofstream', 'basic_fstream') and len(e.args) > 2 or short(e.name) == 'open')
    keeps = lambda n: pure(n) or short(n) in ('fileType', 'is_open') or statecall(n)
    inv = {v: k for k, v in res.items()}

    def run(f, binds=None, mem=None, facts=()):
        ctx.fn(f)

        def bind(an, i, dem, ar, st):
            return binds(i, dem, ar) if binds else None
        return Analysis(f, args(f), pure=pure, keeps=keeps, bind=bind, mem=mem or {}, facts=list(facts))

    def result(rule, key, a, want, text, extra=()):
        """every return gives `want` (a code or a term)"""
        for v, e in a.rets():
            for x in leaves(v, a):
                if x is UNDEF:
                    continue
                if isinstance(want, Term):
                    ctx.check(True if x is want else False if x.op == 'int' or x.op == 'call' else None, rule, key, e.where(), '%s: returns %s' % (text, show(x)))
                else:
                    ctx.check(True if x.op == 'int' and x.a[0] == want else False if x.op == 'int' else None, rule, key, e.where(), '%s: returns %s' % (
                        text, inv.get(x.a[0], x.a[0]) if x.op == 'int' else show(x)))

    def reach(rule, key, a, pred, text):
        b = [e for e in a.events if pred(e) and a.reachable(e.block)]
        for e in b:
            ctx.bad(rule, key, e.where(), text)
        if not b:
            ctx.ok(rule, key, a.fn.name, 'not reachable')
    b, e = T('load', t.cell('textures'), 0, 'ptr'), T('load', ptr(t.impl, t.off['textures'] + 8), 0, 'ptr')
    empties = [('no texture', dict(mem=t.null())), ('unconverted', dict(facts=[cmp('ne', t.impl, NULL), cmp('eq', b, e)]))]
    Q = q('result')
    nested = lambda i, dem, ar: I(res['Invalid']) if cname(dem) == 'cuttlefish::Texture::save' else None
    for name, kw in empties:
        for f in (ff, fs, fv):
            key = '%s %s' % ({ff: 'file', fs: 'stream', fv: 'memory'}[f], name)
            a = run(f, binds=nested if f is fv else None, **kw)
            result('refuse', key, a, res['Invalid'], 'saving an unconverted texture')
            reach('refuse', key, a, lambda e: opens(e) or iswriter(e) or f is ff and issave(e) or iscall(e, 'cuttlefish::readStreamData') or
                  e.i.op == 'store' and f is fv and root(noep(e.args[1])) is T('arg', 1, '$1'), 'reached although nothing was converted')
    ok = [cmp('ne', t.impl, NULL), cmp('ne', b, e)]
    a = run(ff, facts=ok + [cmp('eq', T('arg', 1, '$1'), NULL)])
    result('refuse', 'file null name', a, res['Invalid'], 'a null file name')
    reach('refuse', 'file null name', a, opens, 'a null name is opened')
    # a stream
    for n, v in sorted(ft.items()) + [('5', max(ft.values()) + 1)]:
        a = run(fs, facts=ok + [cmp('eq', T('arg', 2, '$2'), I(v))], binds=lambda i, dem, ar: Q if re.fullmatch(r'cuttlefish::save(Dds|Ktx|Pvr)', cname(dem)) else None)
        if n in ('DDS', 'KTX', 'PVR'):
            result('result', 'stream ' + n, a, Q, 'the result of the container writer is not passed on')
        else:
            result('refuse', 'stream ' + n, a, res['UnknownFormat'], 'an unknown container')
            reach('refuse', 'stream ' + n, a, iswriter, 'an unknown container is written')
    # a file that cannot be opened
    def unopened(i, dem, ar):
        n = short(dem)
        if n == 'is_open':
            return I(0, 1)
        if statecall(dem):
            return I((STATECALLS[n] if n != 'bad' else 0), 1)
        if cname(dem) == 'cuttlefish::Texture::save':
            return I(res['WriteError'])     # what the writers return for a stream in a failed state
        return None
    a = run(ff, facts=ok + [cmp('ne', T('arg', 1, '$1'), NULL)], binds=unopened)
    result('open', 'file', a, res['WriteError'], 'the file cannot be opened')
    # results of a file that is open
    for n, v in sorted(res.items()):
        def opened(i, dem, ar, v=v):
            if short(dem) == 'is_open':
                return I(1, 1)
            if cname(dem) == 'cuttlefish::Texture::save':
                return I(v)
            return None
        a = run(ff, facts=ok + [cmp('ne', T('arg', 1, '$1'), NULL)], binds=opened)
        saves = [e for e in a.events if issave(e)]
        if not saves:
            ctx.und('flush', 'file', ff.where(), 'no call saving to the stream')
            break
        flush = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and short(e.name) in FLUSH]
        for s in saves:
            obj = root(noep(s.args[1]))
            env = {}
            if n != 'Success':
                r = fates(a, s, env)
                wrong = [x for x in r if x not in (None, v)]
                ctx.check(False if wrong else True if None not in r else None, 'result', 'file ' + n, s.where(),
                          'a failure to save (%s) is returned as %s' % (n, '/'.join(inv.get(x, str(x)) for x in wrong)))
                continue
            r = fates(a, s, env, avoid=flush)
            ctx.check(False if v in r else True if None not in r else None, 'flush', 'file', s.where(), 'success is returned without the file having been flushed or closed')
            for c in flush:
                if evflow(a, s, c) is None:
                    continue
                r = fates(a, c, statecells(a, c, 4, local=obj))
                wrong = [x for x in r if x not in (None, res['WriteError'])]
                ctx.check(False if wrong else True if None not in r else None, 'flush', 'file', c.where(),
                          'a failure of %s is not reported: %s is returned' % (short(c.name), '/'.join(inv.get(x, str(x)) for x in wrong)))
            r = fates(a, s, {})
            ctx.check(True if v in r else None if None in r else False, 'result', 'file Success', s.where(), 'success is never returned')
    # memory
    for n, v in sorted(res.items()):
        a = run(fv, facts=ok, binds=lambda i, dem, ar, v=v: I(v) if cname(dem) == 'cuttlefish::Texture::save' else None)
        saves = [e for e in a.events if issave(e)]
        reads = [e for e in a.events if iscall(e, 'cuttlefish::readStreamData')]
        if not saves:
            ctx.und('result', 'memory', fv.where(), 'no call saving to a stream')
            break
        result('result', 'memory ' + n, a, v, 'saving to the stream gave %s' % n)
        if n == 'Success':
            if not reads:
                ctx.und('bytes', 'memory', fv.where(), 'the bytes saved are not read by readStreamData')
                continue
            miss = evflow(a, saves[0], 'ret', avoid=reads)
            ctx.check(miss is None, 'bytes', 'memory', saves[0].where(), 'success is returned without the bytes saved')
            for r in reads:
                ctx.check(noep(r.args[0]) is T('arg', 1, '$1') and root(noep(r.args[1])) is root(noep(saves[0].args[1])), 'bytes', 'memory', r.where(),
                          'readStreamData reads another stream or into another vector')
        else:
            ctx.check(not [r for r in reads if a.reachable(r.block)], 'bytes', 'memory ' + n, reads[0].where() if reads else fv.where(), 'bytes are returned although saving failed')
    ctx.floor('refuse', 1); ctx.floor('result', 1); ctx.floor('flush', 1)


def readback(ctx):
    """readStreamData returns every byte of a stream that can seek"""
    m = ctx.load('lib/src/Shared.cpp', keep=FRONTKEEP)
    f = m.find('cuttlefish::readStreamData(')
    ctx.fn(f)
    a0 = Analysis(f, args(f), pure=lambda n: False)
    tells = [e for e in a0.events if e.i.op == 'call' and e.name and short(e.name) == 'tellg']
    if len(tells) != 1:
        return ctx.und('bytes', 'read back', f.where(), 'the position of the end is not read once')
    pos = T('xv', tells[0].val, (0,))
    if not any(pos in walk(x) for e in a0.events for x in e.args if isinstance(x, Term)):
        pos = tells[0].val
    a = Analysis(f, args(f), pure=lambda n: False, facts=[notc(cmp('slt', pos, I(0, 64)))])
    ev = lambda n: [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and short(e.name) == n and a.reachable(e.block)]
    tell = ev('tellg')
    reads = [e for e in ev('read') if e.args[1].op == 'load' and split_ptr(noep(e.args[1].a[0]))[0] is T('arg', 0, '$0')]
    if len(tell) != 1 or len(reads) != 1:
        return ctx.und('bytes', 'read back', f.where(), 'the bytes are not read into the vector in one piece')
    t, r = tell[0], reads[0]
    ends = [e for e in ev('seekg') if len(e.args) > 2 and e.args[2].op == 'int' and e.args[2].a[0] == 2]
    begs = [e for e in ev('seekg') if len(e.args) > 2 and e.args[2].op == 'int' and e.args[2].a[0] == 0 and e.args[1] is I(0, 64) or len(e.args) == 2]
    size = [e for e in ev('resize') if noep(e.args[0]) is T('arg', 0, '$0')]
    ctx.check(evflow(a, None, t, avoid=ends) is None, 'bytes', 'read back end', t.where(), 'the size is read without going to the end of the stream')
    ctx.check(evflow(a, t, r, avoid=begs) is None, 'bytes', 'read back start', r.where(), 'the bytes are read without going back to the start of the stream')
    ctx.check(evflow(a, None, r, avoid=size) is None and all(e.args[1] is pos for e in size) if size else None, 'bytes', 'read back size', r.where(), 'the vector does not have the size of the stream when the bytes are read')
    ctx.check(r.args[2] is pos, 'bytes', 'read back length', r.where(), 'the number of bytes read is %s' % show(r.args[2]))
    ctx.check(evflow(a, None, 'ret', avoid=[r]) is None, 'bytes', 'read back all', r.where(), 'the function can return without having read the bytes')


# ---------------------------------------------------------------- S06, S07

# formats the documentation excludes from each container (README.md, "Texture file format limitations")
REFUSED = {'Dds': {'R4G4B4A4', 'B4G4R4A4', 'B5G6R5', 'R5G5B5A1', 'B5G5R5A1', 'R8G8B8', 'B8G8R8', 'A8B8G8R8', 'A2R10G10B10', 'R16G16B16',
                   'ETC1', 'ETC2_R8G8B8', 'ETC2_R8G8B8A1', 'ETC2_R8G8B8A8', 'EAC_R11', 'EAC_R11G11'} | {'ASTC_' + n for n in ASTC} |
                  {'PVRTC1_RGB_2BPP', 'PVRTC1_RGBA_2BPP', 'PVRTC1_RGB_4BPP', 'PVRTC1_RGBA_4BPP', 'PVRTC2_RGBA_2BPP', 'PVRTC2_RGBA_4BPP'},
           'Ktx': {'R4G4', 'A4R4G4B4', 'B8G8R8'}, 'Pvr': set()}


def s06(ctx):
    ctx.rule('agree', 'for every format and type the container query, by constant propagation, answers yes exactly when the library admits the pair and the '
                      'writer, under facts fixing them, does not return Unsupported')
    ctx.rule('refused', 'a refused pair writes nothing and returns Unsupported; an accepted one cannot return Unsupported')
    ctx.rule('documented', 'the formats refused are those the documentation lists for the container')
    ctx.rule('unknown', 'without a container the query answers no')
    t = ctx.load(TEX, keep=[r'isValidFor(Dds|Ktx|Pvr)\('], limit=400, defs=CODECS_ON)
    tf = t.find('cuttlefish::Texture::isFormatValid(cuttlefish::Texture::Format, cuttlefish::Texture::Type, cuttlefish::Texture::FileType)')
    ctx.fn(tf)
    ft = t.enum('cuttlefish::Texture::FileType')
    S = {k: Save(ctx, k) for k in ('Dds', 'Ktx', 'Pvr')}
    qf = {k: s.m.find('cuttlefish::isValidFor%s(' % k) for k, s in S.items()}
    memo = {}

    def valid(k, F, Tn):
        if (k, F, Tn) not in memo:
            s = S[k]
            v, _ = const_call(s.m, 'cuttlefish::isValidFor%s(' % k, s.fmt[F], s.type[Tn])
            memo[k, F, Tn] = v
        return memo[k, F, Tn]

    def query(F, Tn, n):
        def bind(an, i, dem, ar, st):
            m = re.fullmatch(r'cuttlefish::isValidFor(Dds|Ktx|Pvr)', cname(dem))
            if m and len(ar) == 2 and ar[0].op == ar[1].op == 'int':
                s = S[m.group(1)]
                fn = [k for k, v in s.fmt.items() if v == ar[0].a[0]]
                tn = [k for k, v in s.type.items() if v == ar[1].a[0]]
                if fn and tn:
                    return valid(m.group(1), fn[0], tn[0])
            return None
        s = S['Dds']
        a = Analysis(tf, [I(s.fmt[F]), I(s.type[Tn]), I(ft[n])], pure=lambda n: True, bind=bind)
        r = a.ret()
        return bool(r.a[0] & 1) if r is not None and r.op == 'int' else None
    names = {'Dds': 'DDS', 'Ktx': 'KTX', 'Pvr': 'PVR'}
    for k, s in S.items():
        ctx.fn(qf[k])
        U = s.res['Unsupported']
        for F, fv in formats(s.m):
            for Tn, tv in types(s.m):
                key = '%s %s %s' % (k, F, Tn)
                g = query(F, Tn, names[k])
                if g is None:
                    ctx.und('agree', key, tf.where(), 'the query is not decided')
                    continue
                lib = s.const('isFormatValid', fv, tv)
                if not lib:
                    ctx.check(not g if lib is not None else None, 'agree', key, tf.where(), 'the query admits a pair the library cannot convert')
                    continue
                native = s.const('hasNativeSRGB', fv, tv)
                refused = None
                for cs in ['Linear'] + (['sRGB'] if native else []):
                    for al in ALPHAS:
                        a = s.run(F, Tn, cs, al)
                        rl = retleaves(a)
                        ret = {x.a[0] if x.op == 'int' else None for x in rl}
                        w = outs(a)
                        r = ret == {U}
                        where = a.rets()[0][1].where() if a.rets() else s.f.name
                        if U in ret and not r:
                            ctx.und('refused', '%s %s %s' % (key, cs, al), where, 'the writer may refuse the pair')
                            continue
                        if r:
                            ctx.check(not w, 'refused', '%s %s %s' % (key, cs, al), where, 'bytes are written before the pair is refused')
                        ctx.check(g == (not r), 'agree', '%s %s %s' % (key, cs, al), where, 'the query answers %s but saving is %s' % (
                            'yes' if g else 'no', 'refused as unsupported' if r else 'not refused'))
                        refused = r
                        if al == 'Standard' and not s.const('hasAlpha', fv) and ctx.tier != 'thorough':
                            break
                ctx.check(g == (F not in REFUSED[k]), 'documented', key, qf[k].where(), 'the documentation %s this format for %s but the query answers %s' % (
                    'excludes' if F in REFUSED[k] else 'does not exclude', names[k], 'yes' if g else 'no'))
    for F, Tn in (('R8G8B8A8', 'UNorm'), ('BC1_RGB', 'UNorm'), ('R32G32B32A32', 'Float')):
        g = query(F, Tn, 'Auto')
        ctx.check(None if g is None else not g, 'unknown', '%s %s' % (F, Tn), tf.where(), 'the query without a container answers yes')
    ctx.floor('agree', 1); ctx.floor('refused', 1); ctx.floor('documented', 1); ctx.floor('unknown', 1)
    ctx.assume('codec formats are analysed with every codec compiled in')


NAMES = [('name.dds', 'DDS'), ('name.DDS', 'DDS'), ('name.dDs', 'DDS'), ('name.ktx', 'KTX'), ('name.KTX', 'KTX'), ('name.Ktx', 'KTX'),
         ('name.pvr', 'PVR'), ('name.PVR', 'PVR'), ('name.pVr', 'PVR'), ('na.dds.pvr', 'PVR'), ('na.pvr.ktx', 'KTX'), ('na.ktx.dds', 'DDS'),
         ('name.png', None), ('nameddds', None), ('namexdds', None), ('name_ktx', None), ('namepvr.', None), ('name.dd', None), ('name.ddsx', None),
         ('na.dds.ppm', None), ('na.ktx.bak', None), ('na.pvr.bak', None), ('name.kt', None), ('name.pvr2', None), ('name.dd5', None), ('dds.name', None)]
SHORT = [('', None), ('s', None), ('ds', None), ('dds', None), ('ktx', None), ('pvr', None), ('.dd', None), ('.dds', 'DDS'), ('.KTX', 'KTX'), ('.pvr', 'PVR'),
         ('a.dds', 'DDS'), ('xdds', None), ('ddds', None), ('.ktxx', None), ('a.dds.pvr', 'PVR'), ('a.ktx.dds', 'DDS'),
         ('d.pvr/n.ktx', 'KTX'), ('a.dds.x', None), ('d.ktx/name', None)]


def cstring(a, p):
    """bytes of a constant string, without its end"""
    b, o, v = split_ptr(p)
    if v:
        return None
    s = ''
    for k in range(64):
        c = a._const_load(b, o + k, (), 1, 'i8')
        if c is None or c.op != 'int':
            return None
        if c.a[0] == 0:
            return s
        s += chr(c.a[0])
    return None


def named(f, tail, full, short_reads, extra=None):
    """analysis of a function of a file name ($k named arg) whose name ends in `tail` (its first part unknown unless full)"""
    N = T('arg', 0, '$0')
    L = I(len(tail), 64) if full else T('q', 'length')

    def pos(p):
        """distance of p from the end of the name, or None"""
        b, o, v = split_ptr(noep(p))
        if b is not N:
            return None
        if full:
            return len(tail) - o if not v else None
        if len(v) == 1 and v[0][0] is L and v[0][1] == 1:
            return -o
        return None

    def text(an, p):
        d = pos(p)
        if d is not None:
            if d > len(tail):
                if full:
                    short_reads.append(an)
                return None
            if d < 0:
                short_reads.append(an)
                return None
            return tail[len(tail) - d:]
        return cstring(an, p)

    def bind(an, i, dem, ar, st):
        n = short(dem)
        if n == 'strlen' and len(ar) == 1:
            if noep(ar[0]) is N:
                return L
            s = cstring(an, ar[0])
            return I(len(s), 64) if s is not None else None
        if n in ('strcasecmp', 'strcmp', 'strncasecmp', 'strncmp', 'memcmp'):
            x, y = text(an, ar[0]), text(an, ar[1])
            if x is None or y is None:
                return None
            if len(ar) > 2:
                if ar[2].op != 'int':
                    return None
                x, y = x[:ar[2].a[0]], y[:ar[2].a[0]]
            if 'case' in n:
                x, y = x.lower(), y.lower()
            return I(0 if x == y else 1 if x > y else 0xffffffff)
        if n in ('strrchr', 'strchr') and noep(ar[0]) is N and ar[1].op == 'int':
            c = chr(ar[1].a[0] & 255)
            k = tail.rfind(c) if n == 'strrchr' else tail.find(c) if full else -1
            if k < 0:
                return NULL if full else None
            return ptr(N, k, ()) if full else ptr(N, k - len(tail), ((L, 1),))
        if n == 'strstr' and full and noep(ar[0]) is N:
            y = cstring(an, ar[1])
            if y is not None:
                return ptr(N, tail.find(y), ()) if y in tail else NULL
        if n in ('tolower', 'toupper') and ar[0].op == 'int':
            c = chr(ar[0].a[0] & 255)
            return I(ord(c.lower() if n == 'tolower' else c.upper()))
        return extra(i, dem, ar) if extra else None

    def onload(an, p, ty, st, t):
        if ty == 'i8':
            d = pos(p)
            if d is not None and 0 <= d <= len(tail):
                return I(ord(tail[len(tail) - d]) if d else 0, 8)
            if d is not None and (d > len(tail) and full or d < 0):
                short_reads.append(an)
        return None
    facts = [] if full else [cmp('ule', I(64, 64), L)]
    facts += [cmp('ne', ptr(N, k, ()) if full else ptr(N, k - len(tail), ((L, 1),)), NULL) for k in range(len(tail) + 1)]
    return Analysis(f, args(f), pure=lambda n: True, bind=bind, onload=onload, facts=facts)


def s07(ctx):
    ctx.rule('extension', 'for names ending in every documented extension in several spellings, and in near misses, constant propagation of the characters '
                          'from the end gives the container of the extension, else none')
    ctx.rule('short', 'for names shorter than, or as long as, an extension nothing before the name is read and the answer is that of the characters')
    ctx.rule('dispatch', 'under facts fixing the file type the stream overload calls the writer of that container only, on the texture and the stream given; '
                         'the other overloads pass the type on, the automatic one replaced by that of the extension')
    from .texture import Tex
    t = Tex(ctx, keep=FRONTKEEP)
    ft = t.m.enum('cuttlefish::Texture::FileType')
    f = t.m.find('cuttlefish::Texture::fileType(')
    ctx.fn(f)
    inv = {v: k for k, v in ft.items()}
    for full, names in ((False, NAMES), (True, SHORT)):
        for tail, want in names:
            bad = []
            a = named(f, tail, full, bad)
            w = ft[want or 'Auto']
            rule = 'short' if full else 'extension'
            key = repr(tail) if full else '...%s' % tail
            if bad:
                ctx.bad(rule, key, f.where(), 'characters outside of the name are read')
                continue
            r = {x.a[0] if x.op == 'int' else None for x in retleaves(a)}
            wrong = [x for x in r if x not in (None, w)]
            ctx.check(False if wrong and None not in r and len(r) == 1 else True if r == {w} else None, rule, key, f.where(), 'a name %s %r is taken for %s' % (
                'equal to' if full else 'ending in', tail, '/'.join(inv.get(x, str(x)) for x in wrong)))
    b, e = T('load', t.cell('textures'), 0, 'ptr'), T('load', ptr(t.impl, t.off['textures'] + 8), 0, 'ptr')
    ok = [cmp('ne', t.impl, NULL), cmp('ne', b, e)]
    pure = lambda n: n.endswith(' const') and not statecall(n)
    keeps = lambda n: pure(n) or short(n) in ('fileType', 'is_open') or statecall(n)
    fs = t.m.find('cuttlefish::Texture::save(std::ostream')
    ff = t.m.find('cuttlefish::Texture::save(char const*')
    fv = t.m.find('cuttlefish::Texture::save(std::vector')
    for n, v in sorted(ft.items()):
        if n == 'Auto':
            continue
        a = Analysis(fs, args(fs), pure=pure, keeps=keeps, facts=ok + [cmp('eq', T('arg', 2, '$2'), I(v))])
        ctx.fn(fs)
        w = [x for x in a.events if x.i.op in ('call', 'invoke') and x.name and re.fullmatch(r'cuttlefish::save(Dds|Ktx|Pvr)', cname(x.name)) and a.reachable(x.block)]
        want = 'cuttlefish::save' + n.capitalize()
        if not w:
            other = [x for x in a.events if x.i.op in ('call', 'invoke') and a.reachable(x.block) and (x.name is None or not NOEFFECT(x.name))]
            ctx.check(None if other else False, 'dispatch', 'stream ' + n, fs.where(), 'no writer is called for %s' % n)
        for x in w:
            ctx.check(cname(x.name) == want, 'dispatch', 'stream ' + n, x.where(), '%s is called for %s' % (cname(x.name), n))
            ctx.check(noep(x.args[0]) is T('arg', 0, '$0') and noep(x.args[1]) is T('arg', 1, '$1'), 'dispatch', 'stream ' + n + ' arguments', x.where(),
                      'the writer is given another texture or stream')
    for g, own in ((ff, True), (fv, False)):
        ctx.fn(g)
        for n, v in sorted(ft.items()):
            got = q('type of the name')
            a = Analysis(g, args(g), pure=pure, keeps=keeps, facts=ok + [cmp('eq', T('arg', 2, '$2'), I(v)), cmp('ne', T('arg', 1, '$1'), NULL)],
                         bind=lambda an, i, dem, ar, st: I(1, 1) if short(dem) == 'is_open' else
                         got if cname(dem) == 'cuttlefish::Texture::fileType' and noep(ar[0]) is T('arg', 1, '$1') else None)
            key = '%s %s' % ('file' if own else 'memory', n)
            sv = [x for x in a.events if x.i.op in ('call', 'invoke') and x.name and cname(x.name) == 'cuttlefish::Texture::save' and a.reachable(x.block)]
            if not sv:
                ctx.und('dispatch', key, g.where(), 'no call saving to a stream')
            for x in sv:
                k = x.args[2]
                k = I(v) if k is T('arg', 2, '$2') else k
                want = got if own and n == 'Auto' else I(v)
                k = rebuild(k, lambda y: I(v) if y is T('arg', 2, '$2') else y)
                r = judge(k, want, [{got: z} for z in sorted(ft.values())])
                ctx.check(True if r is True else None if r is None else False, 'dispatch', key, x.where(), 'the texture is saved as another type: %s' % r)
                ctx.check(noep(x.args[0]) is T('arg', 0, '$0'), 'dispatch', key + ' texture', x.where(), 'another texture is saved')
            if own:
                op = [x for x in a.events if x.i.op in ('call', 'invoke') and x.name and (short(x.name) in ('basic_ofstream', 'basic_fstream') and len(x.args) > 2 or short(x.name) == 'open')]
                for x in op:
                    ctx.check(noep(x.args[1]) is T('arg', 1, '$1'), 'dispatch', key + ' name', x.where(), 'another file is opened')
                    m = x.args[2] if len(x.args) > 2 else None
                    ctx.check(None if m is None or m.op != 'int' else bool(m.a[0] & 4) and not m.a[0] & 1, 'dispatch', key + ' mode', x.where(), 'the file is not opened for binary output from its start')
    ctx.floor('extension', 1); ctx.floor('short', 1); ctx.floor('dispatch', 1)
