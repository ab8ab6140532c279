"""C01-C06: pixel encoding."""
import math, subprocess
from .util import *
from sa.ir import AnalysisError
from sa.walk import Walk
from . import pix

CONV = 'lib/src/Converter.cpp'
STD = 'lib/src/StandardConverter.cpp'
TEX = 'lib/src/Texture.cpp'
FMT = 'cuttlefish::Texture::format() const'
TYP = 'cuttlefish::Texture::type() const'

_dm = {}


BODY = dict(unroll=4, keep=[r'glm::pack(Half|F2x11|F3x9)', r'glm::detail::toFloat16'])


MATH = re.compile(r'^l?l?(round|rint)[fl]?$|^(floor|ceil|trunc|sqrt|pow|exp|log|nearbyint)[fl]?$')



def PURE(n):
    return CONST(n) or bool(MATH.match(n))


def glmpack(n):
    return short(n).split('<')[0] in ('packHalf', 'packF2x11_1x10', 'packF3x9_E1x5', 'toFloat16')


def packbind(an, i, dem, a, st):
    """packing functions of glm are functions of the components they are given by reference"""
    if not glmpack(dem):
        return None
    out = []
    import re
    for x in a:
        if x.op in ('ptr', 'alloca', 'arg', 'load', 'iv', 'ite', 'phi', 'call') and width(x) is None:
            m = re.search(r'vec<(\d)', dem)
            n = int(m.group(1)) if m else 1
            for k in range(n):
                q = an.load(ptr(x, 4 * k), 4, 'float', st, i)
                out.append(q)
        else:
            out.append(x)
    return T('call', dem, None, tuple(out))


def demangle(n):
    if n not in _dm:
        _dm[n] = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, text=True).stdout.strip()
    return _dm[n]


def vclass(g):
    d = demangle(g)
    return d[len('vtable for '):] if d.startswith('vtable for ') else None


class Encoders:
    """which encoder class Converter::convert creates for a (format, type), by conditional constant
    propagation of the two values through Converter::convert (the factory is inlined into it)"""

    def __init__(self, ctx, defs=CODECS_OFF):
        self.ctx = ctx; self.defs = defs
        self.m = ctx.load(CONV, defs=defs, limit=8000)
        self.f = self.m.find('cuttlefish::Converter::convert(')
        ctx.fn(self.f)
        self.cache = {}

    def run(self, fv, tv):
        k = (fv, tv)
        if k not in self.cache:
            tex = T('arg', 0, '$texture')
            a = Analysis(self.f, [tex] + [T('arg', i, '$%d' % i) for i in range(1, len(self.f.args))],
                         subst={T('call', FMT, None, (tex,)): I(fv), T('call', TYP, None, (tex,)): I(tv)}, pure=CONST)
            by = {}
            for e in a.events:
                if e.i.op in ('call', 'invoke') and e.name and e.args:
                    n = cname(e.name)
                    if n.startswith('cuttlefish::') and n.split('::')[-1].endswith('Converter') and \
                            n.split('::')[-1] == n.split('::')[-2]:
                        by[e.args[0]] = (n[:n.rindex('::')], e)
                if e.i.op == 'store':
                    b, o, v = split_ptr(e.args[0])
                    if b.op == 'glob' and b.a[0].startswith('_ZTV') and not b.a[0].startswith('_ZTVN10__cxxabi'):
                        c = vclass(b.a[0])
                        if c and c.startswith('cuttlefish::') and 'Converter' in c:
                            by[e.args[1]] = (c, e)
            self.cache[k] = (a, by)
        return self.cache[k]

    def classes(self, fv, tv):
        return sorted({g for g, _ in self.run(fv, tv)[1].values()})

    def vtable(self, cls):
        """(module, {method: function}) of an encoder class"""
        for src in (CONV, STD):
            m = self.ctx.load(src, defs=self.defs, **BODY)
            for g, G in m.globals.items():
                if not g.startswith('_ZTV') or 'init' not in G or vclass(g) != cls:
                    continue
                r = {}
                for e in G['init']['e'][0]['e']:
                    if e['k'] == 'g' and e['n'] in m.fns and not m.fns[e['n']].decl:
                        fn = m.fns[e['n']]
                        r[short(fn.dem)] = fn
                return m, r
        return None, {}


def c01(ctx):
    ctx.rule('factory', 'for each pair: the support query evaluates to true iff an encoder construction is reachable in '
                        'Converter::convert when the texture has that format and type; supported -> no failing return reachable, '
                        'unsupported -> only failing returns reachable past the factory')
    ctx.rule('refused', 'for each pair the query rejects, Texture::convert returns false and stores no accepted format')
    keep = [r'cuttlefish::Texture::(isFormatValid|hasNativeSRGB|imagesComplete)']
    ir.prefetch(*[(s, k) for d in (CODECS_OFF, CODECS_ON) for s, k in ((CONV, dict(defs=d, limit=8000)), (TEX, dict(defs=d, keep=keep)))])
    for defs in (CODECS_OFF, CODECS_ON):
        tag = 'codecs' if defs is CODECS_ON else 'base'
        enc = Encoders(ctx, defs)
        tm = ctx.load(TEX, defs=defs, keep=keep)
        vf = tm.find('cuttlefish::Texture::isFormatValid(cuttlefish::Texture::Format, cuttlefish::Texture::Type)')
        ctx.fn(vf)
        for fn, fv in formats(tm):
            for tn, tv in types(tm):
                v, _ = const_call(tm, 'cuttlefish::Texture::isFormatValid(cuttlefish::Texture::Format, cuttlefish::Texture::Type)', fv, tv)
                key = '%s-%s-%s' % (fn, tn, tag)
                if v is None or v.op != 'int':
                    ctx.und('factory', key, vf.where(), 'support query is not a constant for this pair')
                    continue
                valid = bool(v.a[0])
                a, by = enc.run(fv, tv)
                cls = enc.classes(fv, tv)
                rl = retleaves(a)
                if not all(x.op == 'int' for x in rl):
                    ctx.und('factory', key, enc.f.where(), 'return value not constant')
                    continue
                rv = {x.a[0] for x in rl}
                where = next(iter(by.values()))[1].where() if by else enc.f.where()
                if valid and not by:
                    ctx.bad('factory', key, vf.where(), '%s/%s is reported as supported but Converter::convert creates no encoder for it' % (fn, tn))
                elif not valid and by:
                    ctx.bad('factory', key, where, '%s/%s is reported as unsupported but Converter::convert encodes it with %s' % (fn, tn, cls))
                elif valid and 0 in rv:
                    ctx.bad('factory', key, enc.f.where(), 'conversion to the supported pair %s/%s may fail' % (fn, tn))
                elif not valid and 0 not in rv:
                    ctx.bad('factory', key, enc.f.where(), 'conversion to the unsupported pair %s/%s cannot fail' % (fn, tn))
                else:
                    ctx.ok('factory', key, where, '%s/%s: %s' % (fn, tn, cls[0] if cls else 'unsupported'))
        if defs is CODECS_OFF:
            refused(ctx, tm)
    ctx.floor('factory', 300)
    ctx.floor('refused', 50)
    ctx.assume('with codecs enabled only their selection is analysed; the codec libraries themselves are not present')


def refused(ctx, m):
    f = m.find('cuttlefish::Texture::convert(')
    ctx.fn(f)
    off = m.offsets('cuttlefish::Texture::Impl')
    impl = None
    for fn, fv in formats(m):
        for tn, tv in types(m):
            v, _ = const_call(m, 'cuttlefish::Texture::isFormatValid(cuttlefish::Texture::Format, cuttlefish::Texture::Type)', fv, tv)
            if v is None or v.op != 'int' or v.a[0]:
                continue

            def bind(an, i, dem, a, st):
                if dem.startswith('cuttlefish::Converter::convert('):
                    return FALSE                   # by rule `factory`
                if dem.startswith('cuttlefish::Texture::isFormatValid('):
                    if len(a) == 2 and a[0].op == 'int' and a[1].op == 'int':
                        r, _ = const_call(m, 'cuttlefish::Texture::isFormatValid(cuttlefish::Texture::Format, cuttlefish::Texture::Type)', a[0].a[0], a[1].a[0])
                        return r
                return None
            a = Analysis(f, args(f, a1=I(fv), a2=I(tv)), pure=CONST, bind=bind)
            key = '%s-%s' % (fn, tn)
            rl = retleaves(a)
            if not rl or not all(x.op == 'int' for x in rl):
                ctx.und('refused', key, f.where(), 'return value not constant')
                continue
            if any(x.a[0] for x in rl):
                ctx.bad('refused', key, f.where(), 'Texture::convert reports success for the unsupported pair %s/%s' % (fn, tn))
                continue
            bad = None
            for r, e in a.rets():
                for (p, s), val in e.st.mem.items():
                    b, o, var = split_ptr(p)
                    if b.op == 'load' and b.a[0] is T('arg', 0, '$0') and o == off['format'] and s == 4:
                        for x in leaves(val):
                            if x.op == 'int' and x.a[0] == fv or x.op == 'arg':
                                bad = e
            if bad:
                ctx.bad('refused', key, bad.where(), 'a failed conversion to %s/%s leaves that format recorded in the texture' % (fn, tn))
            else:
                ctx.ok('refused', key, f.where())


# ------------------------------------------------------------------------------- encoder bodies

UNC = {   # uncompressed formats: bytes per pixel, for the widths of array formats see LAYOUT
}


def relate(a):
    """{iv: term} for loop-carried pointers provably equal to scanline(image, row iv) at the loop head"""
    info = getattr(a, 'ivinfo', {})
    out = {}
    for p, (h, init, late) in info.items():
        cand = [x for x in init if x.op == 'call' and short(x.a[0]) == 'scanline']
        if len(init) != 1 or not cand:
            continue
        img, row0 = cand[0].a[2][0], cand[0].a[2][1]
        for r, (h2, init2, late2) in info.items():
            if h2 != h or r is p or len(init2) != 1 or not same_lin(init2[0], row0):
                continue
            inv = T('call', cand[0].a[0], None, (img, r))
            good = len(late) == len(late2) and bool(late)
            for x, y in zip(late, late2):
                lhs = selsimp(replace(x, {p: inv}))
                rhs = selsimp(T('call', cand[0].a[0], None, (img, y)))
                if lhs is not rhs:
                    good = False
            if good:
                out[p] = inv
    return out


def selsimp(t):
    """ite(x == y, f(y), f(x)) = f(x), pushing calls into selections"""
    def f(x):
        if x.op == 'call' and short(x.a[0]) == 'scanline' and x.a[2][1].op == 'ite':
            c, u, v = x.a[2][1].a
            x = ite(c, f(T('call', x.a[0], None, (x.a[2][0], u))), f(T('call', x.a[0], None, (x.a[2][0], v))))
        if x.op == 'ite' and x.a[0].op == 'cmp' and x.a[0].a[0] == 'eq':
            u, v = x.a[0].a[1], x.a[0].a[2]
            if replace(x.a[1], {u: v}) is replace(x.a[2], {u: v}):
                # the arms agree whenever the condition holds: the value is the other arm's
                return x.a[2]
        return x
    return rebuild(t, f)


class Body:
    """the stores of one encoder's process() into its output, in normal form"""

    def __init__(self, ctx, cls, mod, fn):
        self.cls = cls; self.fn = fn; self.m = mod
        ctx.fn(fn)
        self.off = mod.offsets('cuttlefish::Converter')
        self.this = T('arg', 0, '$this'); self.x = T('arg', 1, '$x')
        self.a = Analysis(fn, [self.this, self.x, T('arg', 2, '$y'), T('arg', 3, '$td')],
                          pure=PURE, keeps=glmpack, bind=packbind)
        self.inv = relate(self.a)
        self.image = T('load', ptr(self.this, self.off['m_image']), 0, 'ptr')
        self.out = ptr(self.this, self.off['m_data'])
        self.stores = []
        for e in self.a.events:
            if e.i.op == 'store':
                b, d, c = addr(e.args[1])
                if b.op == 'load' and b.a[0] is self.out:
                    self.stores.append((e, self.norm(e.args[0]), d, c, e.i.get('size')))

    def norm(self, t):
        return selsimp(replace(t, self.inv)) if self.inv else selsimp(t)


# ------------------------------------------------------------------------------- fixed sizes

SHAPES = [(1, 1), (5, 7), (33, 2), (3, 11), (64, 1), (1, 33)]
LARGE = [(70000, 3, (0, 2047, 2188, 6562)), (3, 70000, (2048, 6144, 6562)), (65535, 2, (2048,))]


def onrow(c):
    """conditions that hold for rows that exist: the row was found"""
    x = c
    neg = False
    while x.op == 'not':
        x = x.a[-1]; neg = not neg
    if x.op == 'cmp' and x.a[0] in ('eq', 'ne') and (x.a[1] is NULL or x.a[2] is NULL):
        y = x.a[1] if x.a[2] is NULL else x.a[2]
        if y.op == 'call' and short(y.a[0]) == 'scanline':
            return (x.a[0] == 'ne') != neg
    return None


class Small:
    """process() for images of fixed sizes: constant propagation along the iterations of one work item"""

    def __init__(self, b, bpp):
        self.b = b; self.bpp = bpp
        self.W = T('call', 'cuttlefish::Image::width() const', None, (b.image,))
        self.H = T('call', 'cuttlefish::Image::height() const', None, (b.image,))

    def walk(self, f, args, w, h):
        return Walk(f, args, subst={self.W: I(w), self.H: I(h)}, pure=PURE, keeps=glmpack, bind=packbind, guess=onrow)

    def dims(self, w, h):
        r = []
        for k in ('jobsX', 'jobsY'):
            f = self.b.meth.get(k)
            if f is None:
                return None
            a = self.walk(f, [self.b.this], w, h)
            if not a.complete or len(a.traces) != 1 or a.traces[0].ret is None or a.traces[0].ret.op != 'int':
                return None
            r.append(a.traces[0].ret.a[0])
        return tuple(r)

    def job(self, w, h, x, y):
        """[(conditions, [(event, value, offset, size)])] per alternative, or None when not understood"""
        b = self.b
        a = self.walk(b.fn, [b.this, I(x), I(y), T('arg', 3, '$td')], w, h)
        if not a.complete or not a.traces:
            return None
        out = []
        for t in a.traces:
            st = []
            for e in t.events:
                if e.i.op in ('call', 'invoke') and not e.i.callee.startswith('llvm.') and a.bind is not None and e.val is not None and \
                        not (PURE(e.name) or glmpack(e.name)) and any(root(z).op in ('load', 'arg') for z in e.args if width(z) is None):
                    return None
                if e.i.op == 'call' and (e.i.callee or '').startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                    q = split_ptr(e.args[0])[0]
                    if q.op != 'alloca':
                        return None
                if e.i.op != 'store':
                    continue
                q, o, var = split_ptr(e.args[1])
                if q.op == 'alloca':
                    continue
                if q.op != 'load' or q.a[0] is not b.out or var:
                    return None
                st.append((e, e.args[0], o, e.i.get('size')))
            out.append((t.conds, st))
        return out

    def sources(self, v):
        r = []
        for t in walk(v):
            s = source(self.b, t)
            if s:
                r.append(s)
            elif t.op == 'load' and t.a[2] in ('float', 'i32') and split_ptr(t.a[0])[0].op not in ('alloca', 'glob'):
                r.append(None)
            if t.op == 'call' and 'cvtps2ph' in t.a[0]:
                s = source(self.b, T('exte', t.a[2][0], I(0)))
                r.append(s)
        return r

    def check(self):
        """(understood, [(kind, event, text)])"""
        if hasattr(self, '_r'):
            return self._r
        bad = []; und = 0; self.elements = {}
        for w, h in SHAPES:
            d = self.dims(w, h)
            if d is None or d[0] * d[1] > 400:
                und += 1
                continue
            jobs = [(x, y) for y in range(d[1]) for x in range(d[0])]
            und += self.shape(w, h, jobs, True, bad)
        for w, h, xs in LARGE:
            d = self.dims(w, h)
            if d is None or d[1] != 1:
                continue
            und += self.shape(w, h, [(x, 0) for x in xs if x < d[0]], False, bad)
        self._r = und == 0, bad
        return self._r

    def shape(self, w, h, jobs, whole, bad):
        res = [self.job(w, h, x, y) for x, y in jobs]
        if any(r is None for r in res):
            return 1
        n = {len(r) for r in res}
        if len(n) > 1 and n - {1} and len(n - {1}) > 1:
            return 1
        found = []
        alts = max(n) if n else 1
        for k in range(alts):
            f = []
            seen = {}
            anywhere = None
            for (x, y), r in zip(jobs, res):
                conds, st = r[k] if len(r) > 1 else r[0]
                for e, v, o, sz in st:
                    anywhere = anywhere or e
                    E = o // self.bpp
                    if not 0 <= o <= w * h * self.bpp - sz:
                        f.append(('outside', e, 'for %dx%d pixels, work item (%d, %d) writes %d bytes at byte %d of %d' % (w, h, x, y, sz, o, w * h * self.bpp)))
                        continue
                    for s in self.sources(v):
                        if s is None or not (s[0].op == 'int' and not isinstance(s[1], tuple) and s[1].op == 'int'):
                            if s is None or s[0].op != 'int':
                                return 1
                            f.append(('source', e, 'for %dx%d pixels, element %d is read from a part of a pixel' % (w, h, E)))
                            continue
                        rc = (s[0].a[0], s[1].a[0])
                        if rc != (E // w, E % w):
                            f.append(('source', e, 'for %dx%d pixels, element %d is read from row %d, column %d' % (w, h, E, rc[0], rc[1])))
                    for q in range(sz):
                        if o + q in seen:
                            f.append(('twice', e, 'for %dx%d pixels, byte %d is written more than once' % (w, h, o + q)))
                            break
                        seen[o + q] = e
                    if whole:
                        self.elements.setdefault((k, w, h, E), []).append((e, v, o - E * self.bpp, sz))
            if whole:
                miss = [q for q in range(w * h * self.bpp) if q not in seen]
                if miss:
                    part = [q for q in miss if any(c in seen for c in range(q // self.bpp * self.bpp, q // self.bpp * self.bpp + self.bpp))]
                    f.append(('part' if part else 'missing', anywhere, 'for %dx%d pixels, %s' % (w, h, 'byte %d of element %d is never written' % (part[0] % self.bpp, part[0] // self.bpp)
                                                                  if part else 'element %d (row %d, column %d) is never written' % (miss[0] // self.bpp, miss[0] // self.bpp // w, miss[0] // self.bpp % w))))
            found.append((k, f))
        free = all(feasible(c) for r in res for cs, _ in r for c, _ in cs)
        if free or alts == 1:
            bad += [x for _, f in found for x in f]
            return 0
        if all(f for _, f in found):
            bad += found[0][1]
            return 0
        return 1 if any(f for _, f in found) else 0


class Values:
    """what is stored for a pixel, as a function of its channels: the expressions of the first elements of every fixed size,
    evaluated where codes change and at the ends of the range"""

    def __init__(self, b, fn, tn, bpp):
        self.b = b; self.bpp = bpp; self.tn = tn
        self.fields = {}          # channel -> (bit position, bits)
        if fn not in SPECIAL:
            for o, n, fs in layout(fn)[1]:
                pos = o * 8
                for ch, nb in fs:
                    self.fields[ch] = (pos, nb)
                    pos += nb
        self.known = False
        self.pixels = []          # (event, function of r, g, b, a, terms)
        sm = small(b, bpp)
        if not sm.check()[0] or any(k in ('source', 'part') for k, _, _ in sm.check()[1]):
            return
        seen = set()
        for k in sorted(sm.elements):
            parts = []
            for e, v, o, sz in sm.elements[k]:
                sub = {t: T('load', T('chan', source(b, t)[2]), 0, 'float') for t in walk(v) if source(b, t)}
                parts.append((o, sz, replace(v, sub), e))
            sig = tuple((o, sz, t) for o, sz, t, _ in parts)
            if sig in seen:
                continue
            seen.add(sig)
            fs = []
            for o, sz, t, e in parts:
                f = pix.compile_term(t, lambda t: 'rgba'[t.a[0].a[0]] if t.op == 'load' and t.a[0].op == 'chan' and 0 <= t.a[0].a[0] < 4 else None, 'rgba', strict=True)
                if f is None:
                    return
                fs.append((o, sz, f))
            self.pixels.append((parts[0][3], fs, [t for _, _, t, _ in parts]))
            if len(self.pixels) > 6:
                return
        self.known = bool(self.pixels) and tn not in ('Float', 'UFloat') and fn not in SPECIAL

    def pixel(self, fs, rgba):
        r = 0
        for o, sz, f in fs:
            v = f(*rgba)
            if v is None:
                return None
            r |= int(v) << 8 * o
        return r

    def range(self, nb):
        mx = (1 << nb) - 1
        return {'UNorm': (0.0, 1.0, float(mx)), 'SNorm': (-1.0, 1.0, float(mx >> 1)), 'UInt': (0.0, float(mx), 1.0)}.get(
            self.tn, (-float(1 << (nb - 1)), float(mx >> 1), 1.0))

    def code(self, px, ch):
        pos, nb = self.fields[ch]
        v = px >> pos & (1 << nb) - 1
        return v - (1 << nb) if self.tn in ('SNorm', 'Int') and v >> nb - 1 else v

    def places(self):
        """(event, text) where a channel does not reach its own bits or reaches others; (None, n) when all do"""
        n = 0
        for e, fs, _ in self.pixels:
            for rest in range(16):
                base = [self.range(self.fields[k][1])[1 if rest >> k & 1 else 0] if k in self.fields else float(rest >> k & 1) for k in range(4)]
                p0 = self.pixel(fs, base)
                for ch in range(4):
                    q = list(base)
                    lo, hi, _ = self.range(self.fields[ch][1]) if ch in self.fields else (0.0, 1.0, 0)
                    q[ch] = hi if base[ch] == lo else lo
                    p1 = self.pixel(fs, q)
                    if p0 is None or p1 is None:
                        return e, None
                    d = p0 ^ p1
                    pos, nb = self.fields.get(ch, (0, 0))
                    mask = (1 << nb) - 1 << pos
                    n += 1
                    if d & ~mask:
                        return e, 'bit %d of the pixel changes with channel %s' % ((d & ~mask).bit_length() - 1, 'RGBA'[ch])
                    if nb and not d:
                        return e, 'channel %s does not reach its bits %d to %d of the pixel' % ('RGBA'[ch], pos, pos + nb - 1)
                    if nb > 1 and not d >> pos + nb - 1:
                        return e, 'the highest bit of channel %s is not bit %d of the pixel' % ('RGBA'[ch], pos + nb - 1)
        return None, n

    def codes(self, ch):
        """(event, text) of a channel value whose code is not the nearest; (None, number of values) when all are"""
        pos, nb = self.fields[ch]
        lo, hi, sc = self.range(nb)
        top = int(hi * sc); bot = int(lo * sc)
        ks = range(bot, top + 1) if nb <= 8 else sorted({k for i in range(nb) for d in (-1, 0, 1) for s in (1, -1) for k in [s * (1 << i) + d] if bot <= k <= top} |
                                                        {bot, bot + 1, top - 1, top, 0} | {bot + (top - bot) * i // 97 for i in range(98)})
        xs = {-math.inf, math.inf, math.nan, -1e30, 1e30, -0.0, lo - 1.0, hi + 1.0, lo - 0.4 / sc, hi + 0.4 / sc, lo * 2 - 1, hi * 2, lo - 0.7 / sc, hi + 0.7 / sc,
              -3e9, 3e9, 5e9, -1e19, 1e19, 2e19}
        for k in ks:
            xs |= {(k + d) / sc for d in (-0.45, -0.25, 0.0, 0.25, 0.45)}
        n = 0
        for e, fs, _ in self.pixels:
            for other in (0.0, 1.0):
                for x in sorted({pix.f32(x) for x in xs if x == x}) + [math.nan]:
                    q = [other] * 4
                    q[ch] = x
                    px = self.pixel(fs, q)
                    n += 1
                    if px is None:
                        return e, 'the value %r is converted to an integer that cannot hold it' % x
                    got = self.code(px, ch)
                    if x != x:
                        continue
                    v = min(max(x, lo), hi) * sc
                    if abs(got - v) > 0.5 + abs(v) * 3e-7 + 1e-6:
                        return e, 'the value %r gets the code %d, the nearest is %d' % (x, got, int(math.floor(v + 0.5)))
        return None, n

    def monotone(self, ch):
        """by its form, every stored value is a nondecreasing function of each channel it holds"""
        c = T('load', T('chan', ch), 0, 'float')
        r = [pix.monotone(x, c) is True for _, _, ts in self.pixels for t in ts for x in walk(t)
             if (x.op in ('fptoui', 'fptosi') or x.op == 'call' and pix.callname(x)[0] in ('lround', 'llround', 'lrint', 'llrint')) and any(y is c for y in walk(x))]
        return bool(r) and all(r)


def small(b, bpp):
    if getattr(b, 'sm', None) is None or b.sm.bpp != bpp:
        b.sm = Small(b, bpp)
    return b.sm


def feasible(c):
    """a branch on a setting of the machine: both outcomes happen"""
    return c is not None and all(t.op not in ('load', 'call') or t.op == 'load' and root(t.a[0]).op == 'glob' for t in walk(c))


class Softly:
    """a context whose violations are kept back: what the fixed sizes show decides"""

    def __init__(self, ctx, confirmed):
        self.ctx = ctx; self.confirmed = confirmed

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def bad(self, rule, key, where, msg):
        (self.ctx.bad if self.confirmed else self.ctx.und)(rule, key, where, msg)

    def check(self, c, rule, key, where, msg):
        if c is False and not self.confirmed:
            self.ctx.und(rule, key, where, msg)
        else:
            self.ctx.check(c, rule, key, where, msg)


# ------------------------------------------------------------------------------------- oracles

PACKED = {'R4G4', 'R4G4B4A4', 'B4G4R4A4', 'A4R4G4B4', 'R5G6B5', 'B5G6R5', 'R5G5B5A1', 'B5G5R5A1', 'A1R5G5B5',
          'A2R10G10B10', 'A2B10G10R10'}
SPECIAL = {'B10G11R11_UFloat': 4, 'E5B9G9R9_UFloat': 4}
CH = {'R': 0, 'G': 1, 'B': 2, 'A': 3}


def channels(fmt):
    """[(channel, bits)] in the order of the format's name"""
    r = re.findall(r'([RGBAE])(\d+)', fmt.split('_')[0])
    return [(c, int(n)) for c, n in r]


def compressed(fmt):
    return fmt.startswith(('BC', 'ETC', 'EAC', 'ASTC', 'PVRTC'))


def layout(fmt):
    """bytes per pixel, [(byte offset, size in bytes, [(channel index, bits)] least significant first)]"""
    c = channels(fmt)
    if fmt in PACKED:
        n = sum(b for _, b in c) // 8
        return n, [(0, n, [(CH[x], b) for x, b in reversed(c)])]
    out = []; o = 0
    for x, b in c:
        out.append((o, b // 8, [(CH[x], b)])); o += b // 8
    return o, out


def geometry(fmt):
    """(block width, block height, bytes per block, minimum width, minimum height, alpha) per the
    format's specification"""
    if not compressed(fmt):
        c = channels(fmt)
        return 1, 1, sum(b for _, b in c) // 8, 1, 1, any(x == 'A' for x, _ in c)
    if fmt.startswith('ASTC'):
        w, h = map(int, fmt[5:].split('x'))
        return w, h, 16, w, h, True
    if fmt.startswith('PVRTC'):
        two = fmt.endswith('2BPP')
        return (8 if two else 4), 4, 8, (16 if two else 8), 8, '_RGBA_' in fmt
    size = 8 if fmt in ('BC1_RGB', 'BC1_RGBA', 'BC4', 'ETC1', 'ETC2_R8G8B8', 'ETC2_R8G8B8A1', 'EAC_R11') else 16
    return 4, 4, size, 4, 4, fmt in ('BC1_RGBA', 'BC2', 'BC3', 'BC7', 'ETC2_R8G8B8A1', 'ETC2_R8G8B8A8')


class Bodies:
    def __init__(self, ctx):
        ir.prefetch((CONV, dict(defs=CODECS_OFF, limit=8000)), (CONV, dict(defs=CODECS_OFF, **BODY)),
                    (STD, dict(defs=CODECS_OFF, **BODY)), (TEX, dict(defs=CODECS_OFF)))
        self.ctx = ctx
        self.enc = Encoders(ctx)
        self.tm = ctx.load(TEX, defs=CODECS_OFF)
        self.bodies = {}

    def parts(self, work):
        """work(format) for every uncompressed format, in parallel"""
        self.ctx.parallel([lambda f=f: work(f) for f, _ in formats(self.tm) if not compressed(f)])

    def each(self, only=None):
        """(format, type, class, Body or None) for every encodable uncompressed pair"""
        for fn, fv in formats(self.tm):
            if compressed(fn) or only and fn != only:
                continue
            for tn, tv in types(self.tm):
                for c in self.enc.classes(fv, tv):
                    if c not in self.bodies:
                        m, meth = self.enc.vtable(c)
                        b = None
                        if m and 'process' in meth:
                            b = Body(self.ctx, c, m, meth['process'])
                            b.meth = meth
                        self.bodies[c] = b
                    yield fn, tn, fv, tv, c, self.bodies[c]


def index_of(body, d, bpp):
    """element index term of an output address {term: coef} / bpp, or None"""
    if any(k % bpp for k in d.values()):
        return None
    return unlin({a: k // bpp for a, k in d.items()}, 0)


def groups(body, bpp):
    """stores grouped by the element index they write: alternative or complementary writers"""
    g = {}
    for s in body.stores:
        e, v, d, c, sz = s
        g.setdefault(tuple(sorted(((tid(a), k) for a, k in d.items()))), []).append(s)
    return list(g.values())


def source(body, t):
    """(row term, column term, channel) of a leaf that is a component of a source pixel"""
    if t.op == 'load' and t.a[2] in ('float', 'i32'):
        b, d, c = addr(t.a[0])
        if b.op == 'call' and short(b.a[0]) == 'scanline' and b.a[2][0] is body.image:
            if any(k % 16 for k in d.values()) or c % 4:
                # parts of components
                return (linpoly(b.a[2][1]), ('addr', tuple((tid(a), k) for a, k in d.items()), c), c // 4 % 4)
            return (linpoly(b.a[2][1]), unlin({a: k // 16 for a, k in d.items()}, c // 16), c // 4 % 4)
    if t.op == 'exte' and t.a[1].op == 'int' and t.a[0].op == 'load' and t.a[0].a[2].startswith('<4 x float'):
        b, d, c = addr(t.a[0].a[0])
        if b.op == 'call' and short(b.a[0]) == 'scanline' and b.a[2][0] is body.image and not any(k % 16 for k in d.values()) and not c % 4:
            return (linpoly(b.a[2][1]), unlin({a: k // 16 for a, k in d.items()}, c // 16), c // 4 % 4 + t.a[1].a[0])
    return None


def veclanes(v, sz):
    """the 16-bit lanes of a packed half store: [(vector of floats load, lane)] or None"""
    off = 0
    while True:
        if v.op == 'trunc':
            v = v.a[1]
        elif v.op == 'lshr' and v.a[2].op == 'int' and v.a[2].a[0] % 16 == 0:
            off += v.a[2].a[0] // 16
            v = v.a[1]
        else:
            break
    if v.op == 'exte' and v.a[1].op == 'int':
        k = v.a[1].a[0]
        x = v.a[0]
        lane = 2 * 8
        if x.op == 'bitcast':
            w = int(re.match(r'<\d+ x i(\d+)>', x.a[0]).group(1))
            x = x.a[1]
        else:
            w = 16
        off += k * w // 16
        if x.op == 'call' and 'cvtps2ph' in x.a[0]:
            src = x.a[2][0]
            if x.a[2][1].op != 'int' or x.a[2][1].a[0] not in (0, 4, 8):
                return None
            return [(src, off + j) for j in range(sz // 2)]
    if v.op == 'call' and 'cvtps2ph' in v.a[0]:
        return [(v.a[2][0], j) for j in range(sz // 2)]
    return None


def comps(body, v, sz):
    """what one store puts into memory, as a list per byte-aligned component:
    ('bits', [...]) | ('half', source) | ('float', source) | ('pack', kind, [sources]) | None"""
    s = source(body, v)
    if s:
        return ('float', s)
    if v.op == 'call' and glmpack(v.a[0]):
        n = short(v.a[0])
        src = [source(body, x) for x in v.a[2]]
        if n in ('packHalf', 'toFloat16'):
            return ('half', src[:1]) if len(src) == 1 and src[0] else None
        return ('pack', n, src)
    l = veclanes(v, sz)
    if l:
        r = []
        for vec, lane in l:
            r.append(source(body, T('exte', vec, I(lane))))
        return ('half', r) if all(r) else None
    rng = {}

    def leafrange(t):
        c = clampform(t.a[1])
        if c and c['lo'] is not None and c['hi'] is not None:
            return (c['lo'] * c['scale'], c['hi'] * c['scale'])
        return None
    b = bitmap(v, leafrange)
    return ('bits', b) if b else None


def leafsource(body, t):
    c = clampform(t)
    return (c, source(body, c['leaf'])) if c else (None, None)


def c03(ctx):
    ctx.rule('layout', 'the bits each encoder stores for a pixel are, position by position, the bits of the source channel the '
                       "format's name puts there (bit-provenance dataflow from the stored value back to the pixel components)")
    B = Bodies(ctx)
    B.parts(lambda f: c03part(ctx, B, f))
    ctx.floor('layout', 55)
    ctx.assume('glm packing functions and the hardware half conversion place components as documented')


def c03part(ctx, B, only):
    for fn, tn, fv, tv, cls, b in B.each(only):
        key = '%s-%s' % (fn, tn)
        if b is None:
            ctx.und('layout', key, '', 'no body found for ' + cls)
            continue
        ctx.fn(b.fn)
        mark = len(ctx.obl)
        placed(ctx, fn, tn, cls, b, key)
        res = ctx.obl[mark:]
        if not res or any(o[0] == 'und' for o in res):
            vals = Values(b, fn, tn, layout(fn)[0] if fn not in SPECIAL else 4)
            if vals.known:
                try:
                    e, why = vals.places()
                except (TypeError, ValueError, OverflowError):
                    continue
                if why is None:
                    continue
                ctx.obl[mark:] = [o for o in res if o[0] == 'bad']
                if e is not None:
                    ctx.bad('layout', key, e.where(), '%s/%s: %s' % (fn, tn, why))
                else:
                    ctx.ok('layout', key, b.fn.where(), '%s/%s: %d changes of one channel change its own bits only' % (fn, tn, why))


def placed(ctx, fn, tn, cls, b, key):
    """by the provenance of the bits of the stored expressions"""
    if fn in SPECIAL:
        want = 'packF2x11_1x10' if fn.startswith('B10') else 'packF3x9_E1x5'
        for e, v, d, c, sz in b.stores:
            r = comps(b, v, sz)
            if not r or r[0] != 'pack' or None in r[2]:
                ctx.und('layout', key, e.where(), 'stored value is not a recognised packing')
            elif r[1] != want or [s[2] for s in r[2]] != [0, 1, 2] or c != 0 or sz != 4:
                ctx.bad('layout', key, e.where(), '%s: %s of channels %s at byte %d' % (fn, r[1], [s[2] for s in r[2]], c))
            else:
                ctx.ok('layout', key, e.where(), '%s(r, g, b)' % want)
        return
    bpp, lay = layout(fn)
    for g in groups(b, bpp):
        got = {}       # absolute bit -> description
        und = None
        for e, v, d, c, sz in g:
            r = comps(b, v, sz)
            if not r:
                und = e
                continue
            if r[0] == 'float':
                if sz != 4:
                    und = e
                    continue
                for k in range(32):
                    got[c * 8 + k] = (r[1][2], k, 'f', e)
            elif r[0] == 'half':
                for j, s in enumerate(r[1]):
                    for k in range(16):
                        got[c * 8 + 16 * j + k] = (s[2], k, 'h', e)
            elif r[0] == 'bits':
                for k, x in enumerate(r[1]):
                    if x in (0, 1):
                        got[c * 8 + k] = (None, x, 'c', e)
                    elif x is None or x[0] == 'mix':
                        got[c * 8 + k] = ('mixed', 0, 'x', e)
                    else:
                        cf, s = leafsource(b, x[0])
                        if s is None:
                            und = e
                        else:
                            got[c * 8 + k] = (s[2], x[1], 'i', e)
            else:
                und = e
        if und:
            ctx.und('layout', key, und.where(), 'stored value not resolved to pixel components')
            continue
        bad = None
        for o, n, fields in lay:
            pos = o * 8
            for ch, nb in fields:
                for k in range(nb):
                    x = got.get(pos)
                    if x is None:
                        bad = bad or (g[0][0], 'bit %d of the pixel is not written (expected bit %d of channel %s)' % (pos, k, 'RGBA'[ch]))
                    elif x[:2] != (ch, k):
                        bad = bad or (x[3], 'bit %d of the pixel holds %s, expected bit %d of channel %s' % (
                            pos, 'constant %d' % x[1] if x[0] is None else 'overlapping bits' if x[0] == 'mixed' else
                            'bit %d of channel %s' % (x[1], 'RGBA'[x[0]] if 0 <= x[0] < 4 else x[0]), k, 'RGBA'[ch]))
                    pos += 1
        extra = [p for p in got if p >= bpp * 8 or p < 0]
        if not bad and extra:
            bad = (got[extra[0]][3], 'bit %d lies outside the %d bytes of the pixel' % (extra[0], bpp))
        if bad:
            ctx.bad('layout', key, bad[0].where(), '%s/%s: %s' % (fn, tn, bad[1]))
        else:
            ctx.ok('layout', key, g[0][0].where(), '%s/%s: %d bits traced in %s' % (fn, tn, len(got), cls))


def c02(ctx):
    ctx.rule('geometry', 'block width/height/size, minimum size and alpha of every format, by constant propagation of the format '
                         'through the query functions, equal the published values; 0 for values outside the enumeration')
    ctx.rule('emitted', 'the bytes an encoder stores per element cover exactly the block size, consecutive elements are exactly that '
                        'far apart, and its buffer is width x height x block size')
    B = Bodies(ctx)
    m = B.tm
    size = {}
    names = ('blockWidth', 'blockHeight', 'blockSize', 'minWidth', 'minHeight', 'hasAlpha')
    fl_ = formats(m)
    for fn, fv in fl_:
        want = geometry(fn)
        for q, w in zip(names, want):
            v, f = const_call(m, 'cuttlefish::Texture::%s(cuttlefish::Texture::Format)' % q, fv)
            ctx.fn(f)
            key = '%s-%s' % (q, fn)
            if v is None or v.op != 'int':
                ctx.und('geometry', key, f.where(), 'not a constant')
                continue
            ctx.check(v.a[0] == int(w), 'geometry', key, f.where(), '%s(%s) = %d, defined as %d' % (q, fn, v.a[0], int(w)))
            if q == 'blockSize':
                size[fn] = v.a[0]
    top = max(v for _, v in fl_)
    for q in names:
        for bv in (0, top + 1, top + 2, 0x7fffffff, 0xffffffff):
            v, f = const_call(m, 'cuttlefish::Texture::%s(cuttlefish::Texture::Format)' % q, bv)
            key = '%s-invalid-%d' % (q, bv)
            if v is None or v.op != 'int':
                if v is not None and any(x.op == 'load' and x.a[0].op in ('glob', 'ptr') for x in walk(v)):
                    ctx.bad('geometry', key, f.where(), '%s reads outside its table for format value %d' % (q, bv))
                else:
                    ctx.und('geometry', key, f.where(), 'not a constant')
            else:
                ctx.check(v.a[0] == 0, 'geometry', key, f.where(), '%s(%d) = %d for a value that is no format' % (q, bv, v.a[0]))
    B.parts(lambda f: emitted(ctx, B, f, size))
    ctx.floor('geometry', 300)
    ctx.floor('emitted', 100)
    ctx.assume('element indices do not exceed 2^32 (a level has fewer than 2^32 pixels)')


def emitted(ctx, B, only, size):
    for fn, tn, fv, tv, cls, b in B.each(only):
        key = '%s-%s' % (fn, tn)
        if b is None or not b.stores or fn not in size:
            ctx.und('emitted', key, '', 'no stores recognised in %s' % cls)
            continue
        bpp = size[fn]
        known, wrong = small(b, bpp).check()
        part = [x for x in wrong if x[0] == 'part']
        mark = len(ctx.obl)
        covered(Softly(ctx, bool(wrong)), b, bpp, key, cls, fn, tn)
        if part:
            ctx.obl[mark:] = [o for o in ctx.obl[mark:] if o[0] == 'bad'] or [('bad', 'emitted', key, part[0][1].where(), '%s: %s' % (cls, part[0][2]))]
        elif known and not wrong and any(o[0] == 'und' for o in ctx.obl[mark:]):
            ctx.obl[mark:] = [('ok', 'emitted', key, b.fn.where(), '%d bytes per pixel for every fixed size' % bpp)]
        buffer(ctx, B, b, bpp, key, cls, fn, tn, fv, tv)


def covered(ctx, b, bpp, key, cls, fn, tn):
    """bytes of an element, by the addresses of the stores"""
    for g in groups(b, bpp):
        e = g[0][0]
        cov = set()
        for _, v, d, c, sz in g:
            cov |= set(range(c, c + sz))
        d = g[0][2]
        steps = [k for a, k in d.items() if a.op == 'iv']
        if not steps:
            ctx.und('emitted', key, e.where(), 'output position has no loop index')
            continue
        if cov != set(range(bpp)):
            # a loop over components or bytes
            if len(steps) > 1 or any(k < 0 for k in steps):
                ctx.und('emitted', key, e.where(), 'component loop not resolved')
                continue
            ctx.bad('emitted', key, e.where(), '%s stores bytes %s of each element, %s/%s has %d bytes per pixel' % (
                cls, sorted(cov), fn, tn, bpp))
        elif len(steps) == 1 and steps[0] != bpp:
            ctx.bad('emitted', key, e.where(), 'consecutive elements are %d bytes apart, %s/%s has %d bytes per pixel' % (steps[0], fn, tn, bpp))
        else:
            ctx.ok('emitted', key, e.where(), '%d bytes per pixel' % bpp)


def buffer(ctx, B, b, bpp, key, cls, fn, tn, fv, tv):
    a, by = B.enc.run(fv, tv)
    done = False
    for e in a.calls(lambda n: n.startswith('std::vector<unsigned char') and short(n) in ('resize', 'vector', 'assign', '_M_default_append')):
        p = split_ptr(e.args[0])[0]
        if p not in by and e.args[0] not in by:
            if not (p.op == 'call' and p.a[0].startswith('operator new')):
                continue
        if short(e.name) == '_M_default_append' or len(e.args) < 2:
            continue
        n = e.args[1]
        d, c = lin(n)
        done = True
        good = None
        if len(d) == 1 and c == 0:
            (t, k), = d.items()
            if t.op == 'Lmul' and {short(x.a[0]) if x.op == 'call' else '' for x in t.a} == {'width', 'height'}:
                good = k == bpp
        elif c != 0 and len(d) == 1:
            good = False
        ctx.check(good, 'emitted', key + '-buffer', e.where(), 'buffer of %s is sized %s, expected width*height*%d' % (cls, show(n, 8), bpp))
    if not done:
        ctx.und('emitted', key + '-buffer', '', 'buffer allocation not found')


def c04(ctx):
    ctx.rule('clamp', 'every float-to-integer conversion in an encoder has an operand of the form round(clamp(x, lo, hi) * scale) with '
                      "the representation's bounds and scale, so that no value (including NaN) outside the target range reaches it")
    B = Bodies(ctx)
    B.parts(lambda f: c04part(ctx, B, f))
    ctx.floor('clamp', 120)


def c04part(ctx, B, only):
    for fn, tn, fv, tv, cls, b in B.each(only):
        if b is None or fn in SPECIAL or tn in ('Float', 'UFloat'):
            if b is not None:
                passthrough(ctx, fn, tn, cls, b)
            continue
        ctx.fn(b.fn)
        mark = len(ctx.obl)
        clamped(ctx, fn, tn, cls, b)
        res = ctx.obl[mark:]
        if res and not any(o[0] == 'und' for o in res):
            continue
        vals = Values(b, fn, tn, layout(fn)[0])
        try:
            if not vals.known or isinstance(vals.places()[1], str):
                continue
            codes = {ch: vals.codes(ch) for ch in vals.fields}
        except (TypeError, ValueError, OverflowError):
            continue
        ctx.obl[mark:] = [o for o in res if o[0] == 'bad']
        for ch in vals.fields:
            key = '%s-%s-%s' % (fn, tn, 'RGBA'[ch])
            e, why = codes[ch]
            if e is not None:
                ctx.bad('clamp', key, e.where(), '%s/%s channel %s: %s' % (fn, tn, 'RGBA'[ch], why))
            elif vals.monotone(ch):
                ctx.ok('clamp', key, b.fn.where(), 'nondecreasing, with the nearest code at %d values around the steps' % why)
            else:
                ctx.und('clamp', key, b.fn.where(), 'the nearest code at %d values; not recognised as nondecreasing between them' % why)


def clamped(ctx, fn, tn, cls, b):
    """by the form of the operands of the conversions to integers"""
    bits_of = dict((CH[x], n) for x, n in channels(fn))
    for e, v, d, c, sz in b.stores:
        casts = [t for t in walk(v) if t.op in ('fptoui', 'fptosi')]
        rc = [t for t in walk(v) if t.op == 'call' and (t.a[0].startswith(('llvm.lround', 'llvm.lrint', 'llvm.llround')) or short(t.a[0]) in ('lround', 'lroundf', 'lrint', 'lrintf', 'llround'))]
        if not casts or rc:
            ctx.und('clamp', '%s-%s' % (fn, tn), e.where(), 'no conversion recognised')
            continue
        for t in casts:
            cf, s = leafsource(b, t.a[1])
            if not cf or not s:
                ctx.und('clamp', '%s-%s' % (fn, tn), e.where(), 'operand is not a clamped, scaled channel: %s' % show(t.a[1], 6))
                continue
            ch = s[2]
            nb = bits_of.get(ch)
            key = '%s-%s-%s' % (fn, tn, 'RGBA'[ch] if 0 <= ch < 4 else ch)
            if nb is None:
                ctx.und('clamp', key, e.where(), 'channel not in format')
                continue
            mx = (1 << nb) - 1
            if tn == 'UNorm': lo, hi, sc = 0.0, 1.0, float(mx)
            elif tn == 'SNorm': lo, hi, sc = -1.0, 1.0, float(mx >> 1)
            elif tn == 'UInt': lo, hi, sc = 0.0, float(mx), 1.0
            else: lo, hi, sc = -float(1 << (nb - 1)), float(mx >> 1), 1.0
            tw = t.a[0]
            tlo, thi = (0, (1 << tw) - 1) if t.op == 'fptoui' else (-(1 << (tw - 1)), (1 << (tw - 1)) - 1)
            why = None
            if cf['lo'] is None or cf['hi'] is None:
                why = 'not clamped %s' % ('below' if cf['lo'] is None else 'above')
            else:
                glo, ghi = cf['lo'] * cf['scale'], cf['hi'] * cf['scale']
                if ghi > thi or glo < tlo:
                    why = 'values up to %r .. %r are converted to a %d-bit %s integer' % (glo, ghi, tw, 'unsigned' if t.op == 'fptoui' else 'signed')
                elif abs(ghi - hi * sc) > 1e-6 * abs(hi * sc) or abs(glo - lo * sc) > 1e-6 * max(1.0, abs(lo * sc)) or \
                        abs(cf['scale'] - sc) > 1e-6 * sc:
                    why = 'clamped to [%r, %r] and scaled by %r, defined as [%r, %r] scaled by %r' % (cf['lo'], cf['hi'], cf['scale'], lo, hi, sc)
                elif cf['rnd'] not in ('round', 'even'):
                    why = 'not rounded to nearest (%s)' % (cf['rnd'] or 'truncated')
                elif cf['nan']:
                    why = 'a NaN channel reaches the integer conversion unclamped'
            if why:
                ctx.bad('clamp', key, e.where(), '%s/%s channel %s: %s' % (fn, tn, 'RGBA'[ch], why))
            else:
                ctx.ok('clamp', key, e.where(), 'round(clamp(x, %r, %r)*%r)' % (cf['lo'], cf['hi'], cf['scale']))


def passthrough(ctx, fn, tn, cls, b):
    for e, v, d, c, sz in b.stores:
        r = comps(b, v, sz)
        key = '%s-%s-%d' % (fn, tn, c)
        if r and r[0] in ('float', 'half', 'pack'):
            ctx.ok('clamp', key, e.where(), 'no conversion to integer')
        else:
            ctx.und('clamp', key, e.where(), 'float channel is not passed through')


# --------------------------------------------------------------------------------------- C05

def c05(ctx):
    ctx.rule('element', 'output element E = x*batch + i is computed from source row E/width and column E%width of the same image')
    ctx.rule('batch', 'i runs from 0 in steps of 1 over exactly the batch, leaving early only when the row is past the last one')
    ctx.rule('inside', 'no store is reachable when the row of E is past the last row')
    ctx.rule('jobs', 'the number of work items is ceil(width*height / batch) in one dimension')
    ctx.rule('sizes', 'for images of %d fixed sizes, constant propagation along the iterations of all work items writes every element once, from its own '
                      'pixel, and nothing outside; the rules above hold for every size, and what contradicts them is reported when these sizes show it' % (len(SHAPES) + len(LARGE)))
    B = Bodies(ctx)
    B.parts(lambda f: c05part(ctx, B, f))
    ctx.floor('element', 50)
    ctx.floor('batch', 50)
    ctx.floor('inside', 50)
    ctx.floor('jobs', 50)
    ctx.assume('width*height < 2^32; widths and heights are positive (guaranteed by image creation)')


def c05part(ctx, B, only):
    done = set()
    for fn, tn, fv, tv, cls, b in B.each(only):
        if b is None or cls in done:
            continue
        done.add(cls)
        ctx.fn(b.fn)
        bpp = layout(fn)[0] if fn not in SPECIAL else 4
        sm = small(b, bpp)
        known, wrong = sm.check()
        wrong = [x for x in wrong if x[0] != 'part']
        key = cls.replace('cuttlefish::', '')
        if wrong:
            k, e, why = wrong[0]
            ctx.bad('sizes', key, e.where() if e else b.fn.where(), '%s: %s' % (key, why))
        elif known:
            ctx.ok('sizes', key, b.fn.where(), '%d shapes, every element written once from its own pixel' % (len(SHAPES) + len(LARGE)))
        else:
            ctx.und('sizes', key, b.fn.where(), 'the work items are not understood for images of fixed sizes')
        soft = Softly(ctx, bool(wrong))
        jobs(soft, cls, b, element(soft, cls, b, bpp))


def element(ctx, cls, b, bpp):
    """-> batch size"""
    batch = None
    info = getattr(b.a, 'ivinfo', {})
    key0 = cls.replace('cuttlefish::', '')
    for gi, g in enumerate(groups(b, bpp)):
        e0 = g[0][0]
        E = index_of(b, g[0][2], bpp)
        key = '%s-%d' % (key0, gi)
        if E is None:
            ctx.und('element', key, e0.where(), 'output index not a multiple of the pixel size')
            continue
        d, c = (dict(E.a[0]), E.a[1]) if E.op == 'L' else ({E: 1}, 0)
        ivs = [t for t in d if t.op == 'iv']
        if b.x not in d or len(ivs) != 1 or len(d) != 2 or d[ivs[0]] != 1:
            ctx.und('element', key, e0.where(), 'output index is not x*batch + i')
            continue
        iv = ivs[0]
        batch = d[b.x]
        W = T('call', 'cuttlefish::Image::width() const', None, (b.image,))
        H = T('call', 'cuttlefish::Image::height() const', None, (b.image,))
        wantrow = T('Ludiv', E, W); wantcol = T('Lurem', E, W)
        bad = und = None
        n = 0
        for e, v, dd, cc, sz in g:
            srcs = [s for s in (source(b, t) for t in walk(v)) if s]
            for t in walk(v):
                if t.op == 'call' and 'cvtps2ph' in t.a[0]:
                    s = source(b, T('exte', t.a[2][0], I(0)))
                    if s:
                        srcs.append(s)
            if not srcs:
                und = e
            for row, col, ch in srcs:
                n += 1
                if row is wantrow and col is wantcol:
                    continue
                if isinstance(col, tuple) or not (indexlike(row, E, W) and indexlike(col, E, W)):
                    und = und or e
                else:
                    bad = bad or (e, 'element %s is read from row %s, column %s' % (show(E, 6), show(row, 6), show(col, 6)))
        if bad:
            ctx.bad('element', key, bad[0].where(), '%s: %s' % (key0, bad[1]))
        elif und:
            ctx.und('element', key, und.where(), 'source pixel not resolved')
        else:
            ctx.ok('element', key, e0.where(), '%d source reads at row E/width, column E%%width' % n)
        # iteration space
        h, init, late = info[iv]
        step = [lin(x) for x in late]
        if not (len(init) == 1 and init[0].op == 'int' and all(len(q[0]) == 1 and q[0].get(iv) == 1 for q in step)):
            ctx.und('batch', key, e0.where(), 'loop index is not affine')
        elif init[0].a[0] != 0 or any(q[1] != 1 for q in step):
            ctx.bad('batch', key, e0.where(), '%s: the batch index starts at %d in steps of %s, so elements are skipped or repeated' % (
                key0, init[0].a[0], [q[1] for q in step]))
        else:
            exits(ctx, b, key, key0, iv, h, batch, E, W, H, e0)
        inside(ctx, b, key, key0, g, iv, h, E, W, H)
    return batch


def indexlike(t, E, W):
    """t is built only from the element index, the width and constants"""
    ok = {E, W}
    leaves_ = set()
    st = [t]
    while st:
        x = st.pop()
        if x in ok or x.op == 'int':
            continue
        if x.op in ('Ludiv', 'Lurem', 'Lmul'):
            st += list(x.a); continue
        if x.op == 'L':
            st += [a for a, _ in x.a[0]]; continue
        if x.op in ('arg', 'iv'):
            continue
        if x.op == 'call' and short(x.a[0]) in ('width', 'height'):
            continue
        return False
    return True


def rowterms(b, E, W):
    """terms of the analysed function that compute E / width"""
    want = T('Ludiv', E, W)
    out = set()
    for t in b.a.env.values():
        if t.op == 'udiv' and linpoly(t) is want:
            out.add(t)
    return out


def variant(b, facts):
    return Analysis(b.fn, b.a.args, facts=facts, pure=PURE, keeps=glmpack, bind=packbind)


def exits(ctx, b, key, key0, iv, h, batch, E, W, H, e0):
    """no way out of the loop while rows remain and the batch is not finished"""
    body = b.fn.loops[h]
    last = I(batch - 1, 32)
    w = None
    for t in b.a.env.values():
        if t.op == 'add' and t.a[1] is iv:
            w = t.a[0]
    w = w or 32
    facts = [cmp('ult', iv, I(batch - 1, w))]
    for r in rowterms(b, E, W):
        facts.append(cmp('ult', r, H))
    v = variant(b, facts)
    early = [(n, s) for n in body if v.reachable(n) for s in b.fn.blocks[n].succ if s not in body and (n, s) in v.exec_edges]
    # the batch really ends: at i == batch-1 the loop is left
    v2 = variant(b, [cmp('eq', iv, I(batch - 1, w))] + facts[1:])
    again = [(n, h) for n in body if (n, h) in v2.exec_edges and v2.reachable(n)]
    if again:
        v3 = variant(b, [cmp('eq', iv, I(batch, w))] + facts[1:])
        again = [s for s in b.stores if s[0].block in body and v3.reachable(s[0].block)]
    if early:
        n = early[0][0]
        ins = b.fn.blocks[n].insts[-1]
        # only a decided exit is a violation; an exit whose condition is not understood is not
        c = b.a.val(ins.a[0]) if ins.op == 'br' and len(ins.get('succ')) == 2 else None
        if c is not None and understood(c, b, iv, W, H, E):
            ctx.bad('batch', key, ins.where(), '%s: the batch is left early although rows remain (condition %s)' % (key0, show(c, 6)))
        else:
            ctx.und('batch', key, ins.where(), 'exit condition not understood')
    elif again:
        ctx.bad('batch', key, e0.where(), '%s: the loop continues past the last element of the batch (%d)' % (key0, batch - 1))
    else:
        ctx.ok('batch', key, e0.where(), 'i = 0..%d' % (batch - 1))


def understood(c, b, iv, W, H, E):
    for t in walk(c):
        if t.op in ('iv', 'arg', 'int', 'cmp', 'ite', 'not', 'alloca') or t in (W, H) or t.op in BIN or t.op in ('zext', 'sext', 'trunc', 'umin', 'umax'):
            continue
        if t.op in ('call',) and short(t.a[0]) in ('width', 'height', 'jobsX', 'scanline'):
            continue
        if t.op == 'load' and t is b.image:
            continue
        if t.op in ('ptr', 'load') and t.op != 'iv':
            if t.op == 'load' and t.a[0] is ptr(b.this, b.off['m_image']):
                continue
            if t is ptr(b.this, b.off['m_image']):
                continue
        return False
    return True


def inside(ctx, b, key, key0, g, iv, h, E, W, H):
    rows = rowterms(b, E, W)
    e0 = g[0][0]
    if not rows:
        ctx.und('inside', key, e0.where(), 'row of the element is not computed')
        return
    facts = [cmp('ule', H, r) for r in rows]
    v = variant(b, facts)
    blocks = {e.block for e, *_ in g}
    hit = [n for n in blocks if v.reachable(n)]
    if not hit:
        ctx.ok('inside', key, e0.where(), 'unreachable when row >= height')
        return
    # the row may be the one already checked: carried row of the loop
    info = getattr(b.a, 'ivinfo', {})
    for r, (h2, init, late) in info.items():
        if h2 != h or r is iv:
            continue
        base = T('Ludiv', unlin({b.x: dict(E.a[0])[b.x]}, 0), W)
        if len(init) != 1 or linpoly(init[0]) is not base:
            continue
        if not all(all(x is r or x in rows for x in leaves(t)) for t in late):
            continue
        v = variant(b, facts + [cmp('ne', x, r) for x in rows])
        if not [n for n in blocks if v.reachable(n)]:
            ctx.ok('inside', key, e0.where(), 'a new row is checked against the height before it is used; the first row of a work item exists')
            return
    ins = e0
    ctx.bad('inside', key, e0.where(), '%s: an element past the last row of the image is written (no check of the row against the height on the way to the store)' % key0)


def jobs(ctx, cls, b, batch):
    key = cls.replace('cuttlefish::', '')
    for dim in ('jobsX', 'jobsY'):
        f = b.meth.get(dim)
        if f is None or batch is None:
            ctx.und('jobs', key + '-' + dim, '', 'not found')
            continue
        ctx.fn(f)
        a = Analysis(f, [b.this], pure=CONST)
        r = a.ret()
        k = key + '-' + dim
        if r is None:
            ctx.und('jobs', k, f.where(), 'no single result')
            continue
        if dim == 'jobsY':
            ctx.check(r.a[0] == 1 if r.op == 'int' else None, 'jobs', k, f.where(), '%s: %s rows of work items write the same elements' % (key, show(r)))
            continue
        t = linpoly(r)
        W = T('call', 'cuttlefish::Image::width() const', None, (b.image,))
        H = T('call', 'cuttlefish::Image::height() const', None, (b.image,))
        wh = set(linpoly(binop('mul', 32, W, H)).a)
        good = None; why = show(r, 8)
        if t.op == 'Ludiv' and t.a[1].op == 'int':
            q = t.a[1].a[0]
            d, c = lin_of(t.a[0])
            if len(d) == 1:
                (p, k1), = d.items()
                if p.op == 'Lmul' and set(p.a) == wh and k1 == 1:
                    good = (q == batch and c == q - 1)
        elif t.op == 'L':
            # floor + 1 and the like
            d, c = lin_of(t)
            if len(d) == 1:
                (p, k1), = d.items()
                if p.op == 'Ludiv' and p.a[1].op == 'int' and k1 == 1:
                    d2, c2 = lin_of(p.a[0])
                    if len(d2) == 1:
                        (p2, k2), = d2.items()
                        if p2.op == 'Lmul' and set(p2.a) == wh and k2 == 1:
                            good = (p.a[1].a[0] == batch and c2 + c * batch == batch - 1)
        if not good:
            for w, h in [(x, y) for x in (1, 2, 3, 5, 8, 9, 13, 16, 17, 31, 32, 33, 63, 64, 65, 100, 333) for y in (1, 2, 3, 4, 7, 16, 33)]:
                n = teval(noep(r), {noep(W): w, noep(H): h})
                if n is not None and n * batch < w * h:
                    good = False
                    why = '%d (%dx%d pixels)' % (n, w, h)
                    break
            else:
                good = good or None
        ctx.check(good, 'jobs', k, f.where(), '%s: %s work items of %s elements do not cover width*height elements exactly once' % (key, why, batch))


def lin_of(t):
    return (dict(t.a[0]), t.a[1]) if t.op == 'L' else ({t: 1}, 0)
