"""U01-U05: the command line tool - keywords, argument bounds, consistency, order of the operations, exit status."""
import re
from .util import *
from sa.ir import AnalysisError, strip_ret

CL = 'tool/CommandLine.cpp'
MAIN = 'tool/main.cpp'
KEEPTOOL = ['std::endl', 'operator<<', r'^std::.*basic_ostream', r'^std::vector<', r'^std::unordered_map<', r'^std::__cxx11::basic_string<',
            r'^std::basic_ifstream', r'^cuttlefish::(Texture|Image)::[a-z]', r'(^|::)read(ImageList|CustomMipList)\(']
PEEL = 9
THIS = 0
WORD = 100
EMPTY = T('alloca', 'empty', 0)
GIVEN = T('alloca', 'given', 0)
Q = 'cuttlefish::Texture::'
QI = 'cuttlefish::Image::'


def word(k):
    return T('alloca', 'word', WORD + k)


def isword(b):
    return b.op == 'alloca' and b.a[0] == 'word'


def load(ctx, peel=PEEL, defs=None):
    kw = {'defs': defs} if defs else {}
    return ctx.load(CL, keep=KEEPTOOL, limit=2000, unroll=40, peel=(peel, 'CommandLine::parse') if peel else None, **kw)


class Defaults:
    """the settings of a new CommandLine: what its constructor stores"""

    def __init__(self, ctx):
        m = ctx.load(MAIN, keep=['^CommandLine::'], limit=60)
        self.m = m
        f = m.find('CommandLine::CommandLine()')
        a = Analysis(f, args(f), pure=CONST, keeps=lambda n: True)
        self.cells = {}
        out = [e.st.mem for e in a.events if e.i.op == 'ret']
        if len(out) != 1:
            raise AnalysisError('the constructor of CommandLine is not understood')
        me = a.args[0]
        for (p, s), v in out[0].items():
            b, o, var = split_ptr(p)
            if b is me and not var:
                self.cells[(o, s)] = v
        self.off = {}
        for n, o, t, s in m.members['CommandLine']:
            self.off[n] = (o, s)
        for n, o, t, s in m.members.get('cuttlefish::Texture::ColorMask', []):
            if 'colorMask' in self.off:
                self.off['colorMask.' + n] = (self.off['colorMask'][0] + o, s)


def text(an, p, words):
    """the C string a pointer leads to, or None"""
    b, o, v = split_ptr(p)
    if v:
        return None
    if b is EMPTY:
        return '' if o == 0 else None
    if isword(b):
        w = words[b.a[1] - WORD]
        return w[o:] if 0 <= o <= len(w) else None
    if b.op == 'glob':
        s = ''
        for k in range(200):
            c = an._const_load(b, o + k, (), 1, 'i8')
            if c is None or c.op != 'int':
                return None
            if c.a[0] == 0:
                return s
            s += chr(c.a[0] & 255)
    return None


STRTO = re.compile(r'^(__isoc\d+_)?strto(u?l|u?ll|d|f|ld|umax|imax)$')
NUMBER = re.compile(r'^[ \t\n\v\f\r]*([+-]?)(\d+)')
REAL = re.compile(r'^[ \t\n\v\f\r]*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|(inf(inity)?|nan)(?![a-z]))', re.I)
VEC = re.compile(r'^std::vector<')
STR = re.compile(r'^std::__cxx11::basic_string<')
MAP = re.compile(r'^std::unordered_map<')


class Line:
    """the parser propagated over one command line. `words` does not include the program name; `start` gives settings
    that differ from the defaults ({member: term}), there and mips what was already collected"""
    engine = Analysis

    def other(self, an, i, n, dem, a, st):
        """calls of the library that only some analyses model"""

    def __init__(self, m, d, words, start=None, valid=1, srgb=1, there=None, mips=None, argc=None, listed=1, custom=None):
        self.m, self.d = m, d
        f = m.find('CommandLine::parse(')
        self.f = f
        self.words = ['./cuttlefish'] + list(words)
        self.argc = len(self.words) if argc is None else argc
        A = args(f)
        A[1] = I(self.argc)
        me = self.me = A[0]
        argv = A[2]
        mem = {}
        for (o, s), v in d.cells.items():
            mem[(ptr(me, o), s)] = v
        for n, v in (start or {}).items():
            if n not in d.off:
                raise AnalysisError('no member %s' % n)
            o, s = d.off[n]
            mem[(ptr(me, o), s)] = v
        self.vec = {}
        self.over = []                # reads outside of the arguments
        self.nulls = []
        self.unknown = []
        self.queries = []
        io = d.off.get('images', (None, 0))[0]
        mo = d.off.get('customMipImages', (None, 0))[0]
        self.imgs = ptr(me, io) if io is not None else None
        self.mips = ptr(me, mo) if mo is not None else None
        if self.imgs is not None:
            mem[self.count(self.imgs)] = I(len(there or []), 64)
            for k, s in enumerate(there or []):
                mem[(ptr(self.elems(self.imgs), 32 * k), 8)] = GIVEN if s else EMPTY
        if self.mips is not None:
            mem[self.count(self.mips)] = I(len(mips or []), 64)
            for k, (face, level, depth) in enumerate(mips or []):
                self.node(mem, self.mips, k, [(0, I(face)), (4, I(level)), (8, I(depth))], k)
        words = self.words

        def bind(an, i, dem, a, st):
            n = short(dem)
            if dem in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp'):
                x, y = (self.deref(an, q, i) for q in a[:2])
                if (x is None) != (y is None) and dem[3] != 'n':
                    # some argument, compared with a word that none of them is
                    q, t = (a[0], y) if x is None else (a[1], x)
                    b, o, v = split_ptr(noep(q).a[0]) if q.op == 'load' else (None, 0, ())
                    fold = str.lower if 'case' in dem else str
                    if b is argv and v and fold(t) not in [fold(w) for w in self.words]:
                        return I(1)
                if x is None or y is None:
                    return None
                if dem[3] == 'n':
                    if a[2].op != 'int':
                        return None
                    x, y = x[:a[2].a[0]], y[:a[2].a[0]]
                if 'case' in dem:
                    x, y = x.lower(), y.lower()
                return I((x > y) - (x < y))
            if dem == 'strlen':
                x = self.deref(an, a[0], i)
                return None if x is None else I(len(x), 64)
            if dem == 'strchr':
                x = self.deref(an, a[0], i)
                if x is None or a[1].op != 'int':
                    return None
                k = (x + '\0').find(chr(a[1].a[0] & 255))
                return NULL if k < 0 else ptr(a[0], k)
            if dem in ('tolower', 'toupper', 'isdigit') and a[0].op == 'int':
                c = chr(a[0].a[0] & 255)
                return I(int(c.isdigit())) if dem == 'isdigit' else I(ord(getattr(c, dem[2:])()))
            if dem == '__errno_location':
                return T('alloca', 'errno', 0)
            dem = strip_ret(dem)
            n = short(dem)
            r = self.other(an, i, n, dem, a, st)
            if r is not None:
                return r
            if short(dem) == 'readImageList' and len(a) == 2 and a[0] is self.imgs:
                # the paths in the file named: `listed` of them, None when it can't be opened
                c = st.mem.get(self.count(a[0]))
                if c is not None and c.op == 'int' and listed is not None:
                    for k in range(listed):
                        st.mem[(ptr(self.elems(a[0]), 32 * (c.a[0] + k)), 8)] = GIVEN
                    st.mem[self.count(a[0])] = I(c.a[0] + listed, 64)
                return I(int(listed is not None), 1)
            if short(dem) == 'readCustomMipList' and len(a) == 2 and a[0] is self.mips:
                c = st.mem.get(self.count(a[0]))
                if c is not None and c.op == 'int' and custom is not None:
                    for k, (face, level, depth) in enumerate(custom):
                        b = self.node(st.mem, a[0], c.a[0] + k, [(0, I(face)), (4, I(level)), (8, I(depth))], c.a[0] + k)
                        st.mem[(ptr(b, 24), 8)] = GIVEN
                        st.mem[(ptr(b, 56), 4)] = I(1)
                    st.mem[self.count(a[0])] = I(c.a[0] + len(custom), 64)
                return I(int(custom is not None), 1)
            mt = STRTO.match(dem)
            if mt:
                return self.number(an, i, mt.group(2), a, st)
            if VEC.match(dem):
                return self.vector(an, i, n, dem, a, st)
            if STR.match(dem):
                return self.string(an, i, n, dem, a, st)
            if MAP.match(dem):
                return self.map(an, i, n, dem, a, st)
            c = cname(dem)
            if c == Q + 'fileType':
                x = self.deref(an, a[0], i)
                if x is not None:
                    e = x.rsplit('.', 1)[-1].lower() if '.' in x else ''
                    return I({'dds': 1, 'ktx': 2, 'pvr': 3}.get(e, 0))
            if c == Q + 'isFormatValid':
                self.queries.append((c, tuple(a)))
                return I(valid, 1) if valid is not None else None
            if c == Q + 'hasNativeSRGB':
                self.queries.append((c, tuple(a)))
                return I(srgb, 1)

        def onload(an, p, ty, st, t):
            b, o, v = split_ptr(p)
            if v:
                return None
            if b is argv and ty == 'ptr':
                k = o // 8
                if not 0 <= k <= self.argc - (0 if k == self.argc else 1) or o % 8:
                    self.over.append(k)
                    return None
                return NULL if k == self.argc else word(k)
            if isword(b) and ty == 'i8':
                w = words[b.a[1] - WORD]
                if 0 <= o <= len(w):
                    return I(ord(w[o]) if o < len(w) else 0, 8)
                self.over.append('character %d of %s' % (o, w))
            if b is EMPTY and ty == 'i8' and o == 0:
                return I(0, 8)

        self.a = self.engine(f, A, pure=CONST, keeps=lambda n: True, bind=bind, onload=onload, mem=mem)
        # the hooks saw intermediate states as well: only what the final pass met counts
        self.over = []; self.nulls = []; self.queries = []
        a = self.a
        for e in a.events:
            if e.i.op == 'load' and e.args and e.args[0] is not None:
                b, o, v = split_ptr(e.args[0])
                if b is argv and (v or not 0 <= o // 8 <= self.argc):
                    self.over.append(('argument %s' % (o // 8 if not v else '?'), e, not v))
                elif isword(b) and not v and not 0 <= o <= len(words[b.a[1] - WORD]):
                    self.over.append(('character %d of "%s"' % (o, words[b.a[1] - WORD]), e, True))
                elif b is NULL:
                    self.nulls.append(e)
            if e.i.op in ('call', 'invoke') and e.name in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'strlen', 'strtol', 'strtoul', 'strtod', '__isoc23_strtol',
                                             '__isoc23_strtoul', '__isoc23_strtod') and any(x is NULL for x in e.args[:1 if STRTO.match(e.name) else 2]):
                self.nulls.append(e)
            if e.i.op in ('call', 'invoke') and e.name and STR.match(e.name) and any(x is NULL for x in e.args[1:2]):
                self.nulls.append(e)
            if e.i.op in ('call', 'invoke') and e.name and cname(e.name) in (Q + 'isFormatValid', Q + 'hasNativeSRGB'):
                self.queries.append((short(e.name), e))

    # -- values
    def count(self, obj):
        return (T('alloca', 'count', obj), 8)

    def elems(self, obj):
        return T('alloca', 'elems', obj)

    def deref(self, an, p, i):
        if p is NULL:
            return None
        if split_ptr(p)[0] is GIVEN:
            return 'given.png'
        return text(an, p, self.words)

    def node(self, mem, obj, k, key, serial):
        base = T('alloca', 'node', (obj, serial))
        mem[(base, 8)] = NULL
        for o, v in key:
            mem[(ptr(base, 8 + o), 4)] = v
        if k:
            mem[(T('alloca', 'node', (obj, k - 1)), 8)] = base
        return base

    def number(self, an, i, kind, a, st):
        s = self.deref(an, a[0], i)
        if s is None:
            return None
        if kind in ('d', 'f', 'ld'):
            mt = REAL.match(s)
            if mt and re.match(r'[ \t]*[+-]?0x', s, re.I):
                return None
            v = float(mt.group(0)) if mt else 0.0
            r = F(v, {'d': 'double', 'f': 'float'}.get(kind, 'x86_fp80'))
            end = len(mt.group(0)) if mt else 0
        else:
            if a[2] is not I(10) and not (a[2].op == 'int' and a[2].a[0] == 10):
                return None
            mt = NUMBER.match(s)
            v = int(mt.group(2)) if mt else 0
            end = len(mt.group(0)) if mt else 0
            neg = mt and mt.group(1) == '-'
            lo, hi = (0, 2**64 - 1) if kind[0] == 'u' else (-2**63, 2**63 - 1)
            if kind[0] == 'u':
                if v > hi:
                    v, rng = hi, True
                else:
                    v, rng = (2**64 - v) % 2**64 if neg else v, False
            else:
                v = -v if neg else v
                rng = not lo <= v <= hi
                v = max(lo, min(hi, v))
            if rng:
                st.mem[(T('alloca', 'errno', 0), 4)] = I(34)
            r = I(v, 64)
        if a[1] is not NULL:
            st.mem[(a[1], 8)] = ptr(a[0], end)
        return r

    def vector(self, an, i, n, dem, a, st):
        obj = a[0]
        strs = 'basic_string' in dem.split('>>::')[0]
        size = 32 if strs else 4 if dem.startswith('std::vector<unsigned int') or dem.startswith('std::vector<int') else None
        if size is None:
            return None
        ck = self.count(obj)
        if n == 'vector' and len(a) == 1:
            st.mem[ck] = I(0, 64)
            return None
        c = st.mem.get(ck)
        if c is None or c.op != 'int':
            if n == 'empty' and strs and getattr(self, 'filled', True):
                return I(0, 1)
            return None
        k = c.a[0]
        el = self.elems(obj)
        if n == 'size':
            return I(k, 64)
        if n == 'empty':
            return I(int(k == 0), 1)
        if n in ('operator[]', 'at') and a[1].op == 'int':
            return ptr(el, size * a[1].a[0]) if a[1].a[0] < k else None
        if n in ('begin', 'cbegin', 'data', 'front'):
            return el
        if n in ('end', 'cend'):
            return ptr(el, size * k)
        if n == 'back' and k:
            return ptr(el, size * (k - 1))
        if n == 'resize' and a[1].op == 'int' and a[1].a[0] <= 4096:
            for j in range(k, a[1].a[0]):
                if strs:
                    st.mem[(ptr(el, size * j), 8)] = EMPTY
                else:
                    v = an.load(a[2], 4, 'i32', st, i) if len(a) > 2 else I(0)
                    st.mem[(ptr(el, size * j), 4)] = v
            st.mem[ck] = a[1]
            return None
        if n in ('push_back', 'emplace_back') and len(a) == 2:
            if strs:
                v = st.mem.get((a[1], 8))
                if v is None and isword(split_ptr(a[1])[0]):
                    v = a[1]
                st.mem[(ptr(el, size * k), 8)] = v if v is not None else UNDEF
            else:
                st.mem[(ptr(el, size * k), 4)] = an.load(a[1], 4, 'i32', st, i)
            st.mem[ck] = I(k + 1, 64)
            return ptr(el, size * k)
        if n in ('insert', 'emplace') and len(a) == 3 and strs and 'size_type' not in dem and 'unsigned long' not in dem[len(cname(dem)):]:
            b, o, v = split_ptr(a[1])
            at = o // 32 if b is el and not v else None
            x = st.mem.get((a[2], 8))
            if at is not None and x is not None and at <= k:
                for j in range(k, at, -1):
                    st.mem[(ptr(el, 32 * j), 8)] = st.mem.get((ptr(el, 32 * (j - 1)), 8), UNDEF)
                st.mem[(ptr(el, 32 * at), 8)] = x
                st.mem[ck] = I(k + 1, 64)
                return ptr(el, 32 * at)
        if n == 'clear':
            st.mem[ck] = I(0, 64)
            return None
        if n in ('reserve', '~vector', 'shrink_to_fit', 'capacity'):
            return None
        st.mem.pop(ck, None)
        return None

    def string(self, an, i, n, dem, a, st):
        me = a[0] if a else None
        if me is None:
            return None
        sig = dem[len(cname(dem)):]
        key = (me, 8)
        cur = st.mem.get(key)
        if n == 'basic_string' or n == 'operator=' or n == 'assign':
            if sig.startswith('(char const*)') or sig.startswith('(char const*, std::allocator'):
                st.mem[key] = a[1]
            elif sig.startswith('(std::__cxx11::basic_string') or sig.startswith('(std::string'):
                v = st.mem.get((a[1], 8))
                if v is not None:
                    st.mem[key] = v
                else:
                    st.mem.pop(key, None)
            elif sig in ('()', '(std::allocator<char> const&)'):
                st.mem[key] = EMPTY
            else:
                st.mem.pop(key, None)
            return me if n != 'basic_string' else None
        t = None if cur is None else self.deref(an, cur, i)
        b, o, v = split_ptr(me)
        if b in getattr(an, 'ivinfo', {}):
            roots = {root(x) for x in an.ivinfo[b][1]}
            b, v = roots.pop() if len(roots) == 1 else NULL, True
        if v and b.op == 'alloca' and b.a[0] == 'elems' and n == 'empty':
            # some element of a vector: decided when all of them are alike
            c = st.mem.get(self.count(b.a[1]))
            vs = {st.mem.get((ptr(b, 32 * k), 8)) for k in range(c.a[0])} if c is not None and c.op == 'int' else set()
            es = {self.deref(an, x, i) == '' if x is not None else None for x in vs}
            if len(es) == 1 and None not in es:
                return I(int(es.pop()), 1)
        if n in ('c_str', 'data') and cur is not None:
            return cur
        if n in ('empty', 'size', 'length') and t is not None:
            return I(int(not t), 1) if n == 'empty' else I(len(t), 64)
        if n == 'compare' and sig.startswith('(char const*)') and t is not None:
            o = self.deref(an, a[1], i)
            return None if o is None else I((t > o) - (t < o))
        if n in ('operator[]', 'at') and cur is not None and a[1].op == 'int':
            return ptr(cur, a[1].a[0])
        if n == 'clear':
            st.mem[key] = EMPTY
            return None
        if n in ('begin', 'end') and t is not None:
            return ptr(cur, 0 if n == 'begin' else len(t))
        if n in ('~basic_string', 'reserve'):
            return None
        st.mem.pop(key, None)
        return None

    def map(self, an, i, n, dem, a, st):
        obj = a[0]
        ck = self.count(obj)
        c = st.mem.get(ck)
        if c is None or c.op != 'int':
            return None
        k = c.a[0]
        if n == 'empty':
            return I(int(k == 0), 1)
        if n == 'size':
            return I(k, 64)
        if n in ('begin', 'cbegin'):
            return T('alloca', 'node', (obj, 0)) if k else NULL
        if n in ('end', 'cend'):
            return NULL
        if n == 'emplace' and len(a) == 3:
            key = [(o, an.load(ptr(a[1], o), 4, 'i32', st, i)) for o in (0, 4, 8)]
            if all(v.op == 'int' for _, v in key):
                for j in range(k):
                    b = T('alloca', 'node', (obj, j))
                    if all(st.mem.get((ptr(b, 8 + o), 4)) is v for o, v in key):
                        return T('vec', b, I(0, 8))
                b = self.node(st.mem, obj, k, key, k)
                st.mem[(ptr(b, 24), 8)] = st.mem.get((a[2], 8), UNDEF)
                st.mem[(ptr(b, 56), 4)] = an.load(ptr(a[2], 32), 4, 'i32', st, i)
                st.mem[ck] = I(k + 1, 64)
                return T('vec', b, I(1, 8))
        st.mem.pop(ck, None)
        return None

    # -- results
    def result(self):
        """1, 0, or None when it is not determined"""
        r = {x.a[0] if x.op == 'int' else None for x in retleaves(self.a)}
        return r.pop() if len(r) == 1 else None

    def final(self):
        out = [e.st.mem for e in self.a.events if e.i.op == 'ret' and self.a.reachable(e.block)]
        return out[0] if len(out) == 1 else None

    def member(self, n):
        mem = self.final()
        if mem is None or n not in self.d.off:
            return None
        o, s = self.d.off[n]
        return mem.get((ptr(self.me, o), s))

    def image(self, k):
        mem = self.final()
        v = mem and mem.get((ptr(self.elems(self.imgs), 32 * k), 8))
        return None if v is None else self.deref(self.a, v, None)

    def images(self):
        mem = self.final()
        c = mem and mem.get(self.count(self.imgs))
        return None if c is None or c.op != 'int' else [self.image(k) for k in range(c.a[0])]

    def customs(self):
        mem = self.final()
        c = mem and mem.get(self.count(self.mips))
        if c is None or c.op != 'int':
            return None
        out = []
        for k in range(c.a[0]):
            b = T('alloca', 'node', (self.mips, k))
            v = [mem.get((ptr(b, 8 + o), 4)) for o in (0, 4, 8)] + [mem.get((ptr(b, 56), 4))]
            p = mem.get((ptr(b, 24), 8))
            out.append(tuple(x.a[0] if x is not None and x.op == 'int' else None for x in v) + (self.deref(self.a, p, None) if p is not None else None,))
        return out


# ---------------------------------------------------------------- what the documentation promises

FILTERS = {'box': 'Box', 'linear': 'Linear', 'cubic': 'Cubic', 'b-spline': 'BSpline', 'catmull-rom': 'CatmullRom'}
SIZES = {'nextpo2': 'NextPO2', 'nearestpo2': 'NearestPO2', 'width': 'Width', 'width-nextpo2': 'WidthNextPO2', 'width-nearestpo2': 'WidthNearestPO2',
         'height': 'Height', 'height-nextpo2': 'HeightNextPO2', 'height-nearestpo2': 'HeightNearestPO2', 'min': 'Min', 'min-nextpo2': 'MinNextPO2',
         'min-nearestpo2': 'MinNearestPO2', 'max': 'Max', 'max-nextpo2': 'MaxNextPO2', 'max-nearestpo2': 'MaxNearestPO2'}
FACES = {'+x': 'PosX', '-x': 'NegX', '+y': 'PosY', '-y': 'NegY', '+z': 'PosZ', '-z': 'NegZ'}
TYPES = {'unorm': 'UNorm', 'snorm': 'SNorm', 'uint': 'UInt', 'int': 'Int', 'ufloat': 'UFloat', 'float': 'Float'}
ALPHAS = {'none': 'None', 'standard': 'Standard', 'pre-multiplied': 'PreMultiplied', 'encoded': 'Encoded'}
QUALITIES = {'lowest': 'Lowest', 'low': 'Low', 'normal': 'Normal', 'high': 'High', 'highest': 'Highest'}
CONTAINERS = {'dds': 'DDS', 'ktx': 'KTX', 'pvr': 'PVR'}
KINDS = {'image': 'Image', 'array': 'Array', 'cube': 'Cube', 'cube-array': 'CubeArray'}
CHANNELS = {'r': 'Red', 'g': 'Green', 'b': 'Blue', 'a': 'Alpha', 'x': 'None'}
REPLACE = {'once': 'Once', 'continue': 'Continue'}
CODED = re.compile(r'^(BC\d|ETC|EAC|ASTC|PVRTC)')
IN = ['-i', 'in.png']
OUT = ['-o', 'out.dds']
FMT = ['-f', 'R8G8B8A8']
ENUMS = {'resizeFilter': QI + 'ResizeFilter', 'mipFilter': QI + 'ResizeFilter', 'rotateAngle': QI + 'RotateAngle', 'redSwzl': QI + 'Channel', 'greenSwzl': QI + 'Channel',
         'blueSwzl': QI + 'Channel', 'alphaSwzl': QI + 'Channel', 'imageColorSpace': 'cuttlefish::ColorSpace', 'textureColorSpace': 'cuttlefish::ColorSpace',
         'dimension': Q + 'Dimension', 'format': Q + 'Format', 'type': Q + 'Type', 'alpha': Q + 'Alpha', 'quality': Q + 'Quality', 'fileType': Q + 'FileType',
         'log': 'CommandLine::Log', 'imageType': 'CommandLine::ImageType', 'width': 'CommandLine::Size', 'height': 'CommandLine::Size', 'face': Q + 'CubeFace',
         'replace': Q + 'MipReplacement'}


class Parser:
    """expected results of command lines, compared with what the analysis derives"""

    def __init__(self, ctx, defs=None):
        self.ctx = ctx
        self.d = Defaults(ctx)
        self.m = load(ctx, defs=defs)
        self.jobs = []
        self.whole, self.defs = None, defs
        f = self.m.find('CommandLine::parse(')
        ctx.fn(f)
        self.where = f.where()

    def num(self, member, v):
        """the number a setting's documented value stands for"""
        if isinstance(v, str):
            for m in (self.m, self.d.m):
                if ENUMS[member] in m.enums and v in m.enums[ENUMS[member]]:
                    return m.enums[ENUMS[member]][v]
            return None
        return v

    def line(self, words, **kw):
        return Line(self.m, self.d, words, **kw)

    def expect(self, *a, **kw):
        self.jobs.append(lambda: self.compare(*a, **kw))

    def later(self, f, *a):
        self.jobs.append(lambda: f(*a))

    def compare(self, rule, key, words, result, settings=None, images=None, customs=None, base=True, **kw):
        """the words after the required options are accepted (result 1) and change exactly the given settings,
        or the command line is refused (result 0)"""
        ctx = self.ctx
        full = (IN + FMT + OUT if base is True else base or []) + list(words)
        want = dict(settings or {})
        if base is True:
            want.setdefault('format', 'R8G8B8A8')
            want.setdefault('fileType', 'DDS')
        l = self.line(full, **kw)
        ok, msg = self.judge(l, full, result, want, images, customs)
        if ok is None:
            w = self.follow(full, **kw)
            r = self.judge(w, full, result, want, images, customs) if w is not None else (None, msg)
            if r[0] is not None:
                (ok, msg), l = r, w
        ctx.check(ok, rule, key, self.where, msg)
        return l

    def follow(self, words, **kw):
        """the same command line along its one path, where the parser as a whole is not evaluated"""
        from . import toollist
        try:
            if self.whole is None:
                self.whole = toollist.whole(self.ctx, self.defs)
            return toollist.followed(self.whole, self.d, words, **kw)
        except AnalysisError:
            return None

    def judge(self, l, full, result, want, images, customs):
        r = l.result()
        if r != result:
            return (None, 'parse is not evaluated') if r is None else (False, '`%s` is %s' % (' '.join(full), 'refused' if result else 'accepted'))
        if not result:
            return True, ''
        bad = und = None
        for n in l.d.off:
            if n in ('images', 'customMipImages', 'colorMask'):
                continue
            g = l.member(n)
            if n == 'output':
                w = want.get(n, 'out.dds')
                t = None if g is None else NULL if g is NULL else l.deref(l.a, g, None)
                if t is None:
                    und = n
                elif t != w:
                    bad = 'output is %s' % show(g)
                continue
            if n in want:
                w = self.num(n, want[n])
            else:
                c = l.d.cells.get(l.d.off[n])
                w = c.a[0] if c is not None and c.op in ('int', 'f') else None
            if w is None or g is None or g.op not in ('int', 'f'):
                und = n
                continue
            if isinstance(w, int) and g.op == 'int':
                w %= 1 << g.a[1]
            if n == 'rotateAngle' and 'rotateAngle' not in want and not want.get('rotate'):
                continue        # the angle of no rotation
            if g.a[0] != w:
                bad = '%s is %s instead of %s' % (n, self.name(n, g), want.get(n, self.name(n, w)))
        if images is not None:
            i = l.images()
            if i is None or None in i:
                und = 'images'
            elif i != images:
                bad = 'the images are %s instead of %s' % (i, images)
        if customs is not None:
            c = l.customs()
            c0 = sorted(tuple(self.num(k, x) if isinstance(x, str) and k else x for k, x in zip(('face', None, None, 'replace', None), t)) for t in customs)
            if c is None or any(None in t for t in c):
                und = 'custom mips'
            elif sorted(c) != c0:
                bad = 'the custom mips are %s instead of %s' % (c, customs)
        if any(n not in l.d.off for n in want):
            und = 'unknown setting'
        return False if bad else None if und else True, 'after `%s`: %s' % (' '.join(full), bad or 'the value of %s is not known' % und)

    def name(self, n, g):
        v = g if isinstance(g, (int, float)) else g.a[0]
        if n in ENUMS:
            for m in (self.m, self.d.m):
                for k, x in m.enums.get(ENUMS[n], {}).items():
                    if isinstance(v, int) and x % (1 << 32) == v % (1 << 32):
                        return k
        return v


def spellings(w):
    out = [w]
    for x in (w.upper(), w.capitalize() if w.capitalize() != w else w.swapcase()):
        if x not in out:
            out.append(x)
    return out


def twisted(w, words):
    """words that are not keywords but nearly"""
    low = [x.lower() for x in words]
    return [x for x in (w + 'x', w[:-1], 'x' + w) if x.lower() not in low and x]


def u01(ctx):
    ctx.rule('keyword', 'constants propagated through the parser: the option followed by the keyword, in each spelling, is accepted and changes exactly the setting it names to exactly the named value')
    ctx.rule('refused', 'words that are not documented for an option, and options that are not documented, are refused')
    ctx.rule('format', 'every format name selects the format of that name, with the type that the format needs, and names of formats that are not built in are refused')
    ctx.rule('default', 'settings that no option changes have the documented default')
    ctx.rule('order', 'settings implied by other options apply unless the setting is given explicitly, whichever comes first')
    p = Parser(ctx)
    E = p.expect
    d = p.d
    for n, v in (('log', 'Normal'), ('imageType', 'Image'), ('width', 'OriginalSize'), ('height', 'OriginalSize'), ('resizeFilter', 'CatmullRom'), ('mipLevels', 1),
                 ('mipFilter', 'CatmullRom'), ('flipX', 0), ('flipY', 0), ('rotate', 0), ('normalMap', 0), ('normalOptions', 0), ('normalHeight', 1.0), ('grayscale', 0), ('swizzle', 0),
                 ('redSwzl', 'Red'), ('greenSwzl', 'Green'), ('blueSwzl', 'Blue'), ('alphaSwzl', 'Alpha'), ('colorMask.r', 1), ('colorMask.g', 1), ('colorMask.b', 1),
                 ('colorMask.a', 1), ('imageColorSpace', 'Linear'), ('textureColorSpace', 'Linear'), ('preMultiply', 0), ('dimension', 'Dim2D'), ('format', 'Unknown'),
                 ('type', 'UNorm'), ('alpha', 'Standard'), ('quality', 'Normal'), ('fileType', 'Auto'), ('createOutputDir', 0)):
        c = d.cells.get(d.off.get(n))
        w = p.num(n, v)
        if c is None or c.op not in ('int', 'f') or w is None:
            ctx.und('default', n, d.m.src, 'the default is not known')
            continue
        if isinstance(w, int) and c.op == 'int':
            w %= 1 << c.a[1]
        ctx.check(c.a[0] == w, 'default', n, 'tool/CommandLine.h', 'the default is %s instead of %s' % (p.name(n, c), v))
    E('keyword', 'required options', [], 1, {}, ['in.png'], [])
    # options without keywords
    plain = [(('-q', '--quiet'), {'log': 'Quiet'}), (('-v', '--verbose'), {'log': 'Verbose'}), (('--flipx',), {'flipX': 1}), (('--flipy',), {'flipY': 1}),
             (('-g', '--grayscale'), {'grayscale': 1}), (('--create-dir',), {'createOutputDir': 1}), (('-n', '--normalmap'), {'normalMap': 1}),
             (('-m', '--mipmap'), {'mipLevels': 2**32 - 1}), (('-j', '--jobs'), {'jobs': 2**32 - 1}), (('--pre-multiply',), {'preMultiply': 1, 'alpha': 'PreMultiplied'}),
             (('--srgb',), {'imageColorSpace': 'sRGB', 'textureColorSpace': 'sRGB'})]
    for names, s in plain:
        for n in names:
            E('keyword', n, [n], 1, s)
            E('keyword', n + ' before others', [n, '-g'], 1, dict(s, grayscale=1))
    E('keyword', '--srgb without a native format', ['--srgb'], 1, {'imageColorSpace': 'sRGB', 'textureColorSpace': 'Linear'}, srgb=0)
    for n in ('-j', '--jobs'):
        E('keyword', n + ' 3', [n, '3'], 1, {'jobs': 3})
    for n in ('-m', '--mipmap'):
        E('keyword', n + ' 5', [n, '5'], 1, {'mipLevels': 5})
        for w, v in FILTERS.items():
            for x in spellings(w):
                E('keyword', '%s 5 %s' % (n, x), [n, '5', x], 1, {'mipLevels': 5, 'mipFilter': v})
            E('keyword', '%s %s' % (n, w), [n, w], 1, {'mipLevels': 2**32 - 1, 'mipFilter': v})
    for n in ('-r', '--resize'):
        E('keyword', n, [n, '16', '7'], 1, {'width': 16, 'height': 7})
        for w, v in FILTERS.items():
            for x in spellings(w) if n == '-r' else [w]:
                E('keyword', '%s 16 7 %s' % (n, x), [n, '16', '7', x], 1, {'width': 16, 'height': 7, 'resizeFilter': v})
        for w, v in SIZES.items():
            E('keyword', '%s %s 3' % (n, w), [n, w if n == '-r' else w.upper(), '3'], 1, {'width': v, 'height': 3})
            E('keyword', '%s 3 %s' % (n, w), [n, '3', w if n != '-r' else w.upper()], 1, {'width': 3, 'height': v})
    for w in FILTERS:
        for x in twisted(w, FILTERS):
            E('refused', '-r 4 4 ' + x, ['-r', '4', '4', x], 0)
    for w in list(SIZES)[:9:2] + ['original', 'originalsize']:
        for x in twisted(w, SIZES)[:1] if w in SIZES else [w]:
            E('refused', '-r %s 4' % x, ['-r', x, '4'], 0)
            E('refused', '-r 4 %s' % x, ['-r', '4', x], 0)
    # one keyword
    for names, words, member in ((('-t', '--type'), TYPES, 'type'), (('--alpha',), ALPHAS, 'alpha'), (('-Q', '--quality'), QUALITIES, 'quality'),
                                 (('--file-format',), CONTAINERS, 'fileType')):
        for w, v in words.items():
            for n in names:
                for x in spellings(w) if n == names[-1] else [w]:
                    E('keyword', '%s %s' % (n, x), [n, x], 1, {member: v})
                    if member == 'fileType':
                        break
            for x in twisted(w, words)[:2]:
                E('refused', '%s %s' % (names[0], x), [names[0], x], 0)
        E('refused', names[0] + ' bogus', [names[0], 'bogus'], 0)
    for x, v in (('a.dds', 'DDS'), ('a.ktx', 'KTX'), ('b.pvr', 'PVR')):
        for n in ('-o', '--output'):
            E('keyword', '%s %s' % (n, x), [n, x], 1, {'format': 'R8G8B8A8', 'fileType': v, 'output': x}, base=IN + FMT)
    for w in CONTAINERS:
        E('keyword', '--file-format %s, other extension' % w, ['--file-format', w.upper(), '-o', 'a.bin'], 1, {'format': 'R8G8B8A8', 'fileType': CONTAINERS[w], 'output': 'a.bin'}, base=IN + FMT)
    for n in ('-d', '--dimension'):
        for w, v in (('1', 'Dim1D'), ('2', 'Dim2D'), ('3', 'Dim3D')):
            E('keyword', '%s %s' % (n, w), [n, w], 1, {'dimension': v})
    for w in ('0', '4', 'cube', '2d', '-1'):
        E('refused', '-d ' + w, ['-d', w], 0)
    # channels
    masks = ('colorMask.r', 'colorMask.g', 'colorMask.b', 'colorMask.a')
    for k in range(5):
        w = ('rgbax' * 2)[k:k + 4]
        for x in (w, w.upper(), w[:2] + w[2:].upper()):
            s = {'swizzle': 1}
            for c, n, mk in zip(w, ('redSwzl', 'greenSwzl', 'blueSwzl', 'alphaSwzl'), masks):
                s[n] = CHANNELS[c]
                s[mk] = int(c != 'x')
            if w[3] == 'x':
                s['alpha'] = 'None'
            E('keyword', '%s %s' % ('-s' if x == w else '--swizzle', x), ['-s' if x == w else '--swizzle', x], 1, s)
    for x in ('rgb', 'rgbaa', 'rgbq', 'qgba', 'rqba', 'rgqa', '1234'):
        E('refused', '-s ' + x, ['-s', x], 0)
    # rotation
    for n, v in ((90, 'CW90'), (180, 'CW180'), (270, 'CW270'), (-90, 'CCW90'), (-180, 'CCW180'), (-270, 'CCW270'), (450, 'CW90'), (-450, 'CCW90'), (540, 'CW180'), (990, 'CW270'),
                 (-630, 'CCW270'), (360, None), (0, None), (-720, None)):
        x = {'rotate': 1, 'rotateAngle': v} if v else {'rotate': 0}
        E('keyword', '--rotate %d' % n, ['--rotate', str(n)], 1, x)
    for x in ('45', '1', '-89', '91', 'abc', '90x', '90.0'):
        E('refused', '--rotate ' + x, ['--rotate', x], 0)
    # normal maps
    wrap = {}
    no = p.m.enums.get(QI + 'NormalOptions') or d.m.enums.get(QI + 'NormalOptions') or {}
    if 'WrapX' in no and 'WrapY' in no:
        wrap = {'wrap': no['WrapX'] | no['WrapY'], 'wrapx': no['WrapX'], 'wrapy': no['WrapY']}
    for n in ('-n', '--normalmap'):
        for w, v in wrap.items():
            for x in spellings(w) if n == '-n' else [w]:
                E('keyword', '%s %s' % (n, x), [n, x], 1, {'normalMap': 1, 'normalOptions': v})
            E('keyword', '%s %s 2.5' % (n, w), [n, w, '2.5'], 1, {'normalMap': 1, 'normalOptions': v, 'normalHeight': 2.5})
        for h in ('0.25', '-3', '1e2'):
            E('keyword', '%s %s' % (n, h), [n, h], 1, {'normalMap': 1, 'normalHeight': float(h)})
    for x in ('wrapz', 'wra', '1.5x'):
        E('refused', '-n ' + x, ['-n', x], 0)
    # images
    for w, v in FACES.items():
        for x in spellings(w)[:2]:
            for n in ('-c', '--cube'):
                p.later(face_image, ctx, p, n, x, v)
            for n in ('-C', '--cube-array'):
                p.later(face_image, ctx, p, n, x, v, '1')
    for x in ('x', '+w', '++x', '+xy', 'posx'):
        E('refused', '-c ' + x, ['-c', x, 'f.png'], 0, base=FMT + OUT)
        E('refused', '-C 0 ' + x, ['-C', '0', x, 'f.png'], 0, base=FMT + OUT)
    for n in ('-a', '--array'):
        E('keyword', n, [n, 'a.png', n, 'b.png'], 1, {'imageType': 'Array', 'format': 'R8G8B8A8', 'fileType': 'DDS'}, ['a.png', 'b.png'], base=FMT + OUT)
        E('keyword', n + ' with indices', [n, '1', 'a.png', n, '0', 'b.png'], 1, {'imageType': 'Array', 'format': 'R8G8B8A8', 'fileType': 'DDS'}, ['b.png', 'a.png'], base=FMT + OUT)
    for n in ('-i', '--input'):
        E('keyword', n, [n, 'a.png'], 1, {'format': 'R8G8B8A8', 'fileType': 'DDS'}, ['a.png'], base=FMT + OUT)
    for w, v in KINDS.items():
        for n in ('-I', '--input-list'):
            for x in spellings(w) if n == '-I' else [w]:
                E('keyword', '%s %s' % (n, x), [n, x, 'list.txt'], 1, {'imageType': v, 'format': 'R8G8B8A8', 'fileType': 'DDS', 'dimension': 'Cube' if v.startswith('Cube') else 'Dim2D'},
                  ['given.png'] * COUNTS[v], base=FMT + OUT, listed=COUNTS[v])
    E('refused', '-I file missing', ['-I', 'image', 'list.txt'], 0, base=FMT + OUT, listed=None)
    E('refused', '--custom-mip-list file missing', ['--custom-mip-list', 'list.txt', '-m'], 0)
    E('keyword', '--custom-mip-list', ['--custom-mip-list', 'list.txt', '-m'], 1, {'mipLevels': 2**32 - 1}, None, [('PosX', 1, 0, 'Continue', 'given.png')], custom=[(0, 1, 0)])
    for x in ('images', 'cub', 'cubearray', '3d'):
        E('refused', '-I ' + x, ['-I', x, 'list.txt'], 0, base=FMT + OUT)
    # custom mips
    sa = {'imageType': 'Array', 'format': 'R8G8B8A8', 'fileType': 'DDS'}
    for n in ('-M', '--custom-mip'):
        E('keyword', n, [n, '2', 'c.png', '-m'], 1, {'mipLevels': 2**32 - 1}, None, [('PosX', 2, 0, 'Continue', 'c.png')])
        for w, v in REPLACE.items():
            for x in spellings(w):
                E('keyword', '%s 2 %s' % (n, x), [n, '2', x, 'c.png', '-m'], 1, {'mipLevels': 2**32 - 1}, None, [('PosX', 2, 0, v, 'c.png')])
        for w, v in FACES.items():
            E('keyword', '%s 2 %s' % (n, w), [n, '2', w, 'c.png', '-m'], 1, {'mipLevels': 2**32 - 1}, None, [(v, 2, 0, 'Continue', 'c.png')])
            E('keyword', '%s 2 1 %s' % (n, w), [n, '2', '1', w, 'c.png', '-m'], 1, dict(sa, mipLevels=2**32 - 1, dimension='Cube', imageType='CubeArray'), None, [(v, 2, 1, 'Continue', 'c.png')],
              base=FMT + OUT, start={'imageType': I(p.num('imageType', 'CubeArray') or 0)}, there=[1] * 12)
        two = ['-a', 'a.png', '-a', 'b.png'] + FMT + OUT
        E('keyword', n + ' 2 1', [n, '2', '1', 'c.png', '-m'], 1, dict(sa, mipLevels=2**32 - 1), None, [('PosX', 2, 1, 'Continue', 'c.png')], base=two)
        E('keyword', n + ' 2 1 once', [n, '2', '1', 'once', 'c.png', '-m'], 1, dict(sa, mipLevels=2**32 - 1), None, [('PosX', 2, 1, 'Once', 'c.png')], base=two)
        E('keyword', n + ' 2 0', [n, '2', '0', 'c.png', '-m'], 1, {'mipLevels': 2**32 - 1}, None, [('PosX', 2, 0, 'Continue', 'c.png')])
    E('keyword', '--rotate 90 --rotate 0', ['--rotate', '90', '--rotate', '0'], 1, {'rotate': 0})
    # settings implied by others
    for w, v in ALPHAS.items():
        E('order', '--alpha %s --pre-multiply' % w, ['--alpha', w, '--pre-multiply'], 1, {'alpha': v, 'preMultiply': 1})
        E('order', '--pre-multiply --alpha %s' % w, ['--pre-multiply', '--alpha', w], 1, {'alpha': v, 'preMultiply': 1})
        sw = {'swizzle': 1, 'alphaSwzl': 'None', 'colorMask.a': 0, 'alpha': v}
        E('order', '--alpha %s -s rgbx' % w, ['--alpha', w, '-s', 'rgbx'], 1, sw)
        E('order', '-s rgbx --alpha %s' % w, ['-s', 'rgbx', '--alpha', w], 1, sw)
    sw = {'swizzle': 1, 'alphaSwzl': 'None', 'colorMask.a': 0, 'alpha': 'None', 'preMultiply': 1}
    E('order', '--pre-multiply -s rgbx', ['--pre-multiply', '-s', 'rgbx'], 1, sw)
    E('order', '-s rgbx --pre-multiply', ['-s', 'rgbx', '--pre-multiply'], 1, sw)
    for w, v in TYPES.items():
        for n in ('B10G11R11_UFloat', 'R16'):
            s = {'format': n, 'type': v, 'fileType': 'DDS'}
            E('order', '-t %s -f %s' % (w, n), ['-t', w, '-f', n], 1, s, base=IN + OUT)
            E('order', '-f %s -t %s' % (n, w), ['-f', n, '-t', w], 1, s, base=IN + OUT)
    # unknown options
    for x in ('-x', '--bogus', 'in.png', '-', '--', '-R', '-F', '--Format', '-I', '--flip', '--flipz', '--FLIPX', '-qq', ''):
        E('refused', 'option ' + x, [x], 0)
        E('refused', 'option %s before others' % x, [x] + IN + FMT + OUT, 0, base=None) if x != '-I' else None
    for x in ('-h', '--help'):
        E('refused', x, [x], 0)
        E('refused', x + ' first', [x] + IN + FMT + OUT, 0, base=None)
    formats_named(ctx, p, False)
    q = Parser(ctx, CODECS_ON)
    formats_named(ctx, q, True)
    ctx.parallel(p.jobs + q.jobs)
    ctx.floor('keyword', 60)
    ctx.floor('refused', 20)
    ctx.floor('format', 20)


def face_image(ctx, p, n, x, v, index=None):
    words = [n] + ([index] if index else []) + [x, 'f.png']
    k = p.num('face', v)
    l = p.line(words)
    got = l.images()
    t = l.member('imageType')
    if got is None or t is None or t.op != 'int':
        l = p.follow(words) or l
        got = l.images()
        t = l.member('imageType')
    if k is None or got is None or t is None or t.op != 'int':
        return ctx.und('keyword', ' '.join(words), p.where, 'the images are not known')
    k, size, kind = (6 + k, 12, 'CubeArray') if index else (k, 6, 'Cube')
    ctx.check(got == ['f.png' if j == k else '' for j in range(size)] and p.name('imageType', t) == kind, 'keyword', ' '.join(words), p.where,
              'after `%s` the images are %s of kind %s' % (' '.join(words), got, p.name('imageType', t)))


COUNTS = {'Image': 1, 'Array': 3, 'Cube': 6, 'CubeArray': 12}


def formats_named(ctx, p, coded):
    en = p.m.enums.get(Q + 'Format') or {}
    tag = ' (codecs built in)' if coded else ''
    for n in en:
        if n in ('Unknown', 'Count') or n.startswith('Count'):
            continue
        built = coded or not CODED.match(n)
        t = 'UFloat' if n.endswith('_UFloat') or n == 'BC6H' else 'UNorm'
        for o, x in (('-f', n), ('--format', n.lower() if not coded else n.upper())):
            if coded and not CODED.match(n) and o == '-f':
                continue
            if built:
                p.expect('format', '%s %s%s' % (o, x, tag), [o, x], 1, {'format': n, 'type': t, 'fileType': 'DDS'}, base=IN + OUT)
            else:
                p.expect('format', '%s %s not built in' % (o, x), [o, x], 0, base=IN + OUT)
    for x in ('R8G8B8A8_', 'R8G8B8A', 'RGBA8', 'Unknown', 'Auto', 'B5G6R', ''):
        p.expect('refused', '-f %s%s' % (x, tag), ['-f', x], 0, base=IN + OUT)
        p.expect('refused', '-f R8 -f %s%s' % (x, tag), ['-f', 'R8', '-f', x], 0, base=IN + OUT)


# ---------------------------------------------------------------- U05: consistency

def u05(ctx):
    ctx.rule('count', 'constants propagated through the parser and its validation: the number of images must fit the kind of texture, every image must be given, and cube maps must be 2D')
    ctx.rule('required', 'a command line without image, format, output or a known container is refused')
    ctx.rule('combination', 'format, type and container that were settled on are what is asked for support, and refusal is final')
    ctx.rule('custom', 'custom mips need mipmaps, a level above 0, and a layer inside of the texture; 3D levels need all of their layers; nothing may be given twice')
    ctx.rule('index', 'malformed, negative and too large numbers are not taken for an index, a level count or a size')
    ctx.rule('loaded', 'once the images are loaded, custom mips for levels the texture does not have, or for faces of a texture without faces, are refused before anything is converted')
    ctx.rule('once', 'inputs of different kinds are not mixed and nothing is given twice')
    p = Parser(ctx)
    kind = lambda v: I(p.num('imageType', v) or 0)
    sv = {'format': 'R8G8B8A8', 'fileType': 'DDS'}

    def count(key, k, images, result, words=(), **settings):
        if p.num('imageType', k) is None:
            return ctx.und('count', key, p.where, 'no such kind of image')
        p.compare('count', key, FMT + OUT + list(words), result, dict(sv, imageType=k, **settings), base=None, start={'imageType': kind(k)}, there=images)

    def counts(key, *a, **kw):
        p.later(lambda: count(key, *a, **kw))
    for n in (1, 2, 3, 6):
        counts('Image %d' % n, 'Image', [1] * n, int(n == 1))
    for n in (1, 2, 5):
        counts('Array %d' % n, 'Array', [1] * n, 1)
    for n in (1, 4, 5, 6, 7, 12):
        counts('Cube %d' % n, 'Cube', [1] * n, int(n == 6), dimension='Cube')
    for n in (1, 5, 6, 7, 12, 13):
        counts('CubeArray %d' % n, 'CubeArray', [1] * n, int(n % 6 == 0), dimension='Cube')
    for k, n in (('Image', 1), ('Array', 4), ('Cube', 6), ('CubeArray', 6)):
        counts('%s 0' % k, k, [], 0)
        for j in range(n):
            counts('%s without image %d' % (k, j), k, [int(x != j) for x in range(n)], 0)
    for k in ('Cube', 'CubeArray'):
        for w in ('1', '3'):
            counts('%s -d %s' % (k, w), k, [1] * 6, 0, ['-d', w])
    for w, v in (('1', 'Dim1D'), ('3', 'Dim3D')):
        counts('Array -d %s' % w, 'Array', [1] * 4, 1, ['-d', w], dimension=v)
    E = p.expect
    E('required', 'no image', [], 0, base=FMT + OUT)
    E('required', 'no format', [], 0, base=IN + OUT)
    E('required', 'no output', [], 0, base=IN + FMT)
    E('required', 'no output, container given', ['--file-format', 'dds'], 0, base=IN + FMT)
    for x in ('out.bin', 'out', 'dds', 'a.dds.txt'):
        E('required', 'container of ' + x, ['-o', x], 0, base=IN + FMT)
    for k, w in (('', []), (' type float', ['-t', 'float']), (' container', ['--file-format', 'pvr']), (' quiet', ['-q']), (' verbose', ['-v']), (' sRGB', ['--srgb']), (' mipmaps', ['-m'])):
        E('combination', 'unsupported' + k, w, 0, valid=0)
    for f, t, c in (('R16', 'Float', 'KTX'), ('B10G11R11_UFloat', None, 'DDS'), ('R8G8B8A8', 'Int', 'PVR'), ('R8', None, 'KTX')):
        p.later(asked, ctx, p, f, t, c)
    M = lambda *a: (0,) + a
    lev = {'mipLevels': I(2**32 - 1)}

    def custom(key, k, n, mips, result, dim=None, words=(), start=lev, face=0):
        if p.num('imageType', k) is None:
            return ctx.und('custom', key, p.where, 'no such kind of image')
        s = dict(start, imageType=kind(k))
        want = dict(sv, imageType=k)
        if 'mipLevels' in start:
            want['mipLevels'] = 2**32 - 1
        if k.startswith('Cube'):
            want['dimension'] = 'Cube'
        if dim:
            words = list(words) + ['-d', dim]
            want['dimension'] = {'1': 'Dim1D', '2': 'Dim2D', '3': 'Dim3D'}[dim]
        p.compare('custom', key, FMT + OUT + list(words), result, want, base=None, start=s, there=[1] * n, mips=[(face,) + x for x in mips])

    def customs(key, *a, **kw):
        p.later(lambda: custom(key, *a, **kw))
    customs('without mipmaps', 'Image', 1, [(1, 0)], 0, start={})
    customs('with one level', 'Image', 1, [(1, 0)], 0, start={'mipLevels': I(1)})
    customs('level 0', 'Image', 1, [(0, 0)], 0)
    customs('level 1', 'Image', 1, [(1, 0)], 1)
    customs('level 0 among others', 'Image', 1, [(1, 0), (0, 0), (2, 0)], 0)
    customs('level 0 last', 'Array', 2, [(1, 0), (0, 1)], 0)
    for k, n, layers in (('Image', 1, 1), ('Array', 4, 4), ('Cube', 6, 1), ('CubeArray', 6, 1), ('CubeArray', 12, 2)):
        for dd in range(layers + 3):
            customs('%s %d layer %d' % (k, n, dd), k, n, [(1, dd)], int(dd < layers))
        for dd in (6, 11, 12, 2**32 - 1):
            customs('%s %d layer %d' % (k, n, dd), k, n, [(1, dd)], 0 if dd >= layers else 1)
    for n in (2, 5, 8):
        for level in (1, 2, 3):
            there = max(n >> level, 1)
            customs('3D %d level %d all layers' % (n, level), 'Array', n, [(level, j) for j in range(there)], 1, dim='3')
            customs('3D %d level %d layer outside' % (n, level), 'Array', n, [(level, j) for j in range(there)] + [(level, there)], 0, dim='3')
            for x in (n - 1, n, 2 * n, n << level, (n << level) - 1):
                if x >= there:
                    customs('3D %d level %d layer %d for another' % (n, level, x), 'Array', n, [(level, j) for j in range(there - 1)] + [(level, x)], 0, dim='3')
            if there > 1:
                customs('3D %d level %d layer missing' % (n, level), 'Array', n, [(level, j) for j in range(there - 1)], 0, dim='3')
                customs('3D %d level %d first layer missing' % (n, level), 'Array', n, [(level, j) for j in range(1, there)], 0, dim='3')
    for w in ('0', '1'):
        E('custom', '-M level %s' % w, ['-M', w, 'c.png', '-m'], int(w != '0'), {'mipLevels': 2**32 - 1})
    E('custom', '-M without -m', ['-M', '1', 'c.png'], 0)
    E('custom', '-M -m 1', ['-M', '1', 'c.png', '-m', '1'], 0)
    E('custom', '-M -m 2', ['-M', '1', 'c.png', '-m', '2'], 1, {'mipLevels': 2})
    for w in (['1'], ['1', '0'], ['1', '+x'], ['1', 'once'], ['1', '0', '+x', 'continue']):
        E('custom', '-M %s given twice' % ' '.join(w), ['-M'] + w + ['a.png', '-M'] + w + ['b.png', '-m'], 0)
    E('custom', '-M same level in two spellings', ['-M', '1', 'a.png', '-M', '1', '0', '+X', 'once', 'b.png', '-m'], 0)
    E('custom', '-M two levels', ['-M', '1', 'a.png', '-M', '2', 'b.png', '-m'], 1, {'mipLevels': 2**32 - 1}, None, [('PosX', 1, 0, 'Continue', 'a.png'), ('PosX', 2, 0, 'Continue', 'b.png')])
    # narrow types would wrap around
    for n in (256, 257, 65536, 65537, 2147483648, 4294967294):
        E('custom', '-M layer %d of one' % n, ['-M', '1', str(n), 'c.png', '-m'], 0)
        E('custom', '-M layer %d of one, with face' % n, ['-M', '1', str(n), '+x', 'once', 'c.png', '-m'], 0)
        E('custom', '-M level %d' % n, ['-M', str(n), 'c.png', '-m'], 0)
        E('custom', '-M level %d' % (n + 1), ['-M', str(n + 1), 'c.png', '-m'], 0)
        E('index', '-m %d' % n, ['-m', str(n)], 1, {'mipLevels': n})
    bad = ('-1', '-2', '1x', 'x1', '1.5', '', '-0', '4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '99999999999999999999999', '-18446744073709551615', '--1')
    for x in bad:
        E('index', '-a "%s"' % x, ['-a', x, 'f.png'], 0, base=FMT + OUT)
        E('index', '-C "%s"' % x, ['-C', x, '+x', 'f.png'], 0, base=FMT + OUT)
        E('index', '-m "%s"' % x, ['-m', x], 0)
        E('index', '-j "%s"' % x, ['-j', x], 0)
        E('index', '-M "%s"' % x, ['-M', x, 'f.png', '-m'], 0)
        E('index', '-r "%s" 4' % x, ['-r', x, '4'], 0)
        E('index', '-r 4 "%s"' % x, ['-r', '4', x], 0)
    for x in ('0', '2147483648', '-3', '-15', '-4294967295', '4294967297', '00'):
        E('index', '-r "%s" 4' % x, ['-r', x, '4'], 0)
        E('index', '-r 4 "%s"' % x, ['-r', '4', x], 0)
    for n in (1, 2, 255, 256, 257, 65535, 65536, 65537, 2147483647):
        E('index', '-r %d 1' % n, ['-r', str(n), '1'], 1, {'width': n, 'height': 1})
    for n in (2, 17):
        E('index', '-m %d' % n, ['-m', str(n)], 1, {'mipLevels': n})
    for w in (['-i', 'b.png'], ['-a', 'b.png'], ['-c', '+x', 'b.png'], ['-C', '0', '+x', 'b.png'], ['-I', 'image', 'l.txt'], ['-I', 'array', 'l.txt']):
        E('once', '-i ' + w[0], w, 0)
    more = {'-a': ['-a', 'a.png'], '-c': ['-c', '+x', 'a.png'], '-C': ['-C', '0', '+x', 'a.png'], '-I': ['-I', 'array', 'l.txt'], '-i': ['-i', 'a.png']}
    for x in more:
        for y in more:
            if x != y and x != '-i':
                E('once', '%s %s' % (x, y), more[x] + more[y], 0, base=FMT + OUT)
    for k in KINDS:
        for y in ('-a', '-c', '-C', '-i'):
            E('once', '-I %s %s' % (k, y), ['-I', k, 'l.txt'] + more[y], 0, base=FMT + OUT)
    E('once', '-a same index', ['-a', '0', 'a.png', '-a', '0', 'b.png'], 0, base=FMT + OUT)
    E('once', '-a same index later', ['-a', 'a.png', '-a', 'b.png', '-a', '1', 'b.png'], 0, base=FMT + OUT)
    E('once', '-a gap', ['-a', '0', 'a.png', '-a', '2', 'b.png'], 0, base=FMT + OUT)
    six = [y for x in FACES for y in ('-c', x, x + '.png')]
    E('once', '-c all faces', six, 1, dict(sv, imageType='Cube', dimension='Cube'), [x + '.png' for x in sorted(FACES, key=lambda x: p.num('face', FACES[x]) or 0)], base=FMT + OUT)
    E('once', '-c same face', ['-c', '+y', 'a.png', '-c', '+Y', 'b.png'], 0, base=FMT + OUT)
    E('once', '-c face missing', six[3:], 0, base=FMT + OUT)
    E('once', '-c face missing last', six[:-3], 0, base=FMT + OUT)
    E('once', '-C same face', ['-C', '0', '+y', 'a.png', '-C', '0', '+y', 'b.png'], 0, base=FMT + OUT)
    E('once', '-C face missing', [y for x in list(FACES)[:5] for y in ('-C', '0', x, 'a.png')], 0, base=FMT + OUT)
    E('once', '-C all faces', [y for x in FACES for y in ('-C', '0', x, x + '.png')], 1, dict(sv, imageType='CubeArray', dimension='Cube'),
      [x + '.png' for x in sorted(FACES, key=lambda x: p.num('face', FACES[x]) or 0)], base=FMT + OUT)
    E('once', '-o twice', ['-o', 'b.dds'], 0)
    for k in KINDS:
        for n in range(14):
            E('count', '-I %s with %d' % (k, n), ['-I', k, 'l.txt'], int(n == COUNTS[KINDS[k]] if k in ('image', 'cube') else n > 0 and n % (6 if k == 'cube-array' else 1) == 0),
              dict(sv, imageType=KINDS[k], dimension='Cube' if 'cube' in k else 'Dim2D'), base=FMT + OUT, listed=n)
    whole = {'-a': ['-a', 'a.png'] * 6, '-c': six, '-C': [y for x in FACES for y in ('-C', '0', x, 'a.png')]}
    was = {'-a': 'Array', '-c': 'Cube', '-C': 'CubeArray'}
    for x in whole:
        for y in whole:
            if x != y:
                E('once', 'all of %s then %s' % (x, y), whole[y] if y != '-C' else [z if z != '0' else '1' for z in whole[y]], 0, base=FMT + OUT,
                  start={'imageType': kind(was[x])}, there=[1] * 6)
        for k in KINDS:
            E('once', '-I %s then %s' % (k, x), ['-I', k, 'l.txt'] + (more[x] if x != '-C' else [z if z != '0' else '1' for z in whole[x]]), 0, base=FMT + OUT, listed=COUNTS[KINDS[k]])
            E('once', '%s then -I %s' % (x, k), whole[x] + ['-I', k, 'l.txt'], 0, base=FMT + OUT, listed=COUNTS[KINDS[k]])
    ctx.parallel(p.jobs)
    from . import toolrun
    toolrun.limits(ctx)
    for r in ('count', 'custom', 'index', 'once'):
        ctx.floor(r, 8)


def asked(ctx, p, f, t, c):
    """the support of what was settled on is asked for, once everything is known"""
    key = '%s %s %s' % (f, t or 'default type', c)
    words = IN + ['-o', 'x.' + c.lower(), '-f', f] + (['-t', t.lower()] if t else [])
    l = p.line(words)
    tv = t or ('UFloat' if f.endswith('UFloat') else 'UNorm')
    want = [p.num('format', f), p.num('type', tv), p.num('fileType', c)]
    q = [e for n, e in l.queries if n == 'isFormatValid' and len(e.args) >= 3]
    if l.result() is None or None in want:
        return ctx.und('combination', key, p.where, 'parse is not evaluated')
    ok = False
    for e in q:
        v = [x.a[0] if x.op == 'int' else None for x in e.args[-3:]]
        if None in v:
            ok = None
        elif v == want:
            ok = True
            break
    ctx.check(ok, 'combination', key, p.where, 'the support of %s, %s and %s is never asked for' % (f, tv, c))


# ---------------------------------------------------------------- U04: bounds of the arguments

OPTIONS = [(('-j', '--jobs'), ['3'], 0), (('-i', '--input'), ['f.png'], 1), (('-a', '--array'), ['f.png'], 1), (('-a', '--array'), ['0', 'f.png'], 0),
           (('-c', '--cube'), ['+x', 'f.png'], 2), (('-C', '--cube-array'), ['0', '+x', 'f.png'], 3), (('-I', '--input-list'), ['image', 'l.txt'], 2),
           (('-r', '--resize'), ['4', '4', 'box'], 2), (('-r', '--resize'), ['width', 'min', 'box'], 2), (('-m', '--mipmap'), ['3', 'box'], 0), (('-m', '--mipmap'), ['box'], 0),
           (('-M', '--custom-mip'), ['1', '0', '+x', 'once', 'f.png'], 5), (('-M', '--custom-mip'), ['1', 'f.png'], 2), (('-M', '--custom-mip'), ['1', '+x', 'f.png'], 3),
           (('-M', '--custom-mip'), ['1', 'once', 'f.png'], 3), (('-M', '--custom-mip'), ['1', '0', 'f.png'], 3), (('-M', '--custom-mip'), ['1', '0', '+x', 'f.png'], 4),
           (('-M', '--custom-mip'), ['1', '0', 'once', 'f.png'], 4), (('--custom-mip-list',), ['l.txt'], 1), (('--rotate',), ['90'], 1), (('-n', '--normalmap'), ['wrap', '1.0'], 0),
           (('-n', '--normalmap'), ['1.0'], 0), (('-s', '--swizzle'), ['rgba'], 1), (('-s', '--swizzle'), ['rgb'], 1), (('-s', '--swizzle'), ['r'], 1), (('-s', '--swizzle'), [''], 1),
           (('-d', '--dimension'), ['1'], 1), (('-f', '--format'), ['R8'], 1), (('-t', '--type'), ['unorm'], 1), (('--alpha',), ['none'], 1), (('-Q', '--quality'), ['low'], 1),
           (('-o', '--output'), ['x.dds'], 1), (('--file-format',), ['dds'], 1), (('-q', '--quiet'), [], 0), (('-v', '--verbose'), [], 0), (('--flipx',), [], 0), (('--flipy',), [], 0),
           (('-g', '--grayscale'), [], 0), (('--srgb',), [], 0), (('--pre-multiply',), [], 0), (('--create-dir',), [], 0), (('-h', '--help'), [], 0), (('--bogus',), [], 0), (('',), [], 0)]


def unavoidable(a, e):
    """every execution to a return passes the event"""
    return evflow(a, None, 'ret', avoid=[e]) is None and evflow(a, None, 'ret') is not None


def cut_short(ctx, p, words):
    key = '`%s`' % ' '.join(words)
    l = p.line(words)
    found = [(e, '%s is read' % what, definite) for what, e, definite in l.over] + [(e, 'the one after the last is used', True) for e in l.nulls]
    sure = [x for x in found if x[2] and unavoidable(l.a, x[0])]
    for e, what, _ in (sure or found)[:1]:
        ctx.check(False if sure else None, 'within', key, e.where(), 'with %d arguments, %s' % (l.argc, what))
    if not found:
        if l.result() is None:
            l = p.follow(words) or l
            if l.over or l.nulls:
                # found along the only path
                what, e = ([(x[0], x[1]) for x in l.over] + [('the one after the last', x) for x in l.nulls])[0]
                ctx.check(False if l.result() is not None else None, 'within', key, e.where(), 'with %d arguments, %s is read' % (l.argc, what))
                return
        ctx.check(True if l.result() is not None else None, 'within', key, p.where, 'parse is not evaluated')


def u04(ctx):
    ctx.rule('within', 'constants propagated through the parser for command lines cut off anywhere in each option: no argument after the last is read or used, and no character after the end of one')
    ctx.rule('missing', 'an option without all of its required arguments is refused')
    p = Parser(ctx)
    for names, words, need in OPTIONS:
        for n in names:
            for k in range(len(words) + 1):
                p.later(cut_short, ctx, p, [n] + words[:k])
                if k and n == names[0]:
                    p.later(cut_short, ctx, p, ['-g', n] + words[:k])
                if k < need:
                    base = FMT + OUT if n in ('-i', '--input', '-a', '--array', '-c', '--cube', '-C', '--cube-array', '-I', '--input-list') else IN + OUT if n in ('-f', '--format') else \
                        IN + FMT if n in ('-o', '--output') else True
                    p.expect('missing', ' '.join([n] + words[:k]), [n] + words[:k], 0, base=base)
    p.later(cut_short, ctx, p, [])
    ctx.parallel(p.jobs)
    ctx.floor('within', 40)
    ctx.floor('missing', 15)

