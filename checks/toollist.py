"""U06: the files that list images and custom mips."""
from .util import *
from sa.walk import Walk
from .tool import Line, Parser, CL, KEEPTOOL, STR, EMPTY, FMT, OUT, word, isword, text

KEEP = [x for x in KEEPTOOL if 'ifstream' not in x and 'ImageList' not in x] + [
    r'^std::(__cxx11::)?(basic_)?(i|o|io)(f|string)?stream', r'^std::(__cxx11::)?basic_(i|o|io)(f|string)?stream', r'^std::(basic_)?ios', r'^[^(]*[^,] std::(getline|ws|operator>>)\b',
    r'^std::(getline|ws|operator>>)\b', r'^[^(]*std::basic_istream.* std::', r'^std::basic_istream',
    r'^[^(]*[^,] std::vector<', r'^[^(]*[^,] std::unordered_map<', r'^[^(]*[^,] std::__cxx11::basic_string<']
STREAM = re.compile(r'^std::(__cxx11::)?(basic_)?(i|o|io)(f|string)?stream\b')
IOS = re.compile(r'^std::(basic_)?ios(_base)?\b')
BLANK = ' \t\n\v\f\r'
EOFBIT, FAILBIT = 2, 4


class Listed(Line):
    """a command line followed along its one path, with the contents of the files it names: {name: text or None}"""

    def __init__(self, m, d, words, files=None, **kw):
        self.files = files or {}
        self.made = {}
        self.odd = []
        super().__init__(m, d, words, **kw)

    def engine(self, *a, **k):
        return Walk(*a, steps=60000, alts=4, **k)

    # -- strings with contents
    def lit(self, s):
        if s == '':
            return EMPTY
        k = self.made.get(s)
        if k is None:
            self.words.append(s)
            k = self.made[s] = len(self.words) - 1
        return word(k)

    def get(self, an, p, st, i):
        """the contents of a string object"""
        v = st.mem.get((p, 8))
        if v is None and isword(split_ptr(p)[0]):
            v = p
        return None if v is None else self.deref(an, v, i)

    def string(self, an, i, n, dem, a, st):
        me = a[0]
        sig = dem[len(cname(dem)):]
        t = self.get(an, me, st, i)
        ival = lambda x: x.a[0] if x.op == 'int' else None

        def other(k):
            if sig.startswith('(char const*') or '::operator+=(char const*' in dem:
                s = self.deref(an, a[k], i)
                if s is not None and len(a) > k + 1 and 'unsigned long' in sig and a[k + 1].op == 'int':
                    s = s[:a[k + 1].a[0]]
                return s
            if sig.startswith('(char'):
                return chr(a[k].a[0] & 255) if a[k].op == 'int' else None
            return self.get(an, a[k], st, i)

        def put(s):
            if s is None:
                st.mem.pop((me, 8), None)
                self.odd.append(n)
            else:
                st.mem[(me, 8)] = self.lit(s)
            return me
        if n in ('push_back', 'append', 'operator+=') and not (n == 'append' and len(a) > 3):
            if n == 'append' and sig.startswith('(unsigned long, char)'):
                return put(None if t is None or a[1].op != 'int' or a[2].op != 'int' else t + a[1].a[0] * chr(a[2].a[0] & 255))
            o = other(1)
            return put(None if t is None or o is None else t + o)
        if n in ('operator=', 'assign', 'basic_string') and len(a) > 1:
            if sig.startswith('(char const*, unsigned long') or sig.startswith('(char)'):
                put(other(1))
                return me if n != 'basic_string' else T('void')
            if sig.startswith('(std::__cxx11::basic_string') and 'unsigned long' in sig:
                o = self.get(an, a[1], st, i)
                p, c = ival(a[2]), ival(a[3]) if len(a) > 3 and 'unsigned long, unsigned long' in sig else 1 << 63
                put(None if o is None or p is None or c is None or p > len(o) else o[p:p + c])
                return T('void')
            if '&&' in sig and (a[1], 8) in st.mem:
                super().string(an, i, n, dem, a, st)
                if a[1] is not me:
                    st.mem[(a[1], 8)] = EMPTY
                return me if n != 'basic_string' else T('void')
        if t is not None:
            if n == 'pop_back' and t:
                put(t[:-1])
                return T('void')
            if n == 'erase' and len(a) == 3 and sig.startswith('(unsigned long') and ival(a[1]) is not None and ival(a[2]) is not None and ival(a[1]) <= len(t):
                put(t[:ival(a[1])] + t[min(ival(a[1]) + ival(a[2]), len(t)):])
                return me
            if n == 'resize' and len(a) > 1 and a[1].op == 'int' and a[1].a[0] <= len(t):
                put(t[:a[1].a[0]])
                return T('void')
            if n == 'back' and t:
                return ptr(st.mem.get((me, 8)), len(t) - 1)
            if n in ('front', 'begin', 'cbegin'):
                return st.mem.get((me, 8))
            if n == 'substr' and len(a) == 4 and ival(a[2]) is not None and ival(a[3]) is not None:
                # the result is the first argument
                s = self.get(an, a[1], st, i)
                if s is None or ival(a[2]) > len(s):
                    return None
                st.mem[(a[0], 8)] = self.lit(s[ival(a[2]):ival(a[2]) + ival(a[3])])
                return T('void')
        if n == 'substr' and len(a) == 4 and ival(a[2]) is not None and ival(a[3]) is not None:
            s = self.get(an, a[1], st, i)
            if s is not None and ival(a[2]) <= len(s):
                st.mem[(a[0], 8)] = self.lit(s[ival(a[2]):ival(a[2]) + ival(a[3])])
                return T('void')
        if n in ('find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'find', 'rfind') and t is not None:
            o = other(1)
            p = next((ival(x) for x in a[2:3] if x.op == 'int'), 0 if not n.startswith(('find_last', 'rfind')) else 1 << 63)
            if o is None or p is None or len(a) > 3:
                return None
            ks = range(min(p, len(t)), len(t)) if not n.startswith(('find_last', 'rfind')) else range(min(p, len(t) - 1), -1, -1)
            for k in ks:
                hit = t.startswith(o, k) if n in ('find', 'rfind') else (t[k] in o) != ('not' in n)
                if hit:
                    return I(k, 64)
            return I(2**64 - 1, 64)
        return super().string(an, i, n, dem, a, st)

    def vector(self, an, i, n, dem, a, st):
        r = super().vector(an, i, n, dem, a, st)
        if n in ('push_back', 'emplace_back') and len(a) == 2 and 'basic_string' in dem.split('>>::')[0] and '&&' in dem[len(cname(dem)):]:
            st.mem[(a[1], 8)] = EMPTY
        return r

    # -- streams
    def stream(self, p, st):
        """the stream object a pointer leads to, and what its text is (None when it has none)"""
        b = root(p)
        return b if (T('alloca', 'text', b), 8) in st.mem else None

    def flags(self, b, st, set=None):
        k = (T('alloca', 'flags', b), 4)
        if set is not None:
            st.mem[k] = I(st.mem[k].a[0] | set)
        return st.mem[k].a[0]

    def content(self, b, st):
        return self.made_text[st.mem[(T('alloca', 'text', b), 8)].a[0]]

    def open(self, b, st, s):
        self.made_text = getattr(self, 'made_text', [])
        self.made_text.append(s)
        st.mem[(T('alloca', 'text', b), 8)] = I(len(self.made_text) - 1, 64)
        st.mem[(T('alloca', 'pos', b), 8)] = I(0, 64)
        st.mem[(T('alloca', 'flags', b), 4)] = I(0 if s is not None else FAILBIT)

    def take(self, b, st):
        """the next character, or None and the flags that follow"""
        k = (T('alloca', 'pos', b), 8)
        s, p = self.content(b, st), st.mem[k].a[0]
        if self.flags(b, st) or s is None or p >= len(s):
            self.flags(b, st, FAILBIT | (EOFBIT if not self.flags(b, st) else 0))
            return None
        st.mem[k] = I(p + 1, 64)
        return s[p]

    def look(self, b, st):
        s, p = self.content(b, st), st.mem[(T('alloca', 'pos', b), 8)].a[0]
        return s[p] if s is not None and p < len(s) else None

    def other(self, an, i, n, dem, a, st):
        c = cname(dem)
        sig = dem[len(c):]
        if not a:
            return None
        base = re.sub(r'<.*', '', c)
        if STREAM.match(dem) and n.endswith('stream') and not n.startswith('~'):
            b = root(a[0])
            if len(a) == 1 or '(std::_Ios_Openmode)' in sig:
                self.open(b, st, None)
                st.mem[(T('alloca', 'flags', b), 4)] = I(0)
            elif 'fstream' in n:
                s = self.deref(an, a[1], i) if sig.startswith('(char const*') else self.get(an, a[1], st, i)
                if s is None:
                    self.odd.append(n)
                    return None
                self.open(b, st, self.files.get(s))
            elif 'stringstream' in n:
                s = self.get(an, a[1], st, i)
                if s is None:
                    self.odd.append(n)
                    return None
                self.open(b, st, s)
            return T('void')
        if n == 'getline' and len(a) >= 2 and self.stream(a[0], st) is not None and '::getline(char' not in dem:
            b = self.stream(a[0], st)
            delim = '\n' if len(a) == 2 else chr(a[2].a[0] & 255) if a[2].op == 'int' else None
            if delim is None:
                self.odd.append(n)
                return None
            out = ''
            if self.flags(b, st):
                self.flags(b, st, FAILBIT)
                return a[0]
            if self.look(b, st) is None:
                st.mem[(a[1], 8)] = EMPTY
                self.flags(b, st, FAILBIT | EOFBIT)
                return a[0]
            while True:
                ch = self.look(b, st)
                if ch is None:
                    self.flags(b, st, EOFBIT)
                    break
                self.take(b, st)
                if ch == delim:
                    break
                out += ch
            st.mem[(a[1], 8)] = self.lit(out)
            return a[0]
        b = self.stream(a[0], st)
        if b is None:
            return None
        if n == 'operator>>' and 'basic_string' in sig and len(a) == 2:
            while not self.flags(b, st) and (self.look(b, st) or 'x') in BLANK:
                self.take(b, st)
            out = ''
            while not self.flags(b, st):
                ch = self.look(b, st)
                if ch is None:
                    self.flags(b, st, EOFBIT | (FAILBIT if not out else 0))
                    break
                if ch in BLANK:
                    break
                out += self.take(b, st)
            if out:
                st.mem[(a[1], 8)] = self.lit(out)
            elif not self.flags(b, st) & FAILBIT:
                self.flags(b, st, FAILBIT)
            return a[0]
        if n == 'ws' and len(a) == 1 or n == 'operator>>' and 'ws' in show(a[1], 2):
            while not self.flags(b, st) and (self.look(b, st) or 'x') in BLANK:
                self.take(b, st)
            if self.look(b, st) is None:
                self.flags(b, st, EOFBIT)
            return a[0]
        if not (STREAM.match(dem) or IOS.match(dem)):
            return None
        fl = self.flags(b, st)
        if n == 'open':
            s = self.deref(an, a[1], i) if sig.startswith('(char const*') else self.get(an, a[1], st, i)
            if s is None:
                self.odd.append(n)
                return None
            self.open(b, st, self.files.get(s))
            return T('void')
        if n == 'is_open':
            return I(int(self.content(b, st) is not None), 1)
        if n == 'good':
            return I(int(not fl), 1)
        if n == 'eof':
            return I(int(bool(fl & EOFBIT)), 1)
        if n in ('fail', 'operator!'):
            return I(int(bool(fl & FAILBIT)), 1)
        if n == 'operator bool':
            return I(int(not fl & FAILBIT), 1)
        if n == 'bad':
            return I(0, 1)
        if n == 'rdstate':
            return I(fl)
        if n == 'get' and len(a) == 1:
            ch = self.take(b, st)
            return I(2**32 - 1 if ch is None else ord(ch))
        if n == 'get' and len(a) == 2 and sig.startswith('(char&'):
            ch = self.take(b, st)
            if ch is not None:
                st.mem[(a[1], 1)] = I(ord(ch), 8)
            return a[0]
        if n == 'peek':
            if fl:
                return I(2**32 - 1)
            ch = self.look(b, st)
            if ch is None:
                self.flags(b, st, EOFBIT)
            return I(2**32 - 1 if ch is None else ord(ch))
        if n in ('unget', 'putback'):
            k = (T('alloca', 'pos', b), 8)
            st.mem[(T('alloca', 'flags', b), 4)] = I(fl & ~EOFBIT)
            if not fl & FAILBIT and st.mem[k].a[0]:
                st.mem[k] = I(st.mem[k].a[0] - 1, 64)
            return a[0]
        if n in ('close', 'exceptions', 'imbue', 'setf', 'unsetf') or n.startswith('~'):
            return T('void')
        self.odd.append(n)
        return None


def whole(ctx, defs=None):
    """the parser with everything it does inlined"""
    return ctx.load(CL, keep=KEEP, limit=20000, base_keep=False, **({'defs': defs} if defs else {}))


class Every(dict):
    """every file there is has the same contents"""

    def get(self, k, d=None):
        return self['']


def followed(m, d, words, listed=1, custom=None, files=None, **kw):
    if files is None:
        # contents that stand for what was read
        faces = ('+x', '-x', '+y', '-y', '+z', '-z')
        s = None
        if '--custom-mip-list' in words:
            s = None if custom is None else ''.join('%d %d %s given.png\n' % (level, depth, faces[face]) for face, level, depth in custom)
        else:
            s = None if listed is None else 'given.png\n' * listed
        files = Every({'': s})
    l = Listed(m, d, words, files=files, **kw)
    if l.odd or not l.a.complete or len(l.a.traces) != 1:
        l.result = l.images = l.final = lambda: None
    return l


class Lists(Parser):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.m = whole(ctx)

    def line(self, words, **kw):
        return followed(self.m, self.d, words, **kw)

    def follow(self, words, **kw):
        return None


def u06(ctx):
    ctx.rule('images', 'constants propagated along the path through the parser and the reading of a list file of fixed contents, with models of the stream, string and container '
                       'library: the images are the non-empty lines, in order')
    ctx.rule('custom', 'likewise the custom mips are those of the lines, each with the parts it gives and the defaults for the others, the path being the rest of the line')
    ctx.rule('refused', 'a list file that cannot be opened, that is empty, or with a line that is not a custom mip, is refused')
    p = Lists(ctx)
    sv = {'format': 'R8G8B8A8', 'fileType': 'DDS'}
    kinds = {'image': ('Image', 'Dim2D'), 'array': ('Array', 'Dim2D'), 'cube': ('Cube', 'Cube'), 'cube-array': ('CubeArray', 'Cube')}
    E = p.expect

    def images(key, kind, s, want, opt='-I'):
        k, dim = kinds[kind]
        E('images', '%s as %s' % (key, kind), [opt, kind, 'l.txt'], 1, dict(sv, imageType=k, dimension=dim), want, [], base=FMT + OUT, files={'l.txt': s})
    long = 'some/folder/with a long name/and an image.png'
    utf = 'gr\xc3\xbc\xc3\x9fe/\xff\xfe.png'
    names = ['a.png', long, utf, 'b b.png', '3', '-x', '+x', 'once']
    for eol, el in (('\n', 'newlines'), ('\r\n', 'carriage returns and newlines')):
        for n in (1, 2, 3, 8):
            ns = names[:n]
            for tail, tl in ((eol, ''), ('', ', last line not ended'), (eol * 3, ', empty lines at the end')):
                images('%d names, %s%s' % (n, el, tl), 'array', eol.join(ns) + tail, ns, '-I' if n != 2 else '--input-list')
        images('one name, ' + el, 'image', 'in.png' + eol, ['in.png'])
        images('one name not ended, ' + el, 'image', 'in.png', ['in.png'])
        images('empty lines before, ' + el, 'array', eol * 2 + 'a.png' + eol + 'b.png' + eol, ['a.png', 'b.png'])
        images('empty lines between, ' + el, 'array', 'a.png' + eol * 3 + 'b.png' + eol, ['a.png', 'b.png'])
        images('same name twice, ' + el, 'array', 'a.png' + eol + 'a.png' + eol, ['a.png', 'a.png'])
        for kind, n in (('cube', 6), ('cube-array', 12)):
            ns = ['%s%d.png' % ('xyz'[k % 3], 7 * k % 13) for k in range(n)]
            images('%d names, %s' % (n, el), kind, eol.join(ns) + eol, ns)
            images('%d names, last line not ended, %s' % (n, el), kind, eol.join(ns), ns)
    images('300 names', 'array', ''.join('%d.png\n' % k for k in range(300)), ['%d.png' % k for k in range(300)])
    images('264 names', 'cube-array', ''.join('%d.png\n' % k for k in range(264)), ['%d.png' % k for k in range(264)])
    for kind in kinds:
        E('refused', 'no file for %s' % kind, ['-I', kind, 'l.txt'], 0, base=FMT + OUT, files={})
        E('refused', 'empty file for %s' % kind, ['-I', kind, 'l.txt'], 0, base=FMT + OUT, files={'l.txt': ''})
        E('refused', 'empty lines for %s' % kind, ['-I', kind, 'l.txt'], 0, base=FMT + OUT, files={'l.txt': '\n\r\n\n'})
    E('refused', 'two images as one', ['-I', 'image', 'l.txt'], 0, base=FMT + OUT, files={'l.txt': 'a.png\nb.png\n'})
    E('refused', 'five images as a cube', ['-I', 'cube', 'l.txt'], 0, base=FMT + OUT, files={'l.txt': 'a\nb\nc\nd\ne'})

    def custom(key, s, want, images=1, words=(), result=1, rule='custom', **more):
        base = {1: ['-i', 'in.png'], 3: ['-a', 'a.png', '-a', 'b.png', '-a', 'c.png'], 6: [y for x in ('+x', '-x', '+y', '-y', '+z', '-z') for y in ('-c', x, x[0].replace('+', 'p').replace('-', 'n') + x[1] + '.png')]}[images]
        st = dict(sv, mipLevels=2**32 - 1, **more)
        if images == 3:
            st['imageType'] = 'Array'
        if images == 6:
            st.update(imageType='Cube', dimension='Cube')
        E(rule, key, ['-m'] + list(words) + ['--custom-mip-list', 'c.txt'], result, st, None, want, base=base + FMT + OUT, files={'c.txt': s} if s is not None else {})
    for eol, el in (('\n', 'newlines'), ('\r\n', 'carriage returns and newlines')):
        for tail, tl in ((eol, ''), ('', ', last line not ended'), (eol + eol, ', empty line at the end')):
            t = ' (%s%s)' % (el, tl)
            C = lambda key, s, *a, **kw: custom(key + t, s, *a, **kw)
            C('level', '1 c.png' + tail, [('PosX', 1, 0, 'Continue', 'c.png')])
            C('level with more digits', '12 c.png' + tail, [('PosX', 12, 0, 'Continue', 'c.png')])
            C('layer', '2 1 c.png' + tail, [('PosX', 2, 1, 'Continue', 'c.png')], 3)
            C('face', '1 -y c.png' + tail, [('NegY', 1, 0, 'Continue', 'c.png')], 6)
            C('once', '3 once c.png' + tail, [('PosX', 3, 0, 'Once', 'c.png')])
            C('continue', '3 CONTINUE c.png' + tail, [('PosX', 3, 0, 'Continue', 'c.png')])
            C('everything', '3 0 +Z Once c.png' + tail, [('PosZ', 3, 0, 'Once', 'c.png')], 6)
            C('layer and once', '1 2 once c.png' + tail, [('PosX', 1, 2, 'Once', 'c.png')], 3)
            C('face and once', '1 -x once c.png' + tail, [('NegX', 1, 0, 'Once', 'c.png')], 6)
            C('layer and face', '1 0 -x c.png' + tail, [('NegX', 1, 0, 'Continue', 'c.png')], 6)
            C('path with blanks', '1 my new image.png' + tail, [('PosX', 1, 0, 'Continue', 'my new image.png')])
            C('path with blanks after everything', '1 0 +x once my new 2 once image.png' + tail, [('PosX', 1, 0, 'Once', 'my new 2 once image.png')])
            C('path that starts like a part', '1 +xy.png' + tail, [('PosX', 1, 0, 'Continue', '+xy.png')])
            C('path that starts with a digit', '1 2.png' + tail, [('PosX', 1, 0, 'Continue', '2.png')])
            C('long path', '1 %s' % long + tail, [('PosX', 1, 0, 'Continue', long)])
            C('letters outside of ASCII', '1 %s' % utf + tail, [('PosX', 1, 0, 'Continue', utf)])
            C('tabs', '1\t0\t+x\tonce\tc.png' + tail, [('PosX', 1, 0, 'Once', 'c.png')])
            C('several blanks', '1  0   once \t c.png' + tail, [('PosX', 1, 0, 'Once', 'c.png')])
            C('blanks before', '  \t1 c.png' + tail, [('PosX', 1, 0, 'Continue', 'c.png')])
            C('two', '1 c.png' + eol + '2 once d d.png' + tail, [('PosX', 1, 0, 'Continue', 'c.png'), ('PosX', 2, 0, 'Once', 'd d.png')])
            C('parts do not carry over', '1 2 once c.png' + eol + '2 d.png' + eol + '1 1 e.png' + tail,
              [('PosX', 1, 2, 'Once', 'c.png'), ('PosX', 2, 0, 'Continue', 'd.png'), ('PosX', 1, 1, 'Continue', 'e.png')], 3)
            C('faces do not carry over', '1 -z once c.png' + eol + '1 d.png' + tail, [('NegZ', 1, 0, 'Once', 'c.png'), ('PosX', 1, 0, 'Continue', 'd.png')], 6)
            C('empty lines', eol + '1 c.png' + eol + eol + '2 d.png' + tail, [('PosX', 1, 0, 'Continue', 'c.png'), ('PosX', 2, 0, 'Continue', 'd.png')])
            C('with an option too', '1 c.png' + tail, [('PosX', 2, 0, 'Once', 'e.png'), ('PosX', 1, 0, 'Continue', 'c.png')], words=['-M', '2', 'once', 'e.png'])
            R = lambda key, s, *a, **kw: custom(key + t, s, None, *a, result=0, rule='refused', **kw)
            R('no path', '1' + tail)
            R('no path among others', '1 c.png' + eol + '2' + tail)
            R('no path after the layer', '1 0' + tail)
            R('no path after everything', '1 0 +x once' + tail, 6)
            R('a path only', 'c.png' + tail)
            R('a path only, last', '1 c.png' + eol + 'c.png' + tail)
            for x in ('-1', '1x', 'x1', '1.5', '4294967296', '18446744073709551616', '-18446744073709551615', '0'):
                R('level ' + x, x + ' c.png' + tail)
            for n in (256, 257, 65536, 65537, 4294967294):       # narrow types would wrap around
                R('layer %d' % n, '1 %d c.png' % n + tail)
                R('layer %d of 3' % n, '1 %d +x once c.png' % n + tail, 3)
                R('level %d' % (n + 1), '%d c.png' % (n + 1) + tail)
            R('the same twice', '1 c.png' + eol + '1 d.png' + tail)
            R('the same twice in two spellings', '1 c.png' + eol + '1 0 +x once d.png' + tail)
            R('the same as an option', '1 c.png' + tail, words=['-M', '1', 'd.png'])
    custom('no file', None, None, result=0, rule='refused')
    ctx.parallel(p.jobs)
    for r in ('images', 'custom', 'refused'):
        ctx.floor(r, 8)
