"""I05, I06: who owns the bitmap of an image; empty images."""
import re
from .util import *
from .image import IMG
from sa import own
from sa.own import Walker, NULLV, start
from sa.ir import AnalysisError

API = ('isValid|load|save|initialize|reset|format|colorSpace|bitsPerPixel|width|height|redMask|redShift|greenMask|greenShift|blueMask|blueShift|alphaMask|alphaShift|'
       'scanline|getPixel|setPixel|convert|resize|rotate|flipHorizontal|flipVertical|preMultiplyAlpha|changeColorSpace|grayscale|swizzle|createNormalMap|Image')
KEEPAPI = [r'^FreeImage_', r'^cuttlefish::Image::(%s)\(' % API]
BITMAPS = re.compile(r'FreeImage_(Allocate|AllocateT|AllocateEx|AllocateExT|Load|LoadU|LoadFromHandle|LoadFromMemory|Clone|Copy|ConvertTo\w+|ConvertFromRawBits\w*|Rescale|RescaleRect|'
                     r'Rotate|RotateEx|RotateClassic|MakeThumbnail|Threshold|Dither|ColorQuantize|ColorQuantizeEx|ToneMapping|TmoDrago03|TmoReinhard05|TmoFattal02|GetChannel|'
                     r'GetComplexChannel|Composite|EnlargeCanvas|MultigridPoissonSolver|LockPage)$')
CHANGES = {'load', 'initialize'}
MAKES = {'convert', 'resize', 'rotate', 'createNormalMap'}


MEMBER = re.compile(r'^cuttlefish::Image::(~?\w+|operator\W{1,2}|operator \w+)\([^()]*\)( const)?$')


def short_name(dem):
    n = dem[:dem.index('(')] if '(' in dem else dem
    return n


class Images(Walker):
    def __init__(self, f, off, roles, limit=60000):
        super().__init__(f, limit)
        self.off = off                # offset of the bitmap in the implementation
        self.roles = roles            # {argument index: 'this' | 'other' | 'result'}
        self.returns = []
        self.alloc = {}               # token -> where
        self.dtor = '~Image' in f.dem
        self.ctor = f.dem.startswith('cuttlefish::Image::Image(')

    # ------------------------------------------------------------ starting states
    def starts(self, full, alias=False):
        """full: {argument index: True when the image holds a bitmap}"""
        s = start()
        for k in range(len(self.f.args)):
            r = self.roles.get(k)
            if r is None:
                if self.f.args[k] == 'ptr':
                    s.env['a', k] = ('ptr', ('arg', k), 0)
                continue
            if alias and r == 'other':
                s.env['a', k] = s.env['a', [j for j, x in self.roles.items() if x == 'this'][0]]
                continue
            s.env['a', k] = ('ptr', ('arg', k), 0)
            if r == 'result' or r == 'this' and self.ctor:
                s.mem[('arg', k), 0] = ('sym', ('cell', ('arg', k), 0))
            elif full.get(k):
                self.own(s, ('arg', k), 0, -1 - k)
            else:
                s.mem[('arg', k), 0] = NULLV
        return s

    def own(self, s, base, o, n):
        """the cell gets a new implementation with a bitmap"""
        while n in s.obj or n in s.tok:
            n += 1000
            if n > 3000:
                s.flags |= {'unsure'}
                break
        s.obj[n] = 'live'
        s.tok[n] = 'live'
        s.mem[('obj', n), self.off] = ('tok', n)
        s.mem[base, o] = ('ptr', ('obj', n), 0)

    def drop(self, s, i, base, o):
        """the implementation held by the cell is released"""
        v = s.mem.get((base, o))
        if v and v[0] == 'ptr' and v[1][0] == 'obj':
            n = v[1][1]
            if s.obj.get(n) == 'dead':
                self.problem(s, i, 'twice', 'releases an implementation that was released before')
            s.obj[n] = 'dead'
            t = s.mem.get((('obj', n), self.off))
            if t and t[0] == 'tok':
                if s.tok.get(t[1]) == 'gone':
                    self.problem(s, i, 'twice', 'releases a bitmap that was released before')
                s.tok[t[1]] = 'gone'
        elif v and v[0] == 'sym' and v[1][0] != 'cell':
            s.flags |= {'unsure'}

    # ------------------------------------------------------------ calls
    def call(self, s, i, name, A):
        fn = short_name(name)
        gone = [a for a in A if a[0] == 'tok' and s.tok.get(a[1]) == 'gone']
        if gone and fn != 'FreeImage_Unload' and fn != 'FreeImage_CloseMemory':
            self.problem(s, i, 'use', 'passes to %s a %s released before' % (fn, self.what(gone[0])))
        if fn in ('FreeImage_Unload', 'FreeImage_CloseMemory'):
            v = A[0]
            if v[0] == 'tok':
                if s.tok.get(v[1]) == 'gone':
                    self.problem(s, i, 'twice', 'releases a %s a second time' % self.what(v))
                s.tok[v[1]] = 'gone'
            elif v != NULLV:
                s.flags |= {'unsure'}
            return [(s, None)]
        if BITMAPS.match(fn) or fn == 'FreeImage_OpenMemory':
            n = i.id + (100000 if fn == 'FreeImage_OpenMemory' else 10000)
            while s.tok.get(n) == 'live':
                n += 1000000
            if n > 5000000:
                s.flags |= {'unsure'}
                return [(s, None)]
            self.alloc[n] = '%s at %s' % (fn, i.where())
            s2 = s.copy()
            s.tok[n] = 'live'
            return [(s, ('tok', n)), (s2, NULLV)]
        if fn.startswith('FreeImage_'):
            if A and A[0][0] == 'tok' and re.match(r'FreeImage_(Get|Is|Has)', fn) and all(a[0] in ('tok', 'int') for a in A):
                return [(s, ('sym', ('q', fn) + tuple(A)))]
            return [(s, None)]
        if fn.startswith('operator new'):
            n = i.id
            while s.obj.get(n) == 'live':
                n += 1000000
            if n > 5000000:
                s.flags |= {'unsure'}
                return [(s, None)]
            for k in [k for k in s.mem if k[0] == ('obj', n)]:
                del s.mem[k]
            s.obj[n] = 'live'
            return [(s, ('ptr', ('obj', n), 0))]
        if fn.startswith('operator delete'):
            v = A[0]
            if v[0] == 'ptr' and v[1][0] == 'obj':
                if s.obj.get(v[1][1]) == 'dead':
                    self.problem(s, i, 'twice', 'deletes an object a second time')
                s.obj[v[1][1]] = 'dead'
            return [(s, None)]
        if MEMBER.match(name):
            return self.method(s, i, name, A)
        for a in A:
            if a[0] == 'tok' or a[0] == 'ptr' and (a[1][0] == 'obj' or self.holds(s, a)) and not fn.startswith(('std::', 'llvm.', '__cxa')):
                s.flags |= {'unsure'}
        return None

    def holds(self, s, a):
        return any(k[0] == a[1] and (v[0] == 'ptr' and v[1][0] == 'obj' or v[0] == 'tok') for k, v in s.mem.items())

    def method(self, s, i, name, A):
        g = self.f.mod.fns.get(self.callee(i))
        n = short_name(name).split('::')[-1]
        sret = bool(g and g.sret) or n in MAKES
        if sret and len(A) > 1:
            res, this = A[0], A[1]
        else:
            res, this = None, A[0]
        if this[0] == 'sym' and this[1][0] == 'cell' or this[0] != 'ptr':
            s.flags |= {'unsure'}
            return [(s, None)]
        cell = (this[1], this[2])
        cur = s.mem.get(cell)
        if isinstance(cur, tuple) and cur[0] == 'ptr' and cur[1][0] == 'obj' and s.obj.get(cur[1][1]) == 'dead' and n != 'Image':
            self.problem(s, i, 'dead', 'calls %s() on an image whose implementation was released' % n)
        if n in CHANGES:
            self.drop(s, i, *cell)
            s2 = s.copy()
            s2.mem[cell] = NULLV
            self.own(s, cell[0], cell[1], i.id)
            return [(s, ('int', 1)), (s2, ('int', 0))]
        if n == 'reset':
            self.drop(s, i, *cell)
            s.mem[cell] = NULLV
            return [(s, None)]
        if n == '~Image':
            self.drop(s, i, *cell)
            s.mem[cell] = NULLV
            return [(s, None)]
        if n in ('Image', 'operator='):
            sig = name[name.index('('):]
            if n == 'operator=':
                self.drop(s, i, *cell)
            if sig == '()':
                s.mem[cell] = NULLV
                return [(s, None)]
            if '(cuttlefish::Image&&)' in sig and A[1][0] == 'ptr':
                o = (A[1][1], A[1][2])
                s.mem[cell] = s.mem.get(o, ('sym', ('t', i.id)))
                s.mem[o] = NULLV
                return [(s, A[0])]
            src = s.mem.get((A[1][1], A[1][2])) if '(cuttlefish::Image const&)' in sig and A[1][0] == 'ptr' else None
            s2 = s.copy()
            s2.mem[cell] = NULLV
            if src == NULLV:
                return [(s2, A[0])]
            self.own(s, cell[0], cell[1], i.id)
            return [(s, A[0]), (s2, A[0])]
        if n in MAKES:
            if res is None or res[0] != 'ptr':
                s.flags |= {'unsure'}
                return [(s, None)]
            rc = (res[1], res[2])
            s2 = s.copy()
            s2.mem[rc] = NULLV
            if cur == NULLV:
                return [(s2, None)]
            self.own(s, rc[0], rc[1], i.id)
            return [(s, None), (s2, None)]
        if n in ('isValid', 'operator bool') and cur is not None and cur[0] in ('null', 'ptr'):
            return [(s, ('int', int(cur[0] == 'ptr')))]
        if name.endswith(' const') or n in NEUTRAL or n in ('save', 'setPixel'):
            if cur == NULLV and n in NEUTRAL and NEUTRAL[n] is not None:
                return [(s, NEUTRAL[n])]
            return [(s, ('sym', ('q', n, cur)) if cur and not A[1:] and name.endswith(' const') else None)]
        s.flags |= {'unsure'}
        return [(s, None)]

    def what(self, t):
        return 'memory stream' if 100000 <= t[1] % 1000000 and t[1] > 0 else 'bitmap'

    # ------------------------------------------------------------ the end of a path
    def leave(self, s, i, v):
        self.returns.append((s, i, v))
        cells = [(('arg', k), 0) for k, r in self.roles.items() if not (r == 'this' and self.dtor) and s.env.get(('a', k), ('ptr', ('arg', k), 0))[1] == ('arg', k)]
        cells = [c for c in cells if c in s.mem]
        held = {}
        for c in cells:
            x = s.mem[c]
            if x == NULLV:
                continue
            if x[0] == 'ptr' and x[1][0] == 'obj':
                n = x[1][1]
                held.setdefault(n, []).append(c)
                if s.obj.get(n) == 'dead':
                    self.problem(s, i, 'dangling', 'an image is left with a released implementation')
                    continue
                t = s.mem.get((('obj', n), self.off))
                if t is None or t == NULLV:
                    self.problem(s, i, 'without', 'an image is left with an implementation without bitmap')
                elif t[0] == 'tok' and s.tok.get(t[1]) == 'gone':
                    self.problem(s, i, 'dangling', 'an image is left with a released bitmap')
            elif x[0] == 'sym' and self.roles.get(c[0][1]) == 'result':
                s.flags |= {'unsure'}
            else:
                s.flags |= {'unsure'}
        for n, cs in held.items():
            if len(cs) > 1:
                self.problem(s, i, 'shared', 'two images share one implementation')
        for t, st in s.tok.items():
            if st != 'live':
                continue
            hs = [k[0][1] for k, x in s.mem.items() if x == ('tok', t) and k[0][0] == 'obj' and k[1] == self.off and s.obj.get(k[0][1]) == 'live']
            who = self.alloc.get(t, 'of an image')
            if not hs:
                self.problem(s, i, 'leak ' + str(t), 'the %s (%s) is never released' % (self.what(('tok', t)), who))
            elif len(hs) > 1:
                self.problem(s, i, 'shared', 'two implementations own the bitmap (%s)' % who)
            elif hs[0] not in held:
                self.problem(s, i, 'leak ' + str(t), 'the bitmap (%s) is lost with the implementation that owns it' % who)


NEUTRAL = {'isValid': ('int', 0), 'format': ('int', 0), 'bitsPerPixel': ('int', 0), 'width': ('int', 0), 'height': ('int', 0), 'scanline': NULLV, 'getPixel': ('int', 0), 'setPixel': ('int', 0),
           'save': ('int', 0), 'flipHorizontal': ('int', 0), 'flipVertical': ('int', 0), 'preMultiplyAlpha': ('int', 0), 'changeColorSpace': ('int', 0), 'grayscale': ('int', 0), 'swizzle': ('int', 0),
           'colorSpace': None, 'redMask': ('int', 0), 'redShift': ('int', 0), 'greenMask': ('int', 0), 'greenShift': ('int', 0), 'blueMask': ('int', 0), 'blueShift': ('int', 0),
           'alphaMask': ('int', 0), 'alphaShift': ('int', 0), 'operator bool': ('int', 0)}


def members(m):
    """(function, roles) of every member function of Image defined here"""
    out = []
    for f in m.fns.values():
        if f.decl or not MEMBER.match(f.dem):
            continue
        k = 1 if f.sret else 0
        roles = {k: 'this'}
        if f.sret:
            roles[0] = 'result'
        if re.search(r'\(cuttlefish::Image( const&|&&|&)\)', f.dem):
            roles[k + 1] = 'other'
        out.append((f, roles))
    return sorted(out, key=lambda x: x[0].dem)


def configs(f, roles):
    ctor = f.dem.startswith('cuttlefish::Image::Image(')
    idx = [k for k, r in sorted(roles.items()) if r != 'result' and not (r == 'this' and ctor)]
    r = [{}]
    for k in idx:
        r = [dict(c, **{}) | {k: x} for c in r for x in (True, False)]
    out = [(c, False) for c in r]
    if 'other' in roles.values() and not ctor:
        out += [(c, True) for c in ({0: True}, {0: False})]
    return out


def label(roles, full, alias):
    return ', '.join('%s %s' % (roles[k], 'holds a bitmap' if x else 'empty') for k, x in sorted(full.items())) + (', assigned to itself' if alias else '')


def i05(ctx):
    ctx.rule('owner', 'on every path each bitmap obtained is released once or owned by exactly one implementation held by exactly one image when the function returns')
    ctx.rule('once', 'no bitmap, memory stream or implementation is released twice or used after its release')
    m = ctx.load(IMG, keep=KEEPAPI, limit=2000)
    off = m.offsets('cuttlefish::Image::Impl')
    n = 0
    for f, roles in members(m):
        ctx.fn(f)
        for full, alias in configs(f, roles):
            w = Images(f, off['image'], roles)
            complete = w.run([w.starts(full, alias)])
            tag = '%s [%s]' % (f.dem[len('cuttlefish::'):], label(roles, full, alias))
            n += len(w.alloc)
            if not complete:
                ctx.und('owner', tag, f.dem, 'too many paths')
                continue
            for rule, kinds in (('owner', ('leak', 'shared', 'without')), ('once', ('twice', 'use', 'dead', 'dangling'))):
                ps = [(k, p) for k, p in w.problems.items() if k[0].split()[0] in kinds]
                sure = [x for x in ps if not x[1][1]]
                for (kind, where), (msg, _, tr) in sure:
                    ctx.bad(rule, '%s %s' % (tag, kind.split()[0]), where, '%s; path through %s' % (msg, ' '.join(re.sub(r'.*:', '', x) for x in tr[-14:])))
                if ps and not sure:
                    ctx.und(rule, tag, ps[0][0][1], ps[0][1][0] + ' (not certain)')
                elif not ps:
                    ctx.check(True if not any('unsure' in s.flags for s, _, _ in w.returns) else None, rule, tag, f.dem, 'not all handles could be followed')
    ctx.sample('allocation sites followed: %d' % n)
    ctx.floor('owner', 10)
    ctx.floor('once', 10)


def neutral(m, n):
    if n == 'format':
        return ('int', m.enum('cuttlefish::Image::Format')['Invalid'] & 0xff)
    if n == 'colorSpace':
        return ('int', m.enum('cuttlefish::ColorSpace')['Linear'])
    return NEUTRAL.get(n)


def worst(ctx, rule, tag, f, finds, returns):
    """finds: [(sure, where, message)] of what is wrong at a return"""
    sure = [x for x in finds if x[0]]
    if sure:
        ctx.bad(rule, tag, sure[0][1], sure[0][2])
    elif finds:
        ctx.und(rule, tag, finds[0][1], finds[0][2] + ' (not certain)')
    else:
        ctx.check(True if returns else None, rule, tag, f.dem, 'no path returns')


def i06(ctx):
    ctx.rule('deref', 'no operation dereferences an empty image, its own or an intermediate one')
    ctx.rule('answer', 'an operation on an empty image answers failure, zero, null or an empty image')
    ctx.rule('untouched', 'an operation on an empty image leaves it empty and writes nothing through its arguments')
    ctx.rule('emptied', 'a moved-from or reset image is empty, a copy of an empty image is empty')
    m = ctx.load(IMG, keep=KEEPAPI, limit=2000)
    off = m.offsets('cuttlefish::Image::Impl')
    for f, roles in members(m):
        ctx.fn(f)
        n = short_name(f.dem).split('::')[-1]
        th = [k for k, r in roles.items() if r == 'this'][0]
        ot = [k for k, r in roles.items() if r == 'other']
        for full, alias in configs(f, roles):
            w = Images(f, off['image'], roles)
            complete = w.run([w.starts(full, alias)])
            tag = '%s [%s]' % (f.dem[len('cuttlefish::'):], label(roles, full, alias))
            if not complete:
                ctx.und('deref', tag, f.dem, 'too many paths')
                continue
            nulls = [(not p[1], k[1], p[0]) for k, p in w.problems.items() if k[0] in ('null', 'dead')]
            worst(ctx, 'deref', tag, f, nulls, w.returns)
            R = [(s, i, v, 'unsure' not in s.flags) for s, i, v in w.returns]
            cell = lambda s, k: s.mem.get((('arg', k), 0))
            wrong = lambda x: x[0] in ('ptr', 'tok') or x[0] == 'int'
            empty = th in full and not full[th] and not alias
            if empty and n not in CHANGES and n not in ('operator=', 'reset', '~Image'):
                want = neutral(m, n)
                bad = []
                if roles.get(0) == 'result':
                    for s, i, v, sure in R:
                        c = cell(s, 0)
                        if c != NULLV:
                            bad.append((sure and wrong(c), i.where(), 'the result is not the empty image'))
                    worst(ctx, 'answer', tag, f, bad, R)
                elif want is not None:
                    for s, i, v, sure in R:
                        if v != want and not (want == NULLV and v == ('int', 0)):
                            bad.append((sure and v is not None and wrong(v), i.where(), 'answers %s instead of %s' % (say(v), say(want))))
                    worst(ctx, 'answer', tag, f, bad, R)
            if empty and n not in CHANGES and n not in ('operator=', '~Image'):
                bad = []
                for s, i, v, sure in R:
                    c = cell(s, th)
                    if c != NULLV:
                        bad.append((sure and wrong(c), i.where(), 'the image is not empty afterwards'))
                    for k, o in [x[:2] for x in s.mem]:
                        if k[0] == 'arg' and k[1] not in roles:
                            bad.append((sure, i.where(), 'writes through parameter %d' % (k[1] + 1 - (roles.get(0) == 'result'))))
                worst(ctx, 'untouched', tag, f, bad, R)
            if alias:
                continue
            bad, rel = [], False
            if '(cuttlefish::Image&&)' in f.dem:
                rel = True
                for s, i, v, sure in R:
                    if cell(s, ot[0]) != NULLV:
                        bad.append((sure and wrong(cell(s, ot[0])), i.where(), 'the image moved from is not empty'))
            if n == 'reset':
                rel = True
                for s, i, v, sure in R:
                    if cell(s, th) != NULLV:
                        bad.append((sure and wrong(cell(s, th)), i.where(), 'the image reset is not empty'))
            if ot and not full[ot[0]]:
                rel = True
                for s, i, v, sure in R:
                    if cell(s, th) != NULLV:
                        bad.append((sure and wrong(cell(s, th)), i.where(), 'the copy of an empty image is not empty'))
            if rel:
                worst(ctx, 'emptied', tag, f, bad, R)
    for r in ('deref', 'answer', 'untouched', 'emptied'):
        ctx.floor(r, 1)


def say(v):
    return 'nothing' if v is None else 'null' if v == NULLV else str(v[1]) if v[0] == 'int' else 'a value'


def keeps_itself(ctx):
    """part of T06: an image assigned to itself keeps its bitmap"""
    ctx.rule('itself', 'an image copied to itself keeps its contents')
    m = ctx.load(IMG, keep=KEEPAPI, limit=2000)
    off = m.offsets('cuttlefish::Image::Impl')
    for f, roles in members(m):
        if not f.dem.startswith('cuttlefish::Image::operator=(cuttlefish::Image const&)'):
            continue
        ctx.fn(f)
        w = Images(f, off['image'], roles)
        complete = w.run([w.starts({0: True}, True)])
        bad = []
        for s, i, v in w.returns:
            c = s.mem.get((('arg', 0), 0))
            if c is None or c[0] != 'ptr':
                bad.append((c == NULLV and 'unsure' not in s.flags, i.where(), 'the image is emptied'))
        if complete:
            if len(bad) < len(w.returns):        # kept on some path: emptied only where the library could not copy
                bad = [x for x in bad if not x[0]]
            worst(ctx, 'itself', f.dem, f, bad, w.returns)
