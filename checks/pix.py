"""Values of floating-point terms, and where each image format keeps its channels.

compile_term(t, atom) turns a term into a Python function of its atoms: constant folding of one expression of the
program, used to compare an expression with its specification (all cell values for integers, both sides of every
rounding boundary for monotone expressions)."""
import math, struct
from checks.util import *

# ---------------------------------------------------------------- storage of a pixel (FreeImage, little endian)
# stride, {channel: (byte offset, encoding, bit offset, bits)}; encodings: n = unsigned normalised, u/s = integer, f = float
def _c(names, w, enc, order=None):
    return {n: (i * w // 8, enc, 0, w) for i, n in enumerate(order or names)}


LAYOUT = {
    'Gray8': (1, {'v': (0, 'n', 0, 8)}),
    'Gray16': (2, {'v': (0, 'n', 0, 16)}),
    'RGB5': (2, {'r': (0, 'n', 10, 5), 'g': (0, 'n', 5, 5), 'b': (0, 'n', 0, 5)}),
    'RGB565': (2, {'r': (0, 'n', 11, 5), 'g': (0, 'n', 5, 6), 'b': (0, 'n', 0, 5)}),
    'RGB8': (3, _c('bgr', 8, 'n')),
    'RGB16': (6, _c('rgb', 16, 'n')),
    'RGBF': (12, _c('rgb', 32, 'f')),
    'RGBA8': (4, _c('bgra', 8, 'n')),
    'RGBA16': (8, _c('rgba', 16, 'n')),
    'RGBAF': (16, _c('rgba', 32, 'f')),
    'Int16': (2, {'v': (0, 's', 0, 16)}),
    'UInt16': (2, {'v': (0, 'u', 0, 16)}),
    'Int32': (4, {'v': (0, 's', 0, 32)}),
    'UInt32': (4, {'v': (0, 'u', 0, 32)}),
    'Float': (4, {'v': (0, 'f', 0, 32)}),
    'Double': (8, {'v': (0, 'f', 0, 64)}),
    'Complex': (16, {'r': (0, 'f', 0, 64), 'g': (8, 'f', 0, 64)}),
}
GREY = ('Gray8', 'Gray16', 'Float', 'Double')          # formats that hold the luminance of a colour
INTEGER = ('Int16', 'UInt16', 'Int32', 'UInt32')       # formats that hold the first channel


def rawbits(fmt, px, ch):
    off, enc, bo, w = LAYOUT[fmt][1][ch]
    if enc == 'f':
        return struct.unpack_from('<f' if w == 32 else '<d', px, off)[0]
    n = 2 if bo or w < 8 else w // 8
    v = int.from_bytes(px[off:off + n], 'little') >> bo & (1 << w) - 1
    if enc == 's' and v >> w - 1:
        v -= 1 << w
    return v


def decode(fmt, px):
    """(r, g, b, a) of the bytes of a pixel"""
    def one(ch):
        v = rawbits(fmt, px, ch)
        _, enc, _, w = LAYOUT[fmt][1][ch]
        return v / ((1 << w) - 1) if enc == 'n' else float(v)
    ly = LAYOUT[fmt][1]
    if 'v' in ly:
        v = one('v')
        return [v, v, v, 1.0]
    return [one(c) if c in ly else 1.0 if c == 'a' else 0.0 for c in 'rgba']


def encode_range(fmt, ch, v):
    """(lowest, highest) stored value that represents v; floats are compared with the value itself"""
    _, enc, _, w = LAYOUT[fmt][1][ch]
    if enc == 'n':
        m = (1 << w) - 1
        if v != v:
            return 0, m
        x = min(max(v, 0.0), 1.0) * m
        return math.ceil(x - 0.5 - 1e-6), math.floor(x + 0.5 + 1e-6)
    if enc in 'us':
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if enc == 's' else (0, (1 << w) - 1)
        if v != v:
            return lo, hi
        if v <= lo: return lo, lo
        if v >= hi: return hi, hi
        return math.floor(v), math.ceil(v)
    return None


# ---------------------------------------------------------------- evaluation
class Unknown(Exception):
    pass


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def _div(x, y):
    if y == 0:
        return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1.0, y)
    return x / y


def _mul(x, y):
    return x * y


def _pow(x, y):
    try:
        return math.pow(x, y)
    except ValueError:
        return math.nan
    except OverflowError:
        return math.inf


def _round(x):
    if x != x or math.isinf(x):
        return x
    r = math.floor(abs(x))
    if abs(x) - r >= 0.5:
        r += 1
    return math.copysign(float(r), x)


def _floor(x):
    return x if x != x or math.isinf(x) else float(math.floor(x))


def _ceil(x):
    return x if x != x or math.isinf(x) else float(math.ceil(x))


def _rint(x):
    return x if x != x or math.isinf(x) else float(round(x))


def _trunc(x):
    return x if x != x or math.isinf(x) else float(math.trunc(x))


def _sqrt(x):
    return math.nan if x < 0 else math.sqrt(x) if x == x else x


def _toint(x, w, signed):
    """None: the conversion is undefined"""
    if x is None or x != x or math.isinf(x):
        return None
    n = math.trunc(x)
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
    if n < lo or n > hi:
        return None
    return n & (1 << w) - 1


def _sg(x, w):
    return None if x is None else x - (1 << w) if x >> w - 1 & 1 else x


def _fc(p, x, y):
    if p in ('true', 'false'):
        return int(p == 'true')
    un = x != x or y != y
    if p == 'ord': return int(not un)
    if p == 'uno': return int(un)
    if un:
        return int(p[0] == 'u')
    return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]])


def _b(op, w, x, y):
    if x is None or y is None:
        return None
    if op in ('lshr', 'ashr', 'shl') and y >= w:
        return None
    if op in ('udiv', 'urem') and y == 0:
        return None
    if op == 'ashr':
        r = _sg(x, w) >> y
    else:
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'lshr': lambda: x >> y, 'shl': lambda: x << y,
             'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'udiv': lambda: x // y, 'urem': lambda: x % y}[op]()
    return r & (1 << w) - 1


def _ic(p, w, x, y):
    if x is None or y is None:
        return None
    if p[0] == 's':
        x, y = _sg(x, w), _sg(y, w)
    return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]])


def _mn(x, y):
    return y if x != x else x if y != y else min(x, y)


def _mx(x, y):
    return y if x != x else x if y != y else max(x, y)


_ENV = dict(f32=f32, _div=_div, _mul=_mul, _pow=_pow, _round=_round, _floor=_floor, _ceil=_ceil, _rint=_rint, _trunc=_trunc, _sqrt=_sqrt,
            _toint=_toint, _sg=_sg, _fc=_fc, _b=_b, _ic=_ic, _mn=_mn, _mx=_mx, nan=math.nan, inf=math.inf, abs=abs, float=float,
            copysign=math.copysign, int=int, hypot=math.hypot)
_UN = {'round': '_round', 'floor': '_floor', 'ceil': '_ceil', 'fabs': 'abs', 'sqrt': '_sqrt', 'rint': '_rint', 'nearbyint': '_rint',
       'roundeven': '_rint', 'trunc': '_trunc'}


def callname(t):
    """plain name of the mathematical function of a call term: (name, is single precision)"""
    n = t.a[0].split('(')[0].split('::')[-1]
    if n.startswith('llvm.'):
        p = n.split('.')
        return p[1], len(p) > 2 and p[2] == 'f32'
    if n in ('abs', 'fabsf'):
        return 'fabs', n == 'fabsf'
    if n.endswith('f') and n[:-1] in ('pow', 'round', 'floor', 'ceil', 'sqrt', 'lround', 'llround', 'lrint', 'llrint', 'rint', 'nearbyint', 'trunc'):
        return n[:-1], True
    return n, False


def isfloat(t):
    if t.op in ('f', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
        return True
    if t.op == 'load':
        return t.a[2] in ('float', 'double')
    if t.op == 'ite':
        return isfloat(t.a[1]) or isfloat(t.a[2])
    return t.op == 'call' and (callname(t)[0] in _UN or callname(t)[0] in ('pow', 'fmuladd', 'fma'))


def code(t, atom):
    """Python expression of a term; raises Unknown for what it does not model"""
    n = [0]
    lines = []
    memo = {}
    def lit(v):
        return 'nan' if v != v else ('inf' if v > 0 else '-inf') if math.isinf(v) else repr(float(v))
    def go(t, memo, lines, ind):
        r = memo.get(t)
        if r is not None:
            return r
        r = atom(t)
        if r is None:
            r = step(t, memo, lines, ind)
        if not r.isidentifier() and not (t.op in ('int', 'f')):
            n[0] += 1
            v = 't%d' % n[0]
            lines.append('%s%s = %s' % (ind, v, r))
            r = v
        memo[t] = r
        return r
    def step(t, memo, lines, ind):
        g = lambda x: go(x, memo, lines, ind)
        o = t.op
        if o == 'int': return str(t.a[0])
        if o == 'f': return lit(t.a[0])
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = g(t.a[1]), g(t.a[2])
            e = '_div(%s, %s)' % (x, y) if o == 'fdiv' else '%s %s %s' % (x, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[o], y)
            return 'f32(%s)' % e if t.a[0] == 'float' else '(%s)' % e
        if o in ('fpext', 'fptrunc'):
            x = g(t.a[1])
            return x if o == 'fpext' else 'f32(%s)' % x
        if o in ('uitofp', 'sitofp'):
            x = g(t.a[1])
            w = width(t.a[1]) or (64 if t.a[1].op == 'call' and callname(t.a[1])[0] in ('lround', 'llround', 'lrint', 'llrint') else None)
            if o == 'sitofp':
                if not w: raise Unknown(show(t, 3))
                x = '_sg(%s, %d)' % (x, w)
            x = '(nan if %s is None else float(%s))' % (x, x)
            return 'f32(%s)' % x if t.a[0] == 'float' else x
        if o in ('fptoui', 'fptosi'):
            return '_toint(%s, %d, %s)' % (g(t.a[1]), t.a[0], o == 'fptosi')
        if o in ('zext', 'trunc', 'sext'):
            x = g(t.a[1])
            if o == 'sext':
                x = '_sg(%s, %d)' % (x, width(t.a[1]) or 32)
            return '(None if %s is None else %s & %d)' % (x, x, (1 << t.a[0]) - 1)
        if o in ('add', 'sub', 'mul', 'lshr', 'ashr', 'shl', 'and', 'or', 'xor', 'udiv', 'urem') and isinstance(t.a[0], int):
            return '_b(%r, %d, %s, %s)' % (o, t.a[0], g(t.a[1]), g(t.a[2]))
        if o == 'fcmp':
            return '_fc(%r, %s, %s)' % (t.a[0], g(t.a[1]), g(t.a[2]))
        if o == 'cmp':
            return '_ic(%r, %d, %s, %s)' % (t.a[0], width(t.a[1]) or width(t.a[2]) or 32, g(t.a[1]), g(t.a[2]))
        if o == 'not':
            return '(1 - %s)' % g(t.a[-1])
        if o in ('umax', 'umin') and len(t.a) == 2:
            return '%s(%s, %s)' % (o[1:], g(t.a[0]), g(t.a[1]))
        if o == 'ite':
            c = g(t.a[0])
            n[0] += 1
            v = 't%d' % n[0]
            l1, l2 = [], []
            x = go(t.a[1], dict(memo), l1, ind + ' ')
            y = go(t.a[2], dict(memo), l2, ind + ' ')
            lines.append('%sif %s:' % (ind, c)); lines += l1; lines.append('%s %s = %s' % (ind, v, x))
            lines.append('%selse:' % ind); lines += l2; lines.append('%s %s = %s' % (ind, v, y))
            return v
        if o == 'call':
            f, single = callname(t)
            a = t.a[2]
            if f in _UN and len(a) == 1:
                r = '%s(%s)' % (_UN[f], g(a[0]))
            elif f == 'pow' and len(a) == 2:
                r = '_pow(%s, %s)' % (g(a[0]), g(a[1]))
            elif f in ('fmuladd', 'fma') and len(a) == 3:
                r = '(%s * %s + %s)' % (g(a[0]), g(a[1]), g(a[2]))
            elif f in ('minnum', 'maxnum', 'fmin', 'fmax') and len(a) == 2:
                r = '%s(%s, %s)' % ('_mn' if 'min' in f else '_mx', g(a[0]), g(a[1]))
            elif f == 'copysign':
                r = 'copysign(%s, %s)' % (g(a[0]), g(a[1]))
            elif f in ('lround', 'llround', 'lrint', 'llrint') and len(a) == 1:
                return '_toint(%s(%s), 64, True)' % ('_round' if 'round' in f else '_rint', g(a[0]))
            else:
                raise Unknown(show(t, 3))
            return 'f32(%s)' % r if single else r
        raise Unknown(show(t, 3))
    r = go(t, memo, lines, ' ')
    return lines, r


def compile_term(t, atom, params, strict=False):
    """function of `params`; None when the term holds something not modelled"""
    try:
        lines, r = code(t, atom)
    except (Unknown, RecursionError):
        return None
    src = 'def f(%s):\n%s\n return %s\n' % (', '.join(params), '\n'.join(lines) or ' pass', r)
    env = dict(_ENV)
    try:
        exec(src, env)
    except (SyntaxError, MemoryError, RecursionError):
        return None
    g = env['f']
    if strict:
        return g
    def call(*a):
        try:
            return g(*a)
        except (OverflowError, ZeroDivisionError, TypeError):
            return None
    return call


def monotone(t, v, memo=None):
    """is the term a nondecreasing function of v, by its form?  'k' for a constant, True, or None"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = None
    if t is v:
        r = True
    elif t.op in ('int', 'f'):
        r = 'k'
    elif t.op in ('fadd', 'fmul', 'fdiv', 'fsub'):
        x, y = monotone(t.a[1], v, memo), monotone(t.a[2], v, memo)
        kx = t.a[1].a[0] if t.a[1].op == 'f' else None
        ky = t.a[2].a[0] if t.a[2].op == 'f' else None
        if x == 'k' and y == 'k':
            r = 'k'
        elif t.op == 'fadd' and x and y:
            r = True
        elif t.op == 'fsub' and x and y == 'k':
            r = True
        elif t.op in ('fmul', 'fdiv') and x is True and ky is not None and ky > 0:
            r = True
        elif t.op == 'fmul' and y is True and kx is not None and kx > 0:
            r = True
    elif t.op in ('fpext', 'fptrunc', 'fptoui', 'fptosi', 'zext', 'trunc', 'uitofp', 'sitofp'):
        r = monotone(t.a[1], v, memo)
    elif t.op == 'call' and callname(t)[0] in ('round', 'floor', 'ceil', 'rint', 'nearbyint', 'trunc', 'roundeven', 'lround', 'llround', 'lrint', 'llrint') and len(t.a[2]) == 1:
        r = monotone(t.a[2][0], v, memo)
    elif t.op == 'call' and callname(t)[0] in ('fmuladd', 'fma'):
        x, y, z = t.a[2]
        if monotone(x, v, memo) is True and y.op == 'f' and y.a[0] > 0 and monotone(z, v, memo) == 'k':
            r = True
    elif t.op == 'ite':
        # x < c ? c : x and the like: a maximum or a minimum
        c, x, y = t.a
        neg = False
        while c.op == 'not':
            c = c.a[-1]; neg = not neg
        if c.op == 'fcmp' and set((c.a[1], c.a[2])) == {x, y} and c.a[0][1:] in ('gt', 'ge', 'lt', 'le'):
            if monotone(x, v, memo) and monotone(y, v, memo):
                r = True
        elif c.op == 'fcmp' and c.a[0][1:] in ('gt', 'ge', 'lt', 'le') and (c.a[1] is v and c.a[2].op == 'f' or c.a[2] is v and c.a[1].op == 'f'):
            # two pieces that meet in order at the constant
            below = (c.a[0][1] == 'l') == (c.a[1] is v) != neg
            lo, hi = (x, y) if below else (y, x)
            k = (c.a[2] if c.a[1] is v else c.a[1]).a[0]
            if monotone(lo, v, memo) and monotone(hi, v, memo):
                f, g = (compile_term(q, lambda t: 'v' if t is v else None, ('v',)) for q in (lo, hi))
                fk, gk = f and f(k), g and g(k)
                r = True if fk is not None and gk is not None and fk <= gk else None
    memo[t] = r
    return r
