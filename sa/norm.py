"""Normal forms over terms: linear forms of indices, bit layouts, clamp shapes, rewriting."""
from .absint import *
from .absint import Term


def rebuild(t, f, memo=None):
    """bottom-up rewrite; `f(term)` gets a term whose children are already rewritten"""
    if memo is None:
        memo = {}
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            a = tuple(go(y) for y in x.a)
            if a == x.a:
                r = x
            else:
                r = remake(x.op, a)
            r = f(r)
            memo[x] = r
        return r
    return go(t)


def remake(op, a):
    if op in BIN:
        return binop(op, a[0], a[1], a[2])
    if op == 'cmp':
        return cmp(a[0], a[1], a[2])
    if op == 'ite':
        return ite(*a)
    if op == 'not':
        return notc(a[0])
    if op == 'ptr':
        return ptr(a[0], a[1], a[2])
    if op in ('umin', 'umax', 'smin', 'smax'):
        return mm(op, *a)
    if op in ('zext', 'sext', 'trunc'):
        return cast(op, 'i%d' % a[0], a[1])
    if op in ('fmul', 'fadd', 'fsub', 'fdiv'):
        return fbin(op, a[0], a[1], a[2])
    if op == 'phi':
        vs = [v for _, v in a[2]]
        if all(v is vs[0] for v in vs):
            return vs[0]
    return T(op, *a)


def replace(t, m):
    return rebuild(t, lambda x: m.get(x, x))


def lin(t, w=None):
    """t as {atom: coefficient}, constant. Extensions are looked through: index arithmetic does not
    wrap (sizes are bounded by memory); recorded as an assumption by the rules that use it."""
    d = {}
    c = [0]

    def go(x, k):
        if x.op == 'int':
            c[0] += sval(x) * k
        elif x.op in ('zext', 'sext'):
            go(x.a[1], k)
        elif x.op == 'add':
            go(x.a[1], k); go(x.a[2], k)
        elif x.op == 'sub':
            go(x.a[1], k); go(x.a[2], -k)
        elif x.op == 'mul' and x.a[2].op == 'int':
            go(x.a[1], k * sval(x.a[2]))
        elif x.op == 'shl' and x.a[2].op == 'int':
            go(x.a[1], k << x.a[2].a[0])
        else:
            x = atom(x)
            d[x] = d.get(x, 0) + k
    go(t, 1)
    return {a: k for a, k in d.items() if k}, c[0]


def atom(x):
    """canonical form of a non-linear index term (children made linear)"""
    if x.op == 'trunc' and x.a[1].op in BIN:
        return unlin(*lin(x.a[1]))
    if x.op in ('udiv', 'urem', 'lshr', 'mul', 'and', 'sdiv', 'srem', 'ashr'):
        a, b = x.a[1], x.a[2]
        op = x.op
        if op == 'lshr' and b.op == 'int':
            op, b = 'udiv', I(1 << b.a[0], 64)
        if op == 'ashr' and b.op == 'int':
            op, b = 'sdiv', I(1 << b.a[0], 64)
        if op == 'and' and b.op == 'int' and (b.a[0] + 1) & b.a[0] == 0:
            op, b = 'urem', I(b.a[0] + 1, 64)
        a, b = unlin(*lin(a)), unlin(*lin(b))
        if op == 'mul' and tid(a) > tid(b):
            a, b = b, a
        return T('L' + op, a, b)
    return x


def unlin(d, c):
    """a canonical term for a linear form"""
    if not d:
        return I(c, 64)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return T('L', tuple(sorted(((a, k) for a, k in d.items()), key=lambda p: tid(p[0]))), c)


def linpoly(t):
    return unlin(*lin(t))


def addr(p):
    """(base, {atom: coef}, const) of a pointer"""
    b, o, v = split_ptr(p)
    d = {}
    for i, s in v:
        dd, c = lin(i)
        o += c * s
        for a, k in dd.items():
            d[a] = d.get(a, 0) + k * s
    return b, {a: k for a, k in d.items() if k}, o


def same_lin(x, y):
    return lin(x) == lin(y)


# ---------------------------------------------------------------------------------- float leaves

def fl(t):
    return t.a[0] if t.op == 'f' else None


def clampform(t):
    """Decompose an expression over one leaf into
    dict(leaf, scale, lo, hi, nan, rnd): value = rnd(clamp(leaf, lo, hi) * scale);
    lo/hi are bounds on the leaf (None = unbounded); `nan`: a NaN leaf can get through.
    None when the shape is not of this family."""
    if t.op == 'call' and t.a[0].startswith('llvm.round.') or t.op == 'call' and t.a[0].split('(')[0] in ('round', 'roundf', 'std::round'):
        r = clampform(t.a[2][0])
        return dict(r, rnd='round') if r and r['rnd'] is None else None
    if t.op == 'call' and t.a[0].startswith(('llvm.rint.', 'llvm.nearbyint.', 'llvm.roundeven.')):
        r = clampform(t.a[2][0])
        return dict(r, rnd='even') if r and r['rnd'] is None else None
    if t.op == 'call' and t.a[0].startswith('llvm.floor.') and t.a[2][0].op == 'fadd' and fl(t.a[2][0].a[2]) == 0.5:
        r = clampform(t.a[2][0].a[1])
        return dict(r, rnd='round') if r and r['rnd'] is None else None
    if t.op == 'call' and t.a[0].startswith(('llvm.floor.', 'llvm.ceil.', 'llvm.trunc.')):
        r = clampform(t.a[2][0])
        return dict(r, rnd=t.a[0].split('.')[1]) if r and r['rnd'] is None else None
    if t.op in ('fpext', 'fptrunc'):
        return clampform(t.a[1])
    if t.op == 'fmul' and t.a[2].op == 'f':
        r = clampform(t.a[1])
        if not r or r['rnd']:
            return None
        return dict(r, scale=r['scale'] * t.a[2].a[0])
    if t.op == 'fdiv' and t.a[2].op == 'f' and t.a[2].a[0]:
        r = clampform(t.a[1])
        if not r or r['rnd']:
            return None
        return dict(r, scale=r['scale'] / t.a[2].a[0])
    if t.op == 'call' and t.a[0].startswith(('llvm.minnum.', 'llvm.maxnum.')):
        x, y = t.a[2]
        if x.op == 'f':
            x, y = y, x
        if y.op != 'f':
            return None
        r = clampform(x)
        if not r or r['rnd']:
            return None
        return bound(dict(r, nan=False), y.a[0], t.a[0].startswith('llvm.min'))
    if t.op == 'ite':
        return iteclamp(t)
    if t.op in ('load', 'arg', 'exte', 'sym', 'call', 'opaque', 'iv', 'memphi'):
        return dict(leaf=t, scale=1.0, lo=None, hi=None, nan=True, rnd=None)
    return None


def bound(r, k, upper):
    s = r['scale']
    k = k / s if s else k
    if s < 0:
        upper = not upper
    r = dict(r)
    if upper:
        r['hi'] = k if r['hi'] is None else min(r['hi'], k)
    else:
        r['lo'] = k if r['lo'] is None else max(r['lo'], k)
    return r


def iteclamp(t):
    c, x, y = t.a
    neg = False
    if c.op == 'not':
        c, x, y = c.a[0], y, x
    if c.op != 'fcmp':
        return None
    p, u, v = c.a
    if u.op == 'f' and v.op != 'f':
        u, v = v, u
        p = p[0] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}.get(p[1:], '?')
    if v.op != 'f':
        return None
    k = v.a[0]
    # one arm is the constant k, the other the value tested (possibly clamped further)
    for const, rest, taken in ((x, y, True), (y, x, False)):
        if const.op != 'f':
            continue
        # condition on u under which const is chosen
        q = p
        if not taken:
            q = {'o': 'u', 'u': 'o'}[p[0]] + {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}.get(p[1:], '?')
        if q[1:] in ('lt', 'le'):
            upper = False
        elif q[1:] in ('gt', 'ge'):
            upper = True
        else:
            return None
        r = clampform(rest)
        ru = clampform(u)
        if not r or not ru or r['rnd'] or ru['rnd'] or r['leaf'] is not ru['leaf']:
            return None
        # threshold on the leaf and value delivered beyond it
        thr = k / ru['scale']
        val = const.a[0] / r['scale']
        if abs(thr - val) > 1e-6 * max(1.0, abs(thr)):
            return None
        if ru['lo'] is not None or ru['hi'] is not None:
            # u is clamped already: beyond its own bounds the test is decided by the bound
            if r['lo'] != ru['lo'] or r['hi'] != ru['hi']:
                return None
        nan = r['nan'] and q[0] != 'u'
        b = dict(r, nan=nan)
        # value range: beyond thr -> val
        if upper:
            if b['hi'] is not None and b['hi'] < val:
                pass
            else:
                b['hi'] = val
        else:
            if b['lo'] is not None and b['lo'] > val:
                pass
            else:
                b['lo'] = val
        return b
    return None


# ---------------------------------------------------------------------------------- bit layout

def bitmap(t, leafrange):
    """bits of an integer term, least significant first: 0/1, (leaf, bit) or None (unknown).
    leafrange(cast term) -> (lo, hi) of a float->int conversion or None"""
    w = width(t)
    if w is None:
        return None
    if t.op == 'int':
        return [(t.a[0] >> k) & 1 for k in range(w)]
    if t.op in ('fptoui', 'fptosi'):
        r = leafrange(t)
        n = w
        if r and 0 <= r[0]:
            n = min(w, int(r[1]).bit_length())
        return [(t.a[1], k) for k in range(n)] + [0] * (w - n)
    if t.op == 'call':
        return None
    if t.op == 'zext':
        b = bitmap(t.a[1], leafrange)
        return b and b + [0] * (w - len(b))
    if t.op == 'sext':
        b = bitmap(t.a[1], leafrange)
        return b and b + [b[-1]] * (w - len(b))
    if t.op == 'trunc':
        b = bitmap(t.a[1], leafrange)
        return b and b[:w]
    if t.op in ('shl', 'lshr', 'mul') and t.a[2].op == 'int':
        k = t.a[2].a[0]
        if t.op == 'mul':
            if k & (k - 1) or not k:
                return None
            k = k.bit_length() - 1
        b = bitmap(t.a[1], leafrange)
        if b is None:
            return None
        if t.op == 'lshr':
            return b[k:] + [0] * min(k, w)
        return ([0] * k + b)[:w]
    if t.op in ('and', 'or', 'xor', 'add'):
        x, y = bitmap(t.a[1], leafrange), bitmap(t.a[2], leafrange)
        if x is None or y is None:
            return None
        if t.op == 'add' and any(p != 0 and q != 0 for p, q in zip(x, y)):
            return None
        out = []
        for p, q in zip(x, y):
            if t.op == 'and':
                out.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None)
            else:
                if p == 0: out.append(q)
                elif q == 0: out.append(p)
                elif t.op == 'or' and p == q: out.append(p)
                elif t.op == 'or' and 1 in (p, q): out.append(1)
                else: out.append(('mix', p, q))
        return out
    return None
