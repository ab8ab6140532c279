"""Helpers shared by the rules."""
import functools, re
from sa import ir
from sa.absint import *
from sa.absint import Term, NOEFFECT
from sa.norm import *

LIB = 'lib/src/'
CONST = lambda n: n.endswith(' const')


def cname(dem):
    """qualified name of a function without its parameter list"""
    s = ir.strip_ret(dem)
    d = 0
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif c == '(' and d == 0 and s[i:i + 21] != '(anonymous namespace)' and i:
            if s[:i].endswith('operator'):
                continue
            return s[:i]
    return s


@functools.lru_cache(None)
def short(dem):
    """last component of the name, without template arguments"""
    s = cname(dem)
    d = 0; cut = 0; end = len(s)
    for i, c in enumerate(s):
        if c in '<([' and not s[:i].endswith('operator'):
            d += 1
        elif c in '>)]' and d and not s[:i].endswith('operator-'):
            d -= 1
        elif d == 0 and s.startswith('::', i):
            cut = i + 2
    s = s[cut:]
    if '<' in s and not s.startswith('operator'):
        s = s[:s.index('<')]
    return s


def args(fn, **named):
    """symbolic parameters, with those in `named` (by index aN) fixed"""
    r = []
    for i in range(len(fn.args)):
        r.append(named.get('a%d' % i) or T('arg', i, '$%d' % i))
    return r


def leaves(t, a=None):
    """constants / terms an if-then-else or phi tree may evaluate to (with an analysis: also
    through values carried around loops)"""
    info = getattr(a, 'ivinfo', {})
    out = []
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st += [x.a[1], x.a[2]]
        elif x.op == 'phi':
            st += [v for _, v in x.a[2]]
        elif x in info:
            st += info[x][1] + info[x][2]
        else:
            out.append(x)
    return out


def retleaves(a):
    out = []
    for v, e in a.rets():
        if v is not None:
            out += [x for x in leaves(v, a) if x is not UNDEF]
    return out


def formats(m):
    """(format name, value) without the non-formats"""
    e = m.enum('cuttlefish::Texture::Format')
    return [(k, v) for k, v in sorted(e.items(), key=lambda p: p[1]) if k != 'Unknown']


def types(m):
    return sorted(m.enum('cuttlefish::Texture::Type').items(), key=lambda p: p[1])


def const_call(m, prefix, *vals):
    """value returned by a small function for constant arguments, by conditional constant propagation"""
    f = m.find(prefix)
    a = [I(v, bits(t['ty'] if isinstance(t, dict) else t) or 32) for v, t in zip(vals, f.args)]
    an = Analysis(f, a, pure=CONST)
    return an.ret(), f


CODECS_ON = ('CUTTLEFISH_ISPC=0', 'CUTTLEFISH_HAS_S3TC=1', 'CUTTLEFISH_HAS_ETC=1', 'CUTTLEFISH_HAS_ASTC=1', 'CUTTLEFISH_HAS_PVRTC=1')
CODECS_OFF = ('CUTTLEFISH_ISPC=0',)


_ne = {}


def noep(t):
    """the term without memory epochs: equality then means 'the same cells', assuming those cells are
    not rewritten in between (rules using it say why)"""
    return rebuild(t, lambda x: T('load', x.a[0], 0, x.a[2]) if x.op == 'load' and x.a[1] != 0 else x, _ne)


def affine(a, iv):
    """(header, initial value, step) of a loop-carried value advancing by a constant, or None"""
    info = getattr(a, 'ivinfo', {}).get(iv)
    if not info:
        return None
    h, init, late = info
    init = [x for x in init]
    if len(set(init)) != 1 or not late:
        return None
    step = None
    for x in late:
        if x.op == 'ptr' and x.a[0] is iv and not x.a[2]:
            s = x.a[1]
        elif x.op == 'add' and x.a[1] is iv and x.a[2].op == 'int':
            s = sval(x.a[2])
        else:
            return None
        if step not in (None, s):
            return None
        step = s
    return h, init[0], step


def exit_edges(a, h):
    body = a.fn.loops[h]
    return [(n, s) for n in body if a.reachable(n) for s in a.fn.blocks[n].succ if s not in body and (n, s) in a.exec_edges]


def edge_facts(a, e):
    return a.edge_state[e].facts


def bound_of(a, iv, block):
    """N such that the loop counter iv satisfies iv < N at `block` (comparison operand as written)"""
    out = []
    f = a.instate[block].facts
    for c in f.s:
        if c.op == 'cmp' and c.a[0] in ('ult', 'slt'):
            x = c.a[1]
            while x.op in ('zext', 'sext'):
                x = x.a[1]
            if x is iv:
                out.append(c.a[2])
    return out


def full_range(a, iv, block):
    """[N] when the loop of iv runs over 0,1,..,N-1 exactly (start 0, step 1, left only at iv >= N or by
    edges into blocks that end the function); None when not of that shape; a string when it is of that
    shape but leaves values out"""
    af = affine(a, iv)
    if not af:
        return None
    h, init, step = af
    bs = bound_of(a, iv, block)
    if init.op != 'int':
        return None
    if not bs:
        for c in a.instate[block].facts.s:
            if c.op == 'cmp' and c.a[0] in ('ult', 'slt'):
                x = c.a[1]
                while x.op in ('zext', 'sext'):
                    x = x.a[1]
                if x.op == 'add' and x.a[1] is iv and x.a[2].op == 'int' and sval(x.a[2]) > 0:
                    return 'stops %d before the end' % sval(x.a[2])
        return None
    if init.a[0] != 0:
        return 'starts at %d' % init.a[0]
    if step != 1:
        return 'advances by %d' % step
    good = []
    for N in bs:
        ok = True
        for e in exit_edges(a, h):
            f = edge_facts(a, e)
            lt = [c for c in f.s if c.op == 'cmp' and c.a[0] in ('ule', 'eq', 'sle')]
            done = False
            w = width(N) or 32
            for x in (iv, binop('add', width(iv) or 32, iv, I(1, width(iv) or 32))):
                for y in (x, cast('zext', 'i64', x), cast('sext', 'i64', x)):
                    for p in ('ult', 'slt', 'ne'):
                        if f.decide(cmp(p, y, N)) is False:
                            done = True
            if not done:
                ok = False
        if ok:
            good.append(N)
    return good or None


def path_avoiding(a, src, targets, edges=(), blocks=(), strict=True):
    """a list of blocks from src to one of `targets` over executable edges that uses none of `edges`
    and enters none of `blocks`; None when there is none"""
    prev = {}
    st = [src]
    seen = set() if strict else {src}
    if not strict and src in targets:
        return [src]
    while st:
        n = st.pop()
        for s in a.fn.blocks[n].succ:
            if (n, s) not in a.exec_edges or (n, s) in edges or s in blocks or s in seen:
                continue
            seen.add(s)
            prev.setdefault(s, n)
            if s in targets:
                p = [s]
                x = n
                while x != src:
                    p.append(x); x = prev[x]
                p.append(src)
                return p[::-1]
            st.append(s)
    return None


def eventpos(a):
    """position of every event inside its block"""
    pos = {}
    for k, e in enumerate(a.events):
        pos[e] = k
    return pos


def evflow(a, src, target, avoid=(), edges=()):
    """can `target` (an event, a predicate over events, or 'ret') be reached from `src` (an event, or None
    for the entry) over executable edges without passing an event of `avoid` or an edge of `edges`?  the event reached, or None"""
    by = {}
    for e in a.events:
        by.setdefault(e.block, []).append(e)
    avoid = set(avoid)
    if target == 'ret':
        hit = lambda e: e.i.op == 'ret'
    elif callable(target):
        hit = target
    else:
        hit = lambda e: e is target
    def scan(evs):
        for e in evs:
            if hit(e):
                return e
            if e in avoid:
                return False
        return None
    if src is None:
        st = [0]; seen = {0}
    else:
        l = by[src.block]
        r = scan(l[l.index(src) + 1:])
        if r is not None:
            return r or None
        st = [s for s in a.fn.blocks[src.block].succ if (src.block, s) in a.exec_edges and (src.block, s) not in edges]
        seen = set(st)
    while st:
        n = st.pop()
        r = scan(by.get(n, ()))
        if r:
            return r
        if r is False:
            continue
        for s in a.fn.blocks[n].succ:
            if (n, s) in a.exec_edges and s not in seen and (n, s) not in edges:
                seen.add(s); st.append(s)
    return None


def iscall(e, *names):
    return e.i.op in ('call', 'invoke') and e.name and cname(e.name) in names


def root(t):
    """the object a pointer term points into"""
    return split_ptr(t)[0]


def teval(t, env, memo=None):
    """value of a term under an assignment of its atoms, or None"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = None
    if t in env:
        r = env[t]
    elif t.op == 'int':
        r = t.a[0]
    elif t is NULL:
        r = 0
    elif t.op in ('zext', 'trunc', 'sext'):
        x = teval(t.a[1], env, memo)
        if x is not None:
            w = t.a[0]
            r = x & ((1 << w) - 1)
            if t.op == 'sext':
                iw = width(t.a[1]) or 32
                if x >> (iw - 1) & 1:
                    r = (x - (1 << iw)) & ((1 << w) - 1)
    elif t.op in ('add', 'sub', 'mul', 'lshr', 'ashr', 'shl', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv'):
        w = t.a[0] if isinstance(t.a[0], int) else 32
        x, y = teval(t.a[1], env, memo), teval(t.a[2], env, memo)
        if x is not None and y is not None:
            m = (1 << w) - 1
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'lshr': lambda: x >> y if y < w else None, 'ashr': lambda: (x - (1 << w) if x >> (w - 1) & 1 else x) >> y if y < w else None, 'shl': lambda: x << y if y < w else None,
                     'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'udiv': lambda: x // y, 'sdiv': lambda: x // y if not (x | y) >> (w - 1) else None, 'urem': lambda: x % y}[t.op]()
            except ZeroDivisionError:
                r = None
            if r is not None:
                r &= m
    elif t.op in ('umax', 'umin', 'smax', 'smin'):
        w = width(t) or 32
        x, y = teval(t.a[0], env, memo), teval(t.a[1], env, memo)
        if x is not None and y is not None:
            if t.op[0] == 's':
                s = lambda v: v - (1 << w) if v >> (w - 1) & 1 else v
                r = (max if t.op == 'smax' else min)(s(x), s(y)) & ((1 << w) - 1)
            else:
                r = (max if t.op == 'umax' else min)(x, y)
    elif t.op == 'ite':
        c = teval(t.a[0], env, memo)
        if c is not None:
            r = teval(t.a[1] if c & 1 else t.a[2], env, memo)
    elif t.op == 'cmp':
        x, y = teval(t.a[1], env, memo), teval(t.a[2], env, memo)
        if x is not None and y is not None:
            p = t.a[0]
            if p[0] == 's':
                w = width(t.a[1]) or width(t.a[2]) or 32
                s = lambda v: v - (1 << w) if v >> (w - 1) & 1 else v
                x, y = s(x), s(y)
            r = int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]])
    elif t.op == 'not':
        x = teval(t.a[-1], env, memo)
        r = None if x is None else 1 - (x & 1)
    memo[t] = r
    return r


def judge(x, y, envs, facts=()):
    """True: the same term; a witness string: they differ for an assignment of the atoms admitted by the
    facts; None: not decided"""
    x, y = noep(x), noep(y)
    if x is y or same_lin(x, y):
        return True
    fs = [noep(c) for c in facts]
    for env in envs:
        memo = {}
        u, v = teval(x, env, memo), teval(y, env, memo)
        if u is None or v is None or u == v:
            continue
        if any(teval(c, env, memo) == 0 for c in fs):
            continue
        return '%s is %d instead of %d for %s' % (show(x), u, v, ', '.join('%s=%d' % (show(k), n) for k, n in env.items()))
    return None
