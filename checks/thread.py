"""C06: the worker machinery of Converter::convert."""
import math
from .util import *
from .conv import Encoders, Bodies, CONV, STD, compressed, vclass
from sa.ir import AnalysisError

KEEPC = ['createConverter', r'std::vector<.*>::swap[<(]', r'std::thread::(join|detach)']
LIMIT = dict(keep=KEEPC, limit=8000)


def slots(m):
    """virtual-table byte offset of the Converter interface's methods"""
    for g, G in m.globals.items():
        if not g.startswith('_ZTV') or 'init' not in G or not (vclass(g) or '').startswith('cuttlefish::'):
            continue
        r = {}
        for k, e in enumerate(G['init']['e'][0]['e'][2:]):
            if e['k'] == 'g' and e['n'] in m.fns:
                r[short(m.fns[e['n']].dem)] = 8 * k
        if {'jobsX', 'jobsY', 'process', 'createThreadData'} <= set(r):
            return r
    raise AnalysisError('the Converter interface (jobsX, jobsY, process, createThreadData) was not found')


def virtual(e):
    """byte offset in the virtual table of an indirect call's target, and the object"""
    t = e.i.get('fp')
    if t is None:
        return None
    t = noep(e.an.val(t) if isinstance(t, dict) else t)
    if t.op != 'load':
        return None
    b, o, v = split_ptr(t.a[0])
    if b.op != 'load' or v:
        return None
    return o, b.a[0]


def complement(v, o):
    """~x is -x - 1"""
    out = {}
    for t, k in v:
        if t.op == 'xor' and t.a[2].op == 'int' and sval(t.a[2]) == -1:
            t = t.a[1]; k = -k; o += k
        while t.op in ('zext', 'sext'):
            t = t.a[1]
        out[t] = out.get(t, 0) + k
    return [(t, k) for t, k in out.items() if k], o


def indices(p):
    """[(index atom or constant, stride)] of a nested-vector element address, outermost first, and its root"""
    out = []
    p = noep(p)
    while True:
        b, o, v = split_ptr(p)
        if o or len(v) > 1:
            # a computed index: the element size divides every part of it
            v, o = complement(v, o)
            size = {t for t, k in v if t.op == 'sub' and t.a[1].op == t.a[2].op == 'load'}     # of a whole list, in bytes
            g = 0
            for t, k in v:
                if t not in size:
                    g = math.gcd(g, k)
            if not v or not g or o % g or g < 8:
                return None
            out.append((unlin({T('sdiv', 64, t, I(g, 64)) if t in size and k % g else t: k if t in size and k % g else k // g for t, k in v}, o // g), g))
        elif v:
            t, s = v[0]
            while t.op in ('zext', 'sext'):
                t = t.a[1]
            out.append((t, s))
        else:
            out.append((I(0), 0))
        if b.op == 'load':
            p = b.a[0]
            if p.op in ('arg', 'alloca'):
                return out[::-1], p
        elif b.op in ('arg', 'alloca'):
            return (out[::-1], b)
        else:
            return None


def vecsize(t):
    """the address of the vector whose size the term is, or None"""
    t = noep(t)
    while t.op in ('zext', 'sext', 'trunc'):
        t = t.a[1]
    if t.op in ('sdiv', 'ashr', 'udiv', 'lshr'):
        t = t.a[1]
    elif t.op == 'mul':      # exact division by multiplication
        t = t.a[1]
        if t.op in ('ashr', 'lshr'):
            t = t.a[1]
    if t.op == 'sub' and t.a[1].op == 'load' and t.a[2].op == 'load' and t.a[1].a[0] is ptr(t.a[2].a[0], 8):
        return t.a[2].a[0]
    return None


def after(a, src, dst, edges=(), blocks=()):
    """path from event src to event dst (may loop) avoiding edges/blocks"""
    if src.block == dst.block and a.events.index(dst) > a.events.index(src):
        return [src.block]
    return path_avoiding(a, src.block, {dst.block}, edges, blocks)


class Conv:
    def __init__(self, ctx):
        ir.prefetch((CONV, LIMIT), (CONV, dict(limit=8000)))
        self.m = ctx.load(CONV, **LIMIT)
        self.f = self.m.find('cuttlefish::Converter::convert(')
        ctx.fn(self.f)
        self.a = a = Analysis(self.f, args(self.f), pure=CONST)
        self.slots = slots(ctx.load(CONV, limit=8000))
        ev = a.calls()
        self.create = [e for e in ev if e.name and short(e.name) == 'createConverter']
        self.virt = {}
        for e in ev:
            if e.name is None:
                v = virtual(e)
                if v:
                    for n, o in self.slots.items():
                        if o == v[0] and n in ('jobsX', 'jobsY', 'process', 'createThreadData'):
                            na = len(e.args)
                            if na == {'jobsX': 1, 'jobsY': 1, 'process': 4, 'createThreadData': 2}[n]:
                                self.virt.setdefault(n, []).append(e)
        self.spawn = [e for e in ev if e.name and ('std::vector<std::thread' in e.name and short(e.name) in ('emplace_back', 'push_back')
                                                  or cname(e.name).startswith('std::thread::thread'))]
        self.join = [e for e in ev if e.name and cname(e.name) == 'std::thread::join']
        self.detach = [e for e in ev if e.name and cname(e.name) == 'std::thread::detach']
        self.publish = []; self.goes = {}
        self.release = []
        self.cv = self.create[0].args[0] if len(self.create) == 1 else None
        for e in ev:
            if e.name and short(e.name) in ('operator=', 'swap', '_M_move_assign', 'assign') and 'vector<unsigned char' in e.name and len(e.args) >= 2:
                for d, src in ((0, 1), (1, 0)) if short(e.name) == 'swap' else ((0, 1),):
                    if self.isconv(split_ptr(noep(e.args[src]))[0]):
                        self.publish.append(e)
                        self.goes[e] = d
            if e.name and cname(e.name) in ('cuttlefish::Image::reset', 'cuttlefish::Image::operator='):
                self.release.append(e)

    def isconv(self, t):
        """t is the current converter object"""
        t = noep(t)
        return t.op == 'load' and t.a[0] is self.cv


def c06(ctx):
    ctx.rule('same-surface', 'the image a converter is created for, the image released and the place its data is moved to have the same level, '
                             'depth and face index')
    ctx.rule('every-surface', 'level, depth and face each run over all elements of the surface lists, left early only by a failing return')
    ctx.rule('jobs', 'the job list holds (x, y) for every x < jobsX() and y < jobsY() of the current converter exactly once')
    ctx.rule('claim', 'a worker takes a job by one atomic fetch-add of the shared counter, processes it iff its number is inside the job list, and '
                      'stops only when the list is exhausted')
    ctx.rule('args', 'process() is called on the current converter with the x and y of that job')
    ctx.rule('join', 'every path from starting a worker to releasing the source, publishing the data or returning goes through a loop '
                     'joining all workers')
    ctx.rule('all-jobs', 'every path from creating a converter to publishing its data runs all jobs (directly or through joined workers)')
    ctx.rule('thread-data', 'each worker gets the thread data of its own index, created by the current converter')
    ctx.rule('fresh', 'job counter, thread list and thread data start empty for every surface')
    ctx.rule('shared', 'an encoder writes only to its own output slice, its thread data or locals, and calls nothing with side effects')
    c = Conv(ctx)
    a = c.a
    if len(c.create) != 1 or not c.publish:
        ctx.und('same-surface', 'convert', c.f.where(), '%d converter creations, %d publications found' % (len(c.create), len(c.publish)))
    else:
        ctx.part(surfaces, ctx, c)
        ctx.part(jobs, ctx, c)
        ctx.part(claim, ctx, c)            # also says what the worker closure's slots are
        ctx.part(workers, ctx, c)
    shared(ctx)
    ctx.floor('same-surface', 1)
    ctx.floor('claim', 3)
    ctx.floor('join', 1)
    ctx.floor('shared', 40)
    ctx.assume('std::thread, std::atomic and std::vector behave as the standard says; code outside StandardConverter (external codecs, whose '
               'sources are not in this checkout) is not covered by rule shared')


def ivwidth(a, iv):
    for i in a.fn.blocks[iv.a[2]].insts:
        if i.id == iv.a[1]:
            return int(i.ty[1:]) if i.ty[:1] == 'i' and i.ty[1:].isdigit() else 64
    return 64


def cut(a, iv, block, cases):
    """a loop whose counter goes up from 0 one by one, evaluated for the lengths it should have: `cases` are (values of the atoms, length).
    Says which iteration `block` is not run for, when that is certain; None otherwise"""
    af = affine(a, iv)
    if not af or af[1].op != 'int' or af[1].a[0] != 0 or af[2] != 1:
        return None
    h = af[0]
    body = a.fn.loops[h]
    latches = [n for n in body if h in a.fn.blocks[n].succ and (n, h) in a.exec_edges]
    w = ivwidth(a, iv)
    def through(b, x):
        return b == x or b == h or path_avoiding(a, h, {x}, blocks={b}, edges={(n, h) for n in latches}) is None
    def refuted(x, env):
        return any(teval(noep(f), env) == 0 for f in edge_facts(a, x).s)
    for env, n in cases:
        for k in sorted({0, 1, n // 2, n - 2, n - 1}):
            if not 0 <= k < n:
                continue
            if k >> w:
                return 'cannot count to %d of %d with a counter of %d bits' % (k, n, w)
            env = dict(env)
            env[noep(iv)] = k
            for b, s in exit_edges(a, h):
                before = through(b, block)
                if not before and (k == n - 1 or not all(through(b, x) for x in latches)):
                    continue
                if not refuted((b, s), env) and all((b, q) not in a.exec_edges or refuted((b, q), env) for q in a.fn.blocks[b].succ if q != s) and \
                        any(teval(noep(f), env) == 1 and noep(iv) in walk(noep(f)) for f in edge_facts(a, (b, s)).s):
                    return 'stops before number %d of %d' % (k if before else k + 1, n)
    return None


GRID = [(1, 1), (1, 7), (7, 1), (3, 5), (300, 200), (5000, 3), (3, 5000), (1, 70000), (70000, 1)]


def grid(X, Y, threads=(2,)):
    for x, y in GRID:
        for t in threads:
            env = {T('arg', 4, '$4'): t}
            env.update({noep(k): x for k in X})
            env.update({noep(k): y for k in Y})
            yield env, x, y


def surfaces(ctx, c):
    a = c.a
    src = indices(c.create[0].args[2])
    if not src or len(src[0]) != 3:
        ctx.und('same-surface', 'source', c.create[0].where(), 'source image is not a level/depth/face element')
        return
    want = [t for t, s in src[0]]
    for k, (what, evs, arg) in enumerate((('released image', c.release, 0), ('published data', c.publish, 0))):
        for n, e in enumerate(evs):
            d = indices(e.args[c.goes.get(e, arg)])
            key = '%s-%d' % (what.split()[0], n)
            if not d or len(d[0]) != 3:
                ctx.und('same-surface', key, e.where(), 'not a level/depth/face element')
                continue
            got = [t for t, s in d[0]]
            same = got == want
            if any(t.op == 'L' for t in got):
                # computed: its parts are loop counters and lengths, which are independent of each other
                same = same or (False if all(x.op == 'iv' or vecsize(x) is not None for g, t in zip(got, want) if g is not t for x, _ in (g.a[0] if g.op == 'L' else ((g, 1),))) else None)
            ctx.check(same, 'same-surface', key, e.where(), 'the %s has indices (%s) but the converter was created for (%s)' % (
                what, ', '.join(map(show, got)), ', '.join(map(show, want))))
            if what == 'published data':
                ctx.check(d[1] is T('arg', 2, '$2') and src[1] is T('arg', 1, '$1') if d[1].op == 'arg' else None, 'same-surface', key + '-list', e.where(),
                          'data goes to the texture list')
    # coverage, when no converter creation fails
    isnull = set()
    for e in a.events:
        if e.i.op == 'br' and e.args:
            for t in walk(e.args[0]):
                if t.op == 'cmp' and t.a[0] == 'eq' and t.a[2] is NULL and c.isconv(t.a[1]):
                    isnull.add(t)
    a = Analysis(c.f, c.a.args, facts=[notc(t) for t in isnull], pure=CONST)
    for lvl, t in zip(('level', 'depth', 'face'), want):
        # all prefixes: list address for this level in both lists
        e = c.create[0]
        if t.op != 'iv':
            ctx.check(False if t.op == 'int' else None, 'every-surface', lvl, e.where(), 'only %s %s is converted' % (lvl, show(t)))
            continue
        r = full_range(a, t, e.block)
        if isinstance(r, str):
            ctx.bad('every-surface', lvl, e.where(), 'the %s loop %s' % (lvl, r))
            continue
        k = want.index(t)
        conds = {x for ed in (exit_edges(a, affine(a, t)[0]) if affine(a, t) else ()) for f in edge_facts(a, ed).s for x in walk(noep(f))}
        ends = []
        for v in {noep(x) for x in map(vecsize, conds) if x is not None}:
            x = indices(v) if k else (([], v) if v.op in ('arg', 'alloca') else None)
            if x is not None and x[1] is src[1] and [noep(q) for q, _ in x[0]] == [noep(q) for q in want[:k]]:
                ends.append((noep(T('load', v, 0, 'ptr')), noep(T('load', ptr(v, 8), 0, 'ptr'))))
        if ends:
            short_ = cut(a, t, e.block, [({**{p: 4096 + src[0][k][1] * n * q for b in ends for q, p in enumerate(b)}, **{noep(q): o for q in want[:k]}}, n)
                                         for n in ((1, 2, 5, 9, 13, 17), (1, 2, 3, 7, 70, 300, 5000), (1, 6))[k] for o in (0, 1, 5)])
            if short_:
                ctx.bad('every-surface', lvl, e.where(), 'the %s loop %s' % (lvl, short_))
                continue
        if not r:
            ctx.und('every-surface', lvl, e.where(), 'loop shape not understood')
            continue
        k = want.index(t)
        ok = []
        for N in r:
            v = vecsize(N)
            cc = sval(N.a[2]) if N.op == 'add' and N.a[2].op == 'int' else 0
            if cc < 0 and vecsize(N.a[1]) is not None:
                ctx.bad('every-surface', lvl, e.where(), 'the %s loop stops %d before the end of the list' % (lvl, -cc))
                ok = None
                break
            if v is None:
                continue
            x = indices(v) if k else (([], v) if v.op in ('arg', 'alloca') else None)
            if x is None:
                continue
            ok.append([q for q, s in x[0]] == want[:k])
        if ok is not None:
            ctx.check((True in ok) if ok else None, 'every-surface', lvl, e.where(), 'the %s loop is bounded by the size of another list' % lvl)


def jobs(ctx, c):
    a = c.a
    jx = c.virt.get('jobsX', []); jy = c.virt.get('jobsY', [])
    X = {noep(e.val) for e in jx}; Y = {noep(e.val) for e in jy}
    # stores of loop counters into elements of a local vector
    cells = {}
    for e in a.events:
        if e.i.op == 'store' and e.args[0].op == 'iv' and e.i.get('size') == 4:
            b, d, off = addr(noep(e.args[1]))
            if b.op == 'load' and b.a[0].op == 'alloca' and d and off in (0, 4):
                cells.setdefault((b.a[0], tuple(sorted((tid(k), v) for k, v in d.items()))), {})[off] = (e, d)
    c.jobsvec = None
    c.xy = None
    if len(cells) != 1:
        push(ctx, c)
        return
    (vec, _), g = next(iter(cells.items()))
    c.jobsvec = vec
    e = next(iter(g.values()))[0]
    if set(g) != {0, 4}:
        for q in a.events:
            if q.i.op == 'store' and q.i.get('size') == 4 and q.args[0].op != 'iv':
                b, d, off = addr(noep(q.args[1]))
                if b.op == 'load' and b.a[0] is vec and off in (0, 4) and d == next(iter(g.values()))[1]:
                    ivs = [x for x in walk(q.args[0]) if x.op == 'iv']
                    for k in (1, 2, 100, 300, 5000, 70000):
                        v = teval(q.args[0], {ivs[0]: k}) if len(ivs) == 1 else None
                        if v is not None and v != k:
                            ctx.bad('jobs', 'fill', q.where(), 'coordinate %d of a job is stored as %d' % (k, v))
                            return
        ctx.und('jobs', 'fill', e.where(), 'a job is not a pair')
        return
    first, second = g[0][0].args[0], g[4][0].args[0]
    rng = {}
    for iv in (first, second):
        r = full_range(a, iv, e.block)
        if isinstance(r, str):
            ctx.bad('jobs', 'range', e.where(), 'a job coordinate %s' % r)
            return
        short_ = [cut(a, iv, e.block, list((env, n[k]) for env, *n in grid(X, Y, (1, 2, 64)))) for k in (0, 1)]
        if all(short_):
            ctx.bad('jobs', 'range', e.where(), 'neither all of jobsX() nor all of jobsY(): a job coordinate ' + ' / '.join(short_))
            return
        if not r:
            ctx.und('jobs', 'range', e.where(), 'range of a job coordinate not understood')
            return
        rng[iv] = {noep(x) for x in r}
    kind = {}
    for iv in (first, second):
        isx = bool(rng[iv] & X); isy = bool(rng[iv] & Y)
        kind[iv] = 'x' if isx and not isy else 'y' if isy and not isx else None
    if first is second:
        ctx.bad('jobs', 'fill', e.where(), 'both coordinates of a job are the same counter')
        return
    if None in kind.values():
        ctx.und('jobs', 'range', e.where(), 'range is not jobsX()/jobsY()')
        return
    if kind[first] == kind[second]:
        ctx.bad('jobs', 'range', e.where(), 'both job coordinates run to %s' % ('jobsX' if kind[first] == 'x' else 'jobsY'))
        return
    ctx.ok('jobs', 'range', e.where(), 'x < jobsX(), y < jobsY()')
    c.xy = {kind[first]: 0, kind[second]: 4}
    # index is a bijection onto 0 .. jobsX*jobsY-1
    d = g[0][1]
    t = unlin({k: v // 8 for k, v in d.items()}, 0)
    ix = first if kind[first] == 'x' else second
    iy = second if ix is first else first
    ok = False
    for inner, outer, n in ((ix, iy, X), (iy, ix, Y)):
        for N in n:
            if t is unlin({noep(inner): 1, atom(T('mul', 32, outer, N)): 1}, 0):
                ok = True
    if not ok:
        parts = dict(t.a[0]) if t.op == 'L' else {t: 1}
        own = lambda p: noep(p) in (noep(ix), noep(iy))         # a counter of its own is left undecided
        simple = all(own(p) or p.op == 'Lmul' and all(own(q) or q in X | Y for q in p.a) for p in parts)
        ctx.check(False if simple else None, 'jobs', 'index', e.where(), 'job (x, y) is stored at index %s, which is not a numbering of all pairs' % show(t))
    else:
        ctx.ok('jobs', 'index', e.where(), 'index y*jobsX + x')
    rs = [r for r in a.calls(lambda n: short(n) in ('resize', 'assign')) if noep(r.args[0]) is vec]
    prods = {linpoly(binop('mul', 32, x, y)) for x in X for y in Y}
    good = [r for r in rs if linpoly(noep(r.args[1])) in prods]
    if not rs:
        ctx.und('jobs', 'count', e.where(), 'the job list is not resized')
    elif good and len(good) == len(rs):
        p = path_avoiding(a, c.create[0].block, {e.block}, blocks={r.block for r in good}) if c.create[0].block not in {r.block for r in good} else None
        ctx.check(p is None, 'jobs', 'count', good[0].where(), 'the job list may keep the previous surface\'s length')
    else:
        w = [r for r in rs if r not in good][0]
        u = linpoly(noep(w.args[1]))
        for env, x, y in grid(X, Y, (1, 2, 64)):
            v = teval(noep(w.args[1]), env)
            if v is not None and v != x * y:
                ctx.bad('jobs', 'count', w.where(), 'the job list holds %d jobs for %d by %d' % (v, x, y))
                return
        ctx.check(False if all(x.op in ('L', 'Lmul', 'int', 'call', 'ptr', 'load', 'alloca', 'str') or x in X | Y for x in walk(u)) else None, 'jobs', 'count', w.where(),
                  'the job list holds %s jobs, not jobsX()*jobsY()' % show(u))


def push(ctx, c):
    """job list built with push_back/emplace_back"""
    a = c.a
    ps = [e for e in a.calls(lambda n: short(n) in ('push_back', 'emplace_back') and 'std::pair<unsigned int, unsigned int>' in n)]
    if len(ps) != 1:
        ctx.und('jobs', 'fill', c.f.where(), 'no recognised way of filling the job list')
        return
    e = ps[0]
    vec = noep(e.args[0])
    c.jobsvec = vec
    clears = {x.block for x in a.calls(lambda n: short(n) in ('clear', 'vector')) if noep(x.args[0]) is vec}
    inloop = set().union(*[a.fn.loops[h] for h in a.fn.loops_of(c.create[0].block)]) if a.fn.loops_of(c.create[0].block) else set()
    p = path_avoiding(a, c.create[0].block, {e.block}, blocks=clears & inloop)
    if c.create[0].block in clears:
        p = None
    ctx.check(p is None, 'jobs', 'count', e.where(), 'jobs are appended without removing those of the previous surface')
    jx = {noep(v.val) for v in c.virt.get('jobsX', [])}; jy = {noep(v.val) for v in c.virt.get('jobsY', [])}
    vals = []
    for x in e.args[1:]:
        for k in (0, 4):
            v = e.st.mem.get((ptr(x, k), 4))
            if v is not None and v.op == 'iv':
                vals.append((k, v))
    if len(e.args) == 3:
        vals = [(4 * j, v) for j in (0, 1) for k, v in [(0, e.st.mem.get((e.args[1 + j], 4)))] if v is not None]
    if len(vals) != 2:
        ctx.und('jobs', 'range', e.where(), 'coordinates not resolved')
        return
    c.xy = {}
    for k, v in vals:
        r = full_range(a, v, e.block)
        if isinstance(r, str):
            ctx.bad('jobs', 'range', e.where(), 'a job coordinate %s' % r)
            return
        r = {noep(x) for x in r or ()}
        if r & jx and not r & jy:
            c.xy['x'] = k
        elif r & jy and not r & jx:
            c.xy['y'] = k
    ctx.check(True if set(c.xy) == {'x', 'y'} else None, 'jobs', 'range', e.where(), 'ranges of the coordinates')
    if set(c.xy) != {'x', 'y'}:
        c.xy = None


def elem(t, vec):
    """(index pointer or term, byte offset) when t loads a field of an element of the local vector"""
    t = noep(t)
    if t.op != 'load':
        return None
    b, o, v = split_ptr(t.a[0])
    return b, o, v


def complete_scan(a, c, ev, vec, stride):
    """the loop around `ev` visits every element of vector `vec` (iterator or index form).
    -> (header, exit edges) / 'reason' / None"""
    f = a.fn
    hs = f.loops_of(ev.block)
    if not hs:
        return None
    h = hs[-1]
    begin = T('load', vec, 0, 'ptr'); end = T('load', ptr(vec, 8), 0, 'ptr')
    for iv, (hh, init, late) in a.ivinfo.items():
        if hh != h:
            continue
        af = affine(a, iv)
        if not af:
            continue
        _, i0, step = af
        n0 = noep(i0)
        if noep(split_ptr(i0)[0]) is begin or n0 is begin:
            off = n0.a[1] if n0.op == 'ptr' else 0
            if off:
                return 'starts %d element(s) late' % (off // stride)
            if step != stride:
                return 'visits every %s-th element' % (step // stride)
            for e in exit_edges(a, h):
                fs = edge_facts(a, e)
                if not any(x.op == 'cmp' and x.a[0] == 'eq' and {noep(x.a[1]), noep(x.a[2])} == {iv, end} for x in fs.s):
                    cond = [x for x in fs.s if x.op == 'cmp' and iv in (x.a[1], x.a[2])]
                    if any(split_ptr(noep(y))[0] is end for x in cond for y in x.a[1:]):
                        return 'does not run to the end of the list'
                    return 'may be left before the end of the list'
            return h, exit_edges(a, h), iv
        if i0.op == 'int':
            r = full_range(a, iv, ev.block)
            if isinstance(r, str):
                return r
            for N in r or ():
                if vecsize(N) is vec:
                    return h, exit_edges(a, h), iv
            if r:
                return h, exit_edges(a, h), iv, r
    return None


def inloop_skip(a, h, ev):
    """a path around the loop that misses the event's block"""
    body = a.fn.loops[h]
    if ev.block == h:
        return None
    # from header back to header
    prev = {}
    st = [h]; seen = set()
    while st:
        n = st.pop()
        for s in a.fn.blocks[n].succ:
            if s not in body or (n, s) not in a.exec_edges or s == ev.block:
                continue
            if s == h:
                return n
            if s not in seen:
                seen.add(s); st.append(s)
    return None


def workers(ctx, c):
    a = c.a
    for e in c.detach:
        ctx.bad('join', 'detach', e.where(), 'a worker is detached and never joined')
    if not c.spawn:
        ctx.und('join', 'spawn', c.f.where(), 'no worker is started here')
        return
    tvec = noep(c.spawn[0].args[0])
    barriers = []
    why = None
    undec = None
    for e in c.join:
        r = complete_scan(a, c, e, tvec, 8)
        if isinstance(r, str):
            why = (e, 'the joining loop ' + r)
        elif r is None:
            undec = e
        else:
            sk = inloop_skip(a, r[0], e)
            if sk is not None:
                undec = undec or e
                t = a.fn.blocks[sk].insts[-1]
                br = [b for b in a.fn.loops[r[0]] if a.fn.blocks[b].insts[-1].op == 'br' and len(a.fn.blocks[b].insts[-1].get('succ')) == 2 and b != r[0]]
                conds = [a.val(a.fn.blocks[b].insts[-1].a[0]) for b in br]
                joinable = lambda x: any(y.op == 'load' and noep(y.a[0]) is noep(r[2]) or y.op == 'load' and tvec in walk(noep(y)) or
                                         y.op == 'call' and short(y.a[0]) == 'joinable' for y in walk(x))
                if all(joinable(x) for x in conds):
                    barriers += r[1]          # only threads that are not joinable are skipped
                    undec = None
                else:
                    why = (e, 'the joining loop skips workers')
            elif len(r) == 4:
                # counted: as many as were started?
                n = [x for s in c.spawn for x in spawncount(a, s)]
                if any(noep(x) is noep(y) for x in n for y in r[3]):
                    barriers += r[1]
                else:
                    undec = e
            else:
                barriers += r[1]
    c.barriers = barriers
    c.joinund = undec is not None and why is None
    # a path that is only taken when no worker was started waits for nobody
    envs = [{noep(T('load', tvec, 0, 'ptr')): 4096, noep(T('load', ptr(tvec, 8), 0, 'ptr')): 4096 + 8 * n} for n in (1, 2, 3, 4, 8, 64)]
    idle = {x for x in a.exec_edges if x in a.edge_state and all(any(teval(noep(f), env) == 0 for f in edge_facts(a, x).s) for env in envs)} if tvec.op == 'alloca' else set()
    barriers = barriers + sorted(idle)
    ends = c.release + c.publish + [e for v, e in a.rets()]
    for s in c.spawn:
        hit = None
        for t in ends:
            p = after(a, s, t, edges=set(barriers))
            if p:
                hit = (t, p)
                break
        if hit and undec is not None and not why and not barriers:
            ctx.und('join', 'wait', s.where(), 'joining loop not understood')
            continue
        ctx.check(hit is None, 'join', 'wait', (why[0] if why else hit[0] if hit else s).where(),
                  'after starting a worker (%s) %s is reached without joining all workers%s' % (
                      s.where(), hit and ('the return' if hit[0].i.op == 'ret' else 'line ' + hit[0].where()), ': ' + why[1] if why else ''))
    alljobs(ctx, c, barriers)
    fresh(ctx, c, tvec)
    tdata(ctx, c)


def spawncount(a, s):
    """bounds of the counting loop around a spawn"""
    hs = a.fn.loops_of(s.block)
    out = []
    for iv, (h, i, l) in a.ivinfo.items():
        if hs and h == hs[-1]:
            r = full_range(a, iv, s.block)
            if isinstance(r, list):
                out += r
    return out


def alljobs(ctx, c, barriers):
    a = c.a
    edges = set(barriers)
    why = None
    und = c.joinund
    for e in c.virt.get('process', []):
        if c.jobsvec is None:
            und = True
            continue
        r = complete_scan(a, c, e, c.jobsvec, 8)
        if not isinstance(r, str) and (r is None or len(r) == 4):
            ends = [noep(T('load', c.jobsvec, 0, 'ptr')), noep(T('load', ptr(c.jobsvec, 8), 0, 'ptr'))]
            for iv, (h, i, l) in a.ivinfo.items():
                if a.fn.loops_of(e.block) and h == a.fn.loops_of(e.block)[-1]:
                    r = cut(a, iv, e.block, [({ends[0]: 4096, ends[1]: 4096 + 8 * n}, n) for n in (1, 2, 3, 300, 5000, 70000)]) or r
        if isinstance(r, str):
            why = (e, r)
        elif r is None:
            und = True
        elif len(r) == 3:
            iv = r[2]
            sk = inloop_skip(a, r[0], e)
            if sk is not None:
                q = [x for x in a.events if x.block in a.fn.loops[r[0]] and x.block != r[0] and x.i.op == 'br' and x.args]
                if q and all(any(y.op == 'load' and noep(iv) in walk(y) for y in walk(noep(x.args[0]))) for x in q):
                    why = (e, 'skips jobs')
                else:
                    und = True
                continue
            if ivwidth(a, iv) < 32:
                why = (e, 'counts the jobs with %d bits' % ivwidth(a, iv))
                continue
            edges |= set(r[1])
            for name, k in (('x', 1), ('y', 2)):
                t = noep(e.args[k])
                if not c.xy or t.op != 'load':
                    ctx.und('args', 'direct-' + name, e.where(), 'not resolved')
                    continue
                b, o, v = split_ptr(t.a[0])
                good = (b is iv and not v) or (b.op == 'load' and b.a[0] is c.jobsvec)
                if not good:
                    ctx.und('args', 'direct-' + name, e.where(), 'not resolved')
                    continue
                ctx.check(o == c.xy[name], 'args', 'direct-' + name, e.where(), 'process() gets the wrong coordinate of the job as %s' % name)
            ctx.check(c.isconv(e.args[0]) or None, 'args', 'direct-converter', e.where(), 'process() runs on the converter')
        else:
            und = True
    if not c.virt.get('process'):
        ctx.und('all-jobs', 'direct', c.f.where(), 'no direct processing')
    # a path only taken when there are no jobs needs none
    if c.jobsvec is not None:
        envs = []
        for env, x, y in grid(*[[noep(q.val) for q in c.virt.get(n, [])] for n in ('jobsX', 'jobsY')], (1, 2, 64)):
            env[noep(T('load', c.jobsvec, 0, 'ptr'))] = 4096
            env[noep(T('load', ptr(c.jobsvec, 8), 0, 'ptr'))] = 4096 + 8 * x * y
            envs.append(env)
        for x in a.exec_edges:
            if x in a.edge_state and all(any(teval(noep(f), env) == 0 for f in edge_facts(a, x).s) for env in envs):
                edges.add(x)
    hit = None
    for t in c.publish:
        p = path_avoiding(a, c.create[0].block, {t.block}, edges=edges)
        if p:
            hit = t
    if hit and und and not why:
        ctx.und('all-jobs', 'run', hit.where(), 'processing loop not understood')
    else:
        ctx.check(hit is None, 'all-jobs', 'run', (why[0] if why else hit or c.publish[0]).where(),
                  'data is published on a path that does not run all jobs%s' % (': the direct loop ' + why[1] if why else ''))
    # at least one worker is started on the threaded path
    for s in c.spawn:
        hs = a.fn.loops_of(s.block)
        ns = spawncount(a, s)
        if not ns:
            ctx.und('all-jobs', 'workers', s.where(), 'number of workers not understood')
            continue
        h = hs[-1]
        fs = a.instate[h].facts
        dec = [fs.decide(cmp('ne', N, I(0, width(N) or 32))) for N in ns]
        ctx.check(True if True in dec else None, 'all-jobs', 'workers', s.where(), 'at least one worker')


def fresh(ctx, c, tvec):
    a = c.a
    # thread list emptied before the next surface's workers are added
    def emptied(vec, e, key, what):
        cl = {x.block for x in a.calls(lambda n: short(n) in ('clear', 'vector', '~vector', 'resize', '_M_erase_at_end')) if noep(x.args[0]) is vec}
        hs = a.fn.loops_of(e.block)
        inner = a.fn.loops[hs[-1]] if hs else set()
        bad = None
        for n in inner:
            for s in a.fn.blocks[n].succ:
                if s not in inner and (n, s) in a.exec_edges and s not in cl:
                    if s == e.block or path_avoiding(a, s, {e.block}, blocks=cl):
                        bad = n
        ctx.check(bad is None, 'fresh', key, e.where(), '%s of the previous surface are still in the list when the next surface\'s are added' % what)
    for s in c.spawn:
        if 'std::vector' in s.name:
            emptied(tvec, s, 'threads', 'threads')
    for e in a.calls(lambda n: short(n) in ('push_back', 'emplace_back') and 'ThreadData' in n):
        emptied(noep(e.args[0]), e, 'thread-data', 'thread data')
    # counter
    for s in c.spawn:
        cap = captured(a, s)
        if cap is None:
            ctx.und('fresh', 'counter', s.where(), 'worker closure not resolved')
            continue
        ctr = c.counter_slot
        if ctr is None:
            continue
        v = cap.get(ctr)
        if v is None or v.op != 'alloca':
            ctx.und('fresh', 'counter', s.where(), 'counter is not a local of the surface loop')
            continue
        st = [e for e in a.events if e.i.op == 'store' and e.args[1] is v]
        zero = {e.block for e in st if e.args[0].op == 'int' and e.args[0].a[0] == 0}
        other = [e for e in st if not (e.args[0].op == 'int' and e.args[0].a[0] == 0)]
        if other:
            for env, x, y in grid([noep(q.val) for q in c.virt.get('jobsX', [])], [noep(q.val) for q in c.virt.get('jobsY', [])], (2, 4, 16, 64)):
                q = teval(noep(other[0].args[0]), env) if x * y > 1 else None
                if q:
                    ctx.bad('fresh', 'counter', other[0].where(), 'the job counter starts at %d for %d by %d jobs' % (q, x, y))
                    return
            ctx.check(False if other[0].args[0].op == 'int' else None, 'fresh', 'counter', other[0].where(), 'the job counter starts at %s' % show(other[0].args[0]))
            continue
        p = path_avoiding(a, c.create[0].block, {s.block}, blocks=zero) if c.create[0].block not in zero else None
        ctx.check(p is None, 'fresh', 'counter', s.where(), 'the job counter is not reset to 0 for every surface')


def captured(a, s):
    """{offset: value} stored into the closure passed to the thread"""
    for x in s.args[1:]:
        if x.op == 'alloca':
            return {split_ptr(p)[1]: v for (p, z), v in s.st.mem.items() if split_ptr(p)[0] is x and not split_ptr(p)[2]}
    return None


def fewer(a, c, s, mine):
    """the loop that makes the thread data ends before there is one for each worker"""
    calls = [[noep(q.val) for q in c.virt.get(n, [])] for n in ('jobsX', 'jobsY')]
    for iv in mine:
        r = full_range(a, iv, s.block)
        if not isinstance(r, list):
            continue
        for e in a.calls(lambda n: short(n) in ('push_back', 'emplace_back') and 'ThreadData' in n):
            hs = a.fn.loops_of(e.block)
            for i2, (h, i, l) in a.ivinfo.items():
                if not hs or h != hs[-1] or len(a.fn.loops_of(s.block)) != len(hs):
                    continue
                cases = []
                for env, x, y in grid(*calls, (2, 3, 8, 64, 200)):
                    n = teval(noep(r[0]), dict(env))
                    if n:
                        cases.append((env, n))
                why = cut(a, i2, e.block, cases)
                if why:
                    return e, why
    return None


def tdata(ctx, c):
    a = c.a
    for s in c.spawn:
        cap = captured(a, s)
        if cap is None or c.td_slot is None:
            ctx.und('thread-data', 'own', s.where(), 'worker closure not resolved')
            continue
        v = cap.get(c.td_slot)
        hs = a.fn.loops_of(s.block)
        mine = [iv for iv, (h, i, l) in a.ivinfo.items() if hs and h == hs[-1]]
        if v is None:
            ctx.und('thread-data', 'own', s.where(), 'no thread data captured')
            continue
        n = noep(v)
        w = walk(n)
        if any(iv in w for iv in mine):
            # distinct per worker if the index advances every time
            d = [iv for iv in mine if iv in w]
            ok = True
            if n.op == 'load':
                b, dd, off = addr(n.a[0])
                for t, k in dd.items():
                    if t in mine:
                        if k != 8:
                            ok = None
                    else:
                        # the index is a function of the counter that is not the counter
                        ok = False if t.op in ('Lurem', 'Ludiv', 'umin') else None
                few = fewer(a, c, s, mine) if ok and not off else None
                if few:
                    ctx.bad('thread-data', 'own', few[0].where(), 'the loop making the thread data %s, which is how many workers there are' % few[1])
                    continue
            ctx.check(ok, 'thread-data', 'own', s.where(), 'workers may share one thread data object: index %s' % show(n))
        elif n.op == 'load' and any(x.op == 'load' and split_ptr(x.a[0])[1] == 8 for x in w) and split_ptr(n.a[0])[1] == -8:
            ctx.ok('thread-data', 'own', s.where(), 'last element at the time of creation')
        else:
            b = [x for x in w if x.op == 'call']
            ctx.check(None if b or n.op == 'alloca' else False, 'thread-data', 'own', s.where(), 'every worker is given the same thread data (%s)' % show(n))
    # data made for this very surface reaches the workers, unless they make their own
    mk = c.virt.get('createThreadData', [])
    for s in c.spawn:
        cap = captured(a, s)
        v = cap.get(c.td_slot) if cap and c.td_slot is not None else None
        if v is None or noep(v).op != 'load':
            continue
        ok = any(path_avoiding(a, e.block, {s.block}, blocks={c.create[0].block} - {e.block, s.block}) is not None for e in mk)
        if not ok and any(e.name in c.m.fns and not c.m.fns[e.name].decl for e in a.calls() if e.name):
            ok = None
        ctx.check(ok, 'thread-data', 'made', s.where(), 'no thread data is created for the surface before its workers are started')
    for e in c.virt.get('createThreadData', []):
        ctx.check(c.isconv(e.args[1]) or None, 'thread-data', 'creator-%s' % ('direct' if not a.fn.loops_of(e.block)[3:] else 'worker'), e.where(),
                  'thread data of the current converter')


def body_function(c):
    fs = [f for f in c.m.find('std::thread::_State_impl', one=False) if '_M_run' in f.dem and 'Converter::convert' in f.dem]
    if not fs:
        fs = [f for f in c.m.find('std::thread::_State_impl', one=False) if '_M_run' in f.dem]
    return fs


def claim(ctx, c):
    """analyse the worker body first: it says which closure slot is what"""
    c.counter_slot = c.td_slot = None
    fs = body_function(c)
    if len(fs) != 1:
        ctx.und('claim', 'body', c.f.where(), '%d worker bodies found' % len(fs))
        return
    f = fs[0]
    ctx.fn(f)
    a = Analysis(f, args(f), pure=CONST)
    pr = [e for e in a.calls() if e.name is None and (virtual(e) or (None,))[0] == c.slots['process'] and len(e.args) == 4]
    if len(pr) != 1:
        ctx.und('claim', 'body', f.where(), '%d calls of process() in the worker' % len(pr))
        return
    p = pr[0]
    xa, ya = p.args[1], p.args[2]
    def split(t):
        if t.op != 'load':
            return None
        b, d, o = addr(t.a[0])
        if b.op != 'load':
            return None
        return b, d, o
    sx, sy = split(xa), split(ya)
    base = lambda t: split_ptr(noep(t))
    td = noep(p.args[3])
    if td.op == 'load' and td.a[0].op == 'ptr':
        c.td_slot = td.a[0].a[1] - 8
    if not sx or not sy or noep(sx[0]) is not noep(sy[0]):
        ctx.und('claim', 'body', p.where(), 'job coordinates not resolved')
        return
    if sx[1] != sy[1]:
        ctx.bad('args', 'worker', p.where(), 'x and y are taken from different jobs')
        return
    shift = min(sx[2], sy[2]) // 8
    sx = sx[:2] + (sx[2] - 8 * shift,); sy = sy[:2] + (sy[2] - 8 * shift,)
    if c.xy:
        ctx.check((sx[2], sy[2]) == (c.xy['x'], c.xy['y']), 'args', 'worker', p.where(), 'process() gets the coordinates of the job in the wrong order')
    if len(sx[1]) != 1 or list(sx[1].values()) != [8]:
        ctx.und('claim', 'index', p.where(), 'job index not resolved')
        return
    (idx, _), = sx[1].items()
    rm = leaves(idx, a)
    rmw = [x for x in rm if x.op == 'call' and x.a[0].startswith('atomicrmw')]
    if rmw and len(rmw) == len(rm):
        for x in rmw:
            op = x.a[0].split()[-1]
            inc = x.a[2][1]
            if (width(x) or width(inc) or 32) < 32:
                ctx.bad('claim', 'atomic', p.where(), 'the job counter has %d bits and cannot count the jobs of a large surface' % (width(x) or width(inc)))
                return
            if op not in ('add', 'sub'):
                ctx.bad('claim', 'atomic', p.where(), 'the job counter is advanced by an atomic %s, which can hand out a job twice' % op)
                return
            good = op == 'add' and inc.op == 'int' and inc.a[0] == 1
            ctx.check(good if inc.op == 'int' else None, 'claim', 'atomic', p.where(), 'the job counter advances by %s' % show(inc))
        if shift:
            ctx.bad('claim', 'atomic', p.where(), 'the processed job is not the claimed one but %+d from it' % shift)
            return
        ctr = noep(rmw[0].a[2][0])
    else:
        loads = [t for t in walk(idx) if t.op == 'load']
        if not rmw and loads and any(T('arg', 0, '$0') in walk(t) for t in loads):
            ctx.bad('claim', 'atomic', p.where(), 'the job number %s is read without an atomic claim, so two workers can take the same job' % show(idx))
        else:
            ctx.und('claim', 'atomic', p.where(), 'job index %s' % show(idx))
        return
    if ctr.op == 'load':
        b, o, v = split_ptr(ctr.a[0])
        c.counter_slot = o - 8
    else:
        ctx.check(False if split_ptr(ctr)[0].op == 'arg' else None, 'claim', 'counter', p.where(), 'each worker counts on its own copy of the job counter')
    # guard: process only inside the list; every inside number is processed
    n = None
    for t in set(x for e in a.events if e.i.op == 'br' and e.args for x in walk(e.args[0])):
        if t.op == 'cmp':
            for s in t.a[1:]:
                v = vecsize(s)
                if v is not None and noep(T('load', v, 0, 'ptr')) is noep(sx[0]):
                    n = s
    if n is None:
        sizes(ctx, c, f, a, p, idx, rmw, noep(sx[0]))
        return
    w = width(n) or 64
    iw = width(idx) or (width(rmw[0].a[2][1]) if rmw and rmw[0].a[2][1].op == 'int' else None)
    z = idx if iw == w else cast('zext', 'i%d' % w, idx)
    out = Analysis(f, a.args, facts=[cmp('ule', n, z)], pure=CONST)
    hit = out.reachable(p.block)
    ctx.check(not hit, 'claim', 'inside', p.where(), 'a claimed number past the end of the job list is still processed')
    ins = Analysis(f, a.args, facts=[cmp('ult', z, n)], pure=CONST)
    ab = {e.block for e in ins.events if e.i.op == 'atomicrmw'}
    rets = {e.block for v, e in ins.rets()}
    start = idx.a[2] if idx.op == 'iv' else next(e.block for e in a.events if e.val is idx)
    lost = None if start == p.block else path_avoiding(ins, start, rets | ab | {start}, blocks={p.block})
    ctx.check(lost is None, 'claim', 'processed', p.where(), 'a claimed job inside the list may be dropped')
    if p.block in ab:
        late = [e for e in ins.events if e.i.op == 'atomicrmw' and e.block == p.block and ins.events.index(e) >
                next(k for k, q in enumerate(ins.events) if q.i is p.i)]
        stop = None if late else path_avoiding(ins, p.block, rets, blocks=ab - {p.block}) if p.block not in rets else [p.block]
    else:
        stop = path_avoiding(ins, p.block, rets, blocks=ab) if p.block not in rets else [p.block]
    ctx.check(stop is None, 'claim', 'continue', p.where(), 'a worker may stop although jobs are left')


def sizes(ctx, c, f, a, p, idx, rmw, first):
    """the guard decided for small job lists: number k of n jobs, every path consistent with it"""
    td = noep(p.args[3])
    begin = first
    conds = {}
    for e in a.events:
        if e.i.op == 'br' and e.args:
            conds[e.block] = noep(e.args[0])
    vec = begin.a[0] if begin.op == 'load' else None
    if vec is None:
        ctx.und('claim', 'inside', p.where(), 'job list not resolved')
        return
    end = None
    for t in set(x for k in conds.values() for x in walk(k)):
        v = vecsize(t)
        if v is not None and noep(T('load', v, 0, 'ptr')) is begin:
            end = noep(T('load', ptr(v, 8), 0, 'ptr'))
    if end is None:
        ctx.und('claim', 'inside', p.where(), 'no comparison with the size of the job list')
        return
    nulltd = nodata(c)
    drop = past = None
    unknown = False
    starts = {e.block for e in a.events if e.i.op == 'atomicrmw'}
    for n in (1, 2, 3, 7, 300, 5000, 70000):
        for k in range(0, n + 3) if n < 8 else (0, n // 2, n - 1, n, n + 1):
            env = {begin: 4096, end: 4096 + 8 * n}
            if nulltd:
                env[td] = 0
            for x in [idx] + list(rmw):
                env[noep(x)] = k
            sure = True
            for b0 in starts:
                # blocks of the iteration that processes number k
                seen = {b0}; st = [b0]; hit = False; left = False
                while st:
                    b = st.pop()
                    if b == p.block:
                        hit = True
                        continue
                    nxt = [s for s in a.fn.blocks[b].succ if (b, s) in a.exec_edges]
                    if not nxt:
                        left = True
                    v = teval(conds[b], env) if b in conds else None
                    if b in conds and v is None:
                        sure = False
                    for s in nxt:
                        if any(teval(noep(x), env) == 0 for x in edge_facts(a, (b, s)).s):
                            continue
                        if s in starts and s != b0 or s == b0:
                            left = True
                            continue
                        if s not in seen:
                            seen.add(s); st.append(s)
                if k < n and not hit:
                    drop = drop or (k, n)
                elif k >= n and hit and not left and sure:
                    past = past or (k, n)
                elif hit and left:
                    unknown = True
    if past:
        ctx.bad('claim', 'inside', p.where(), 'number %d of a list of %d jobs is processed' % past)
    elif drop:
        ctx.bad('claim', 'processed', p.where(), 'number %d of a list of %d jobs is claimed and dropped' % drop)
    else:
        ctx.check(None if unknown else True, 'claim', 'inside', p.where(), 'guard not decided')


def nodata(c):
    """some converter without thread data exists (the base class's createThreadData gives none)"""
    for f in c.m.find('cuttlefish::Converter::createThreadData', one=False):
        if f.decl:
            continue
        a = Analysis(f, args(f), pure=CONST)
        st = [e for e in a.events if e.i.op == 'store']
        return bool(st) and all(e.args[0] is NULL or e.args[0].op == 'int' and e.args[0].a[0] == 0 for e in st)
    return False


def shared(ctx):
    B = Bodies(ctx)
    done = set()
    for fn, tn, fv, tv, cls, b in B.each():
        if b is None or cls in done:
            continue
        done.add(cls)
        key = cls.replace('cuttlefish::', '')
        bad = None
        for e in b.a.events:
            if e.i.op in ('store', 'atomicrmw'):
                p = e.args[1] if e.i.op == 'store' else e.args[0]
                base, d, o = addr(p)
                root = base
                if base.op == 'alloca':
                    continue
                if base.op == 'load' and noep(base.a[0]) is noep(b.out):
                    continue
                w = walk(base)
                if T('arg', 3, '$td') in w:
                    continue
                if base.op == 'glob' or any(x.op == 'glob' for x in w):
                    bad = (e, 'a variable shared by all workers')
                elif base is b.this or b.this in w:
                    bad = (e, 'the encoder object, which all workers share')
                else:
                    ctx.und('shared', key, e.where(), 'target of a store not resolved: %s' % show(p))
            elif e.i.op in ('call', 'invoke'):
                n = e.name
                if n is None:
                    ctx.und('shared', key + '-call', e.where(), 'indirect call')
                elif not NOEFFECT(n) and not n.endswith(' const') and any(sharedvar(b.m, x) for x in e.args):
                    bad = (e, 'a variable shared by all workers')
                elif cname(n).startswith('cuttlefish::') and not n.endswith(' const'):
                    if e.args and (b.this in walk(e.args[0])) and not glm(n):
                        bad = (e, 'the encoder or its image through %s' % cname(n))
        ctx.check(bad is None, 'shared', key, bad[0].where() if bad else b.fn.where(), '%s: process() changes %s' % (key, bad and bad[1]))
    # the const image accessors used by all workers change nothing
    m = ctx.load('lib/src/Image.cpp')
    for nm in ('scanline(unsigned int) const', 'width() const', 'height() const'):
        f = m.find('cuttlefish::Image::' + nm)
        ctx.fn(f)
        a = Analysis(f, args(f), pure=CONST)
        bad = None
        for e in a.events:
            if e.i.op in ('store', 'atomicrmw'):
                p = e.args[1] if e.i.op == 'store' else e.args[0]
                if split_ptr(p)[0].op != 'alloca':
                    bad = e
        ctx.check(bad is None, 'shared', nm, bad.where() if bad else f.where(), 'Image::%s, called concurrently by all workers, changes the image or a global' % nm)


def sharedvar(m, t):
    g = split_ptr(t)[0]
    if g.op != 'glob':
        return False
    G = m.globals.get(g.a[0])
    return bool(G) and not G.get('const') and not m.readonly_global(g.a[0])


def glm(n):
    return 'glm::' in n

