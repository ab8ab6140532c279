"""I08: loading and saving images - what is passed to the imaging library and which failures are reported."""
from .util import *
from .fimodel import BITMAP, Kinds
from .image import IMG, IMPL, Im, Q
from .made import BMP, LOADERS, QUIET
from .save import FLUSH, FRONTKEEP, STATECALLS, fates, statecall, statecells
from sa.ir import AnalysisError

KEEPIO = [r'^FreeImage_', r'^cuttlefish::Image::(load|save)\('] + FRONTKEEP
DETECT = ('FreeImage_GetFileType', 'FreeImage_GetFileTypeU', 'FreeImage_GetFileTypeFromHandle', 'FreeImage_GetFileTypeFromMemory', 'FreeImage_GetFIFFromFilename',
          'FreeImage_GetFIFFromFilenameU', 'FreeImage_GetFIFFromFormat')
SAVERS = ('FreeImage_Save', 'FreeImage_SaveU', 'FreeImage_SaveToHandle', 'FreeImage_SaveToMemory')
GOOD = {'fail': 0, 'bad': 0, 'operator!': 0, 'good': 1, 'operator bool': 1, 'eof': 0}
FAILED = {'fail': 1, 'bad': 0, 'operator!': 1, 'good': 0, 'operator bool': 0, 'eof': 0}
BROKEN = dict(FAILED, bad=1)
FIF = 35                                    # a file format the library knows
fi = lambda dem: dem.split('(')[0]
ios = lambda n: n is not None and cname(n).startswith('std::')


# ---------------------------------------------------------------- the callbacks

ROLES = ('read', 'write', 'seek', 'tell')


def table(m, g):
    """the four functions of a table of callbacks, or None"""
    G = m.globals.get(g)
    if G is None or 'init' not in G or G['init']['k'] != 'agg':
        return None
    out = []
    for e in G['init']['e']:
        if e['k'] not in ('f', 'g') or e['n'] not in m.fns:
            return None
        out.append(m.fns[e['n']])
    for f in m.fns.values():
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'store' and any(x['k'] == 'g' and x['n'] == g for x in i.a[1:]):
                    return None
    return out if len(out) == 4 else None


def callback(f, a0, state, consts=None, extra=None):
    """the function run on a stream in the given state; a0 gives the parameters with known values"""
    A = args(f)
    for k, v in a0.items():
        A[k] = v
    handle = A[len(A) - 1] if f.args[-1] == 'ptr' else A[0]
    bits = 4 if state is not GOOD and not state['bad'] else 1 if state['bad'] else 0
    if state.get('eof'):
        bits |= 2

    def bind(an, i, dem, ar, st):
        n = short(dem)
        if ios(dem) and n in state and 'ios' in dem:
            return I(state[n], 1)
        if ios(dem) and n == 'rdstate':
            return I(bits)
        if extra:
            return extra(n, ar)

    def onload(an, p, ty, st, t):
        b, o, v = split_ptr(noep(p))
        if b is handle and ty == 'i32' and o == 32 and v:
            return I(bits)
        if b is handle and ty == 'i64' and o == 8 and not v and consts and 'count' in consts:
            return I(consts['count'], 64)
    a = Analysis(f, A, pure=lambda n: statecall(n) or short(n) in ('rdstate', 'gcount'), keeps=lambda n: True, bind=bind, onload=onload)
    a.handle = handle
    return a


def value(a):
    """the constant the function returns, else None"""
    r = {x.a[0] if x.op == 'int' else None for x in retleaves(a)}
    return r.pop() if len(r) == 1 else None


def moved(a, names, nargs=None):
    return [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and ios(e.name) and short(e.name) in names and a.reachable(e.block)]


CHANGES = ('read', 'readsome', 'get', 'getline', 'ignore', 'putback', 'unget', 'write', 'put', 'seekg', 'seekp', 'xsgetn', 'sgetn', 'sputn', 'operator>>', 'operator<<')


def transfer(ctx, f, name):
    """read and write callbacks"""
    for size, count, got in ((1, 10, 10), (1, 10, 4), (4, 5, 20), (4, 5, 11), (4, 5, 3), (1, 1, 0), (7, 3, 21), (1, 0, 0), (3, 0, 0), (0, 4, 0), (65536, 65537, 65536 * 65537)):
        for sn, st in (('good', GOOD), ('end', dict(FAILED, eof=1)), ('failed', FAILED), ('broken', BROKEN)):
            full = got == size * count
            if name == 'write' and not full or name == 'read' and (full != (sn == 'good')):
                continue
            key = '%s %s of %d x %d %s' % (short(f.dem), name, count, size, '' if name == 'write' else ', %d bytes there' % got) + (' ' + sn if sn != 'good' else '')
            a = callback(f, {1: I(size), 2: I(count)}, st, {'count': got}, lambda n, ar: I(got, 64) if n == 'gcount' else None)
            v = value(a)
            want = 0 if size == 0 else got // size
            if name == 'read':
                ctx.check(None if v is None else v == want, 'items', key, f.where(), 'answers %s items, %d were read' % (v, want))
            elif sn == 'good':
                ctx.check(None if v is None else v == count, 'items', key, f.where(), 'answers %s of %d items although all were written' % (v, count))
            elif size * count:
                ctx.check(None if v is None else v != count, 'items', key, f.where(), 'answers that all of %d items were written although the stream failed' % count)
            ops = moved(a, CHANGES)
            if size * count:
                ok = len(ops) == 1 and short(ops[0].name) == name and len(ops[0].args) > 2
                if not ok:
                    ctx.check(False if not ops else None, 'bytes', key, f.where(), 'no byte is %s' % ('read' if name == 'read' else 'written'))
                    continue
                e = ops[0]
                n = e.args[2]
                good = noep(e.args[0]) is a.handle and noep(e.args[1]) is T('arg', 0, '$0') and n is I(size * count, 64)
                ctx.check(good or (False if n.op == 'int' else None), 'bytes', key, e.where(), 'hands on %s bytes at %s' % (show(n), show(e.args[1])))
                ctx.check(evflow(a, None, 'ret', avoid=ops) is None, 'bytes', key, e.where(), 'the bytes can be skipped')
    if name == 'read':
        # a stream read to its end is still used afterwards
        a = callback(f, {1: I(1), 2: I(10)}, dict(FAILED, eof=1), {'count': 4})
        clears = [e for e in moved(a, ('clear', 'setstate')) if short(e.name) == 'clear']
        right = [e for e in clears if len(e.args) > 1 and e.args[1] is I(0)]
        odd = [e for e in clears if e not in right and (len(e.args) < 2 or e.args[1].op != 'int')]
        miss = evflow(a, None, 'ret', avoid=right)
        ctx.check(True if right and miss is None else None if odd else False, 'end', short(f.dem), f.where(), 'after reading at the end the stream stays failed, and every later use of it fails')


def seek(ctx, f, name):
    for origin in (0, 1, 2, 3, 77):
        for sn, st in (('good', GOOD), ('failed', FAILED), ('broken', BROKEN)):
            key = '%s origin %d %s' % (short(f.dem), origin, sn)
            a = callback(f, {2: I(origin)}, st)
            v = value(a)
            if origin > 2:
                ctx.check(None if v is None else v != 0, 'seek', key, f.where(), 'an unknown origin is reported as success')
                continue
            if sn != 'good':
                ctx.check(None if v is None else v != 0, 'seek', key, f.where(), 'a failure to seek is reported as success')
                continue
            ctx.check(None if v is None else v == 0, 'seek', key, f.where(), 'success is reported as a failure')
            ops = moved(a, ('seekg', 'seekp'))
            if len(ops) != 1 or len(ops[0].args) < 3:
                ctx.check(False if not ops else None, 'seek', key + ' moves', f.where(), 'the stream is not moved')
                continue
            e = ops[0]
            ctx.check(noep(e.args[0]) is a.handle and e.args[1] is T('arg', 1, '$1') and e.args[2] is I(origin) and short(e.name) == name or
                      (False if e.args[2].op == 'int' else None), 'seek', key + ' moves', e.where(), '%s moves by %s from %s' % (short(e.name), show(e.args[1]), show(e.args[2])))
            ctx.check(evflow(a, None, 'ret', avoid=ops) is None, 'seek', key + ' always', e.where(), 'the stream may not be moved')


def position(ctx, f, name):
    a = callback(f, {}, GOOD)
    ops = moved(a, ('tellg', 'tellp'))
    r = list(retleaves(a))
    if len(ops) != 1:
        return ctx.check(False if all(x.op == 'int' for x in r) else None, 'tell', short(f.dem), f.where(), 'the position of the stream is not asked for')
    e = ops[0]
    ctx.check(short(e.name) == name and noep(e.args[0]) is a.handle and all(x is e.val or x.op == 'xv' and x.a[0] is e.val and x.a[1] == (0,) for x in r) or
              (False if all(x.op == 'int' for x in r) or short(e.name) != name else None), 'tell', short(f.dem), e.where(), 'answers %s of %s' % (', '.join(map(show, r)), short(e.name)))


def callbacks(ctx, v, writes, where, t, memo):
    """the table of callbacks given to the library reads (writes) the stream"""
    if t.op != 'glob':
        return ctx.und('table', where.i.fn.dem if hasattr(where.i, 'fn') else 'table', where.where(), 'the callbacks are not a table with fixed contents')
    k = t.a[0], writes
    if k in memo:
        return
    memo.add(k)
    fs = table(v.m, t.a[0])
    if fs is None:
        return ctx.und('table', t.a[0], where.where(), 'the callbacks are not a table with fixed contents')
    for f in fs:
        ctx.fn(f)
    transfer(ctx, fs[1 if writes else 0], 'write' if writes else 'read')
    seek(ctx, fs[2], 'seekp' if writes else 'seekg')
    position(ctx, fs[3], 'tellp' if writes else 'tellg')
    ctx.ok('table', t.a[0], where.where(), '')


# ---------------------------------------------------------------- loading

def detector(e):
    return e.i.op in ('call', 'invoke') and e.name and fi(e.name) in DETECT


def loads(ctx, v):
    memo = set()
    FMT = T('q', 'file format')
    for f in v.fns('load'):
        ctx.fn(f)
        sig = f.dem[len('cuttlefish::Image::'):]
        A = args(f)
        stream = 'istream' in sig
        kinds = Kinds({BMP: BITMAP['RGBA8']})
        unknown = Kinds({BMP: (0, 0, (2,), 0, 0, 0)})

        def run(format, bitmap, k, pos=0, memory=T('q', 'memory'), inner=None, facts=()):
            def hook(an, i, dem, ar, st):
                n = fi(dem)
                if n in DETECT:
                    return format
                if n in LOADERS:
                    return NULL if ar[0] is I(-1) else bitmap
                if n == 'FreeImage_OpenMemory':
                    return memory
                if short(dem) in ('good', 'fail', 'bad', 'operator!', 'operator bool') and statecall(dem):
                    return I(GOOD[short(dem)], 1)
                if cname(dem) == 'cuttlefish::Image::load':
                    return inner
                return k.bind(an, i, dem, ar, st)

            def onload(an, p, ty, st, t):
                return IMPL if p is A[0] and ty == 'ptr' else None
            fs = [cmp('ne', BMP, NULL), cmp('ne', IMPL, NULL), cmp('ne', T('q', 'memory'), NULL)] + list(facts)
            a = Analysis(f, A, facts=fs, pure=lambda n: CONST(n) or statecall(n), keeps=lambda n: QUIET(n) or statecall(n), onload=onload, bind=hook)
            return a

        def split(a):
            """facts deciding whether the stream can tell its position"""
            tells = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and short(e.name) == 'tellg']
            return [(T('xv', e.val, (0,)), e) for e in tells]
        probe = run(FMT, BMP, kinds)
        can = [notc(cmp('slt', x, I(0, 64))) for x, _ in split(probe)]
        cannot = [cmp('slt', x, I(0, 64)) for x, _ in split(probe)]

        def end(a, e):
            """what the image holds at a return: None (empty), a term, or False (not understood)"""
            p = a.load(A[0], 8, 'ptr', e.st, e.i)
            ls = list(leaves(p))
            return ls

        def fails(rule, a, text):
            for x, e in a.rets():
                if not a.reachable(e.block):
                    continue
                for y in leaves(x, a):
                    if y is UNDEF:
                        continue
                    ctx.check(True if y is I(0, 1) or y.op == 'int' and y.a[0] & 1 == 0 else False if y.op == 'int' else None, rule, '%s %s answer' % (sig, rule), e.where(), '%s: answers %s' % (text, show(y)))
                ls = end(a, e)
                ctx.check(True if all(y is NULL for y in ls) else False if all(y is IMPL or y.op == 'call' and y.a[0].startswith('operator new') for y in ls) else None, rule,
                          '%s %s empty' % (sig, rule), e.where(), '%s: the image is not left empty' % text)

        fails('unrecognised', run(I(-1), BMP, kinds, facts=can), 'a source in no known format')
        fails('undecodable', run(I(FIF), NULL, kinds, facts=can), 'a source that cannot be decoded')
        fails('unsupported', run(I(FIF), BMP, unknown, facts=can), 'a bitmap of a kind no image format has')
        if any(e.i.op == 'call' and e.name and fi(e.name) == 'FreeImage_OpenMemory' for e in probe.events):
            fails('memory', run(I(FIF), BMP, kinds, memory=NULL), 'the memory cannot be opened')
        # a source that can be decoded
        a = run(I(FIF), BMP, kinds, facts=can)
        for x, e in a.rets():
            if not a.reachable(e.block):
                continue
            ls = end(a, e)
            holds = all(y.op == 'call' and y.a[0].startswith('operator new') for y in ls)
            ctx.check(True if holds else False if all(y is NULL or y is IMPL for y in ls) else None, 'loaded', sig + ' holds', e.where(), 'the image read is not kept')
            for y in leaves(x, a):
                if y is not UNDEF:
                    z = a.assume_value(y, e) if hasattr(a, 'assume_value') else y
                    z = settle(z)
                    ctx.check(True if z.op == 'int' and z.a[0] & 1 else False if z.op == 'int' else None, 'loaded', sig + ' answer', e.where(), 'an image that was loaded is answered by %s' % show(z))
        # arguments
        a = run(None, BMP, kinds, facts=can)
        ls = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and fi(e.name) in LOADERS]
        ds = [e for e in a.events if detector(e)]
        ms = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and fi(e.name) == 'FreeImage_OpenMemory']
        if not ls:
            ctx.und('source', sig, f.where(), 'no call loading a bitmap')
        vals = {d.val for d in ds}
        for e in ls:
            ctx.check(all(y in vals for y in leaves(e.args[0])) or (False if all(y.op == 'int' for y in leaves(e.args[0])) else None), 'source', sig + ' format', e.where(),
                      'the format is %s, not the one recognised' % show(e.args[0]))
        for e in ls + ds:
            n = fi(e.name)
            if n.endswith('Handle'):
                k = 1 if n in LOADERS else 0
                ctx.check(True if noep(e.args[k + 1]) is A[1] else None, 'source', '%s %s' % (sig, n), e.where(), 'another stream is read')
                callbacks(ctx, v, False, e, noep(e.args[k]), memo)
            elif n.endswith('Memory'):
                x = e.args[1 if n in LOADERS else 0]
                ctx.check(True if x is T('q', 'memory') else None, 'source', '%s %s' % (sig, n), e.where(), 'another memory is read')
            elif n in LOADERS or n.startswith('FreeImage_GetFileType'):
                x = e.args[1 if n in LOADERS else 0]
                ctx.check(True if x is A[1] else None, 'source', '%s %s' % (sig, n), e.where(), 'another file is read')
        for e in ms:
            n = e.args[1]
            d = teval(n, {A[2]: 1000})
            ctx.check(False if d is not None and d != 1000 else True if e.args[0] is A[1] and n in (A[2], T('trunc', 32, A[2])) else None, 'source', sig + ' memory', e.where(), 'opens %s bytes at %s' % (show(n), show(e.args[0])))
        # a stream that cannot seek is read to memory first
        if stream and cannot:
            R = T('q', 'inner')
            a = run(I(FIF), BMP, kinds, inner=R, facts=cannot)
            inner = [e for e in a.events if iscall(e, 'cuttlefish::Image::load') and a.reachable(e.block)]
            for x, e in a.rets():
                if not a.reachable(e.block):
                    continue
                for y in leaves(x, a):
                    if y is not UNDEF:
                        ctx.check(True if y is R else False if y.op == 'int' else None, 'sequential', sig + ' answer', e.where(), 'the answer is %s, not that of loading from memory' % show(y))
            for e in inner:
                ctx.check(True if e.args[0] is A[0] and e.args[-1] is A[-1] else False if e.args[-1].op == 'int' else None, 'sequential', sig + ' arguments', e.where(), 'loads into another image or in another colour space')
                reads = [r for r in a.events if iscall(r, 'cuttlefish::readStreamData')]
                ctx.check(evflow(a, None, e, avoid=reads) is None if reads else None, 'sequential', sig + ' bytes', e.where(), 'the bytes are loaded before being read')
                for r in reads:
                    vec = noep(r.args[0])
                    d = noep(e.args[1])
                    ctx.check(True if d.op == 'load' and noep(d.a[0]) is vec and noep(r.args[1]) is A[1] else None, 'sequential', sig + ' vector', e.where(), 'loads other bytes')


def settle(z):
    """(x != null) for memory just allocated"""
    if z.op == 'cmp' and z.a[0] in ('ne', 'eq'):
        x, y = z.a[1], z.a[2]
        if y is NULL and x.op == 'call' and x.a[0].startswith('operator new'):
            return I(z.a[0] == 'ne', 1)
    if z.op == 'not':
        y = settle(z.a[0])
        if y.op == 'int':
            return I(1 - (y.a[0] & 1), 1)
    return z


# ---------------------------------------------------------------- saving

def saves(ctx, v):
    memo = set()
    for f in v.fns('save'):
        ctx.fn(f)
        sig = f.dem[len('cuttlefish::Image::'):]
        A = args(f)
        ms = 'vector' in sig
        out = 'ostream' in sig

        def run(format, saved, inner=None, extra=None):
            def hook(an, i, dem, ar, st):
                n = fi(dem)
                if n in DETECT:
                    return format
                if n in SAVERS:
                    return I(0) if ar[0] is I(-1) else saved
                if cname(dem) == 'cuttlefish::Image::save':
                    return inner
                return extra(dem) if extra else None

            def onload(an, p, ty, st, t):
                if p is A[0] and ty == 'ptr':
                    return IMPL
                b, o, w = split_ptr(p)
                if b is IMPL and not w and o in v.name:
                    return Q[v.name[o]]
            pure = lambda n: CONST(n)
            keeps = lambda n: QUIET(n) or statecall(n) or cname(n) == 'cuttlefish::readStreamData'
            return Analysis(f, A, facts=[cmp('ne', IMPL, NULL)], pure=pure, keeps=keeps, onload=onload, bind=hook)

        def answers(rule, key, a, want, text):
            for x, e in a.rets():
                if not a.reachable(e.block):
                    continue
                for y in leaves(x, a):
                    if y is UNDEF:
                        continue
                    ctx.check(True if y.op == 'int' and y.a[0] & 1 == want else False if y.op == 'int' else None, rule, '%s %s' % (sig, key), e.where(), '%s: answers %s' % (text, show(y)))

        def good(dem):
            if statecall(dem):
                return I(GOOD[short(dem)], 1)
        if ms:
            a = run(None, None, inner=I(0, 1))
            reads = lambda: [e for e in a.events if iscall(e, 'cuttlefish::readStreamData') and a.reachable(e.block)]
            if not any(iscall(e, 'cuttlefish::Image::save') for e in a.events):
                ctx.und('vector', sig, f.where(), 'no call saving to a stream')
                continue
            answers('vector', 'refused', a, 0, 'saving to the stream failed')
            ctx.check(not reads(), 'vector', sig + ' untouched', f.where(), 'bytes are returned although saving failed')
            a = run(None, None, inner=I(1, 1), extra=good)
            answers('vector', 'saved', a, 1, 'saving to the stream succeeded')
            s = [e for e in a.events if iscall(e, 'cuttlefish::Image::save') and a.reachable(e.block)]
            rs = reads()
            if not rs:
                ctx.und('vector', sig + ' bytes', f.where(), 'the bytes saved are not read by readStreamData')
            for r in rs:
                ctx.check(True if noep(r.args[0]) is A[1] and s and root(noep(r.args[1])) is root(noep(s[0].args[1])) else None, 'vector', sig + ' bytes', r.where(), 'reads another stream or into another vector')
            for e in s:
                if rs:
                    ctx.check(evflow(a, e, 'ret', avoid=rs) is None, 'vector', sig + ' all', e.where(), 'success is returned without the bytes saved')
                ctx.check(True if e.args[0] is A[0] and e.args[2] is A[2] else None, 'vector', sig + ' arguments', e.where(), 'saves another image or by another name')
            continue
        answers('unknown', 'unknown', run(I(-1), I(1), extra=good), 0, 'a name of no known format')
        answers('refused', 'refused', run(I(FIF), I(0), extra=good), 0, 'the library failed to save')
        answers('saved', 'saved', run(I(FIF), I(1), extra=good), 1, 'the library saved the image')
        a = run(None, None)
        ss = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and fi(e.name) in SAVERS]
        ds = {e.val: e for e in a.events if detector(e)}
        if not ss:
            ctx.und('source', sig, f.where(), 'no call saving the bitmap')
        name = A[2] if out else A[1]
        for d in ds.values():
            ctx.check(True if d.args[0] is name else None, 'source', sig + ' name', d.where(), 'the format is not that of the name given')
        for e in ss:
            ctx.check(all(y in ds for y in leaves(e.args[0])) or (False if all(y.op == 'int' for y in leaves(e.args[0])) else None), 'source', sig + ' format', e.where(),
                      'the format is %s, not that of the name' % show(e.args[0]))
            ctx.check(True if e.args[1] is Q['image'] else None, 'source', sig + ' bitmap', e.where(), 'another bitmap is saved')
            if fi(e.name).endswith('Handle'):
                ctx.check(True if noep(e.args[3]) is A[1] else None, 'source', sig + ' stream', e.where(), 'another stream is written')
                callbacks(ctx, v, True, e, noep(e.args[2]), memo)
            elif fi(e.name) == 'FreeImage_Save':
                ctx.check(True if e.args[2] is A[1] else None, 'source', sig + ' file', e.where(), 'another file is written')
        if out:
            # the library accepted everything but the stream failed
            a = run(I(FIF), I(1))
            flush = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and short(e.name) in FLUSH and a.reachable(e.block)]
            ss = [e for e in a.events if e.i.op in ('call', 'invoke') and e.name and fi(e.name) in SAVERS and a.reachable(e.block)]
            for e in ss:
                r = fates(a, e, {}, avoid=flush)
                ctx.check(False if 1 in r else True if None not in r else None, 'flush', sig, e.where(), 'success is answered without the stream having been flushed')
                for n, b in (('failed', 4), ('broken', 1)):
                    r = fates(a, e, statecells(a, e, b))
                    wrong = [x for x in r if x not in (None, 0)]
                    ctx.check(False if wrong else True if None not in r else None, 'flush', '%s %s while saving' % (sig, n), e.where(), 'a stream that failed is not reported')
            for c in flush:
                for n, b in (('failed', 4), ('broken', 1)):
                    r = fates(a, c, statecells(a, c, b))
                    wrong = [x for x in r if x not in (None, 0)]
                    ctx.check(False if wrong else True if None not in r else None, 'flush', '%s %s flush' % (sig, n), c.where(), 'a failure of %s is not reported' % short(c.name))


def i08(ctx):
    ctx.rule('unrecognised', 'with no format recognised the loader answers false and leaves the image empty')
    ctx.rule('undecodable', 'with no bitmap decoded the loader answers false and leaves the image empty')
    ctx.rule('unsupported', 'with a bitmap of a kind no image format has the loader answers false and leaves the image empty')
    ctx.rule('memory', 'with the memory not opened the loader answers false and leaves the image empty')
    ctx.rule('loaded', 'with a bitmap decoded the image holds a new implementation and the answer is true')
    ctx.rule('source', 'format, name, stream, memory and bitmap reach the library unchanged')
    ctx.rule('sequential', 'a stream that cannot tell its position is read to memory and loaded from there, with that answer')
    ctx.rule('unknown', 'a name of no known format is refused')
    ctx.rule('refused', 'a failure of the library to save is reported')
    ctx.rule('saved', 'success of the library is reported when the stream is good')
    ctx.rule('flush', 'success is answered only on paths flushing the stream, and never after the stream failed')
    ctx.rule('vector', 'saving to memory returns the bytes of the stream saved to exactly when saving succeeded')
    ctx.rule('table', 'the callbacks given with a stream are a table with fixed contents')
    ctx.rule('items', 'by constant propagation the callbacks answer the number of whole items transferred; never all of them when the stream failed')
    ctx.rule('bytes', 'they transfer size x count bytes between the buffer and the stream given, once, on every path')
    ctx.rule('end', 'a stream read to its end is made usable again')
    ctx.rule('seek', 'origin and offset reach the stream unchanged; success exactly when the stream is good afterwards; unknown origins fail')
    ctx.rule('tell', 'the position answered is that of the stream')
    ctx.rule('constructed', 'an image constructed from a name, stream or memory loads exactly that')
    from .ctors import constructors
    constructors(ctx, 'lib/src/Image.cpp', 'cuttlefish::Image', ('load',), 'constructed')
    ctx.rule('whole', 'a stream read as a whole, followed for fixed lengths with and without seeking, gives exactly its bytes in order')
    streamdata(ctx)
    v = Im(ctx, KEEPIO)
    loads(ctx, v)
    saves(ctx, v)
    for r in ('unrecognised', 'undecodable', 'loaded', 'source', 'refused', 'saved'):
        ctx.floor(r, 1)


# ---------------------------------------------------------------- reading a whole stream
class Stop(Exception):
    pass


class Whole:
    """readStreamData() followed on a stream of fixed length: which bytes end up in the vector"""

    def __init__(self, f, total, seeks, limit=60000):
        from sa.walk import Walk
        self.total, self.seeks = total, seeks
        self.pos, self.failed, self.eof, self.count = 0, False, False, 0
        self.vec = ['stale'] * 3
        self.bufs = {}
        self.odd = self.wrong = None
        OUT, self.data = T('alloca', 'bytes', 0), T('alloca', 'data of the bytes', 0)
        self.out = OUT
        A = args(f)
        A[0] = OUT
        self.s = A[1]
        self.mem = {}
        self.sync(self.mem)
        try:
            a = Walk(f, A, pure=CONST, keeps=lambda n: True, bind=self.bind, mem=self.mem, steps=limit)
        except Stop:
            pass
        if self.odd is None and (not a.complete or len(a.traces) != 1):
            self.odd = 'the path is not known'
        self.where = f.where()

    def sync(self, mem):
        mem[(self.out, 8)] = self.data
        mem[(ptr(self.out, 8), 8)] = mem[(ptr(self.out, 16), 8)] = ptr(self.data, len(self.vec))

    def bytes_at(self, p, n):
        b, o, x = split_ptr(p)
        if x or n < 0:
            return None
        if b is self.data:
            return self.vec[o:o + n] if 0 <= o and o + n <= len(self.vec) else None
        buf = self.bufs.get(b, {})
        return [buf.get(o + k, 'unset') for k in range(n)]

    def fail(self, i, what):
        self.odd = what
        raise Stop()

    def bind(self, an, i, dem, a, st):
        n = short(dem)
        num = lambda x: (x.a[0] - (1 << x.a[1]) if x.a[0] >> (x.a[1] - 1) else x.a[0]) if x.op == 'int' else None
        if dem.startswith(('std::istream::', 'std::basic_istream<')):
            if n == 'seekg':
                k, d = num(a[1]), num(a[2])
                if k is None or d is None:
                    return self.fail(i, 'a seek to an unknown place')
                sig = dem[dem.index('('):]
                if 'fpos' in sig:
                    d = 0
                if not self.seeks or self.failed:
                    self.failed = True
                else:
                    self.eof = False
                    to = k + (0, self.pos, self.total)[d]
                    if 0 <= to <= self.total:
                        self.pos = to
                    else:
                        self.failed = True
                return a[0]
            if n == 'tellg':
                return T('vec', I(2**64 - 1 if self.failed or not self.seeks else self.pos, 64), I(0, 64))
            if n == 'gcount':
                return I(self.count, 64)
            if n == 'read':
                k = num(a[2])
                b, o, x = split_ptr(a[1])
                if k is None or x:
                    return self.fail(i, 'a read of unknown size')
                if k < 0:
                    self.wrong = (i, 'a negative number of bytes is read')
                    return self.fail(i, 'stopped')
                if self.failed or self.eof:
                    self.failed = True
                    self.count = 0
                    return a[0]
                got = min(k, self.total - self.pos)
                if b is self.data:
                    if o < 0 or o + k > len(self.vec):
                        self.wrong = (i, '%d bytes are read into a vector of %d' % (k, len(self.vec)))
                        return self.fail(i, 'stopped')
                    self.vec[o:o + got] = range(self.pos, self.pos + got)
                else:
                    self.bufs.setdefault(b, {}).update({o + z: self.pos + z for z in range(got)})
                self.pos += got
                self.count = got
                if got < k:
                    self.eof = self.failed = True
                return a[0]
            return self.fail(i, 'a use of ' + n)
        if dem.startswith('std::basic_ios<'):
            if n == 'clear':
                if a[1].op != 'int':
                    return self.fail(i, 'an unknown state')
                self.failed, self.eof = bool(a[1].a[0] & 5), bool(a[1].a[0] & 2)
                return T('void')
            if n == 'fail':
                return I(int(self.failed), 1)
            if n == 'operator bool':
                return I(int(not self.failed), 1)
            if n == 'operator!':
                return I(int(self.failed), 1)
            if n == 'eof':
                return I(int(self.eof), 1)
            if n == 'good':
                return I(int(not self.eof and not self.failed), 1)
            return self.fail(i, 'a use of ' + n)
        if re.search(r'std::vector<unsigned char[^(]*>::\w+(<[^(]*>)?\(', dem) and a and a[0] is self.out:
            r = self.vector(i, n, dem, a, num)
            self.sync(st.mem)
            return r
        if dem.startswith('llvm.') or 'operator delete' in dem:
            return None
        return self.fail(i, 'a use of ' + n)

    def vector(self, i, n, dem, a, num):
        if n == 'clear':
            self.vec = []
            return T('void')
        if n in ('reserve', 'shrink_to_fit'):
            return T('void')
        if n == 'resize':
            k = num(a[1])
            if k is None or not 0 <= k <= 1 << 20:
                return self.fail(i, 'a size that is not known')
            self.vec = self.vec[:k] + ['zero'] * (k - len(self.vec))
            return T('void')
        if n in ('data', 'begin', 'cbegin'):
            return self.data
        if n in ('end', 'cend'):
            return ptr(self.data, len(self.vec))
        if n in ('size', 'capacity'):
            return I(len(self.vec), 64)
        if n == 'empty':
            return I(int(not self.vec), 1)
        if n in ('insert', '_M_range_insert') and len(a) >= 4 or n in ('assign', '_M_assign_aux') and len(a) >= 3 and a[1].op != 'int':
            x, y = (a[2], a[3]) if 'insert' in n else (a[1], a[2])
            at = split_ptr(a[1]) if 'insert' in n else None
            (b, o, v), (c, p, w) = split_ptr(x), split_ptr(y)
            if b is not c or v or w or at and (at[0] is not self.data or at[2] or not 0 <= at[1] <= len(self.vec)):
                return self.fail(i, 'an insertion that is not understood')
            z = self.bytes_at(x, p - o)
            if z is None:
                return self.fail(i, 'an insertion that is not understood')
            if 'insert' in n:
                self.vec[at[1]:at[1]] = z
            else:
                self.vec = z
            return a[1] if n == 'insert' else T('void')
        return self.fail(i, 'a use of ' + n)


def streamdata(ctx):
    """a stream read as a whole"""
    m = ctx.load('lib/src/Shared.cpp', keep=['^std::vector<', 'basic_istream<', 'istream::', 'basic_ios<'], limit=400)
    f = m.find('cuttlefish::readStreamData(')
    ctx.fn(f)
    for seeks in (True, False):
        for total in (0, 1, 2, 100, 4095, 4096, 4097, 8192, 10000):
            key = '%d bytes of a stream that %s' % (total, 'seeks' if seeks else 'does not seek')
            w = Whole(f, total, seeks)
            if w.wrong:
                ctx.bad('whole', key, w.wrong[0].where() if hasattr(w.wrong[0], 'where') else w.where, w.wrong[1])
            elif w.odd:
                ctx.und('whole', key, w.where, w.odd)
            else:
                want = list(range(total))
                k = next((k for k, (x, y) in enumerate(zip(w.vec, want)) if x != y), min(len(w.vec), total))
                ctx.check(w.vec == want, 'whole', key, w.where, '%d bytes are taken from a stream of %d%s' % (len(w.vec), total, ', byte %d is %s' % (k, 'byte %d of the stream' % w.vec[k] if isinstance(w.vec[k], int) else w.vec[k]) if k < len(w.vec) else ''))
    ctx.floor('whole', 4)
