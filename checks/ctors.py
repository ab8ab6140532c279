"""Constructors that stand for an operation: they perform exactly that operation, with the arguments they were given."""
from .util import *


def constructors(ctx, src, cls, ops, rule):
    """every constructor of `cls` whose parameters are those of one of the operations `ops` performs it, once, on itself, with those"""
    names = '|'.join(ops)
    tail = cls.split('::')[-1]
    m = ctx.load(src, keep=[r'%s::(%s|%s)[(]' % (cls, names, tail)], limit=400)
    kinds = {}
    for o in ops:
        for n, f in m.fns.items():
            if f.dem.startswith('%s::%s(' % (cls, o)):
                kinds[f.dem.split('(', 1)[1]] = o
    for f in m.find('%s::%s(' % (cls, tail), one=False):
        if f.decl:
            continue
        sig = f.dem.split('(', 1)[1]
        if sig not in kinds:
            continue
        ctx.fn(f)
        key = f.dem
        a = Analysis(f, args(f), pure=CONST)
        calls = [e for e in a.events if e.i.op in ('call', 'invoke') and a.reachable(e.block) and e.name and not e.name.startswith('llvm.')]
        want = '%s::%s(%s' % (cls, kinds[sig], sig)
        me = [e for e in calls if e.name == want]
        A = args(f)
        if not me:
            odd = [e for e in calls if not NOEFFECT(e.name) and not e.name.startswith(('FreeImage_Initialise', '__cxa_', 'atexit')) and e.name != '%s::%s()' % (cls, tail)]
            ctx.check(None if odd else False, rule, key, f.where(), 'nothing is done with the arguments of the constructor')
            continue
        for e in me:
            bad = [k for k, (x, y) in enumerate(zip(e.args, A)) if noep(x) is not noep(y)]
            ctx.check(not bad or (False if all(noep(e.args[k]).op in ('arg', 'int', 'null', 'f') for k in bad) else None), rule, key, e.where(),
                      'argument %s is not the one the constructor was given' % (', '.join(str(k) for k in bad)))
        ctx.check(len(me) == 1 or None, rule, key + ' once', f.where(), 'more than one call')
    ctx.floor(rule, 1)
