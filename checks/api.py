"""The inline part of the public headers, compiled from the current headers in a unit of its own."""
from .util import *
from .conv import PURE
from sa.ir import AnalysisError, CompileError

TEXT = '''
#include <cuttlefish/Image.h>
#include <cuttlefish/Texture.h>
#include <new>
using namespace cuttlefish;
using O = Image::NormalOptions;
using M = Texture::ColorMask;
using N = Texture::ImageIndex;
using C = Texture::CustomMipImage;
extern "C"
{
unsigned int sa_or(unsigned int a, unsigned int b) {return (unsigned int)((O)a | (O)b);}
unsigned int sa_join(unsigned int a, unsigned int b) {O o = (O)a; o |= (O)b; return (unsigned int)o;}
unsigned int sa_has(unsigned int a, unsigned int b) {return ((O)a & (O)b) ? 1 : 0;}
static unsigned int bits(const M& m) {return (m.r ? 1 : 0) | (m.g ? 2 : 0) | (m.b ? 4 : 0) | (m.a ? 8 : 0);}
unsigned int sa_mask4(bool r, bool g, bool b, bool a) {return bits(M(r, g, b, a));}
unsigned int sa_mask3(bool r, bool g, bool b) {return bits(M(r, g, b));}
unsigned int sa_mask0() {return bits(M());}
void sa_index3(unsigned int* p, unsigned int f, unsigned int m, unsigned int d) {N n((Texture::CubeFace)f, m, d); p[0] = (unsigned int)n.cubeFace; p[1] = n.mipLevel; p[2] = n.depth;}
void sa_index2(unsigned int* p, unsigned int m, unsigned int d) {N n(m, d); p[0] = (unsigned int)n.cubeFace; p[1] = n.mipLevel; p[2] = n.depth;}
void sa_index1(unsigned int* p, unsigned int m) {N n(m); p[0] = (unsigned int)n.cubeFace; p[1] = n.mipLevel; p[2] = n.depth;}
void sa_index0(unsigned int* p) {N n; p[0] = (unsigned int)n.cubeFace; p[1] = n.mipLevel; p[2] = n.depth;}
void sa_shared(void* p, const Image& i, Texture::MipReplacement r) {new (p) C(i, r);}
void sa_stored(void* p, Image& i, Texture::MipReplacement r) {new (p) C(static_cast<Image&&>(i), r);}
}
'''


def unit(ctx):
    try:
        return ctx.load('cuttlefish-api.cpp', text=TEXT, keep=['^sa_'], limit=2000)
    except CompileError as e:
        raise AnalysisError('the interface is not as expected: %s' % str(e)[:200])


def fold(m, name, *xs):
    """(the constant a function returns for constant arguments or None, where)"""
    f = m.fns[name]
    w = [int(a['ty'][1:]) if isinstance(a, dict) else int(a[1:]) for a in f.args]
    a = Analysis(f, [I(x, k) for x, k in zip(xs, w)], pure=PURE)
    r = set(retleaves(a))
    x = next(iter(r)) if len(r) == 1 else None
    return x.a[0] if x is not None and x.op == 'int' else None


def options(ctx, opts, rule):
    """combining and testing normal options"""
    m = unit(ctx)
    at = 'cuttlefish::Image::NormalOptions'
    everything = 0
    for v in opts.values():
        everything |= v
    for name, want, say in (('sa_or', lambda a, b: a | b, '|'), ('sa_join', lambda a, b: a | b, '|='), ('sa_has', lambda a, b: int(a & b != 0), '&')):
        for a in range(everything + 1):
            for b in range(everything + 1):
                x = fold(m, name, a, b)
                ctx.check(None if x is None else x == want(a, b), rule, '%d %s %d' % (a, say, b), at, 'options %d %s %d give %s' % (a, say, b, x))


def mask(ctx, rule):
    """making colour masks"""
    m = unit(ctx)
    at = 'cuttlefish::Texture::ColorMask'
    for k in range(16):
        xs = [k >> i & 1 for i in range(4)]
        x = fold(m, 'sa_mask4', *xs)
        ctx.check(None if x is None else x == k, rule, 'of %d%d%d%d' % tuple(xs), at, 'a mask made of %s holds 0x%x' % (xs, x or 0))
        if k < 8:
            x = fold(m, 'sa_mask3', *xs[:3])
            ctx.check(None if x is None else x == k | 8, rule, 'of %d%d%d' % tuple(xs[:3]), at, 'a mask made of %s holds 0x%x' % (xs[:3], x or 0))
    x = fold(m, 'sa_mask0')
    ctx.check(None if x is None else x == 15, rule, 'of nothing', at, 'a default mask holds 0x%x' % (x or 0))


def index(ctx, rule):
    """making image indices and replacements"""
    m = unit(ctx)
    at = 'cuttlefish::Texture::ImageIndex'
    for name, n in (('sa_index3', 3), ('sa_index2', 2), ('sa_index1', 1), ('sa_index0', 0)):
        f = m.fns[name]
        A = args(f)
        a = Analysis(f, A, pure=PURE)
        want = {3: A[1:], 2: [I(0)] + A[1:], 1: [I(0), A[-1], I(0)], 0: [I(0)] * 3}[n]
        for x, e in a.rets():
            for k, s in enumerate(('face', 'level', 'layer')):
                y = noep(a.load(ptr(A[0], 4 * k), 4, 'i32', e.st, e.i))
                ctx.check(True if y is want[k] else False if y.op in ('int', 'arg') else None, rule, 'index of %d: %s' % (n, s), at, 'an index made of %d numbers has the %s %s' % (n, s, show(y)))
    off = m.offsets('cuttlefish::Texture::CustomMipImage')
    at = 'cuttlefish::Texture::CustomMipImage'
    for name in ('sa_shared', 'sa_stored'):
        f = m.fns[name]
        A = args(f)
        a = Analysis(f, A, pure=PURE, keeps=lambda n: True)
        want = A[1] if name == 'sa_shared' else ptr(A[0], off['imageStorage'])
        moved = [e for e in a.calls() if e.name and e.args and e.args[0] is want and A[1] in e.args]
        for x, e in a.rets():
            y = noep(a.load(ptr(A[0], off['image']), 8, 'ptr', e.st, e.i))
            ctx.check(True if y is want else False if y is NULL or y is A[1] else None, rule, name[3:] + ' image', at, 'a replacement made of %s image points to %s' % (
                'a shared' if name == 'sa_shared' else 'its own', show(y)))
            y = noep(a.load(ptr(A[0], off['replacement']), 4, 'i32', e.st, e.i))
            ctx.check(True if y is A[2] else False if y.op == 'int' else None, rule, name[3:] + ' kind', at, 'the kind of replacement recorded is %s' % show(y))
        if name == 'sa_stored':
            ctx.check(True if moved else None, rule, 'stored storage', at, 'the image is not moved into the replacement')
