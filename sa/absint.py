"""Abstract interpretation of normalised IR.

Values are hash-consed terms over the function's inputs; memory is a map from symbolic cells to
terms; every block carries the branch conditions that hold on *all* executable paths to it.
Constants are propagated conditionally: an edge is executable only if the branch condition is not
decided the other way under the assumptions of the analysis (a rule picks assumptions such as
`format == BC1_RGB` or `mipLevels <= mip` and asks what remains reachable). Joins at merge points
and loop heads make this a fixpoint dataflow analysis; no path is enumerated, nothing is executed
and no solver is involved.
"""
import math
import struct
from .ir import AnalysisError

M64 = (1 << 64) - 1


class Term:
    __slots__ = ('op', 'a', '_h', '_s')
    table = {}

    def __repr__(self):
        return show(self)


def T(op, *a):
    k = (op,) + a
    t = Term.table.get(k)
    if t is None:
        t = Term()
        t.op = op; t.a = a; t._s = None
        Term.table[k] = t
    return t


def I(v, w=32):
    return T('int', v & ((1 << w) - 1), w)


def F(v, ty='float'):
    return T('f', v, ty)


NULL = T('null')
UNDEF = T('undef')
TRUE = I(1, 1)
FALSE = I(0, 1)


def show(t, d=7):
    if not isinstance(t, Term):
        return str(t)
    o, a = t.op, t.a
    if o == 'int':
        v = a[0]
        if a[1] > 8 and v >> (a[1] - 1):
            return str(v - (1 << a[1]))
        return str(v)
    if o == 'f':
        return repr(a[0])
    if o in ('null', 'undef'):
        return o
    if o == 'arg':
        return a[1] if len(a) > 1 else 'arg%d' % a[0]
    if o == 'sym':
        return str(a[0])
    if o == 'glob':
        return '@' + a[0][:40]
    if d <= 0:
        return '..'
    if o == 'ptr':
        s = show(a[0], d - 1)
        if a[1]:
            s += '+%d' % a[1]
        for i, sc in a[2]:
            s += '+%s*%d' % (show(i, d - 1), sc)
        return s
    if o == 'load':
        return '[%s]' % show(a[0], d - 1) + ('' if a[1] == 0 else '@%s' % (a[1],))
    if o == 'cmp':
        return '(%s %s %s)' % (show(a[1], d - 1), a[0], show(a[2], d - 1))
    if o == 'call':
        nm = a[0]
        return '%s(%s)%s' % (nm.split('(')[0].split('::')[-1], ', '.join(show(x, d - 1) for x in a[2]),
                             '' if a[1] is None else '#%s' % (a[1],))
    if o in ('iv', 'memphi'):
        return '%s%s' % (o, a[1])
    if o == 'phi':
        return 'phi{%s}' % ' | '.join(show(v, d - 1) for _, v in a[2])
    return '%s(%s)' % (o, ', '.join(show(x, d - 1) if isinstance(x, Term) else str(x) for x in a))


def bits(ty):
    return int(ty[1:]) if ty.startswith('i') and ty[1:].isdigit() else None


def isint(t):
    return t.op == 'int'


def sval(t):
    v, w = t.a
    return v - (1 << w) if v >> (w - 1) else v


def width(t):
    """bit width of an integer term when known"""
    if t.op == 'int':
        return t.a[1]
    if t.op in BIN or t.op in ('zext', 'sext', 'trunc', 'fptoui', 'fptosi'):
        return t.a[0]
    if t.op == 'cmp':
        return 1
    if t.op == 'load':
        return bits(t.a[2])
    if t.op == 'ite':
        return width(t.a[1]) or width(t.a[2])
    return None


def ptr(base, off=0, var=()):
    """normalised pointer"""
    if base.op == 'ptr':
        off += base.a[1]
        var = tuple(base.a[2]) + tuple(var)
        base = base.a[0]
    d = {}
    for i, s in var:
        # sums in an index distribute over the scale
        st = [(i, s)]
        while st:
            x, sc = st.pop()
            if x.op == 'int':
                off += sval(x) * sc
                continue
            if x.op == 'add' and x.a[0] == 64:
                st.append((x.a[1], sc)); st.append((x.a[2], sc))
                continue
            if x.op == 'mul' and x.a[0] == 64 and x.a[2].op == 'int':
                st.append((x.a[1], sc * sval(x.a[2])))
                continue
            if x.op == 'shl' and x.a[0] == 64 and x.a[2].op == 'int':
                st.append((x.a[1], sc << x.a[2].a[0]))
                continue
            if x.op == 'zext' and x.a[1].op in ('add', 'mul') and x.a[1].a[2].op == 'int' and \
                    x.a[1].a[2].a[0] < 1 << 16:
                # zext(i + c): indices do not wrap (they are bounded by vector sizes)
                w = x.a[1].a[0]
                if x.a[1].op == 'add':
                    st.append((T('zext', x.a[0], x.a[1].a[1]), sc))
                    off += x.a[1].a[2].a[0] * sc
                else:
                    st.append((T('zext', x.a[0], x.a[1].a[1]), sc * x.a[1].a[2].a[0]))
                continue
            d[x] = d.get(x, 0) + sc
    var = tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda kv: (tid(kv[0]), kv[1])))
    if off == 0 and not var:
        return base
    return T('ptr', base, off, var)


_tids = {}


def tid(t):
    r = _tids.get(t)
    if r is None:
        r = _tids[t] = len(_tids)
    return r


def split_ptr(p):
    if p.op == 'ptr':
        return p.a
    return (p, 0, ())


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
COMM = {'add', 'mul', 'and', 'or', 'xor'}


def binop(op, w, x, y, disjoint=False):
    if op == 'or' and disjoint:
        op = 'add'                               # no common bits: the same value
    if op in COMM and (x.op == 'int' and y.op != 'int' or (x.op != 'int' and y.op != 'int' and tid(x) > tid(y))):
        x, y = y, x
    if x.op == 'int' and y.op == 'int':
        a, b = x.a[0], y.a[0]
        m = (1 << w) - 1
        if op == 'add': return I(a + b, w)
        if op == 'sub': return I(a - b, w)
        if op == 'mul': return I(a * b, w)
        if op == 'and': return I(a & b, w)
        if op == 'or': return I(a | b, w)
        if op == 'xor': return I(a ^ b, w)
        if op == 'shl' and b < w: return I(a << b, w)
        if op == 'lshr' and b < w: return I(a >> b, w)
        if op == 'ashr' and b < w: return I(sval(x) >> b, w)
        if op == 'udiv' and b: return I(a // b, w)
        if op == 'urem' and b: return I(a % b, w)
        if op == 'sdiv' and b:
            q = abs(sval(x)) // abs(sval(y))
            return I(q if (sval(x) < 0) == (sval(y) < 0) else -q, w)
        if op == 'srem' and b:
            q = abs(sval(x)) % abs(sval(y))
            return I(-q if sval(x) < 0 else q, w)
    if op == 'sub' and y.op == 'int':
        return binop('add', w, x, I(-y.a[0], w))
    if op == 'add' and y.op == 'int' and x.op == 'add' and x.a[2].op == 'int':
        return binop('add', w, x.a[1], I(x.a[2].a[0] + y.a[0], w))
    if y.op == 'int':
        b = y.a[0]
        if b == 0 and op in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr'): return x
        if b == 0 and op in ('mul', 'and'): return y
        if b == 1 and op in ('mul', 'udiv', 'sdiv'): return x
        if op == 'and' and b == (1 << w) - 1: return x
        if op == 'xor' and w == 1: return notc(x)
    if w == 1:
        if op == 'and': return ite(x, y, FALSE)
        if op == 'or': return ite(x, TRUE, y)
    if op == 'sub' and x is y:
        return I(0, w)
    if op == 'sub' and (x.op == 'ptr' or y.op == 'ptr'):
        bx, ox, vx = split_ptr(x)
        by, oy, vy = split_ptr(y)
        if bx is by and vx == vy:
            return I(ox - oy, w)
    return T(op, w, x, y)


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule',
       'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def notc(c):
    if c.op == 'int':
        return I(1 - c.a[0], 1)
    if c.op == 'not':
        return c.a[0]
    if c.op == 'cmp' and c.a[0] in NEG:
        return cmp(NEG[c.a[0]], c.a[1], c.a[2])
    if c.op == 'ite':
        return ite(c.a[0], notc(c.a[1]), notc(c.a[2]))
    return T('not', c)


def nonnull(t):
    return t.op in ('alloca', 'glob') or (t.op == 'ptr' and t.a[0].op in ('alloca', 'glob')) or \
        (t.op == 'call' and t.a[0].startswith('operator new'))


def cmp(pred, x, y):
    """canonical comparison: eq/ne/ult/ule/slt/sle only, constants right for eq/ne"""
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        pred, x, y = SWAP[pred], y, x
    if x.op == 'int' and y.op == 'int':
        a, b = (x.a[0], y.a[0]) if pred[0] != 's' else (sval(x), sval(y))
        r = {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'slt': a < b, 'sle': a <= b}[pred]
        return TRUE if r else FALSE
    if x is y:
        return TRUE if pred in ('eq', 'ule', 'sle') else FALSE
    if pred in ('eq', 'ne'):
        if x.op in ('int', 'null') and y.op not in ('int', 'null') or \
                (y.op not in ('int', 'null') and tid(x) > tid(y)):
            x, y = y, x
        if y is NULL and x is NULL:
            return TRUE if pred == 'eq' else FALSE
        if y is NULL and nonnull(x):
            return TRUE if pred == 'ne' else FALSE
        if x.op == 'ptr' or y.op == 'ptr':
            bx, ox, vx = split_ptr(x)
            by, oy, vy = split_ptr(y)
            if bx is by and vx == vy and ox != oy:
                return TRUE if pred == 'ne' else FALSE
        if y.op == 'int' and x.op == 'ite' and x.a[1].op == 'int' and x.a[2].op == 'int':
            e = lambda v: (v.a[0] == y.a[0]) == (pred == 'eq')
            return ite(x.a[0], TRUE if e(x.a[1]) else FALSE, TRUE if e(x.a[2]) else FALSE)
        if y.op == 'int' and y.a[1] == 1:
            return x if (y.a[0] == 1) == (pred == 'eq') else notc(x)
        if y.op == 'int' and x.op in ('zext',) and width(x.a[1]):
            w = width(x.a[1])
            if y.a[0] < 1 << w:
                return cmp(pred, x.a[1], I(y.a[0], w))
            return FALSE if pred == 'eq' else TRUE
        if y.op == 'int' and x.op == 'add' and x.a[2].op == 'int':
            return cmp(pred, x.a[1], binop('add', y.a[1], y, I(-x.a[2].a[0], y.a[1])))
    # strictness against constants: x <= c  ->  x < c+1 ; c <= x -> c-1 < x
    if pred == 'ule' and y.op == 'int' and y.a[0] != (1 << y.a[1]) - 1:
        return cmp('ult', x, I(y.a[0] + 1, y.a[1]))
    if pred == 'ule' and x.op == 'int' and x.a[0] != 0:
        return cmp('ult', I(x.a[0] - 1, x.a[1]), y)
    if pred == 'ult' and y.op == 'int' and y.a[0] == 0:
        return FALSE
    if pred == 'ult' and y.op == 'int' and y.a[0] == 1:
        return cmp('eq', x, I(0, y.a[1]))
    if pred == 'ult' and x.op == 'int' and x.a[0] == 0:
        return cmp('ne', y, I(0, x.a[1]))
    if pred == 'ule' and x.op == 'int' and x.a[0] == 0:
        return TRUE
    if pred == 'sle' and y.op == 'int' and sval(y) != (1 << (y.a[1] - 1)) - 1:
        return cmp('slt', x, I(y.a[0] + 1, y.a[1]))
    if pred == 'sle' and x.op == 'int' and sval(x) != -(1 << (x.a[1] - 1)):
        return cmp('slt', I(x.a[0] - 1, x.a[1]), y)
    if pred[0] == 'u' and x.op == 'zext' and y.op == 'int' and width(x.a[1]) and y.a[0] < 1 << width(x.a[1]):
        return cmp(pred, x.a[1], I(y.a[0], width(x.a[1])))
    return T('cmp', pred, x, y)


def ite(c, x, y):
    if c.op == 'int':
        return x if c.a[0] else y
    if x is y:
        return x
    if c.op == 'not':
        return ite(c.a[0], y, x)
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return notc(c)
    if c.op == 'cmp' and c.a[0] == 'ne':
        c2 = T('cmp', 'eq', c.a[1], c.a[2])
        return ite(c2, y, x) if not (c.a[0] == 'eq') else T('ite', c, x, y)
    # max/min of integers
    if c.op == 'cmp' and c.a[0] in ('ult', 'slt') and {x, y} == {c.a[1], c.a[2]}:
        nm = ('u' if c.a[0][0] == 'u' else 's') + ('min' if x is c.a[1] else 'max')
        return mm(nm, x, y)
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    return T('ite', c, x, y)


def mm(op, x, y):
    if x.op == 'int' and y.op == 'int':
        k = (lambda t: t.a[0]) if op[0] == 'u' else sval
        r = min(x, y, key=k) if op.endswith('min') else max(x, y, key=k)
        return r
    if x is y:
        return x
    if x.op == 'int' or (y.op != 'int' and tid(x) > tid(y)):
        x, y = y, x
    if y.op == 'int' and op == 'umax' and y.a[0] == 0: return x
    if y.op == 'int' and op == 'umin' and y.a[0] == 0: return y
    return T(op, x, y)


def cast(op, ty, x, fromty=None):
    w = bits(ty)
    if x.op == 'int' and w:
        if op == 'zext' or op == 'trunc': return I(x.a[0], w)
        if op == 'sext': return I(sval(x), w)
    if x.op == 'int' and op in ('uitofp', 'sitofp'):
        v = float(x.a[0] if op == 'uitofp' else sval(x))
        return F(struct.unpack('f', struct.pack('f', v))[0] if ty == 'float' else v, ty)
    if x.op == 'f' and op in ('fptoui', 'fptosi') and w and x.a[0] == x.a[0]:
        lo, hi = (0, 1 << w) if op == 'fptoui' else (-(1 << (w - 1)), 1 << (w - 1))
        if lo - 1 < x.a[0] < hi:
            return I(int(x.a[0]), w)
    if x.op == 'f' and op in ('fpext', 'fptrunc'):
        v = x.a[0]
        if op == 'fptrunc':
            v = struct.unpack('f', struct.pack('f', v))[0]
        return F(v, ty)
    if op == 'zext' and x.op == 'zext':
        return T('zext', w, x.a[1])
    if op == 'sext' and x.op == 'zext':
        return T('zext', w, x.a[1])
    if op == 'sext' and x.op == 'sext':
        return T('sext', w, x.a[1])
    if op == 'trunc' and x.op in ('zext', 'sext'):
        iw = width(x.a[1])
        if iw == w:
            return x.a[1]
        if iw and iw < w:
            return T(x.op, w, x.a[1])
        if iw and iw > w:
            return T('trunc', w, x.a[1])
    if op == 'trunc' and x.op in ('and', 'or', 'xor', 'add', 'mul') and x.a[2].op == 'int':
        return binop(x.op, w, cast('trunc', ty, x.a[1]), I(x.a[2].a[0], w))
    if op in ('zext', 'sext', 'trunc') and x.op == 'ite' and x.a[1].op == 'int' and x.a[2].op == 'int':
        return ite(x.a[0], cast(op, ty, x.a[1]), cast(op, ty, x.a[2]))
    if op in ('zext', 'sext', 'trunc', 'fptoui', 'fptosi'):
        return T(op, w, x) if w else T(op, ty, x)
    if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze'):
        if op in ('inttoptr', 'ptrtoint', 'freeze'):
            return x
        return T('bitcast', ty, x)
    return T(op, ty, x)


# ------------------------------------------------------------------------------------------ facts

def literals(c, truth=True):
    """the conjunctive literals implied by `c == truth`"""
    if c.op == 'int':
        return set()
    if c.op == 'not':
        return literals(c.a[0], not truth)
    if c.op == 'ite':
        k, x, y = c.a
        r = set()
        if truth and y is FALSE:
            r = literals(k, True) | literals(x, True)
        elif truth and x is FALSE:
            r = literals(k, False) | literals(y, True)
        elif not truth and x is TRUE:
            r = literals(k, False) | literals(y, False)
        elif not truth and y is TRUE:
            r = literals(k, True) | literals(x, False)
        r.add(c if truth else notc(c))
        return r
    return {c if truth else notc(c)}


class Facts:
    """set of condition terms known to hold, with simple entailment"""
    __slots__ = ('s', '_eq', '_b')

    def __init__(self, s=frozenset()):
        self.s = frozenset(s); self._eq = None; self._b = None

    def add(self, c, truth=True):
        l = literals(c, truth)
        return self if l <= self.s else Facts(self.s | l)

    def eqconst(self, t):
        if self._eq is None:
            self._eq = {}
            for c in self.s:
                if c.op == 'cmp' and c.a[0] == 'eq' and c.a[2].op in ('int', 'null'):
                    self._eq[c.a[1]] = c.a[2]
        return self._eq.get(t)

    def bounds(self, t):
        """unsigned [lo, hi] of t from facts against constants"""
        if self._b is None:
            b = {}
            for c in self.s:
                if c.op != 'cmp' or c.a[0] not in ('ult', 'ule', 'eq', 'ne'):
                    continue
                p, x, y = c.a
                if y.op == 'int':
                    lo, hi = b.get(x, (0, (1 << y.a[1]) - 1))
                    if p == 'ult': hi = min(hi, y.a[0] - 1)
                    elif p == 'ule': hi = min(hi, y.a[0])
                    elif p == 'eq': lo = hi = y.a[0]
                    b[x] = (lo, hi)
                elif x.op == 'int':
                    lo, hi = b.get(y, (0, (1 << x.a[1]) - 1))
                    if p == 'ult': lo = max(lo, x.a[0] + 1)
                    elif p == 'ule': lo = max(lo, x.a[0])
                    b[y] = (lo, hi)
            for c in self.s:
                if c.op == 'cmp' and c.a[0] == 'ne' and c.a[2].op == 'int':
                    v, w = c.a[2].a
                    lo, hi = b.get(c.a[1], (0, (1 << w) - 1))
                    if lo == v: lo += 1
                    if hi == v: hi -= 1
                    b[c.a[1]] = (lo, hi)
            self._b = b
        r = self._b.get(t)
        if t.op == 'int':
            return (t.a[0], t.a[0])
        if t.op == 'umax':
            l = [self.bounds(x) for x in t.a]
            l = [x for x in l if x]
            if l:
                lo = max(x[0] for x in l)
                if r is None or r[0] < lo:
                    r = (lo, r[1] if r else M64)
        if t.op == 'zext':
            q = self.bounds(t.a[1])
            w = width(t.a[1])
            if q is None and w:
                q = (0, (1 << w) - 1)
            if q:
                r = q if r is None else (max(r[0], q[0]), min(r[1], q[1]))
        return r

    def negative(self, t, w):
        """is the term, read as a signed number of w bits, negative?"""
        b = self.bounds(t)
        if b and b[1] < 1 << (w - 1):
            return False
        if b and b[0] >= 1 << (w - 1):
            return True
        if t.op in ('or', 'and') and t.a[0] == w:
            ns = [self.negative(x, w) for x in t.a[1:]]
            if (t.op == 'or') in ns:
                return t.op == 'or'
            if None not in ns:
                return t.op == 'and'
        return None

    def decide(self, c):
        """True / False / None"""
        if c.op == 'int':
            return bool(c.a[0])
        if c in self.s:
            return True
        n = notc(c)
        if n in self.s:
            return False
        if c.op == 'not':
            r = self.decide(c.a[0])
            return None if r is None else not r
        if c.op == 'ite':
            r = self.decide(c.a[0])
            if r is not None:
                return self.decide(c.a[1] if r else c.a[2])
            x, y = self.decide(c.a[1]), self.decide(c.a[2])
            return x if x == y else None
        if c.op == 'cmp':
            p, x, y = c.a
            if p in ('eq', 'ne'):
                e = self.eqconst(x)
                if e is not None and y.op == e.op:
                    return (e is y) == (p == 'eq')
                e2 = self.eqconst(y)
                if e is not None and e2 is not None:
                    return (e is e2) == (p == 'eq')
                if T('cmp', 'ult', x, y) in self.s or T('cmp', 'ult', y, x) in self.s:
                    return p == 'ne'
                bx, by = self.bounds(x), self.bounds(y)
                if bx and by and (bx[1] < by[0] or by[1] < bx[0]):
                    return p == 'ne'
            if p == 'slt' and x.op == 'int' and x.a[0] == (1 << x.a[1]) - 1:
                g = self.negative(y, x.a[1])
                if g is not None:
                    return not g
            if p == 'slt' and y.op == 'int' and y.a[0] == 0:
                g = self.negative(x, y.a[1])
                if g is not None:
                    return g
            if p in ('ult', 'ule'):
                bx, by = self.bounds(x), self.bounds(y)
                if bx and by:
                    if (bx[1] < by[0]) or (p == 'ule' and bx[1] <= by[0]): return True
                    if (bx[0] > by[1]) or (p == 'ult' and bx[0] >= by[1]): return False
                elif by and x.op in ('umin',):
                    pass
                if p == 'ule' and (T('cmp', 'ult', x, y) in self.s or T('cmp', 'eq', x, y) in self.s or
                                   T('cmp', 'eq', y, x) in self.s):
                    return True
                if p == 'ult' and (T('cmp', 'ult', y, x) in self.s or T('cmp', 'eq', x, y) in self.s or
                                   T('cmp', 'eq', y, x) in self.s or T('cmp', 'ule', y, x) in self.s):
                    return False
                if p == 'ule' and T('cmp', 'ult', y, x) in self.s:
                    return False
                # x < y, y <= max(y, k)
                for z in (y.a if y.op == 'umax' else ()):
                    if self.decide(cmp(p, x, z)) is True:
                        return True
                for z in (x.a if x.op == 'umin' else ()):
                    if self.decide(cmp(p, z, y)) is True:
                        return True
                if y.op == 'umin' and all(self.decide(cmp(p, x, z)) is True for z in y.a):
                    return True
                if x.op == 'umax' and all(self.decide(cmp(p, z, y)) is True for z in x.a):
                    return True
                if _sum(x) or _sum(y):
                    return self._diff(p, x, y)
        return None

    def _diff(self, p, x, y):
        """difference bounds between sums with non-negative parts (indices, which do not wrap)"""
        q = _dlin(x, y)
        if q is None:
            return None
        k = q[1] - (0 if p == 'ult' else 1)          # D + k < 0 is asked
        for c in self.s:
            if c.op != 'cmp' or c.a[0] not in ('ult', 'ule', 'eq') or c.a[2] is NULL:
                continue
            g = _dlin(c.a[1], c.a[2])
            if g is None:
                continue
            if g[0] == q[0]:
                k0 = g[1] - (1 if c.a[0] != 'ult' else 0)       # D + k0 < 0 holds
                if k <= k0:
                    return True
                if c.a[0] == 'eq':
                    return False if -g[1] + k >= 0 else True
            elif g[0] == q[2]:
                k0 = g[1] - (1 if c.a[0] != 'ult' else 0)       # -D + k0 < 0 holds, so D >= k0 + 1
                if k0 + 1 + k >= 0:
                    return False
        return None

    def meet(self, o):
        if self.s == o.s:
            return self
        return Facts(self.s & o.s)

    def __contains__(self, c):
        return c in self.s


def _sum(t):
    while t.op in ('zext', 'sext'):
        t = t.a[1]
    return t.op in ('add', 'L')


_dl = {}


def _dlin(x, y):
    """x - y as (parts, constant, negated parts) when both are sums of non-negative parts"""
    k = (x, y)
    if k not in _dl:
        d = {}
        c = 0
        ok = True
        for t, sg in ((x, 1), (y, -1)):
            st = [t]
            tot = 0
            while st and ok:
                u = st.pop()
                if u.op in ('zext', 'sext'):
                    st.append(u.a[1])
                elif u.op == 'add':
                    st += [u.a[1], u.a[2]]
                elif u.op == 'int':
                    v = sval(u)
                    if v < 0:
                        ok = False
                    tot += v
                else:
                    d[u] = d.get(u, 0) + sg
            c += sg * tot
        if ok:
            d = {a: b for a, b in d.items() if b}
            _dl[k] = (frozenset(d.items()), c, frozenset((a, -b) for a, b in d.items()))
        else:
            _dl[k] = None
    return _dl[k]


class State:
    __slots__ = ('mem', 'epoch', 'facts', 'esc')

    def __init__(self, mem=None, epoch=0, facts=None, esc=frozenset()):
        self.mem = mem if mem is not None else {}
        self.epoch = epoch
        self.facts = facts or Facts()
        self.esc = esc

    def copy(self):
        return State(dict(self.mem), self.epoch, self.facts, self.esc)

    def same(self, o):
        return self.epoch == o.epoch and self.facts.s == o.facts.s and self.mem == o.mem and self.esc == o.esc


class Event:
    """one instruction reached in the final pass"""
    __slots__ = ('i', 'args', 'val', 'st', 'block', 'an')

    def __init__(self, i, args, val, st, block, an):
        self.i = i; self.args = args; self.val = val; self.st = st; self.block = block; self.an = an

    @property
    def facts(self):
        return self.st.facts

    @property
    def name(self):
        return self.an.mod.dem(self.i.callee) if self.i.callee else None

    def where(self):
        return self.i.where()

    def __repr__(self):
        return '<%s %s %s>' % (self.i.op, self.name or '', self.args)


class Analysis:
    """fixpoint over one function

    args    terms for the parameters (default: symbolic)
    facts   condition terms assumed at entry
    subst   {term: term} replacement applied to loads/calls (assumptions about inputs)
    pure    predicate(demangled callee) -> the call is a function of its arguments
    keeps   predicate(demangled callee) -> the call does not modify analysed memory
    bind    hook(analysis, inst, demangled, args, state) -> Term or None: result of a call
    """

    light = False

    def __init__(self, fn, args=None, facts=(), subst=None, pure=None, keeps=None, bind=None, maxiter=400,
                 mem=None, onload=None):
        self.fn = fn; self.mod = fn.mod
        self.args = args if args is not None else [T('arg', i) for i in range(len(fn.args))]
        self.subst = subst or {}
        self.pure = pure or (lambda n: False)
        self.keeps = keeps or (lambda n: False)
        self.bind = bind
        self.onload = onload
        self.env = {}
        self.instate = {}
        self.exec_edges = set()
        self.edge_state = {}
        self.maxiter = maxiter
        f = Facts()
        for c in facts:
            f = f.add(c)
        self.entry = State(mem=dict(mem or {}), facts=f)
        self.events = []
        self.preset = {}
        self._solve()
        if f.s and self._early():
            # values read in the first visit of a loop head were named as if the loop changed nothing;
            # start over with the head states known to be reached
            self.preset = {b: (st.epoch, st.mem) for b, st in self.instate.items() if b in fn.loops}
            self.env = {}; self.instate = {}; self.exec_edges = set(); self.edge_state = {}; self.events = []
            self.ivinfo = {}
            self._solve()

    def _early(self):
        for b, st in self.instate.items():
            if b in self.fn.loops:
                for p in self.fn.blocks[b].preds:
                    o = self.edge_state.get((p, b))
                    if o and self.fn.rpoidx[p] < self.fn.rpoidx[b] and (o.epoch != st.epoch or
                            any(v.op == 'memphi' and v.a[1] == b for v in st.mem.values()) or len(o.mem) != len(st.mem)):
                        return True
        return False

    # -- operands
    def val(self, o):
        k = o['k']
        if k == 't':
            return self.env.get(o['n'], UNDEF)
        if k == 'a':
            return self.args[o['n']]
        if k == 'i':
            return I(o['v'], o['w'])
        if k == 'f':
            return F(float(o['v']), o['t'])
        if k == 'null':
            return NULL
        if k == 'g':
            g = T('glob', o['n'])
            return ptr(g, o['o']) if o.get('o') else g
        if k == 'undef':
            return UNDEF
        if k == 'agg':
            return T('vec', *[self.val(e) for e in o['e']])
        if k == 'zero':
            return T('zeroinit', o['size'])
        return T('opaque', str(o))

    # -- solving
    def _solve(self):
        fn = self.fn
        rpoidx = fn.rpoidx
        work = {0}
        self._work = work
        self._sticky = set()
        if not hasattr(fn, '_users'):
            fn._users = {}
            for bl in fn.blocks:
                for i in bl.insts:
                    ops = list(i.a) + [v for v, _ in (i.get('in') or [])] + [v for v, _ in (i.get('var') or [])]
                    for o in ops:
                        if o['k'] == 't':
                            fn._users.setdefault(o['n'], set()).add(bl.n)
        n = 0
        count = {}
        while work:
            b = min(work, key=lambda x: rpoidx[x])
            work.discard(b)
            n += 1
            count[b] = count.get(b, 0) + 1
            if count[b] > self.maxiter:
                raise AnalysisError('fixpoint does not converge in %s' % fn.dem)
            st = self._join(b)
            if st is None:
                continue
            self._phis(b, st)
            self.instate[b] = st
            cur = st.copy()
            outs = self._transfer(b, cur, None)
            for s, ost in outs:
                e = (b, s)
                prev = self.edge_state.get(e)
                if prev is None or not prev.same(ost):
                    self.edge_state[e] = ost
                    self.exec_edges.add(e)
                    work.add(s)
        # final pass
        for b in fn.rpo:
            if b in self.instate:
                cur = self.instate[b].copy()
                self._phis(b, cur)
                self._transfer(b, cur, self.events)

    def _define(self, id, v):
        if self.env.get(id) is not v:
            self.env[id] = v
            for u in self.fn._users.get(id, ()):
                if u in self.instate:
                    self._work.add(u)

    def _join(self, b):
        if b == 0:
            return self.entry.copy()
        ins = [self.edge_state[(p, b)] for p in sorted(set(self.fn.blocks[b].preds)) if (p, b) in self.exec_edges]
        if not ins:
            return None
        st = ins[0].copy()
        if len(ins) == 1:
            return self._head(b, st)
        for o in ins[1:]:
            st.facts = st.facts.meet(o.facts)
            st.esc = st.esc | o.esc
            if st.epoch != o.epoch:
                st.epoch = 'j%d' % b
        # memory: keep agreeing cells; a cell with different values at a two-way merge becomes a
        # gated value when the branch is known
        keys = set(ins[0].mem)
        for o in ins[1:]:
            keys &= set(o.mem)
        preds = [p for p in sorted(set(self.fn.blocks[b].preds)) if (p, b) in self.exec_edges]
        mem = {}
        back = any(self.fn.rpoidx[p] >= self.fn.rpoidx[b] for p in preds)
        for k in keys:
            vs = [o.mem[k] for o in ins]
            if all(v is vs[0] for v in vs):
                mem[k] = vs[0]
            elif not back:
                g = self._gate(b, preds, vs)
                mem[k] = g if g is not None else T('phi', self.fn.name, b, tuple(zip(preds, vs)))
            elif b in self.fn.loops:
                # a cell whose value changes around the loop: opaque per-iteration value
                mem[k] = T('memphi', self.fn.name, b, k)
        if not back:
            # an object allocated on some of the paths: on the others it does not exist
            only = {}
            for o in ins:
                for k in o.mem:
                    if k not in keys:
                        only.setdefault(k, None)
            for k in only:
                base = split_ptr(k[0])[0]
                if base.op != 'call' or not base.a[0].startswith('operator new') or base.a[1] is None:
                    continue
                d = self._blockof(base.a[1])
                if d is None or any(k not in o.mem and self._reaches(d, p) for o, p in zip(ins, preds)):
                    continue
                vs = [o.mem[k] for o in ins if k in o.mem]
                if all(v is vs[0] for v in vs):
                    mem[k] = vs[0]
        st.mem = mem
        return self._head(b, st)

    def _blockof(self, id):
        m = getattr(self.fn, '_blkof', None)
        if m is None:
            m = self.fn._blkof = {i.id: b for b in self.fn.rpo for i in self.fn.blocks[b].insts}
        return m.get(id)

    def _head(self, b, st):
        pre = self.preset.get(b)
        if pre:
            st.epoch = pre[0]
            mem = {}
            for k, v in st.mem.items():
                q = pre[1].get(k)
                if q is None:
                    continue
                mem[k] = q if q.op == 'memphi' and q.a[1] == b else v
            st.mem = mem
        return st

    def _gate(self, b, preds, vs):
        """value at the merge b as an if-then-else over the branches between b's immediate
        dominator and b (gated single assignment); None when that region contains a loop head,
        an indirect branch, or is too large"""
        if b in self.fn.loops:
            return None
        root = self._idom().get(b)
        if root is None:
            return None
        val = dict(zip(preds, vs))
        fn = self.fn
        memo = {}
        DEAD = T('dead')
        budget = [120]

        def edge(n, s):
            if (n, s) not in self.exec_edges:
                return DEAD
            if s == b:
                return val[n]
            if fn.rpoidx[s] <= fn.rpoidx[n]:
                # back edge: to a loop around the whole region it starts another iteration
                return DEAD if self._dominated(root, s) else None
            return node(s)

        def node(n):
            if n in memo:
                return memo[n]
            budget[0] -= 1
            r = None
            if budget[0] > 0 and (n == root or n not in fn.loops) and fn.rpoidx[n] < fn.rpoidx[b]:
                t = fn.blocks[n].insts[-1]
                if t.op == 'br' and len(t.get('succ')) == 1:
                    r = edge(n, t.get('succ')[0])
                elif t.op == 'br':
                    x, y = edge(n, t.get('succ')[0]), edge(n, t.get('succ')[1])
                    if x is DEAD or y is DEAD:
                        r = y if x is DEAD else x
                    elif x is not None and y is not None:
                        r = ite(self.val(t.a[0]), x, y)
                elif t.op == 'switch' and len(t.get('cases')) <= 64:
                    c = self.val(t.a[0])
                    r = edge(n, t.get('default'))
                    w = width(c) or 32
                    for v, s in reversed(t.get('cases')):
                        x = edge(n, s)
                        if x is None or r is None:
                            r = None
                            break
                        if x is DEAD:
                            continue
                        r = x if r is DEAD else ite(cmp('eq', c, I(v, w)), x, r)
                elif t.op == 'invoke':
                    r = edge(n, t.get('succ')[0])
                elif t.op in ('ret', 'unreachable', 'resume'):
                    r = DEAD
            elif fn.rpoidx[n] > fn.rpoidx[b]:
                # beyond b in reverse post-order: b is reached from here only over a back edge, which
                # either leads around the whole region (another iteration) or to a loop head inside
                # it (refused above)
                r = DEAD
            memo[n] = r
            return r

        r = node(root)
        return None if r is DEAD else r

    def _reaches(self, n, b):
        seen = {n}
        st = [n]
        while st:
            x = st.pop()
            if x == b:
                return True
            for s in self.fn.blocks[x].succ:
                if s not in seen:
                    seen.add(s); st.append(s)
        return False

    def _idom(self):
        if hasattr(self.fn, '_idom'):
            return self.fn._idom
        fn = self.fn
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in fn.rpo[1:]:
                ps = [p for p in fn.blocks[b].preds if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while fn.rpoidx[x] > fn.rpoidx[y]: x = idom[x]
                        while fn.rpoidx[y] > fn.rpoidx[x]: y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n; ch = True
        fn._idom = idom
        return idom

    def _dominated(self, x, d):
        idom = self._idom()
        while True:
            if x == d:
                return True
            n = idom.get(x)
            if n is None or n == x:
                return False
            x = n

    def dominates(self, d, x):
        return self._dominated(x, d)

    def _phis(self, b, st):
        fn = self.fn
        new = {}
        header = b in fn.loops
        for i in fn.blocks[b].insts:
            if i.op != 'phi':
                break
            ins = [(self.val(v), p) for v, p in i.get('in') if (p, b) in self.exec_edges]
            if not ins:
                v = UNDEF
            elif header and any(fn.rpoidx.get(p, -1) >= fn.rpoidx[b] for _, p in i.get('in')):
                body = fn.loops[b]
                init = [v for v, p in ins if p not in body]
                late = [v for v, p in ins if p in body]
                sym = T('iv', fn.name, i.id, b)
                v = sym
                if i.id not in self._sticky and init and late and all(x is init[0] for x in init) and \
                        all(x is sym or x is init[0] for x in late):
                    v = init[0]
                elif late and self.env.get(i.id) not in (None, sym):
                    self._sticky.add(i.id)
                self.ivinfo = getattr(self, 'ivinfo', {})
                self.ivinfo[sym] = (b, init, late)
            else:
                vs = [v for v, p in ins]
                if all(v is vs[0] for v in vs):
                    v = vs[0]
                else:
                    ps = [p for v, p in ins]
                    g = self._gate(b, ps, vs)
                    if g is None and all(v is UNDEF or v is vs[0] for v in vs):
                        g = vs[0]
                    v = g if g is not None else T('phi', fn.name, b, tuple((p, x) for x, p in ins))
            new[i.id] = v
        for k, v in new.items():
            self._define(k, v)

    # -- memory
    def cellkey(self, p, size):
        return (p, size)

    def load(self, p, size, ty, st, i):
        base, off, var = split_ptr(p)
        if base.op == 'ite':
            # reading through a null pointer is not defined: the other one is meant
            b = base
            while b.op == 'ite' and (b.a[1] is NULL) != (b.a[2] is NULL):
                b = b.a[1] if b.a[2] is NULL else b.a[2]
            if b is not base and b.op != 'ite':
                p = ptr(b, off, var)
                base, off, var = split_ptr(p)
        c = self._const_load(base, off, var, size, ty)
        if c is not None:
            return c
        v = st.mem.get((p, size))
        if v is ZERO:
            return self.zero(ty)
        if v is not None:
            if bits(ty) and v.op == 'null':
                return I(0, bits(ty))
            if ty == 'ptr' and v.op == 'int' and v.a[0] == 0:
                return NULL
            return v
        if base.op == 'alloca' and not var:
            # a byte range initialised by memset 0
            for (q, s), z in st.mem.items():
                if z is ZERO:
                    qb, qo, qv = split_ptr(q)
                    if qb is base and not qv and qo <= off and off + size <= qo + s:
                        return self.zero(ty)
        ep = st.epoch if (base.op != 'alloca' or base in st.esc) else 0
        if base.op == 'alloca' and base not in st.esc:
            ep = ('l', i.id)
        t = T('load', p, ep, ty)
        r = self.subst.get(t, t)
        if r is t and self.onload:
            q = self.onload(self, p, ty, st, t)
            if q is not None:
                r = q
        return r

    def zero(self, ty):
        w = bits(ty)
        if w: return I(0, w)
        if ty == 'ptr': return NULL
        return F(0.0, ty)

    def _const_load(self, base, off, var, size, ty):
        if base.op != 'glob' or var or not self.mod.readonly_global(base.a[0]):
            return None
        G = self.mod.globals[base.a[0]]
        return self._ci(G.get('init'), off, size, ty)

    def _ci(self, c, off, size, ty):
        if c is None:
            return None
        k = c['k']
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            if c.get('seq'):
                n = off // c['sz']
                if not 0 <= n < len(c['e']):
                    return None
                if size > c['sz'] and bits(ty):
                    v = 0
                    for j in range(size // c['sz']):
                        x = self._ci(c['e'][n + j], 0, c['sz'], 'i%d' % (8 * c['sz'])) if n + j < len(c['e']) else None
                        if x is None or x.op != 'int':
                            return None
                        v |= x.a[0] << (8 * c['sz'] * j)
                    return I(v, bits(ty))
                return self._ci(c['e'][n], off - n * c['sz'], size, ty)
            for e, o in reversed(list(zip(c['e'], c['off']))):
                if o <= off:
                    return self._ci(e, off - o, size, ty)
            return None
        if off != 0:
            if k == 'i':
                return I(c['v'] >> (8 * off), bits(ty)) if bits(ty) else None
            return None
        if k == 'i' and bits(ty):
            return I(c['v'], bits(ty))
        if k == 'i' and ty == 'float':
            return F(struct.unpack('f', struct.pack('I', c['v'] & 0xffffffff))[0], ty)
        if k in ('f', 'null', 'g'):
            return self.val(c)
        return None

    def kill(self, st, p, size):
        base, off, var = split_ptr(p)
        dead = []
        for (q, s) in st.mem:
            qb, qo, qv = split_ptr(q)
            if qb is not base:
                continue
            if qv == var and (size is not None and (qo + s <= off or off + size <= qo)):
                continue
            if qv != var and self._distinct(off, var, size, qo, qv, s):
                continue
            dead.append((q, s))
        for k in dead:
            z = st.mem.pop(k)
            if z is ZERO and size is not None:
                # the rest of a zeroed range stays zero
                qb, qo, qv = split_ptr(k[0])
                if qv == var:
                    if qo < off:
                        st.mem[(k[0], off - qo)] = ZERO
                    if off + size < qo + k[1]:
                        st.mem[(ptr(k[0], off + size - qo), qo + k[1] - off - size)] = ZERO

    @staticmethod
    def _distinct(o1, v1, s1, o2, v2, s2):
        return False

    def clobber(self, st, i, args):
        """an unknown call: everything not purely local may have changed"""
        st.mem = {k: v for k, v in st.mem.items() if self._local(k[0], st)}
        st.epoch = 'c%d' % i.id

    def _local(self, p, st):
        base = split_ptr(p)[0]
        return base.op == 'alloca' and base not in st.esc

    def escape(self, st, t):
        """allocas whose address is stored or passed away"""
        base = split_ptr(t)[0]
        if base.op == 'alloca' and base not in st.esc:
            st.esc = st.esc | {base}

    def _transfer(self, b, st, ev):
        outs = []
        insts = self.fn.blocks[b].insts
        env = self.env
        for i in insts:
            op = i.op
            if op == 'phi':
                if ev is not None:
                    ev.append(Event(i, [], env[i.id], st, b, self))
                continue
            a = [self.val(o) for o in i.a]
            if ev is not None:
                e = Event(i, a, None, st.copy() if not self.light and op in ('call', 'invoke', 'store', 'br', 'switch', 'ret', 'load', 'fptoui', 'fptosi', 'atomicrmw') else st, b, self)
                ev.append(e)
            v = None
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                outs = self._term(i, a, st)
            elif op == 'store':
                self.escape(st, a[0])
                self.kill(st, a[1], i.get('size'))
                st.mem[(a[1], i.get('size'))] = a[0]
                if a[0].op == 'zeroinit':
                    st.mem[(a[1], i.get('size'))] = ZERO
            elif op == 'load':
                v = self.load(a[0], i.get('size'), i.ty, st, i)
            elif op == 'alloca':
                v = T('alloca', self.fn.name, i.id)
            elif op == 'getelementptr':
                if i.get('var') is None:
                    v = T('opaque', self.fn.name, i.id)
                else:
                    v = ptr(a[0], i.get('off'), tuple((self.val(x), s) for x, s in i.get('var')))
            elif op in BIN:
                w = bits(i.ty)
                v = binop(op, w, a[0], a[1], i.get('disjoint')) if w else T('v' + op, i.ty, *a)
            elif op == 'icmp':
                v = cmp(i.get('pred'), a[0], a[1])
                if v.op == 'cmp':
                    d = st.facts.decide(v)
                    # leave the condition symbolic unless assumptions decide it at entry
                    d0 = self.entry.facts.decide(v)
                    if d0 is not None:
                        v = TRUE if d0 else FALSE
            elif op == 'select':
                c = a[0]
                d = st.facts.decide(c) if c.op != 'int' else None
                if d is not None:
                    v = a[1] if d else a[2]
                else:
                    v = ite(c, a[1], a[2])
            elif op in ('zext', 'sext', 'trunc', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc',
                        'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
                v = cast(op, i.ty, a[0])
            elif op == 'fcmp':
                v = fcmp(i.get('pred'), a[0], a[1])
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                v = fbin(op, i.ty, a[0], a[1])
            elif op == 'fneg':
                v = fbin('fsub', i.ty, F(-0.0, i.ty), a[0]) if a[0].op != 'f' else F(-a[0].a[0], i.ty)
            elif op in ('call', 'invoke'):
                v = self._call(i, a, st)
                if op == 'invoke':
                    outs = [(i.get('succ')[0], st)]
            elif op == 'extractvalue':
                x = a[0]
                v = T('xv', x, tuple(i.get('idx')))
                if x.op == 'vec' and len(i.get('idx')) == 1 and i.get('idx')[0] < len(x.a):
                    v = x.a[i.get('idx')[0]]
                elif x.op == 'insv' and x.a[2] == tuple(i.get('idx')):
                    v = x.a[1]
            elif op == 'insertvalue':
                v = T('insv', a[0], a[1], tuple(i.get('idx')))
            elif op == 'atomicrmw':
                v = T('call', 'atomicrmw ' + (i.get('rmw') or ''), i.id, tuple(a))
                self.kill(st, a[0], None)
            elif op == 'insertelement':
                v = T('inse', a[0], a[1], a[2])
            elif op == 'extractelement':
                v = exte(a[0], a[1])
            elif op == 'shufflevector':
                v = T('shuf', a[0], a[1], tuple(i.get('mask')))
            else:
                v = T('opaque', self.fn.name, i.id)
            if v is not None:
                self._define(i.id, v)
            if ev is not None:
                ev[-1].val = v
        return outs

    def _term(self, i, a, st):
        if i.op == 'br':
            s = i.get('succ')
            if len(s) == 1:
                return [(s[0], st)]
            d = st.facts.decide(a[0])
            outs = []
            for k, tr in ((0, True), (1, False)):
                if d is not None and d != tr:
                    continue
                o = State(st.mem, st.epoch, st.facts.add(a[0], tr) if a[0].op != 'int' else st.facts, st.esc)
                outs.append((s[k], o))
            return outs
        if i.op == 'switch':
            c = a[0]
            if c.op != 'int':
                e = st.facts.eqconst(c)
                if e is not None and e.op == 'int':
                    c = e
            if c.op == 'int':
                for v, b in i.get('cases'):
                    if v == c.a[0]:
                        return [(b, st)]
                return [(i.get('default'), st)]
            by = {}
            for v, b in i.get('cases'):
                by.setdefault(b, []).append(v)
            w = None
            outs = []
            wd = width(c) or 32
            rng = st.facts.bounds(c)
            for b, vs in by.items():
                vs = [v for v in vs if st.facts.decide(cmp('eq', c, I(v, wd))) is not False]
                if not vs or b == i.get('default'):
                    continue
                f = st.facts
                if len(vs) == 1:
                    f = f.add(cmp('eq', c, I(vs[0], wd)))
                else:
                    f = f.add(T('in', c, tuple(sorted(vs))))
                outs.append((b, State(st.mem, st.epoch, f, st.esc)))
            f = st.facts
            for v, b in i.get('cases'):
                if b != i.get('default'):
                    f = f.add(cmp('ne', c, I(v, wd)))
            outs.append((i.get('default'), State(st.mem, st.epoch, f, st.esc)))
            return outs
        return []

    def _call(self, i, a, st):
        callee = i.callee
        dem = self.mod.dem(callee) if callee else None
        if callee and callee.startswith('llvm.'):
            r = self._intrinsic(callee, i, a, st)
            if r is not None:
                return r
        v = None
        if self.bind and dem:
            v = self.bind(self, i, dem, a, st)
        if v is None and dem:
            v = fconst(dem.split('(')[0].replace('std::', ''), i.ty, a) if a and a[0].op == 'f' else None
            if v is not None:
                return v
        if v is None and dem and self.pure(dem):
            v = T('call', dem, None, tuple(a))
            v = self.subst.get(v, v)
            if v.op == 'call' and st.epoch != 0 and not self.keeps(dem):
                pass
            return v
        if dem and (self.keeps(dem) or NOEFFECT(dem)):
            if v is None:
                v = T('call', dem, i.id, tuple(a))
            return v
        for x in a:
            self.escape(st, x)
        self.clobber(st, i, a)
        if v is None:
            v = T('call', dem or '<indirect>', i.id, tuple(a))
        return v

    def _intrinsic(self, n, i, a, st):
        if n.startswith('llvm.memset'):
            sz = a[2].a[0] if a[2].op == 'int' else None
            self.kill(st, a[0], sz)
            if a[1].op == 'int' and a[1].a[0] == 0 and sz is not None:
                st.mem[(a[0], sz)] = ZERO
            return T('void')
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            sz = a[2].a[0] if a[2].op == 'int' else None
            sb, so, sv = split_ptr(a[1])
            db, do, dv = split_ptr(a[0])
            found = []
            if sz is not None:
                for (q, s), v in list(st.mem.items()):
                    qb, qo, qv = split_ptr(q)
                    if qb is sb and qv == sv and so <= qo and qo + s <= so + sz:
                        found.append((qo - so, s, v))
            self.kill(st, a[0], sz)
            for o, s, v in found:
                st.mem[(ptr(a[0], o), s)] = v
            self.escape(st, NULL)
            return T('void')
        if n.startswith('llvm.umax') or n.startswith('llvm.umin') or n.startswith('llvm.smax') or n.startswith('llvm.smin'):
            return mm(n[5:9], a[0], a[1])
        if n.startswith('llvm.abs') or n.startswith('llvm.bswap') or n.startswith('llvm.ct') or n.startswith('llvm.fsh'):
            if all(x.op == 'int' for x in a):
                x, w = a[0].a
                x &= (1 << w) - 1
                if n.startswith('llvm.fsh') and len(a) == 3:
                    y, k = a[1].a[0] & ((1 << w) - 1), (a[2].a[0] & ((1 << w) - 1)) % w
                    if n.startswith('llvm.fshr'):
                        k = w - k
                    return I(((x << w | y) << k >> w) & ((1 << w) - 1), w)
                if n.startswith('llvm.bswap'):
                    return I(int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'), w)
                if n.startswith('llvm.ctpop'):
                    return I(bin(x).count('1'), w)
                if n.startswith('llvm.cttz'):
                    return I((x & -x).bit_length() - 1 if x else w, w)
                if n.startswith('llvm.abs'):
                    return I(-x & ((1 << w) - 1) if x >> (w - 1) else x, w)
            if n.startswith('llvm.ctlz') and a[0].op == 'int':
                w = a[0].a[1]
                return I(w - a[0].a[0].bit_length(), w)
            return T('call', n, None, tuple(a))
        if n.startswith('llvm.trap') or n.startswith('llvm.assume') or n.startswith('llvm.experimental'):
            return T('void')
        if any(n.startswith('llvm.' + x) for x in ('round', 'fabs', 'floor', 'ceil', 'pow', 'sqrt', 'minnum', 'maxnum',
                                                    'rint', 'trunc', 'nearbyint', 'sin', 'cos', 'exp', 'log', 'copysign',
                                                    'fma', 'fmuladd', 'lround', 'lrint', 'roundeven', 'minimum', 'maximum')):
            r = fconst(n[5:].split('.')[0], i.ty, a)
            return r if r is not None else T('call', n, None, tuple(a))
        if n.startswith('llvm.x86.') and i.ty != 'void' and width(a[0]) is None and not nonnull(a[0]) and i.ty.startswith('<'):
            return T('call', n, None, tuple(a))
        if n.startswith('llvm.usub.sat') or n.startswith('llvm.uadd.sat'):
            return T('call', n, None, tuple(a))
        return None

    # -- results
    def reachable(self, b):
        return b in self.instate

    def rets(self):
        """(value, Event) of every reachable return"""
        return [(e.args[0] if e.args else None, e) for e in self.events if e.i.op == 'ret']

    def ret(self):
        """the single returned term when all returns agree, else None"""
        vs = {r for r, _ in self.rets()}
        return vs.pop() if len(vs) == 1 else None

    def calls(self, pred=None):
        r = []
        for e in self.events:
            if e.i.op in ('call', 'invoke') and (pred is None or (e.name and pred(e.name)) ):
                r.append(e)
        return r


ZERO = T('ZERO')

NOEFFECT_PREFIX = ('std::max', 'std::min', 'strlen', 'strcasecmp', 'strcmp', 'strncasecmp', 'strncmp', 'strrchr', 'strchr', 'memcmp', 'pow', 'powf', 'round', 'roundf',
                   'floor', 'floorf', 'ceil', 'ceilf', 'fabs', 'fabsf', 'sqrt', 'sqrtf', 'operator new', 'operator delete',
                   'std::__throw', 'abs', 'fmod', 'lround', 'sin', 'cos', 'exp', 'log', '__cxa_guard', '__errno_location')


def NOEFFECT(d):
    h = d.split('(')[0]
    return h in ('strlen', 'strcasecmp', 'strcmp', 'strncasecmp', 'strncmp', 'strrchr', 'strchr', 'memcmp', 'pow', 'powf',
                 'round', 'roundf', 'floor', 'floorf', 'ceil', 'ceilf', 'fabs', 'fabsf', 'sqrt', 'sqrtf', 'exp', 'log', 'sin',
                 'cos', 'expf', 'logf', 'lround', 'lroundf', 'llround', 'llroundf', 'lrint', 'lrintf', 'rint', 'rintf', 'nearbyint',
                 'nearbyintf', 'trunc', 'truncf', 'powf', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_atexit') or \
        h.startswith('operator new') or h.startswith('operator delete') or h.startswith('std::__throw')


def fcmp(pred, x, y):
    if x.op == 'f' and y.op == 'f' and pred not in ('true', 'false'):
        a, b = x.a[0], y.a[0]
        if a != a or b != b:
            return TRUE if pred[0] == 'u' else FALSE
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'rd': True, 'no': False}.get(pred[1:])
        if r is not None:
            return TRUE if r else FALSE
    return T('fcmp', pred, x, y)


FCONST = {'fabs': abs, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round, 'nearbyint': round, 'roundeven': round,
          'sqrt': math.sqrt, 'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) < 2**51 else x,
          'minnum': min, 'maxnum': max, 'fmin': min, 'fmax': max, 'minimum': min, 'maximum': max,
          'fmuladd': lambda x, y, z: x * y + z, 'copysign': math.copysign}


def fconst(n, ty, a):
    """the value of a mathematical function of constants"""
    n = n[:-1] if n.endswith('f') and n[:-1] in FCONST else n
    if n not in FCONST or ty not in ('float', 'double') or not all(x.op == 'f' and math.isfinite(x.a[0]) for x in a):
        return None
    try:
        r = float(FCONST[n](*[x.a[0] for x in a]))
        if ty == 'float':
            r = struct.unpack('f', struct.pack('f', r))[0]
    except (ValueError, OverflowError, TypeError):
        return None
    return F(r, ty)


def fbin(op, ty, x, y):
    if x.op == 'f' and y.op == 'f':
        a, b = x.a[0], y.a[0]
        try:
            r = {'fadd': a + b, 'fsub': a - b, 'fmul': a * b, 'fdiv': a / b if b else None}.get(op)
        except OverflowError:
            r = None
        if r is not None:
            if ty == 'float':
                r = struct.unpack('f', struct.pack('f', r))[0]
            return F(r, ty)
    if op in ('fadd', 'fmul') and (x.op == 'f' or (y.op != 'f' and tid(x) > tid(y))):
        x, y = y, x
    return T(op, ty, x, y)


def exte(v, k):
    while v.op == 'inse' and k.op == 'int' and v.a[2].op == 'int':
        if v.a[2].a[0] == k.a[0]:
            return v.a[1]
        v = v.a[0]
    if v.op == 'vec' and k.op == 'int':
        return v.a[k.a[0]]
    if v.op == 'shuf' and k.op == 'int':
        m = v.a[2][k.a[0]]
        if m >= 0 and (v.a[0].op in ('inse', 'vec', 'shuf')):
            return exte(v.a[0], I(m, 32))
    return T('exte', v, k)


def walk(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen
