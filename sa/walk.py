"""Constant propagation along the iterations of loops.

Where the sizes that govern a loop are fixed (an image of 5 by 7 pixels, work item 1), the branches that end it are
decided by the constants, and each iteration can be visited on its own instead of being merged with the others at the head of the
loop.  Pixel values stay symbolic.  A branch that the constants do not decide is visited on both sides: sides that meet
again without leaving the function are merged with conditional values, others are kept apart as alternatives.
"""
import re
from .absint import Analysis, State, Event, T, UNDEF, ite, I, F, ptr, split_ptr
from . import absint


NUMBERS = {'double': ('double', 8), 'float': ('float', 4), 'int': ('i32', 4), 'unsigned int': ('i32', 4), 'long': ('i64', 8), 'unsigned long': ('i64', 8),
           'short': ('i16', 2), 'unsigned short': ('i16', 2), 'char': ('i8', 1), 'unsigned char': ('i8', 1)}
VECTOR = re.compile(r'std::vector<(%s), std::allocator<[a-z ]+> ?>::(~?\w+|operator\[\])\((.*)' % '|'.join(NUMBERS))


class Budget(Exception):
    pass


class Trace:
    """one alternative: the events in order, the conditions taken, the value returned"""
    __slots__ = ('events', 'conds', 'ret', 'st')

    def __init__(self, events, conds, ret, st):
        self.events = events; self.conds = conds; self.ret = ret; self.st = st


class Walk(Analysis):
    light = True

    def __init__(self, *a, steps=20000, alts=8, guess=None, **k):
        self.guess = guess
        self.steps = steps; self.alts = alts
        self.traces = []
        self.complete = True
        self.visits = {}
        self.serial = 0
        super().__init__(*a, **k)

    def _solve(self):
        self._depth = 0
        todo = [(0, None, self.entry.copy(), {}, (), ())]
        try:
            while todo:
                b, pred, st, env, ev, conds = todo.pop()
                self.env = dict(env)
                self._run(b, pred, st, list(ev), conds, todo)
        except Budget:
            self.complete = False
        self.events = [e for t in self.traces for e in t.events]

    def _early(self):
        return False

    def _define(self, id, v):
        self.env[id] = v

    def reachable(self, b):
        return b in self.instate

    # -- one visit of a block: [(successor, state)]
    def _visit(self, b, pred, st, ev):
        self.steps -= 1
        if self.steps < 0:
            raise Budget()
        self.instate[b] = st
        self.visits[b] = self.visits.get(b, 0) + 1
        new = {}
        for i in self.fn.blocks[b].insts:
            if i.op != 'phi':
                break
            for v, p in i.get('in'):
                if p == pred:
                    new[i.id] = self.val(v)
                    break
            else:
                new[i.id] = UNDEF
        self.env.update(new)
        self._cur = ev
        return self._transfer(b, st, ev)

    def _run(self, b, pred, st, ev, conds, todo):
        outs = self._visit(b, pred, st, ev)
        while True:
            if len(outs) == 1:
                pred, (b, st) = b, outs[0]
                outs = self._visit(b, pred, st, ev)
                continue
            if not outs:
                last = self.fn.blocks[b].insts[-1]
                if last.op == 'ret':
                    a = [self.val(o) for o in last.a]
                    self.traces.append(Trace(ev, conds, a[0] if a else None, st))
                elif last.op != 'unreachable':
                    self.complete = False
                return
            m = self._merge(b, outs, ev)
            if m is None:
                self._fork(b, outs, ev, conds, todo)
                return
            # the phis of the meeting point have been set by the merge
            b, st = m
            outs = self._resume(b, st, ev)

    def _fork(self, b, outs, ev, conds, todo):
        if len(self.traces) + len(todo) + len(outs) > self.alts:
            self.complete = False
            outs = outs[:max(0, self.alts - len(self.traces) - len(todo))]
        last = self.fn.blocks[b].insts[-1]
        c = self.val(last.a[0]) if last.a else None
        for s, o in outs:
            todo.append((s, b, State(dict(o.mem), o.epoch, o.facts, o.esc), dict(self.env), tuple(ev),
                         conds + ((c, last.op == 'br' and s == last.get('succ')[0]),)))

    def _resume(self, b, st, ev):
        self.steps -= 1
        if self.steps < 0:
            raise Budget()
        self.instate[b] = st
        return self._transfer(b, st, ev)

    # -- two sides that meet again soon, without loops between: values become conditional
    def _merge(self, b, outs, ev):
        last = self.fn.blocks[b].insts[-1]
        if last.op != 'br' or len(outs) != 2:
            return None
        c = self.val(last.a[0])
        meet = self._ipdom().get(b)
        if meet is None or self._depth > 12:
            return None
        self._depth += 1
        try:
            return self._meet(c, outs, b, meet, ev)
        finally:
            self._depth -= 1

    def _meet(self, c, outs, b, meet, ev):
        env = dict(self.env)
        sides = []
        for s, o in outs:
            self.env = dict(env)
            st = State(dict(o.mem), o.epoch, o.facts, o.esc)
            sub = []
            r = self._side(s, b, st, meet, sub)
            if r is None or any(e.i.op in ('store', 'ret', 'atomicrmw') for e in sub) or r[1].epoch != o.epoch or r[1].mem != o.mem:
                self.env = env
                return None
            sides.append((r[0], dict(self.env), r[1], sub))
        base = dict(env)
        for i in self.fn.blocks[meet].insts:
            if i.op != 'phi':
                break
            vs = []
            for p, e, _, _ in sides:
                if p is None:
                    vs.append(e.get(i.id, UNDEF))
                    continue
                self.env = e
                for v, q in i.get('in'):
                    if q == p:
                        vs.append(self.val(v))
                        break
                else:
                    vs.append(UNDEF)
            base[i.id] = vs[0] if vs[0] is vs[1] else ite(c, vs[0], vs[1])
        self.env = base
        o = outs[0][1]
        st = State(dict(o.mem), o.epoch, self.entry.facts, o.esc)
        for _, _, _, sub in sides:
            ev.extend(sub)
        return meet, st

    def _side(self, b, pred, st, meet, sub):
        """from b to the meeting point: (last block or None when the phis there are set, state)"""
        if b == meet:
            return pred, st
        outs = self._visit(b, pred, st, sub)
        for _ in range(60):
            if len(outs) == 1:
                pred, (b, st) = b, outs[0]
                if b == meet:
                    return pred, st
                outs = self._visit(b, pred, st, sub)
                continue
            m = self._merge(b, outs, sub) if outs else None
            if m is None:
                return None
            b, st = m
            if b == meet:
                return None, st
            outs = self._resume(b, st, sub)
        return None

    def _ipdom(self):
        r = getattr(self.fn, '_ipd', None)
        if r is None:
            n = len(self.fn.blocks)
            succ = {b: list(self.fn.blocks[b].succ) for b in self.fn.rpo}
            order = list(reversed(self.fn.rpo))
            full = set(self.fn.rpo)
            pd = {b: ({b} if not succ[b] else set(full)) for b in order}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if succ[b]:
                        x = set.intersection(*[pd[s] for s in succ[b] if s in pd]) | {b}
                        if x != pd[b]:
                            pd[b] = x
                            ch = True
            r = {}
            for b in order:
                c = pd[b] - {b}
                r[b] = max(c, key=lambda x: len(pd[x])) if c else None
            self.fn._ipd = r
        return r

    def _term(self, i, a, st):
        if self.guess and i.op == 'br' and a and a[0].op != 'int':
            g = self.guess(a[0])
            if g is not None:
                return [(i.get('succ')[0 if g else 1], st)]
        return super()._term(i, a, st)

    # -- local vectors of numbers: a block of storage of their own
    def _vector(self, i, a, st):
        dem = self.mod.dem(i.callee) if i.callee else None
        m = dem and VECTOR.match(dem)
        if not m or not a or a[0].op != 'alloca':
            return None
        ty, name, rest = m.groups()
        ity, sz = NUMBERS[ty]
        zero = F(0.0, ity) if ity in ('float', 'double') else I(0, sz * 8)
        v = a[0]
        first, last = st.mem.get((v, 8)), st.mem.get((ptr(v, 8), 8))
        n = None
        if first is not None and last is not None:
            b, o, var = split_ptr(first)
            c, q, war = split_ptr(last)
            if b is c and b.op == 'alloca' and b.a[0] == 'vector' and not var and not war and o == 0 and q % sz == 0:
                n = q // sz

        def block(n, value, old=0, data=None):
            if n > 4096:
                return None
            self.serial += 1
            d = T('alloca', 'vector', self.serial)
            for k in range(n):
                st.mem[(ptr(d, k * sz), sz)] = value if k >= old else st.mem.get((ptr(data, k * sz), sz), T('load', ptr(data, k * sz), 0, ity))
            st.mem[(v, 8)] = d
            st.mem[(ptr(v, 8), 8)] = st.mem[(ptr(v, 16), 8)] = ptr(d, n * sz)
            return T('void')

        def at(k):
            return st.mem.get((a[k], sz))
        if name == 'vector':
            if len(a) == 3 and rest.startswith('unsigned long, std::allocator') and a[1].op == 'int':
                return block(a[1].a[0], zero)
            if len(a) == 4 and rest.startswith('unsigned long, %s const&' % ty) and a[1].op == 'int' and at(2) is not None:
                return block(a[1].a[0], at(2))
            if len(a) == 1:
                return block(0, zero)
            return None
        if name == '~vector':
            return T('void')
        if n is None:
            return None
        if name == 'resize' and a[1].op == 'int' and len(a) == 2:
            return block(a[1].a[0], zero, min(n, a[1].a[0]), first)
        if name == 'assign' and a[1].op == 'int' and len(a) == 3 and at(2) is not None:
            return block(a[1].a[0], at(2))
        if name in ('push_back', 'emplace_back') and len(a) == 2 and at(1) is not None:
            return block(n + 1, at(1), n, first)
        if name == 'reserve':
            return T('void')
        if name == 'clear':
            return block(0, zero)
        if name in ('operator[]', 'at') and a[1].op == 'int' and a[1].a[0] < n:
            return ptr(first, a[1].a[0] * sz)
        if name == 'size':
            return I(n, 64)
        if name == 'empty':
            return I(int(n == 0), 1)
        if name in ('data', 'begin', 'cbegin', 'front'):
            return first
        if name in ('end', 'cend'):
            return last
        return None

    # -- calls, loads and locals of different visits are different
    def _call(self, i, a, st):
        v = self._vector(i, a, st)
        if v is not None:
            return v
        v = super()._call(i, a, st)
        if v is not None and v.op == 'call' and v.a[1] is not None and v.a[1] == i.id:
            self.serial += 1
            v = T('call', v.a[0], (i.id, self.serial), v.a[2])
        return v

    def clobber(self, st, i, args):
        super().clobber(st, i, args)
        self.serial += 1
        st.epoch = 'c%d.%d' % (i.id, self.serial)
