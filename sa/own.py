"""Ownership typestate over the control-flow graph: which handles are live, who holds them, and which objects are alive,
path by path with states merged when they agree on everything that is still used.

Values: ('null',) ('int', v) ('tok', n) ('obj', n) as base of ('ptr', base, off); ('sym', key) anything else.
A State holds the SSA environment, the memory cells, the status of handles and objects, and what was learned from branches."""
import heapq

NULLV = ('null',)


class Unsure(Exception):
    pass


class State:
    __slots__ = ('env', 'mem', 'tok', 'obj', 'know', 'flags', 'path', 'n')

    def copy(self):
        s = State()
        s.env = dict(self.env); s.mem = dict(self.mem); s.tok = dict(self.tok); s.obj = dict(self.obj)
        s.know = dict(self.know); s.flags = self.flags; s.path = self.path; s.n = self.n
        return s


def start():
    s = State()
    s.env, s.mem, s.tok, s.obj, s.know, s.flags, s.path, s.n = {}, {}, {}, {}, {}, frozenset(), None, 0
    return s


class Walker:
    """subclass and define call(s, i, name, args) -> list of (state, value) or None for "no effect", and leave(s, i, value)"""

    def __init__(self, f, limit=60000):
        self.f = f
        self.limit = limit
        self.problems = {}
        self.unsure = {}
        self.visits = 0
        self._live()
        self._uses()

    # ---------------------------------------------------------------- liveness of SSA values
    def _live(self):
        f = self.f
        use, deff, phiuse = {}, {}, {}
        for b in f.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op == 'phi':
                    for v, p in i.get('in'):
                        if v['k'] in 'ta':
                            phiuse.setdefault((p, b.n), set()).add((v['k'], v['n']))
                else:
                    for a in i.a:
                        if a['k'] in 'ta' and (a['k'], a['n']) not in d:
                            u.add((a['k'], a['n']))
                    for v, _ in i.get('var') or []:
                        if isinstance(v, dict) and v['k'] in 'ta' and (v['k'], v['n']) not in d:
                            u.add((v['k'], v['n']))
                d.add(('t', i.id))
            use[b.n], deff[b.n] = u, d
        live = {b.n: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                out = set()
                for s in f.blocks[b].succ:
                    out |= live[s] | phiuse.get((b, s), set())
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new; ch = True
        self.live = live

    def _uses(self):
        """instructions whose value is compared more than once: what is learned about the others need not be kept"""
        n = {}
        for i in self.f.insts.values():
            if i.op in ('icmp', 'switch', 'br'):
                for a in i.a[:1] if i.op != 'icmp' else i.a:
                    if a['k'] in 'ta':
                        n[a['k'], a['n']] = n.get((a['k'], a['n']), 0) + 1
            if i.op == 'phi':
                for v, _ in i.get('in'):
                    if v['k'] in 'ta':
                        n[v['k'], v['n']] = n.get((v['k'], v['n']), 0) + 2
            if i.op in ('select', 'store', 'ret', 'zext', 'and', 'or', 'xor'):
                for a in i.a:
                    if a['k'] in 'ta':
                        n[a['k'], a['n']] = n.get((a['k'], a['n']), 0) + 2
        self.multi = {k for k, v in n.items() if v > 1}

    # ---------------------------------------------------------------- reports
    def problem(self, s, i, kind, msg):
        k = (kind, i.where() if hasattr(i, 'where') else str(i))
        if k not in self.problems:
            self.problems[k] = (msg, 'unsure' in s.flags, self.trace(s))
        elif self.problems[k][1] and 'unsure' not in s.flags:
            self.problems[k] = (msg, False, self.trace(s))

    def trace(self, s):
        out = []
        p = s.path
        while p is not None and len(out) < 400:
            out.append(p[0]); p = p[1]
        return out[::-1]

    # ---------------------------------------------------------------- values
    def val(self, s, a):
        k = a['k']
        if k == 't':
            return s.env.get(a['n'], ('sym', ('t', a['n'])))
        if k == 'a':
            return s.env.get(('a', a['n']), ('sym', ('a', a['n'])))
        if k == 'i':
            return ('int', a['v'])
        if k == 'null':
            return NULLV
        if k == 'g':
            return ('ptr', ('glob', a['n']), a.get('off', 0) or 0)
        return ('sym', (k, repr(a)))

    def load(self, s, p, size, i):
        if p[0] == 'ptr':
            base, off = p[1], p[2]
            self.touch(s, i, base, off, 'read')
            v = s.mem.get((base, off))
            if v is not None:
                return v
            return self.initial(s, base, off, size, i)
        if p == NULLV:
            self.problem(s, i, 'null', 'reads through a null pointer')
        return None

    def initial(self, s, base, off, size, i):
        if base[0] in ('al', 'glob') or size > 8:
            return None
        return ('sym', ('cell', base, off))

    def touch(self, s, i, base, off, how):
        if base[0] == 'obj' and s.obj.get(base[1]) == 'dead':
            self.problem(s, i, 'dead', '%ss an object after it was deleted' % how)

    def store(self, s, p, v, size, i):
        if p[0] == 'ptr':
            base, off = p[1], p[2]
            self.touch(s, i, base, off, 'write')
            for k in [k for k in s.mem if k[0] == base and off - 8 < k[1] < off + size and k[1] != off and (k[1] > off or s.mem[k][0] in ('ptr', 'tok'))]:
                del s.mem[k]
            if v[0] == 'sym' and v[1][0] != 'cell':
                v = ('sym', ('w', i.id))
            s.mem[base, off] = v
            return
        if p == NULLV:
            self.problem(s, i, 'null', 'writes through a null pointer')
            return
        if v[0] in ('tok',) or v[0] == 'ptr' and v[1][0] == 'obj':
            self.escape(s, v, i)

    def escape(self, s, v, i):
        s.flags |= {'unsure'}

    # ---------------------------------------------------------------- branches
    def truth(self, s, v):
        """True/False/None of an i1 value"""
        if v[0] == 'int':
            return bool(v[1] & 1)
        if v[0] == 'sym':
            k = v[1]
            if k[0] == 'cmp':
                return self.decide(s, k)
            if k in s.know:
                return s.know[k]
            if k[0] == 'not':
                t = self.truth(s, k[1])
                return None if t is None else not t
        return None

    def decide(self, s, k):
        _, pred, x, y = k
        if k in s.know:
            return s.know[k]
        if pred in ('eq', 'ne') and x[0] == 'sym' and y[0] == 'int':
            e = s.know.get(('is', x))
            if e is not None:
                return (e == y[1]) == (pred == 'eq')
            if ('isnt', x, y[1]) in s.know:
                return pred == 'ne'
        elif y[0] == 'int' and x[0] == 'sym':
            e = s.know.get(('is', x))
            if e is not None:
                r = compare(pred, e, y[1])
                return r
        return None

    def assume(self, s, v, t):
        if v[0] != 'sym':
            return
        k = v[1]
        if k[0] == 'not':
            return self.assume(s, k[1], not t)
        if k[0] == 'cmp':
            _, pred, x, y = k
            if x[0] == 'sym' and not self.worth(x):
                return
            if pred in ('eq', 'ne') and y[0] == 'int':
                if (pred == 'eq') == t:
                    s.know['is', x] = y[1]
                    for q in [q for q in s.know if q[0] == 'isnt' and q[1] == x]:
                        del s.know[q]
                else:
                    s.know['isnt', x, y[1]] = True
                return
            s.know[k] = t
            return
        if self.worth(v):
            s.know[k] = t

    def worth(self, v):
        k = v[1]
        if k[0] == 't':
            return ('t', k[1]) in self.multi
        return k[0] in ('a', 'cell', 'q')

    # ---------------------------------------------------------------- one block
    def step(self, s, b):
        """[(state, successor)] after the block; states may fork inside"""
        work = [(s, 0)]
        out = []
        insts = self.f.blocks[b].insts
        while work:
            s, k = work.pop()
            done = False
            while k < len(insts):
                i = insts[k]
                k += 1
                if i.op == 'phi':
                    continue
                r = self.inst(s, i)
                if r == 'end':
                    done = True
                    break
                if isinstance(r, list):
                    if i.op in ('br', 'switch'):
                        out += r
                        done = True
                        break
                    for s2, v in r[1:]:
                        if v is not None:
                            s2.env[i.id] = v
                        work.append((s2, k))
                    if not r:
                        done = True
                        break
                    s, v = r[0]
                    if v is not None:
                        s.env[i.id] = v
            if not done and insts[-1].op not in ('br', 'switch'):
                pass
        return out

    def inst(self, s, i):
        op = i.op
        A = [self.val(s, a) for a in i.a] if op != 'phi' else []
        if op == 'alloca':
            s.env[i.id] = ('ptr', ('al', i.id), 0)
        elif op == 'getelementptr':
            b = A[0]
            if b[0] == 'ptr' and not i.get('var'):
                s.env[i.id] = ('ptr', b[1], b[2] + (i.get('off') or 0))
            elif b[0] == 'ptr':
                s.env[i.id] = ('sym', ('inside', b[1], i.id))
            elif b == NULLV:
                s.env[i.id] = NULLV
            elif b[0] == 'sym' and not i.get('var'):
                k = b[1]
                base, off = (k[1], k[2]) if k[0] == 'at' else (b, 0)
                s.env[i.id] = ('ptr', ('of', b), i.get('off') or 0) if self.based(s, b) else ('sym', ('t', i.id))
        elif op in ('bitcast', 'freeze'):
            s.env[i.id] = A[0]
        elif op == 'load':
            v = self.load(s, A[0] if not (A[0][0] == 'sym' and self.based(s, A[0])) else ('ptr', ('of', A[0]), 0), i.get('size'), i)
            if v is None:
                s.env.pop(i.id, None)
                v = ('sym', ('t', i.id))
            s.env[i.id] = v
        elif op == 'store':
            p = A[1] if not (A[1][0] == 'sym' and self.based(s, A[1])) else ('ptr', ('of', A[1]), 0)
            self.store(s, p, A[0], i.get('size'), i)
        elif op == 'icmp':
            s.env[i.id] = self.icmp(s, i, i.get('pred'), A[0], A[1])
        elif op == 'xor' and i.ty == 'i1' and A[1] == ('int', 1):
            s.env[i.id] = ('int', 1 - A[0][1]) if A[0][0] == 'int' else ('sym', ('not', A[0]))
        elif op in ('zext', 'trunc') and A[0][0] == 'int':
            s.env[i.id] = A[0]
        elif op in ('and', 'or') and i.ty == 'i1':
            ts = [self.truth(s, x) for x in A]
            stop = op == 'or'
            if stop in ts:
                s.env[i.id] = ('int', int(stop))
            elif ts == [not stop] * 2:
                s.env[i.id] = ('int', int(not stop))
            elif ts[0] is not None:
                s.env[i.id] = A[1]
            elif ts[1] is not None:
                s.env[i.id] = A[0]
            else:
                s.env[i.id] = ('sym', ('t', i.id))
        elif op == 'select':
            t = self.truth(s, A[0])
            if t is not None:
                s.env[i.id] = A[1] if t else A[2]
            elif A[1] == A[2]:
                s.env[i.id] = A[1]
            elif i.ty == 'ptr' or i.ty == 'i1' or (A[1][0] == 'int' and A[2][0] == 'int' and ('t', i.id) in self.multi):
                s2 = s.copy()
                self.assume(s, A[0], True)
                self.assume(s2, A[0], False)
                return [(s, A[1]), (s2, A[2])]
            else:
                s.env[i.id] = ('sym', ('t', i.id))
        elif op in ('call', 'invoke'):
            name = self.f.mod.dem(self.callee(i)) if self.callee(i) else ''
            r = self.intrinsic(s, i, name, A)
            if r is None:
                r = self.call(s, i, name, A)
            if r is not None:
                for s2, v in r:
                    if v is None:
                        s2.env.pop(i.id, None)
                return r
            s.env.pop(i.id, None)
        elif op == 'ret':
            self.leave(s, i, A[0] if A else None)
            return 'end'
        elif op == 'unreachable':
            return 'end'
        elif op == 'br':
            su = list(i.get('succ'))
            if not i.a or len(su) == 1:
                return [(s, su[0])]
            t = self.truth(s, A[0])
            if t is not None:
                return [(s, su[0] if t else su[1])]
            s2 = s.copy()
            self.assume(s, A[0], True)
            self.assume(s2, A[0], False)
            return [(s, su[0]), (s2, su[1])]
        elif op == 'switch':
            v = A[0]
            cases = [tuple(c) for c in i.get('cases')]
            if v[0] == 'int':
                for c, d in cases:
                    if c == v[1]:
                        return [(s, d)]
                return [(s, i.get('default'))]
            know = s.know.get(('is', v))
            if know is not None:
                return [(s, dict(cases).get(know, i.get('default')))]
            keep = self.worth(v) if v[0] == 'sym' else False
            out = []
            if not keep:
                seen = set()
                for c, d in cases + [(None, i.get('default'))]:
                    if d not in seen:
                        seen.add(d)
                        out.append((s.copy(), d))
                return out
            for c, d in cases:
                if ('isnt', v, c) in s.know:
                    continue
                s2 = s.copy()
                for q in [q for q in s2.know if q[0] == 'isnt' and q[1] == v]:
                    del s2.know[q]
                s2.know['is', v] = c
                out.append((s2, d))
            s2 = s.copy()
            for c, _ in cases:
                s2.know['isnt', v, c] = True
            out.append((s2, i.get('default')))
            return out
        else:
            s.env.pop(i.id, None)
        return None

    def callee(self, i):
        """name of the called function; constructors and destructors may be called under an alias"""
        if i.callee:
            return i.callee
        fp = i.get('fp')
        if fp and fp.get('k') == 'g':
            n = fp['n']
            for x in (n, n.replace('C1E', 'C2E'), n.replace('D1E', 'D2E')):
                if x in self.f.mod.fns:
                    return x
        return None

    def based(self, s, v):
        """may this unknown pointer be followed as a base of its own?"""
        return False

    def icmp(self, s, i, pred, x, y):
        if pred in ('eq', 'ne'):
            eq = None
            if x == y and x[0] != 'sym':
                eq = True
            elif x[0] == 'int' and y[0] == 'int':
                eq = x[1] == y[1]
            else:
                for u, v in ((x, y), (y, x)):
                    if u == NULLV:
                        if v[0] == 'tok' or v[0] == 'ptr':
                            eq = False
                        elif v[0] == 'int':
                            eq = v[1] == 0
                if eq is None and x[0] in ('ptr', 'tok') and y[0] in ('ptr', 'tok') and x != y:
                    if 'arg' not in (x[1][0], y[1][0]) or x[1] == y[1]:
                        eq = False
                    else:
                        eq = self.alias(s, x, y)
            if eq is not None:
                return ('int', int(eq == (pred == 'eq')))
            if y[0] == 'sym' and x[0] != 'sym':
                x, y = y, x
            if y == NULLV:
                y = ('int', 0)
            if pred == 'ne':
                return ('sym', ('not', ('sym', ('cmp', 'eq', x, y))))
            return ('sym', ('cmp', 'eq', x, y))
        if x[0] == 'int' and y[0] == 'int':
            r = compare(pred, x[1], y[1])
            if r is not None:
                return ('int', int(r))
        return ('sym', ('cmp', pred, x, y))

    def alias(self, s, x, y):
        return False if x[1] != y[1] else None

    def intrinsic(self, s, i, name, A):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental')):
            return [(s, None)]
        if name.startswith('llvm.memset'):
            p, v, n = A[:3]
            if p[0] == 'ptr' and v == ('int', 0) and n[0] == 'int':
                for k in [k for k in s.mem if k[0] == p[1] and p[2] <= k[1] < p[2] + n[1]]:
                    s.mem[k] = NULLV
                for o in range(p[2], p[2] + min(n[1], 64), 8):
                    s.mem[p[1], o] = NULLV
            return [(s, None)]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            p, q, n = A[:3]
            if p[0] == 'ptr' and q[0] == 'ptr' and n[0] == 'int':
                for k in [k for k in s.mem if k[0] == p[1] and p[2] <= k[1] < p[2] + n[1]]:
                    del s.mem[k]
                for k in [k for k in s.mem if k[0] == q[1] and q[2] <= k[1] < q[2] + n[1]]:
                    s.mem[p[1], p[2] + k[1] - q[2]] = s.mem[k]
            return [(s, None)]
        return None

    # ---------------------------------------------------------------- exploration
    def key(self, s, b):
        """what must agree for two states to be merged: handles, objects and who points to them"""
        hot = ('ptr', 'tok', 'null')
        env = tuple(sorted([(repr(k), v) for k, v in s.env.items() if v[0] in hot], key=repr))
        mem = tuple(sorted([(k, v) for k, v in s.mem.items() if v[0] in hot], key=repr))
        return env, mem, tuple(sorted(s.tok.items())), tuple(sorted(s.obj.items())), s.flags

    def merge(self, old, s, b):
        """the state that covers both; None when it is the old one"""
        know = {k: v for k, v in old.know.items() if s.know.get(k) == v}
        env, mem = dict(old.env), dict(old.mem)
        ch = len(know) != len(old.know)
        for d, e in ((env, s.env), (mem, s.mem)):
            for k, v in list(d.items()):
                if e.get(k) == v:
                    continue
                if d is env:
                    new = ('sym', ('t', k)) if isinstance(k, int) else ('sym', ('a', k[1]))
                else:
                    new = ('sym', ('m', b))
                if v != new:
                    d[k] = new
                    ch = True
        for k, v in s.mem.items():
            if k not in mem:
                mem[k] = ('sym', ('m', b))
                ch = True
        if not ch:
            return None
        m = old.copy()
        m.know, m.env, m.mem = know, env, mem
        return m

    def enter(self, s, pred, b):
        """edge into a block: phis, then forget what is not live any more"""
        f = self.f
        new = {}
        loop = b in f.loops and pred in f.loops[b]
        for i in f.blocks[b].insts:
            if i.op != 'phi':
                break
            for v, p in i.get('in'):
                if p == pred:
                    x = self.val(s, v)
                    if x[0] == 'int' and (i.ty != 'i1' and b in f.loops or loop and i.ty != 'i1'):
                        x = ('sym', ('t', i.id))
                    if x[0] == 'sym' and x[1][0] in ('t', 'cmp', 'not') and b in f.loops:
                        x = ('sym', ('t', i.id))
                    new[i.id] = x
                    break
        if loop:
            body = f.loops[b]
            ids = {i.id for n in body for i in f.blocks[n].insts}
            bad = lambda x: isinstance(x, tuple) and (len(x) == 2 and x[0] == 't' and x[1] in ids or any(bad(y) for y in x))
            s.know = {k: v for k, v in s.know.items() if not bad(k)}
        live = self.live[b]
        env = {}
        for k, v in s.env.items():
            if (('a', k[1]) if isinstance(k, tuple) else ('t', k)) in live:
                env[k] = v
        env.update(new)
        s.env = env
        # stale knowledge about values that are gone
        def alive(k):
            for x in _syms(k):
                if x[0] == 't' and ('t', x[1]) not in live and x[1] not in new and not any(('sym', x) == v for v in env.values()) and not any(('sym', x) == v for v in s.mem.values()):
                    return False
            return True
        s.know = {k: v for k, v in s.know.items() if alive(k)}
        self.trim(s)

    def trim(self, s):
        pass

    def run(self, starts):
        seen = {}
        work = []
        def arrive(s, b):
            d = seen.setdefault(b, {})
            k = self.key(s, b)
            old = d.get(k)
            if old is not None:
                s = self.merge(old, s, b)
                if s is None:
                    return
            d[k] = s
            if (b, k) not in queued:
                queued.add((b, k))
                heapq.heappush(work, (self.f.rpoidx[b], len(queued) + self.visits, b, k))
        queued = set()
        for s in starts:
            arrive(s, 0)
        while work:
            _, _, b, k = heapq.heappop(work)
            queued.discard((b, k))
            s = seen[b][k].copy()
            self.visits += 1
            if self.visits > self.limit:
                self.unsure['limit'] = 'too many paths'
                return False
            loc = next((i.where() for i in self.f.blocks[b].insts if i.loc), None)
            if loc and (s.path is None or s.path[0] != loc):
                s.path = (loc, s.path)
            for s2, n in self.step(s, b):
                self.enter(s2, b, n)
                arrive(s2, n)
        return True

    # ---------------------------------------------------------------- to be defined
    def call(self, s, i, name, A):
        return None

    def leave(self, s, i, v):
        pass


def _syms(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] in ('t', 'a') and isinstance(k[1], int):
            yield k
        else:
            for x in k:
                yield from _syms(x)


def compare(p, x, y):
    if p[0] == 'u':
        return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p]
    if x < 1 << 31 and y < 1 << 31:
        return {'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(p)
    return None
