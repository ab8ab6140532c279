"""Compile one translation unit of /repo to normalised LLVM IR and load it.

Nothing of /repo's build directory is used: sources are compiled from the working tree with the
flags the real build uses (minus optimisation), to unoptimised bitcode, which `irx` normalises.
"""
import functools, hashlib, json, os, re, subprocess, tempfile, shutil, atexit, threading
from concurrent.futures import ThreadPoolExecutor

_pool = ThreadPoolExecutor(8)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
IRX = os.path.join(VERIF, 'build', 'irx')


class AnalysisError(Exception):
    """The analysis could not be carried out (anchor vanished, source does not compile, ...)."""


class CompileError(AnalysisError):
    """the source cannot be read at all"""


KEEP = [
    r'std::vector<.*>::~?(vector|resize|clear|push_back|emplace_back|assign|reserve|operator=|insert|erase|'
    r'_M_(default_append|erase_at_end|realloc_insert|move_assign|assign_aux|fill_assign|fill_insert|range_insert|insert_aux|allocate_and_copy|realloc_append|range_initialize|insert_rval))[<(]',
    r'std::(__detail::)?unordered_map', r'std::_Hashtable', r'std::__detail::_Map_base',
    r'std::__cxx11::basic_string<.*>::(_M_(create|append|assign|replace|mutate)|compare|append|assign|find)',
]

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='cfsa.')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


FLAGS = ['-I%s/lib/src', '-I' + os.path.join(VERIF, 'stubs'), '-I%s/lib/include', '-I%s/tool',
         '-DNDEBUG', '-std=gnu++14', '-fPIC', '-fno-strict-aliasing', '-faligned-new', '-O1', '-g',
         '-fignore-exceptions', '-fstandalone-debug', '-Wno-everything', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c']


def compile_tu(src, defs=('CUTTLEFISH_ISPC=0',), extra=(), text=None):
    """-> path of a .bc. `src` is relative to REPO, or absolute."""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    if text is not None:
        path = os.path.join(tmpdir(), src)
        with open('%s.%d' % (path, os.getpid()), 'w') as f:
            f.write(text)
        os.replace('%s.%d' % (path, os.getpid()), path)
    elif not os.path.exists(path):
        raise CompileError('source file %s is gone' % path)
    key = hashlib.sha1(repr((path, defs, extra)).encode()).hexdigest()[:10]
    out = os.path.join(tmpdir(), os.path.basename(path) + '.' + key + '.bc')
    with _lock:
        lk = _locks.setdefault(out, threading.Lock())
    with lk:
        return _compile(path, out, defs, extra)


_locks = {}


def _compile(path, out, defs, extra):
    if os.path.exists(out):
        return out
    mine = '%s.%d.bc' % (out, os.getpid())   # forked jobs compile the same files side by side
    cmd = ['clang++-18'] + [f % REPO if '%s' in f else f for f in FLAGS] + \
          ['-D' + d for d in defs] + list(extra) + [path, '-o', mine]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CompileError('cannot compile %s:\n%s' % (path, r.stdout[:4000]))
    os.replace(mine, out)
    return out


_cache = {}
_pending = {}
_lock = threading.Lock()


def prefetch(*reqs):
    """start compiling several (src, keyword) requests in parallel"""
    tmpdir()
    if _forked:
        return
    for src, kw in reqs:
        k = _key(src, **kw)
        if k in _cache or k in _pending:
            continue
        _pending[k] = _pool.submit(_produce, src, **kw)


_forked = False


def settle():
    """wait for what was started: before a fork, whose child has none of these threads"""
    for k in list(_pending):
        fut = _pending.pop(k)
        _cache[k] = Module(fut.result(), k[0])


def forked():
    global _forked
    _forked = True


def _key(src, keep=(), defs=('CUTTLEFISH_ISPC=0',), limit=400, std_limit=60, extra=(), text=None, base_keep=True, unroll=0, peel=None):
    return (src, tuple(keep), tuple(defs), limit, std_limit, base_keep, unroll, text, peel)


def load(src, **kw):
    k = _key(src, **kw)
    if k not in _cache:
        fut = _pending.pop(k, None)
        raw = fut.result() if fut else _produce(src, **kw)
        _cache[k] = Module(raw, src)
    return _cache[k]


def _produce(src, keep=(), defs=('CUTTLEFISH_ISPC=0',), limit=400, std_limit=60, extra=(), text=None, base_keep=True, unroll=0, peel=None):
    key = (src, tuple(keep), tuple(defs), limit, std_limit, base_keep, unroll, peel)
    bc = compile_tu(src, defs, extra, text)
    out = os.path.join(tmpdir(), hashlib.sha1(repr(key).encode()).hexdigest()[:12] + '.%d.json' % os.getpid())
    cmd = [IRX, bc, out, '--limit', str(limit), '--std-limit', str(std_limit)]
    for k in (list(KEEP) if base_keep else []) + list(keep):
        cmd += ['--keep', k]
    if unroll:
        cmd += ['--unroll', str(unroll)]
    if peel:
        cmd += ['--peel', str(peel[0]), peel[1]]
    env = dict(os.environ)
    if os.environ.get('SA_LL'):
        env['IRX_LL'] = os.environ['SA_LL']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        raise CompileError('irx failed on %s: %s' % (src, r.stdout[:2000]))
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return d


# functions that only read through the pointers given to them
READS = re.compile(r'(std::(basic_)?ostream.*::write|str(n)?(case)?cmp|strlen|memcmp)\b')


class Inst:
    __slots__ = ('id', 'op', 'ty', 'loc', 'a', 'd', 'block', 'fn')

    def __init__(self, d, block, fn):
        self.id = d['id']; self.op = d['op']; self.ty = d['ty']; self.loc = d['loc']
        self.a = d['a']; self.d = d; self.block = block; self.fn = fn

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def callee(self):
        return self.d.get('callee')

    def where(self):
        """file:line of the innermost frame that lies in the repository (else outermost)."""
        for f, l, fn in self.loc:
            if '/usr/' not in f:
                return '%s:%d' % (rel(f), l)
        return '%s:%d' % (rel(self.loc[-1][0]), self.loc[-1][1]) if self.loc else '?'


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


class Block:
    __slots__ = ('n', 'insts', 'loop', 'depth', 'succ', 'preds')


class Function:
    def __init__(self, name, d, mod):
        self.name = name; self.dem = d['dem']; self.decl = d['decl']; self.args = d['args']
        self.ret = d['ret']; self.linkage = d['linkage']; self.file = rel(d.get('file', '?'))
        self.line = d.get('line', 0); self.src = d.get('name', ''); self.mod = mod
        self.readonly = d.get('readonly'); self.sret = d.get('sret'); self.params = d.get('params') or []
        self.blocks = []
        self.insts = {}
        for i, b in enumerate(d.get('blocks', [])):
            bl = Block(); bl.n = i; bl.loop = b.get('loop'); bl.depth = b.get('depth', 0)
            bl.insts = [Inst(x, i, self) for x in b['i']]
            for x in bl.insts:
                self.insts[x.id] = x
            t = bl.insts[-1]
            if t.op == 'switch':
                # case values are unsigned, as constants are
                t.d['cases'] = [[v % (1 << 64), s] for v, s in t.get('cases')]
                bl.succ = [t.get('default')] + [c[1] for c in t.get('cases')]
            else:
                bl.succ = list(t.get('succ') or [])
            bl.preds = []
            self.blocks.append(bl)
        for b in self.blocks:
            for s in set(b.succ):
                self.blocks[s].preds.append(b.n)
        self._rpo()
        self._loops()

    def _rpo(self):
        if not self.blocks:
            self.rpo = []; self.rpoidx = {}
            return
        seen = {0}; post = []; stack = [(0, iter(self.blocks[0].succ))]
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                post.append(n); stack.pop()
        self.rpo = post[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}

    def _loops(self):
        """natural loops: header -> set of blocks"""
        self.loops = {}
        for b in self.rpo:
            for s in self.blocks[b].succ:
                if self.rpoidx.get(s, 1 << 30) <= self.rpoidx[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(self.blocks[x].preds)

    def loops_of(self, b):
        """headers of loops containing block b, outermost first"""
        hs = [h for h, body in self.loops.items() if b in body]
        return sorted(hs, key=lambda h: -len(self.loops[h]))

    def where(self):
        return '%s:%d' % (self.file, self.line)

    def __repr__(self):
        return '<fn %s>' % self.dem


class Module:
    def __init__(self, d, src):
        self.src = src
        self.enums = d['enums']; self.members = d['members']; self.globals = d['globals']
        self.fns = {n: Function(n, f, self) for n, f in d['functions'].items()}
        self._written = None

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisError('enumeration %s not found in %s' % (q, self.src))
        return self.enums[q]

    def offsets(self, q):
        if q not in self.members:
            raise AnalysisError('type %s not found in %s' % (q, self.src))
        return {m[0]: m[1] for m in self.members[q]}

    def find(self, prefix, defined=True, one=True, contains=None):
        """functions whose demangled name starts with `prefix` (a trailing '(' pins the name)"""
        r = [f for f in self.fns.values() if strip_ret(f.dem).startswith(prefix) and (not defined or not f.decl)
             and (contains is None or contains in f.dem)]
        if not one:
            return r
        if len(r) != 1:
            raise AnalysisError('%d functions match %s in %s' % (len(r), prefix, self.src))
        return r[0]

    def dem(self, n):
        return self.fns[n].dem if n in self.fns else n

    def readonly_global(self, g):
        """constant, or internal and only ever loaded from"""
        G = self.globals.get(g)
        if G is None or 'init' not in G:
            return False
        if G['const']:
            return True
        if not G['local'] or G['tls']:
            return False
        if self._written is None:
            self._written = set()
            for f in self.fns.values():
                deriv = {}
                for b in f.blocks:
                    for i in b.insts:
                        bases = set()
                        for k, a in enumerate(i.a):
                            if a['k'] == 'g':
                                bases.add((k, a['n']))
                            elif a['k'] == 't' and a['n'] in deriv:
                                bases |= {(k, x) for x in deriv[a['n']]}
                        if not bases:
                            continue
                        if i.op in ('getelementptr', 'bitcast', 'select', 'phi'):
                            deriv[i.id] = {x for _, x in bases}
                        elif i.op == 'load' or i.op == 'icmp':
                            pass
                        elif i.op in ('call', 'invoke') and i.callee and READS.match(strip_ret(self.dem(i.callee))):
                            pass
                        else:
                            self._written |= {x for _, x in bases}
        return g not in self._written


@functools.lru_cache(None)
def strip_ret(dem):
    """drop a template function's return type from its demangled name"""
    depth = 0
    for i, c in enumerate(dem):
        if c in '<({':
            if c == '(' and depth == 0 and dem[i:i + 21] != '(anonymous namespace)':
                return dem
            depth += 1
        elif c in '>)}':
            depth -= 1
        elif c == ' ' and depth == 0:
            head = dem[:i]
            if head.endswith('operator') or head in ('non-virtual', 'virtual', 'vtable', 'typeinfo', 'guard'):
                return dem
            return dem[i + 1:]
    return dem
