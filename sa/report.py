"""Obligation bookkeeping, known findings, evidence and exit status for one check."""
import json, os, sys, time, traceback
from . import ir

VERIF = ir.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.obl = []            # (status, rule, key, where, msg)
        self.units = set()       # translation units analysed
        self.fns = set()         # functions analysed
        self.rules = {}          # rule -> text
        self.assumptions = []
        self.extra = {}
        self.floors = []
        self.samples = []

    def load(self, src, **kw):
        m = ir.load(src, **kw)
        self.units.add(src + (' [%s]' % ','.join(kw['defs']) if kw.get('defs') else ''))
        return m

    def rule(self, name, text):
        self.rules[name] = text

    def fn(self, f):
        self.fns.add(f.dem)

    def ok(self, rule, key, where='', msg=''):
        self.obl.append(('ok', rule, key, where, msg))

    def bad(self, rule, key, where, msg):
        self.obl.append(('bad', rule, key, where, msg))

    def und(self, rule, key, where, msg):
        self.obl.append(('und', rule, key, where, msg))

    def check(self, cond, rule, key, where, msg):
        """True -> discharged, False -> violation, None -> undecided"""
        (self.ok if cond else self.bad if cond is False else self.und)(rule, key, where, '' if cond else msg)
        return cond

    def part(self, f, *a):
        """one part of a check, whose failure leaves the others alone"""
        try:
            return f(*a)
        except ir.CompileError:
            raise
        except Exception as e:
            self.und('analysis', f.__name__, '', '%s: %s' % (type(e).__name__, str(e)[:200]))

    def floor(self, rule, n):
        """at least n obligations of `rule` must have been decided (a rule that matches nothing
        is an error of the check, never a pass)"""
        self.floors.append((rule, n))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def parallel(self, jobs):
        """run independent parts of a check in forked processes and collect their obligations"""
        n = min(8, os.cpu_count() or 1, len(jobs))
        kids = []
        ir.settle()
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    ir.forked()
                    self.obl = []
                    self.failed, why = 0, ''
                    for i in range(k, len(jobs), n):
                        mark = len(self.obl)
                        try:
                            jobs[i]()
                        except ir.CompileError:
                            raise
                        except Exception:
                            # the others are not affected
                            why = traceback.format_exc()
                            self.failed = getattr(self, 'failed', 0) + 1
                            self.und('analysis', 'stopped', '', why.strip().split('\n')[-1][:300])
                        self.obl[mark:] = [(i,) + tuple(o) for o in self.obl[mark:]]
                    with os.fdopen(w, 'w') as f:
                        json.dump([self.obl, sorted(self.fns), sorted(self.units), getattr(self, 'failed', 0), why], f)
                    code = 0
                except BaseException:
                    with os.fdopen(w, 'w') as f:
                        json.dump({'error': traceback.format_exc()}, f)
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        got = []
        err = None
        failed, last = 0, ''
        for pid, r in kids:
            with os.fdopen(r) as f:
                d = f.read()
            os.waitpid(pid, 0)
            try:
                d = json.loads(d)
            except ValueError:
                d = {'error': 'a part of the check ended without a result'}
            if isinstance(d, dict):
                err = d['error']
            else:
                got += d[0]
                self.fns |= set(d[1]); self.units |= set(d[2])
                failed += d[3]
                last = d[4] or last
        if not err and failed and failed == len(jobs):
            err = last
        if err:
            raise ir.AnalysisError(err)
        self.obl += [tuple(o[1:]) for o in sorted(got, key=lambda o: o[0])]

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)


def known_keys(prop):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l[len('known: property=%s ' % prop):]
                k, _, what = rest.partition(' ')
                r[k[4:]] = what
    return r


def run(prop, title, func, tier, seed, level='other', method=''):
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    err = None
    try:
        func(ctx)
        low = []
        for rule, n in ctx.floors:
            done = sum(1 for o in ctx.obl if o[1] == rule and o[0] in ('ok', 'bad'))
            if done < n:
                low.append((rule, done, n))
                ctx.und(rule, 'floor', '', 'rule decided %d instances, expected at least %d: the construct it applies to was not recognised' % (done, n))
        if not any(o[0] in ('ok', 'bad') for o in ctx.obl):
            # a check that recognises nothing gives no answer
            raise ir.AnalysisError('nothing decided: ' + ', '.join('%s %d of %d' % x for x in low))
    except Exception as e:
        err = str(e) if isinstance(e, ir.AnalysisError) else traceback.format_exc()
        if any(o[0] == 'ok' for o in ctx.obl) and not isinstance(e, ir.CompileError):
            # what was decided before stands; the rest is undecided
            ctx.und('analysis', 'stopped', '', err.strip().split('\n')[-1])
            ctx.extra['stopped'] = err
            err = None
    known = known_keys(prop)
    seen = set()
    bad = []; kn = []
    for o in ctx.obl:
        if o[0] != 'bad':
            continue
        key = o[1] + ':' + o[2]
        if key in seen:
            continue
        seen.add(key)
        (kn if key in known else bad).append(o)
    wall = time.time() - t0
    by = {}
    for o in ctx.obl:
        d = by.setdefault(o[1], {'ok': 0, 'bad': 0, 'und': 0})
        d[o[0]] += 1
    und = [o for o in ctx.obl if o[0] == 'und']
    dec = sum(1 for o in ctx.obl if o[0] == 'ok')
    cov = dict(
        explanation='%s Analysed %d translation unit(s), %d function(s); %d obligations generated from the current '
                    'source, %d discharged, %d violated, %d left undecided (listed). Rules: %s' % (
                        method, len(ctx.units), len(ctx.fns), len(ctx.obl), dec, len(bad) + len(kn), len(und),
                        '; '.join('%s: %s' % kv for kv in sorted(ctx.rules.items()))),
        units=sorted(ctx.units), functions=sorted(ctx.fns)[:200], functions_total=len(ctx.fns),
        obligations=len(ctx.obl), discharged=dec, by_rule=by,
        undecided=['%s %s at %s: %s' % o[1:] for o in und][:60],
        samples=[('%s %s at %s: %s' % o[1:]).strip() for o in ctx.obl if o[0] == 'ok'][:: max(1, dec // 8)][:10] + ctx.samples,
        violated=['%s %s at %s: %s' % o[1:] for o in bad],
        known=['%s %s at %s: %s' % o[1:] for o in kn],
        violations_detail_file='evidence/%s.report.txt' % prop)
    cov.update(ctx.extra)
    if err:
        cov['error'] = err
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ctx.assumptions,
              wall_s=round(wall, 3), violations=len(bad))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rep = os.path.join(VERIF, 'evidence', prop + '.report.txt')
    with open(rep, 'w') as f:
        f.write('%s %s\n' % (prop, title))
        for o in bad:
            f.write('VIOLATED  %s [%s] at %s: %s\n' % (o[1], o[2], o[3], o[4]))
        for o in kn:
            f.write('KNOWN     %s [%s] at %s: %s\n' % (o[1], o[2], o[3], o[4]))
        for o in und:
            f.write('UNDECIDED %s [%s] at %s: %s\n' % (o[1], o[2], o[3], o[4]))
        for o in ctx.obl:
            if o[0] == 'ok':
                f.write('ok        %s [%s] at %s: %s\n' % (o[1], o[2], o[3], o[4]))
        if err:
            f.write('ERROR %s\n' % err)
    print('%s: %s' % (prop, title))
    print('  %d obligations: %d discharged, %d violated, %d known, %d undecided (%.1f s)' % (
        len(ctx.obl), dec, len(bad), len(kn), len(und), wall))
    for o in kn:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (prop, o[1] + ':' + o[2], o[3], known[o[1] + ':' + o[2]] or o[4]))
    for o in bad:
        print('  violated: %s [%s] at %s: %s' % (o[1], o[2], o[3], o[4]))
    if bad:
        if err:
            print('  note: the analysis stopped early: %s' % err.strip().split('\n')[-1])
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if err:
        print('ERROR: %s' % err)
        return 2
    return 0
