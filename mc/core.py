"""Exhaustive bounded exploration engine.

A check module (mc/checks/cNN.py) provides
    LEVEL, RULE, BOUNDS(tier) -> text
    explore(eng)          the enumeration: hands out work units, never samples
    check_case(case)      runs ONE case on the real code, raises Violation when the property fails there
A *case* is a JSON value; every violation is written as a replayable case file.
Work units run in forked worker processes; everything is deterministic.
"""
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 90           # one case takes milliseconds; this long means it does not end
TIMES = float(os.environ.get('VERIF_DEADLINE', '0'))


class Violation(Exception):
    """The property fails.  sig identifies the specific failing thing (for known findings)."""

    def __init__(self, msg, sig=None, case=None):
        super().__init__(msg)
        self.msg, self.sig, self.case = msg, sig, case


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


class Ctx:
    """Counters of one work unit (merged by the engine)."""

    def __init__(self, mod):
        self.mod = mod
        self.n = {}
        self.keys = set()
        self.fails = []
        self.samples = []
        self.stop = False

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def distinct(self, key):
        self.keys.add(key if isinstance(key, int) else hash_key(key))

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def guard(self, case, fn, *a):
        """Run fn(*a): anything the code under test does wrong there is a failure of `case`."""
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            return fn(*a)
        except Violation as v:
            self._fail(v.sig, v.case or case, v.msg)
        except Timeout:
            self._fail(None, case, 'did not finish within %d s' % CASE_SECONDS)
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if 'deepquantum' in f.filename] or tb
            loc = ' at %s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else ''
            self._fail(None, case, 'raised %s: %s%s' % (type(e).__name__, str(e)[:200], loc))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None

    def case(self, case):
        """Run one case; True when it went through."""
        k = len(self.fails)
        self.guard(case, self.mod.check_case, case)
        return len(self.fails) == k

    def _fail(self, sig, case, msg):
        if len(self.fails) < 50:
            self.fails.append((sig, case, msg))


def hash_key(x):
    import hashlib
    if not isinstance(x, bytes):
        x = repr(x).encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


_MOD = None


def _run_unit(fn_name, unit):
    ctx = Ctx(_MOD)
    ret = getattr(_MOD, fn_name)(unit, ctx)
    return ret, ctx.n, ctx.keys, ctx.fails, ctx.samples


class Engine:
    def __init__(self, pid, mod, tier, seed, known):
        global _MOD
        _MOD = mod
        self.pid, self.mod, self.tier, self.seed, self.known = pid, mod, tier, seed, known
        self.quick = tier != 'thorough'
        self.n = {}
        self.keys = set()
        self.samples = []
        self.violation = None
        self.known_hit = {}
        self.capped = False
        self.t0 = time.time()
        self.limit = TIMES or (600 if self.quick else 10800)
        self.nproc = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
        self.pool = ProcessPoolExecutor(self.nproc, mp_context=multiprocessing.get_context('fork'))
        self.notes = {}

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def _merge(self, res):
        ret, n, keys, fails, samples = res
        for k, v in n.items():
            self.count(k, v)
        self.keys |= keys
        if len(self.samples) < 6:
            self.samples += samples[:1]
        bad = None
        for sig, case, msg in fails:
            if sig is not None and sig in self.known:
                self.known_hit[sig] = self.known_hit.get(sig, 0) + 1
            elif bad is None:
                bad = (sig, case, msg)
        return ret, bad

    @property
    def over(self):
        return self.violation is not None

    def map(self, fn, units, keep=False):
        """Run module function fn over all units (simplest first); stops early at a violation."""
        name = fn if isinstance(fn, str) else fn.__name__
        if self.over:
            return []
        units = list(units)
        rets = [None] * len(units) if keep else None
        it = iter(enumerate(units))
        live, found = {}, None
        exhausted = False
        while True:
            while not exhausted and found is None and len(live) < 3 * self.nproc:
                if time.time() - self.t0 > self.limit:
                    self.capped = True
                    exhausted = True
                    break
                try:
                    i, u = next(it)
                except StopIteration:
                    exhausted = True
                    break
                live[self.pool.submit(_run_unit, name, u)] = i
            if not live:
                break
            done, _ = wait(list(live), return_when=FIRST_COMPLETED)
            for f in done:
                i = live.pop(f)
                ret, bad = self._merge(f.result())
                if keep:
                    rets[i] = ret
                if bad and (found is None or i < found[0]):
                    found = (i,) + bad
            if found is not None:
                exhausted = True
        if found is not None:
            self.violation = found[1:]
        return rets if keep else []

    def bfs(self, fn, roots, chunk=1, max_states=None, stage=None):
        """Level-synchronous breadth-first search.

        roots: list of (key, state) with JSON-able states (histories).  fn(unit, ctx) gets a list of
        states and returns [(key, successor state), ...]; duplicates are merged on key here.
        """
        seen = set()
        level = []
        for k, s in roots:
            if k not in seen:
                seen.add(k)
                level.append(s)
        depth = 0
        while level and not self.over:
            units = [level[i:i + chunk] for i in range(0, len(level), chunk)]
            rets = self.map(fn, units, keep=True)
            if self.capped or self.over:
                break
            nxt = []
            for r in rets:
                for k, s in (r or []):
                    if k not in seen:
                        if max_states and len(seen) >= max_states:
                            self.capped = True
                            continue
                        seen.add(k)
                        nxt.append(s)
            level = nxt
            if level:
                depth += 1
        self.count('states', len(seen))
        if stage:
            self.notes.setdefault('stages', []).append({'stage': stage, 'states': len(seen), 'max_depth': depth})
        return seen

    def stage(self, text, **kw):
        self.notes.setdefault('stages', []).append(dict(stage=text, **kw))


def load_known(pid):
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                sig, _, what = rest.partition(' ')
                assert sig.startswith('sig=')
                known[sig[4:]] = what
    return known


def run(pid, mod, tier, seed, outdir):
    t0 = time.time()
    known = load_known(pid)
    eng = Engine(pid, mod, tier, seed, known)
    try:
        mod.explore(eng)
    finally:
        procs = list((eng.pool._processes or {}).values())
        eng.pool.shutdown(wait=eng.violation is None and sys.exc_info()[0] is None, cancel_futures=True)
        for p in procs:
            if p.is_alive():
                p.kill()
    cov = {'samples': eng.samples or ['(none)'], 'rule': mod.RULE, 'bounds': mod.BOUNDS[tier]}
    for k, v in eng.n.items():
        cov[k] = v
    if mod.LEVEL == 'exploration':
        cov.setdefault('evaluations', 0)
        cov['distinct_nontrivial'] = len(eng.keys)
    else:
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov.setdefault(k, 0)
        if eng.keys:
            cov['distinct_nontrivial'] = len(eng.keys)
    cov.update(eng.notes)
    cov['exhaustive'] = not eng.capped and eng.violation is None
    if eng.capped:
        cov['cap'] = 'stopped at %d s; everything handed out before that was covered' % eng.limit
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if eng.violation else 0}
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for sig in eng.known_hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[sig]))
    line = ' '.join('%s=%s' % (k, cov[k]) for k in
                    ('states', 'transitions', 'traces_validated_against_impl', 'evaluations', 'distinct_nontrivial')
                    if k in cov)
    print('%s %s: %s wall=%.1fs%s' % (pid, tier, line, ev['wall_s'], ' CAPPED' if eng.capped else ''))
    if eng.violation:
        sig, case, msg = eng.violation
        rdir = os.path.join(outdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'message': msg, 'signature': sig, 'case': case,
                       'replay_cmd': '/opt/venv/bin/python run.py %s --replay %s' % (pid, path)}, f, indent=1)
            f.write('\n')
        print('  %s' % msg)
        print('  case: %s' % json.dumps(case)[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def replay(pid, mod, path):
    d = json.load(open(path))
    ctx = Ctx(mod)
    ctx.case(d['case'])
    if ctx.fails:
        print(ctx.fails[0][2])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s: case passes' % pid)
    return 0
