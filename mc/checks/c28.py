"""C28: the answer of a call depends on its arguments only, and a call leaves nothing behind."""
import contextlib
import io
import itertools
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile
import traceback
import numpy as np
import torch
from .. import tasks
from ..core import Violation
from ..impl import need

LEVEL = 'model_checking'
RULE = ('states = (process history, ambient setting): a history is a sequence of calls made in one freshly forked process; '
        'transitions = calls executed; after every call its result is compared with the result of the same call as the '
        'first one of a fresh process, and the process-wide state with what it was before the call; distinct = distinct '
        '(setting, call) and (previous call, call) pairs')
BOUNDS = {
    'quick': 'about 240 calls (every operation kind on every engine, inverse, update, back-propagation, every circuit route, '
             'gate-list circuits, layer builders, convolution, measurements, traces, conversions, encodings): each under all '
             '48 combinations of {grad, no_grad, inference} x {1, 3 threads} x {deterministic '
             'algorithms} x {anomaly detection} x {2 seeds}; every ordered pair of them as neighbours in one process; every '
             'ordered pair of 4 settings as neighbours over each family of calls, all calls under one setting before all under another; 44 families of 20-800 calls that differ in one ingredient only (wires, register, angles, state, order), each forwards and backwards; imports of every module and pair of modules in a fresh interpreter',
    'thorough': 'also every ordered triple of 40 calls and the 48 settings on every engine of a second wire choice',
}
TOL = 1e-4
LIB = tasks.library()
SETTINGS = [dict(zip(('mode', 'threads', 'det', 'anom', 'seed'), c)) for c in itertools.product(
    ('grad', 'no_grad', 'inference'), (1, 3), (0, 1), (0, 1), (3, 4))]
MODULES = ['deepquantum', 'deepquantum.gates', 'deepquantum.gates.qoperator', 'deepquantum.gates.qcircuit', 'deepquantum.gates.qgate',
           'deepquantum.gates.qmath', 'deepquantum.gates.qtensornetwork', 'deepquantum.layers', 'deepquantum.layers.qlayer',
           'deepquantum.layers.qlayers', 'deepquantum.embeddings', 'deepquantum.embeddings.qembedding',
           'deepquantum.embeddings.qstate', 'deepquantum.nn.modules.quanv']


def uses_rng(t):
    if t[0] == 'w':
        t = t[2]
    return t[0].startswith('conv')          # a new layer draws its weights


def snapshot(rng=True):
    s = {'default dtype': torch.get_default_dtype(), 'gradient mode': torch.is_grad_enabled(),
         'inference mode': torch.is_inference_mode_enabled(), 'thread count': torch.get_num_threads(),
         'deterministic mode': torch.are_deterministic_algorithms_enabled(), 'anomaly mode': torch.is_anomaly_enabled(),
         'numpy error handling': repr(np.geterr()), 'numpy print options': repr(np.get_printoptions()),
         'torch print options': repr(vars(torch._tensor_str.PRINT_OPTS)), 'environment': repr(sorted(os.environ.items())),
         'working directory': os.getcwd(), 'files in the working directory': repr(sorted(os.listdir('.'))),
         'recursion limit': sys.getrecursionlimit(), 'flush denormal': float(torch.tensor(1e-39) * 1.0) != 0}
    if rng:
        s['torch random state'] = torch.get_rng_state().numpy().tobytes()
        n = np.random.get_state()
        s['numpy random state'] = (n[1].tobytes(), n[2])
        s['python random state'] = hash(random.getstate())
    return s


def compare(a, b, what):
    for k in a:
        need(a[k] == b[k], '%s changes the %s%s' % (what, k, '' if 'random' in k else ': %s -> %s' % (str(a[k])[-80:], str(b[k])[-80:])))


@contextlib.contextmanager
def setting(s):
    with contextlib.ExitStack() as st:
        if s['mode'] == 'no_grad':
            st.enter_context(torch.no_grad())
        elif s['mode'] == 'inference':
            st.enter_context(torch.inference_mode())
        if s['anom']:
            st.enter_context(torch.autograd.set_detect_anomaly(True))
        torch.set_num_threads(s['threads'])
        torch.use_deterministic_algorithms(bool(s['det']))
        torch.manual_seed(s['seed'])
        np.random.seed(s['seed'])
        random.seed(s['seed'])
        try:
            yield
        finally:
            torch.set_num_threads(1)
            torch.use_deterministic_algorithms(False)


def fresh(fn, *a):
    """fn(*a) in a forked process with an empty working directory: (True, result) or (False, message)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            with tempfile.TemporaryDirectory() as d:
                os.chdir(d)
                try:
                    res = (True, fn(*a))
                except Violation as v:
                    res = (False, v.msg)
                except BaseException as e:
                    tb = [f for f in traceback.extract_tb(e.__traceback__) if 'deepquantum' in f.filename]
                    res = (False, 'raised %s: %s%s' % (type(e).__name__, str(e)[:200], ' at %s:%s' % (
                        os.path.basename(tb[-1].filename), tb[-1].name) if tb else ''))
                os.chdir('/')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, 'the process died')


_BASE = {}


def base(t):
    """The result of call t as the first one of a process."""
    k = json.dumps(t)
    if k not in _BASE:
        ok, r = fresh(tasks.run, t)
        need(ok, 'alone in a fresh process: %s' % r, case={'t': 'alone', 'call': t})
        _BASE[k] = r
    return _BASE[k]


def name(t):
    return json.dumps(t)[:140]


def one(t, want, what):
    rng = not uses_rng(t)
    a = snapshot(rng)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        got = tasks.run(t)
    compare(a, snapshot(rng), 'the call %s' % name(t))
    need(not buf.getvalue(), 'the call %s prints %r' % (name(t), buf.getvalue()[:80]))
    d = tasks.differs(got, want, TOL)
    need(d is None, 'the call %s gives another answer %s: %s' % (name(t), what, d))


def run_settings(t, ss, want):
    for s in ss:
        if s['mode'] == 'inference' and 'grad' in t[0]:
            continue
        try:
            with setting(s):
                one(t, want, 'under %s' % s)
        except Violation:
            raise
        except Exception as e:
            raise Violation('the call %s under %s raised %s: %s' % (name(t), s, type(e).__name__, str(e)[:200]))
    return None


def run_mixed(items, wants):
    """[[setting, call], ...] one after the other: every setting change with objects of earlier settings around."""
    for i, ((s, t), w) in enumerate(zip(items, wants)):
        if s['mode'] == 'inference' and 'grad' in t[0]:
            continue
        what = 'under %s after %s' % (s, [[x['mode'], name(y)[:60]] for x, y in items[max(0, i - 1):i]])
        try:
            with setting(s):
                one(t, w, what)
        except Violation as v:
            return i, v.msg
        except Exception as e:
            return i, 'the call %s %s raised %s: %s' % (name(t), what, type(e).__name__, str(e)[:200])
    return None


def run_walk(ts):
    """All the calls in this order in one process: a list of results (or what went wrong)."""
    out = []
    rng = True
    for i, t in enumerate(ts):
        rng = not uses_rng(t)
        try:
            a = snapshot(rng)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                got = tasks.run(t)
            compare(a, snapshot(rng), 'the call %s' % name(t))
            need(not buf.getvalue(), 'the call %s prints %r' % (name(t), buf.getvalue()[:80]))
            out.append(got)
        except Violation as v:
            out.append(v.msg)
        except Exception as e:
            out.append('the call %s raised %s: %s' % (name(t), type(e).__name__, str(e)[:200]))
    return out


def walk_order(n, how):
    if how == 'back':
        return list(range(n))[::-1]
    return list(range(n))


def check_walk(ts):
    """The same calls forwards and backwards, in two processes: every pair of calls meets in both orders."""
    res = []
    for how in ('fwd', 'back'):
        o = walk_order(len(ts), how)
        ok, r = fresh(run_walk, [ts[i] for i in o])
        need(ok, r)
        back = [None] * len(ts)
        for i, x in zip(o, r):
            back[i] = x
        res.append(back)
    for i, (x, y) in enumerate(zip(*res)):
        for r in (x, y):
            if isinstance(r, str):
                ok, _ = fresh(tasks.run, ts[i])
                raise Violation(r + ('' if ok else ' (alone too)'), case={'t': 'walk', 'calls': ts[:i + 1] if r is x else ts[i:]})
        d = tasks.differs(x, y, TOL)
        if d is not None:
            msg = 'the call %s gives another answer after some calls of its family than before them: %s' % (name(ts[i]), d)
            for j in range(len(ts)):            # one earlier call that shows it
                if j != i:
                    pair = [ts[j], ts[i]]
                    ok, r = fresh(run_walk, pair)
                    ok2, r2 = fresh(run_walk, pair[1:])
                    if ok and ok2 and (isinstance(r[1], str) or tasks.differs(r[1], r2[0], TOL)):
                        raise Violation('the call %s gives another answer after %s: %s' % (name(ts[i]), name(ts[j]), d),
                                        case={'t': 'walk', 'calls': pair})
            raise Violation(msg)


def seeds_matter(t):
    """A call that may draw random numbers continues the caller's sequence instead of restarting it."""
    after = []
    for k in (3, 4):
        torch.manual_seed(k)
        np.random.seed(k)
        random.seed(k)
        tasks.build_only(t)
        after.append((torch.get_rng_state().numpy().tobytes(), np.random.get_state()[1].tobytes(), hash(random.getstate())))
    for x, y, what in zip(after[0], after[1], ('torch', 'numpy', 'python')):
        need(x != y, 'the call %s resets the %s random state: two different seeds end up the same' % (name(t), what))


def run_seq(seq, wants):
    for i, (t, w) in enumerate(zip(seq, wants)):
        try:
            one(t, w, 'after %s' % (name(seq[i - 1]) if i else 'nothing'))
        except Violation as v:
            return i, v.msg
        except Exception as e:
            return i, 'the call %s raised %s: %s after %s' % (name(t), type(e).__name__, str(e)[:200], name(seq[i - 1]) if i else 'nothing')
    return None


def check_case(c):
    if c['t'] == 'alone':
        base(c['call'])
    elif c['t'] == 'setting':
        ok, r = fresh(run_settings, c['call'], c['settings'], base(c['call']))
        need(ok, r)
    elif c['t'] == 'seq':
        wants = [base(t) for t in c['seq']]
        ok, r = fresh(run_seq, c['seq'], wants)
        need(ok, r)
        if r is not None:
            i, msg = r                  # find a short history that shows it
            for cut in (c['seq'][i:i + 1], c['seq'][max(0, i - 1):i + 1], c['seq'][max(0, i - 2):i + 1], c['seq'][:i + 1]):
                ok, r2 = fresh(run_seq, cut, [base(t) for t in cut])
                if not ok or r2 is not None:
                    raise Violation(msg if ok is False else r2[1], case={'t': 'seq', 'seq': cut})
            raise Violation(msg)
    elif c['t'] == 'walk':
        check_walk(c['calls'])
    elif c['t'] == 'mixed':
        run = lambda items: fresh(run_mixed, items, [base(t) for s, t in items])      # noqa: E731
        ok, r = run(c['items'])
        need(ok, r)
        if r is not None:
            i = r[0]
            for cut in [[c['items'][j], c['items'][i]] for j in reversed(range(i))] + [c['items'][:i + 1]]:
                ok, r2 = run(cut)
                if not ok or r2 is not None:
                    raise Violation(r[1] if not ok else r2[1], case={'t': 'mixed', 'items': cut})
            raise Violation(r[1])
    elif c['t'] == 'seeds':
        ok, r = fresh(seeds_matter, c['call'])
        need(ok, r)
    elif c['t'] == 'import':
        code = ('import sys, json\nsys.dont_write_bytecode = True\nsys.path[:0] = %r\nimport warnings\n'
                'warnings.filterwarnings("ignore")\nimport torch, numpy, random, os, tempfile, io, contextlib\n'
                'import torch.nn as nn, torch.nn.functional\nimport torchvision, matplotlib.pyplot\n'
                'torch.set_num_threads(1)\nos.chdir(%r)\nfrom mc.checks.c28 import snapshot\n'
                'a = snapshot()\nbuf = io.StringIO()\n'
                'with contextlib.redirect_stdout(buf):\n'
                '    import importlib\n    for m in %r: importlib.import_module(m)\n'
                'b = snapshot()\nbad = [k for k in a if a[k] != b[k]] + (["standard output"] if buf.getvalue() else [])\n'
                'print("BAD" + json.dumps(bad))')
        try:
            import torchvision, matplotlib      # noqa: F401, E401
        except ImportError:
            code = code.replace('import torchvision, matplotlib.pyplot\n', '')
        with tempfile.TemporaryDirectory() as d:
            r = subprocess.run([sys.executable, '-c', code % (sys.path, d, c['mods'])], capture_output=True, text=True, timeout=80)
        lines = [x for x in r.stdout.splitlines() if x.startswith('BAD')]
        need(lines, 'importing %s fails: %s' % (c['mods'], r.stderr[-300:]))
        bad = json.loads(lines[-1][3:])
        need(not bad, 'importing %s changes: %s' % (c['mods'], bad))


def unit_set(c, ctx):
    for s in c['settings']:
        ctx.distinct((c['call'], s))
    ctx.count('transitions', len(c['settings']))
    ctx.count('traces_validated_against_impl')
    ctx.sample({'t': 'setting', 'call': c['call'], 'settings': c['settings'][:1]})
    ctx.case(c)


def unit_seq(c, ctx):
    for a, b in zip(c['seq'], c['seq'][1:]):
        ctx.distinct((a, b))
    ctx.count('transitions', len(c['seq']))
    ctx.count('traces_validated_against_impl')
    ctx.case(c)


def unit_mixed(c, ctx):
    for a, b in zip(c.get('items', []), c.get('items', [])[1:]):
        ctx.distinct((a, b))
    ctx.count('transitions', len(c.get('items', [])) or 2)
    ctx.count('traces_validated_against_impl')
    ctx.case(c)


def unit_walk(c, ctx):
    for t in c['calls']:
        ctx.distinct(('walk', t))
    ctx.count('transitions', 2 * len(c['calls']))
    ctx.count('traces_validated_against_impl', 2)
    ctx.case(c)


def unit_imp(c, ctx):
    ctx.distinct(c)
    ctx.count('transitions', len(c['mods']))
    ctx.case(c)


def unit_base(ts, ctx):
    out = []
    for t in ts:
        r = ctx.guard({'t': 'alone', 'call': t}, base, t)
        if r is None:
            return out
        out.append((json.dumps(t), r))
    return out


def new_workers(eng):
    """Fresh worker processes, which inherit the answers collected so far."""
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    eng.pool.shutdown()
    eng.pool = ProcessPoolExecutor(eng.nproc, mp_context=multiprocessing.get_context('fork'))


MODES = [{'mode': m, 'threads': t, 'det': 0, 'anom': 0, 'seed': 3} for m, t in (('grad', 1), ('no_grad', 1), ('inference', 1), ('grad', 3))]


def mode_walk():
    """Every ordered pair of modes as neighbours."""
    out = []
    for i, a in enumerate(MODES):
        out += [a, a]
        for b in MODES[i + 1:]:
            out += [b, a]
    return out


def families(lib):
    """Calls that may share code: one family per operation kind, circuits, builders, the rest in pieces."""
    fam = {}
    for t in lib:
        if t[0] in ('op', 'dag', 'upd', 'grad'):
            k = t[1][0]
        elif t[0] in ('cir', 'list', 'listmeas', 'conv', 'convgrad'):
            k = t[0]
        elif t[0] == 'layer':
            k = 'layer' + t[1]['f'][:3]
        else:
            k = 'misc' + t[0][:2]
        fam.setdefault(k, []).append(t)
    return fam


def second(ts):
    """The same calls on other wires and parameters."""
    out = []
    for t in ts:
        if t[0] in ('op', 'dag', 'upd', 'grad'):
            kind = t[1][0]
            out.append([t[0], tasks.mk(kind, tasks.wires(kind, 1), 5)] + t[2:])
    return out


def explore(eng):
    q = eng.quick
    import deepquantum.nn.modules.quanv    # noqa: F401
    lib = list(LIB)
    sec = second(lib)
    for r in eng.map(unit_base, [(lib + sec)[i:i + 10] for i in range(0, len(lib + sec), 10)], keep=True):
        _BASE.update(dict(r or []))
    if eng.over:
        return
    new_workers(eng)
    eng.map(unit_walk, [{'t': 'walk', 'calls': f} for f in tasks.walks()])
    eng.map(unit_set, [{'t': 'setting', 'call': t, 'settings': SETTINGS} for t in lib + ([] if q else sec)])
    eng.map(unit_imp, [{'t': 'import', 'mods': [m]} for m in MODULES] + [{'t': 'import', 'mods': MODULES[::-1]}])
    if not q:
        eng.map(unit_imp, [{'t': 'import', 'mods': [a, b]} for a in MODULES for b in MODULES if a != b])
    eng.map(unit_mixed, [{'t': 'seeds', 'call': t} for t in lib if uses_rng(t)])
    fam = families(lib)
    mixed = []
    for k, ts in fam.items():
        ts = [t for t in ts if t[0] != 'cir' or t[3] not in ('ps',)] if q else ts
        mixed.append({'t': 'mixed', 'items': [[s, t] for s in mode_walk() for t in ts]})
        mixed.append({'t': 'mixed', 'items': [[s, t] for t in ts for s in reversed(mode_walk())]})
    allgrad = [t for t in lib if 'grad' in t[0] or t[0] == 'cir']
    for s in MODES[1:]:         # everything under another setting first, then everything as usual
        mixed.append({'t': 'mixed', 'items': [[s, t] for t in lib] + [[MODES[0], t] for t in allgrad + lib[::3]]})
    eng.map(unit_mixed, mixed)
    # unit i: i i i+1 i i+2 i ... every ordered pair of calls meets as neighbours exactly once
    units = []
    for i, a in enumerate(lib):
        seq = [a, a]
        for b in lib[i + 1:]:
            seq += [b, a]
        units.append({'t': 'seq', 'seq': seq})
    units += [{'t': 'seq', 'seq': [a, b, a, b]} for a, b in zip([t for t in lib if t[0] in ('op', 'dag', 'upd', 'grad')], sec)]
    if not q:
        sm = lib[::6][:40]
        for a in sm:
            for b in sm:
                s = []
                for c in sm:
                    s += [a, b, c]
                units.append({'t': 'seq', 'seq': s})
    eng.map(unit_seq, units)
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
