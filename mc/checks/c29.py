"""C29: threads that use separate objects, or only read a shared one, get the sequential answers under every schedule in bounds."""
import json
import numpy as np
import torch
from .. import alpha as A, sched, tasks
from ..core import Violation
from ..impl import lib, need, make_state, run_op, engines_for, tens, to_mps, from_mps
from . import c28

LEVEL = 'model_checking'
RULE = ('states = schedules (which thread runs up to which step, who is next); every schedule is executed on the real code by '
        'a scheduler that owns the baton at every source line (or bytecode) of the package; transitions = handovers executed; '
        'each thread result is compared with the same call made alone in a fresh process')
BOUNDS = {
    'quick': 'about 240 calls, each against the same kind of call with other wires, parameters and register size and against three fixed '
             'different calls (one of the three; starting with the call): every schedule with one preemption at line granularity from both starting threads (calls of more '
             'than 60-150 lines: first, second and last visit of every line); small calls: two preemptions, and one preemption at every '
             'bytecode; one shared operation x every pair of engines, one shared circuit x every pair of evaluation routes, '
             'shared layers, convolution and gate-list circuits: one preemption; three threads with separate circuits',
    'thorough': 'every line visit of every call, two preemptions for all pairs of up to 90 x 90 steps, every bytecode of calls up '
                'to 1500 bytecodes, three-thread schedules with two preemptions',
}
TOL = 1e-4


# ---- building the threads ---------------------------------------------------------------------------

def shared_object(s):
    k = s[0]
    if k == 'op':
        return A.build(s[1], s[2])
    if k == 'cir':
        return A.circuit(s[1], s[2])
    if k == 'conv':
        from . import c18
        return c18.layer(s[1])
    if k == 'list':
        from . import c19
        cir = c19.qg().Circuit(s[1])
        for c in s[2]:
            c19.do(cir, c)
        return cir
    if k == 'pauli':
        from deepquantum.embeddings import qembedding as qe
        return qe.PauliEncoding(s[1], torch.tensor(A.gen(len(s[2]))), list(s[2]), s[3])
    raise KeyError(k)


def shared_use(s, obj, how):
    """A reading use of the shared object."""
    k = s[0]
    if k == 'op' or k == 'pauli':
        N = s[2] if k == 'op' else s[1]
        if how == 'dagger':
            return tasks.out([obj.operation_dagger().U_expand()])
        return tasks.out([run_op(obj, N, make_state(N, ['g', 2]), how)])
    if k == 'cir':
        return tasks.out(tasks.circuit_route(obj, s[1], s[2], how))
    if k == 'conv':
        from . import c18
        return tasks.out([obj(torch.tensor(c18.image(dict(s[1], xo=how))))])
    if k == 'list':
        return tasks.out([obj.U()] if how == 'U' else [obj.gate_sequence_product(left_to_right=how == 'fwd')])


def fns_of(c):
    if c['t'] == 'own':
        return [(lambda t=t: tasks.run(t)) for t in c['tasks']]
    obj = shared_object(c['obj'])
    return [(lambda h=h: shared_use(c['obj'], obj, h)) for h in c['tasks']]


def alone(c, i):
    if c['t'] == 'own':
        return c28.base(c['tasks'][i])
    k = json.dumps([c['obj'], c['tasks'][i]])
    if k not in c28._BASE:
        ok, r = c28.fresh(lambda: shared_use(c['obj'], shared_object(c['obj']), c['tasks'][i]))
        need(ok, 'alone in a fresh process: %s' % r)
        c28._BASE[k] = r
    return c28._BASE[k]


def execute(c):
    want = [alone(c, i) for i in range(len(c['tasks']))]
    r = sched.Run(fns_of(c), [tuple(p) for p in c['plan']], c.get('grain', 'line'), c.get('start', 0)).go()
    for i, e in enumerate(r.errors):
        if e is not None:
            raise Violation('thread %d (%s) raised %s: %s when another thread runs in between'
                            % (i, json.dumps(c['tasks'][i])[:120], type(e).__name__, str(e)[:200]))
        d = tasks.differs(r.results[i], want[i], TOL)
        need(d is None, 'thread %d (%s) gets another answer than alone: %s' % (i, json.dumps(c['tasks'][i])[:120], d))
    return r


def check_case(c):
    execute(c)


# ---- enumerating schedules --------------------------------------------------------------------------

def steps_of(c, i, grain):
    """The step numbers of thread i running alone, with the places they belong to."""
    r = sched.Run([fns_of(c)[i]], [], grain, count=True).go()
    if r.errors[0] is not None:
        raise r.errors[0]
    return r.places


def points(places, full, cap):
    n = len(places)
    if full or n <= cap:
        return list(range(1, n + 1))
    seen, last = {}, {p: i for i, p in enumerate(places)}
    out = []
    for i, p in enumerate(places):
        seen[p] = seen.get(p, 0) + 1
        if seen[p] <= 2 or last[p] == i:
            out.append(i + 1)
    return out


def unit(u, ctx):
    c, bound, full = u['case'], u.get('bound', 1), u.get('full', False)
    grain = c.get('grain', 'line')
    n = len(c['tasks'])
    pts = []
    for i in range(n):
        p = ctx.guard(dict(c, plan=[]), steps_of, c, i, grain)
        if p is None:
            return
        pts.append(points(p, full, u.get('cap', 250)))

    def go(plan, start):
        case = dict(c, plan=plan, start=start)
        ctx.count('transitions', len(plan) + 1)
        ctx.count('traces_validated_against_impl')
        ctx.distinct(case)
        return ctx.case(case)

    for s in range(n if u.get('both', True) else 1):
        others = [j for j in range(n) if j != s]
        if not go([], s):
            return
        for to in others:
            for k in pts[s]:
                if not go([[s, k, to]], s):
                    return
                if bound > 1:
                    for k2 in pts[to]:
                        for back in [j for j in range(n) if j != to]:
                            if not go([[s, k, to], [to, k2, back]], s):
                                return
    if len(ctx.samples) < 1:
        ctx.sample(dict(c, plan=[[0, pts[0][len(pts[0]) // 2], 1]] if pts[0] else []))


def c28_base(ts, ctx):
    return c28.unit_base(ts, ctx)


def unit_alone(cs, ctx):
    out = []
    for c in cs:
        r = ctx.guard(dict(c, plan=[]), alone, c, 0)
        if r is None:
            return out
        out.append((json.dumps([c['obj'], c['tasks'][0]]), r))
    return out


def variant(t, j=0):
    """A call of the same kind on other data."""
    t = json.loads(json.dumps(t))
    if t[0] in ('op', 'dag', 'upd', 'grad'):
        kind = t[1][0]
        t[1] = tasks.mk(kind, tasks.wires(kind, 1), 5)
        if j and A.arity(kind)[0] < 3:
            t[1] = tasks.mk(kind, [0] if A.arity(kind)[1] == 1 else [1, 0], 7)
            t[2] = 2
    elif t[0] == 'cir':
        t[1] = [[o[0], o[1][::-1], A.gen(len(o[2]), 11)] for o in t[1][::-1]]
    elif t[0] == 'list':
        t[2] = t[2][::-1]
    elif t[0] == 'layer':
        if 'p' in t[1]:
            t[1]['p'] = A.gen(len(t[1]['p']), 9)
        elif t[1]['f'] == 'HLayer':
            t[1]['N'] = 2
        else:
            t[1]['down'] = not t[1]['down']
            if j:
                t[1]['N'] = 4
    elif t[0] in ('conv', 'convgrad'):
        t[1]['wo'] = 3
    elif t[0] == 'meas':
        t = ['meas', 3, 'rho' if t[2] == 'col' else 'col', 2]
    elif t[0] in ('partial_trace', 'partial_trace_old'):
        t = [t[0], 3, [2]]
    elif t[0] == 'ptrace':
        t = [t[0], 3, 2]
    elif t[0] in ('inner', 'mps', 'kron', 'mexp', 'rho'):
        t[1] = 2 if t[1] == 3 else 3
        if t[0] == 'mexp':
            t[2] = [1]
    elif t[0] == 'pauli':
        t[2] = [1]
    elif t[0] in ('amp', 'pred', 'expval'):
        t[1] = 1 if t[0] != 'amp' else 3
    return t


PARTNERS = [['cir', tasks.SHORT2[1:], 2, 'U'], ['layer', {'f': 'YZYLayer', 'N': 2, 'p': A.gen(6, 3)}],
            ['op', tasks.mk('cu3', [1, 0], 4), 2, 'tn']]


def explore(eng):
    q = eng.quick
    import deepquantum.nn.modules.quanv    # noqa: F401
    lib = tasks.library(light=True)
    slow = ('conv', 'convgrad')
    units = []
    own = lambda a, b, **k: dict(case=dict(t='own', tasks=[a, b], **k.pop('c', {})), full=not q, **k)  # noqa: E731
    for t in lib:
        units.append(own(t, variant(t), cap=(60 if t[0] in slow + ('cir',) else 150) if q else 250))
        v = variant(t, 1)
        if v != variant(t):
            units.append(own(t, v, cap=80, both=not q))
    for i, t in enumerate(lib):
        if t[0] not in slow and not (q and t[0] == 'cir' and i % 3):
            for p in PARTNERS[i % 3:i % 3 + 1] if q else PARTNERS:
                units.append(own(t, p, cap=60, both=not q))
    small = [t for t in lib if t[0] in ('upd', 'dag') or t[0] == 'op' and t[3] in ('dense', 'tn')]
    for t in small:
        kind = t[1][0]
        if t[0] == 'upd':
            units.append(own(t, variant(t), c={'grain': 'op'}, cap=160))
        if A.arity(kind) == (1, 1) and (not q or t[0] == 'op' and t[3] == 'dense' and kind == 'rx'):
            units.append(own(t, variant(t), bound=2, cap=60))
    # one shared object, read by both
    for kind in A.ALL_KINDS:
        op = tasks.mk(kind, tasks.wires(kind))
        hs = engines_for(op) + (['dagger'] if kind not in ('BasicEntangleLayer', 'ring_of_cnot2') else [])
        for i, a in enumerate(hs):
            for b in hs[i:]:
                units.append(dict(case={'t': 'shared', 'obj': ['op', op, 3], 'tasks': [a, b]}, full=not q, cap=60))
    for ops, rs in ((tasks.SHORT2, ['U', 'rev', 'exp', 'expD', 'mps', 'tn', 'batch', 'count']), (tasks.DENSE2, ['U', 'rev', 'expD', 'count'])):
        for i, a in enumerate(rs):
            for b in rs[i:]:
                units.append(dict(case={'t': 'shared', 'obj': ['cir', ops, 2], 'tasks': [a, b]}, full=not q, cap=150))
    units.append(dict(case={'t': 'shared', 'obj': ['conv', {'stride': 1, 'shape': [1, 1, 2, 2]}], 'tasks': [0.0, 1.5]}, full=not q, cap=100))
    lst = ['list', 2, [['rx', [0], 0.7], ['cnot', [1, 0], None], ['rzz', [0, 1], 0.9]]]
    for a, b in (('U', 'U'), ('U', 'fwd'), ('fwd', 'rev'), ('U', 'rev'), ('rev', 'rev')):
        units.append(dict(case={'t': 'shared', 'obj': lst, 'tasks': [a, b]}, full=not q))
    for ax in 'XYZ':
        for a, b in (('dense', 'tn'), ('dense', 'dense'), ('mps', 'tn'), ('batch', 'mps')):
            units.append(dict(case={'t': 'shared', 'obj': ['pauli', 3, [2, 0], ax], 'tasks': [a, b]}, full=not q, cap=120))
    # three threads
    tri = [['upd', tasks.mk('u3', [1]), 2, 'dense', 9], ['upd', tasks.mk('u3', [0], 4), 2, 'tn', 3], ['cir', tasks.SHORT2[:2], 2, 'U']]
    units.append(dict(case={'t': 'own', 'tasks': tri}, bound=1 if q else 2, full=not q, cap=60))
    for kind in ('rx', 'cphase', 'XZLayer'):
        a = ['upd', tasks.mk(kind, tasks.wires(kind)), 3, 'dense', 9]
        units.append(dict(case={'t': 'own', 'tasks': [a, variant(a), variant(a, 1)]}, bound=1 if q else 2, full=not q, cap=60))
    if not q:
        for t in lib:
            if t[0] not in slow + ('cir',):
                units.append(own(t, variant(t), bound=2, cap=90) | {'full': False})
                units.append(own(t, variant(t), c={'grain': 'op'}, cap=1500) | {'full': False})
    # the sequential answers first, each from a fresh process; then new workers that inherit them
    own_calls, shared = {}, {}
    for u in units:
        for i, t in enumerate(u['case']['tasks']):
            if u['case']['t'] == 'own':
                own_calls[json.dumps(t)] = t
            else:
                shared[json.dumps([u['case']['obj'], t])] = dict(u['case'], tasks=[t])
    own_calls, shared = list(own_calls.values()), list(shared.values())
    for r in eng.map(c28_base, [own_calls[i:i + 10] for i in range(0, len(own_calls), 10)], keep=True):
        c28._BASE.update(dict(r or []))
    for r in eng.map(unit_alone, [shared[i:i + 10] for i in range(0, len(shared), 10)], keep=True):
        c28._BASE.update(dict(r or []))
    if eng.over:
        return
    c28.new_workers(eng)
    eng.map(unit, units)
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
