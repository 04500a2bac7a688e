"""C30: a call that fails or is interrupted at any point does no damage."""
import json
import numpy as np
import torch
from .. import alpha as A, faults, ref, tasks
from ..core import Violation
from ..impl import expect, lib, need, make_state, npy, row, T, tens, to_mps, engines_for, run_op
from . import c08, c18, c19, c21, c28, c29
from .gradlib import f32vec, observable

LEVEL = 'model_checking'
RULE = ('states = crash points: (call, source line visit, kind of exception), each executed on the real code by a fault injector; then '
        'object and process are compared with what they were and the call is repeated; refused calls: every history of valid and '
        'refused calls to a depth; transitions = faults injected plus calls made')
BOUNDS = {
    'quick': 'about 250 reading calls (every operation kind on every engine, inverse, back-propagation, every circuit route, gate-list circuits, layer '
             'builders, convolution, measurements, traces, conversions, encodings): an error at every source line '
             'they execute (more than 120 lines: first two and last visit of every line), an interrupt at the first visit of each, the rest of the process and a repetition of '
             'the call compared with a fresh process; one operation per kind, 6 circuits x 10 uses, gate-list circuits, convolution layers: the '
             'object compared on every observable after every fault; interrupted updates, then updated again; interrupted additions; refused '
             'updates, additions and gradient requests in histories of <=2',
    'thorough': 'every line visit, also running out of memory; histories of <=3; a second wire choice',
}
TOL = 2e-5
CIRS = [(tasks.SHORT2, 2), (tasks.DENSE2, 2), ([tasks.mk('u3', [1]), tasks.mk('cu3', [1, 0], 4)], 2),
        ([tasks.mk('XZLayer', [1, 0]), tasks.mk('ring_of_cnot', [0, 1]), tasks.mk('u1', [0], 3)], 2), (tasks.SHORT3, 3),
        ([tasks.mk('BasicEntangleLayer', [1, 0])], 2)]
READS = ['U', 'rev', 'exp', 'expD', 'mps', 'tn', 'batch', 'ps', 'saved', 'count']


def reads_of(ops):
    if any(not A.support_tn(o) for o in ops):
        return [r for r in READS if r not in ('mps', 'tn', 'batch', 'exp', 'saved')]
    return READS


# ---- one object: build it, a reading use of it, and a full comparison --------------------------------

def make(o):
    k = o[0]
    if k == 'op':
        return A.build(o[1], o[2])
    if k == 'cir':
        return A.circuit(o[1], o[2])
    return c29.shared_object(o)


def use(o, x, how):
    if o[0] == 'op' and how == 'info':
        return [x.info()]
    if o[0] == 'conv' and how == 'back':
        x.zero_grad()
        x(torch.tensor(c18.image(o[1]))).sum().backward()
        return []
    return c29.shared_use(o, x, how)


def observe(o, x, who):
    k = o[0]
    if k == 'op':
        c08.observe(x, o[1], who, True, o[2])
    elif k == 'cir':
        c21.observe(x, o[1], o[2], who)
    elif k == 'list':
        expect(x.U(), ref.U_seq([c19.rop(s) for s in o[2]], o[1]), '%s: U()' % who, 4e-5)
        c19.check_log(x, o[2])
    elif k == 'conv':
        w = np.array(c18.weights(o[1]), dtype=np.float32)
        expect(x.weight, w, '%s: weights' % who, 1e-6)
        need(x.weight.requires_grad, '%s: the weights cannot be trained any more' % who)
        im = c18.image(o[1])
        expect(x(torch.tensor(im)), c18.expected(im, w.astype(float) * float(getattr(x, 'w_mul', 1.0)), 2, o[1]['stride']),
               '%s: output' % who, 5e-5)
    elif k == 'pauli':
        op = ['PauliEncoding', o[2], A.gen(len(o[2])), {'pauli': o[3]}]
        v = f32vec(make_state(o[1], ['g']))
        for e in ('dense', 'tn', 'mps', 'batch'):
            expect(run_op(x, o[1], v, e), ref.apply_vec(op, v, o[1]), '%s: %s' % (who, e), TOL)


def fault_obj(c):
    """The fault at line k of a reading use of an object."""
    o = c['obj']
    x = make(o)
    a = c28.snapshot()
    faults.run(lambda: use(o, x, c['use']), c['k'], c['exc'])
    what = 'after %s fails at line %d (%s)' % (c['use'], c['k'], c['exc'])
    c28.compare(a, c28.snapshot(), '%s: this' % what)
    observe(o, x, what)


def fault_call(c):
    want = c28.base(c['call'])
    rng = not c28.uses_rng(c['call'])
    a = c28.snapshot(rng)
    how, r = faults.run(lambda: tasks.run(c['call']), c['k'], c['exc'])
    what = 'failing at line %d (%s)' % (c['k'], c['exc'])
    if how == 'returned':
        d = tasks.differs(r, want, 1e-4)
        need(d is None, '%s goes unnoticed and the answer is wrong: %s' % (what, d))
    c28.compare(a, c28.snapshot(rng), 'the call %s %s' % (c28.name(c['call']), what))
    d = tasks.differs(tasks.run(c['call']), want, 1e-4)
    need(d is None, 'after %s the call gives another answer: %s' % (what, d))


def fault_update(c):
    """An update fails at line k; the next, complete one must bring the operation to the new parameters."""
    op, N = c['op'], c['N']
    x = A.build(op, N)
    q = A.gen(len(op[2]), 5)
    faults.run(lambda: x.params_update(A.mk_params(op[0], q, c.get('pc', 'auto'))), c['k'], c['exc'])
    q = A.gen(len(op[2]), 8)
    x.params_update(A.mk_params(op[0], q, c.get('pc', 'auto')))
    c08.observe(x, [op[0], op[1], q] + op[3:], 'updated again after an update failed at line %d' % c['k'], True, N)


def fault_add(c):
    """Adding to a circuit fails at line k: the circuit is as before or as after, and the next addition works."""
    ops, N = c['ops'], c['N']
    x = A.circuit(ops, N)
    faults.run(lambda: A.add(x, c['add']), c['k'], c['exc'])
    now = ops + ([c['add']] if len(x.gate) > len(ops) else [])
    c21.observe(x, now, N, 'after an addition failed at line %d' % c['k'])
    A.add(x, c['add'])
    c21.observe(x, now + [c['add']], N, 'after an addition failed at line %d and was repeated' % c['k'])


# ---- refused calls ----------------------------------------------------------------------------------

def bad_values(n):
    out = []
    for m in sorted({0, 1, 2, n - 1, n + 1, 2 * n} - {n}):
        if m >= 0:
            out += [['list', m], ['tensor', m]]
    return out + [['none'], ['text']]


def value(b):
    return {'list': lambda m: A.gen(m, 7), 'tensor': lambda m: torch.tensor(A.gen(m, 7)), 'none': lambda: None, 'text': lambda: 'x'}[b[0]](*b[1:])


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def refuse_op(c):
    op, N = c['op'], c['N']
    op = list(op)
    x = A.build(op, N)
    for a in c['hist']:
        if a[0] == 'ok':
            q = A.gen(len(op[2]), a[1])
            x.params_update(A.mk_params(op[0], q))
            op[2] = q
        elif not refused(lambda: x.params_update(value(a[1]))):
            return                          # accepted: not this property's concern
    c08.observe(x, op, 'after the refused update', True, N)


BAD = [['rx', 0.3, 7], ['rx', 0.3, -1], ['u3', [0.1, 0.2], 0], ['cnot', [0, 0]], ['cnot', [0, 5]], ['cphase', 0.3, [0]], ['toffoli', [0, 1]],
       ['cu3', [0.1], [0, 1]], ['XZLayer', [0, 1], [0.1]], ['XYZLayer', [0, 0], A.gen(6)], ['YZYLayer', [0, 4], A.gen(6)], ['ring_of_cnot', [0]],
       ['BasicEntangleLayer', [0, 1], [0.3]], ['BasicEntangleLayer', [0, 1], A.gen(6), 0], ['multi_control_cnot', [0, 0]], ['rzz', 0.1, [1, 1]],
       ['SWAP', [0]], ['ry', [0.1, 0.2], 0], ['Hadamard', [0, 9]], ['bad gradient', 'M'], ['bad gradient', 'state'], ['bad gradient', 'none'],
       ['bad saved', 'state'], ['bad saved', 'dict'], ['bad saved', 'oper'], ['bad run', 'mps'], ['bad run', 'tn'], ['bad run', 'M'], ['bad update', 0],
       ['bad update', -1]]


def do_bad(x, b, N):
    qo, ql, qc, qt, qm = lib()
    v = f32vec(make_state(N, ['g', 1]))
    if b[0] == 'bad gradient':
        M, s = T(observable(N, 'H')), row(v)
        if b[1] == 'M':
            M = T(np.eye(2 ** N * 2))
        elif b[1] == 'state':
            s = row(np.ones(2 ** N * 2) / 2 ** ((N + 1) / 2))
        else:
            M = None
        return qc.parameter_shift(x, s, M).cal_params_grad()
    if b[0] == 'bad saved':
        z = qo.PauliZ(N, 0)
        if b[1] == 'state':
            return qc.parameter_shift(x, row(np.ones(2 ** N * 2) / 2 ** ((N + 1) / 2)), z.U_expand()).save_mid_MPS(z)
        if b[1] == 'oper':
            return qc.parameter_shift(x, row(v), z.U_expand()).save_mid_MPS(None)
        return qc.parameter_shift(x, row(v), z.U_expand()).cal_params_grad2({})
    if b[0] == 'bad run':
        if b[1] == 'mps':
            return x.TN_evolution(to_mps(make_state(N + 1, ['g']), N + 1))
        if b[1] == 'tn':
            return x.TN_contract_evolution(tens(make_state(N + 1, ['g']), N + 1))
        return x.cir_expectation(row(v), T(np.ones((2, 3))))
    if b[0] == 'bad update':
        return x.gate[b[1]].params_update('x')
    if b[0] == 'Hadamard':
        return [x.Hadamard(w) for w in b[1]][1:] and x.Hadamard(b[1])
    return getattr(x, b[0])(*b[1:])


def refuse_cir(c):
    ops, N = [list(o) for o in c['ops']], c['N']
    x = A.circuit(ops, N)
    for a in c['hist']:
        if a[0] == 'ok':
            A.add(x, a[1])
            ops.append(a[1])
        elif a[0] == 'upd':
            c21.act([0, 'upd', 0, a[1]], [x], [ops], [N])
        elif a[1][0] == 'Hadamard':
            if not refused(lambda: x.Hadamard(9)):
                return
        elif not refused(lambda: do_bad(x, a[1], N)):
            return
    c21.observe(x, ops, N, 'after the refused request')


def check_case(c):
    if c['t'] in ('call', 'seq'):
        if c['t'] == 'call':
            c28.base(c['call'])
        ok, r = c28.fresh(fault_call, c)
        need(ok, r)
        return
    fn = {'obj': fault_obj, 'upd': fault_update, 'add': fault_add, 'refuse_op': refuse_op, 'refuse_cir': refuse_cir}[c['t']]
    if c['t'].startswith('refuse'):
        return fn(c)
    ok, r = c28.fresh(fn, c)
    need(ok, r)


# ---- exploring --------------------------------------------------------------------------------------

def lines(c):
    if c['t'] == 'call':
        return faults.places(lambda: tasks.run(c['call']))
    if c['t'] == 'obj':
        x = make(c['obj'])
        return faults.places(lambda: use(c['obj'], x, c['use']))
    if c['t'] == 'upd':
        x = A.build(c['op'], c['N'])
        return faults.places(lambda: x.params_update(A.mk_params(c['op'][0], A.gen(len(c['op'][2]), 5), c.get('pc', 'auto'))))
    x = A.circuit(c['ops'], c['N'])
    return faults.places(lambda: A.add(x, c['add']))


def sweep(c, cap, full, kinds):
    """Every crash point of one call, in this (forked) process: (number of points, None or (case, message))."""
    where = lines(c)
    pts = c29.points(where, full, cap)
    once = pts if full else [k for k in pts if where.index(where[k - 1]) == k - 1]
    fn = {'call': fault_call, 'obj': fault_obj, 'upd': fault_update, 'add': fault_add}[c['t']]
    n = 0
    for exc in kinds:
        for k in (pts if exc == 'error' else once):
            n += 1
            d = dict(c, k=k, exc=exc)
            try:
                fn(d)
            except Violation as v:
                return n, (d, v.msg)
            except Exception as e:
                return n, (d, 'failing at line %d (%s) leaves something broken: %s: %s' % (k, exc, type(e).__name__, str(e)[:200]))
    return n, None


def unit_sweep(u, ctx):
    c = u['case']
    ok, r = c28.fresh(sweep, c, u['cap'], u['full'], u['kinds'])
    if not ok:
        ctx._fail(None, dict(c, k=0, exc='error'), r)
        return
    n, bad = r
    ctx.count('transitions', n)
    ctx.count('states', n)
    ctx.count('traces_validated_against_impl', n)
    ctx.sample(dict(c, k=1, exc='error'))
    if bad:
        ctx._fail(None, *bad)


def unit_refuse(cs, ctx):
    for c in cs:
        ctx.count('transitions', len(c['hist']))
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        if not ctx.case(c):
            return


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    import deepquantum.nn.modules.quanv    # noqa: F401
    from deepquantum.embeddings import qembedding, qstate   # noqa: F401
    faults.prepare()
    lib_ = tasks.library(light=True) + [['mps', 3], ['rho', 3], ['partial_trace', 3, [0, 1]]]
    for r in eng.map(unit_base, [lib_[i:i + 10] for i in range(0, len(lib_), 10)], keep=True):
        c28._BASE.update(dict(r or []))
    if eng.over:
        return
    c28.new_workers(eng)
    kinds = ['error', 'interrupt'] if q else ['error', 'interrupt', 'memory']
    cap = 120 if q else 10 ** 9
    cases = []
    for kind in A.ALL_KINDS:
        for i in range(1 if q else 2):
            op = tasks.mk(kind, tasks.wires(kind, i))
            hs = engines_for(op) + (['dagger'] if kind not in ('BasicEntangleLayer', 'ring_of_cnot2') else []) + ['info']
            cases += [{'t': 'obj', 'obj': ['op', op, 3], 'use': h} for h in hs]
            if op[2]:
                cases += [{'t': 'upd', 'op': op, 'N': 3, 'pc': pc} for pc in ('auto', 'list')]
    cases.append({'t': 'upd', 'op': ['BasicEntangleLayer', [2, 0], A.gen(12), {'repeat': 2}], 'N': 3})
    for ops, N in CIRS:
        cases += [{'t': 'obj', 'obj': ['cir', ops, N], 'use': r} for r in reads_of(ops)]
        cases += [{'t': 'add', 'ops': ops, 'N': N, 'add': a} for a in (tasks.mk('rx', [0]), tasks.mk('u3', [1]), tasks.mk('cnot', [1, 0]),
                  tasks.mk('XYZLayer', [1, 0]), tasks.mk('BasicEntangleLayer', [0, 1]), tasks.mk('multi_control_cnot', [0, 1]))]
    conv = ['conv', {'stride': 1, 'shape': [1, 1, 2, 2]}]
    cases += [{'t': 'obj', 'obj': conv, 'use': h} for h in (0.0, 'back')]
    lst = ['list', 2, [['rx', [0], 0.7], ['cnot', [1, 0], None], ['rzz', [0, 1], 0.9]]]
    cases += [{'t': 'obj', 'obj': lst, 'use': h} for h in ('U', 'fwd', 'rev')]
    cases += [{'t': 'obj', 'obj': ['pauli', 3, [2, 0], ax], 'use': h} for ax in 'XYZ' for h in ('dense', 'tn', 'mps', 'batch')]
    cases += [{'t': 'call', 'call': t} for t in lib_]
    slow = ('conv', 'convgrad')
    eng.map(unit_sweep, [{'case': c, 'cap': cap if c['t'] != 'call' or c['call'][0] not in slow else cap // 2 if q else 2000, 'full': not q, 'kinds': kinds}
                         for c in cases])
    cs = []
    for kind in A.ALL_KINDS:
        op = tasks.mk(kind, tasks.wires(kind))
        if op[2]:
            bads = [['bad', b] for b in bad_values(len(op[2]))]
            for b in bads:
                for h in ([b], [['ok', 4], b], [b, ['ok', 4]]) + (() if q else tuple([b, b2, ['ok', 6]] for b2 in bads)):
                    cs.append({'t': 'refuse_op', 'op': op, 'N': 3, 'hist': h})
                for b2 in bads:
                    cs.append({'t': 'refuse_op', 'op': op, 'N': 3, 'hist': [b, b2]})
    good = [['ok', tasks.mk('rx', [0], 3)], ['ok', tasks.mk('BasicEntangleLayer', [0, 1], 1)], ['upd', 6]]
    for ops, N in CIRS:
        bads = [['bad', b] for b in BAD]
        for b in bads:
            cs.append({'t': 'refuse_cir', 'ops': ops, 'N': N, 'hist': [b]})
            for g in good:
                cs += [{'t': 'refuse_cir', 'ops': ops, 'N': N, 'hist': h} for h in ([b, g], [g, b])]
                if not q:
                    cs += [{'t': 'refuse_cir', 'ops': ops, 'N': N, 'hist': [b, g, b2]} for b2 in bads]
            if N == 2 or not q:
                cs += [{'t': 'refuse_cir', 'ops': ops, 'N': N, 'hist': [b, b2]} for b2 in bads[::3 if q else 1]]
    eng.map(unit_refuse, chunks(cs, 40))


def unit_base(ts, ctx):
    return c28.unit_base(ts, ctx)
