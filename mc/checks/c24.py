"""C24: rebuild every operation from what it says about itself, after every short history; check its declared flags."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, to_mps, from_mps, T, npy, run_op, ENGINES
from .gradlib import f32vec, observable

LEVEL = 'model_checking'
RULE = ('states = (operation, wires, history of updates/evaluations/inversions/gradients); after each the operator rebuilt '
        'from label, control wires, target wires and parameters by textbook definitions must equal the dense operator and '
        'the action on every engine it declares; declared counts and flags must hold; transitions = actions executed')
BOUNDS = {
    'quick': 'every kind x every ordered wire tuple (N<=4, rings and layers of every length; wide ones N<=6, repeat 1..5) with no history; every kind x '
             '2 wire choices x all histories of length <=3 over 9 actions (updates in 3 containers, inverse, gradients inside a '
             'circuit, evaluations); histories of 7 and 16 actions',
    'thorough': 'histories of length 4; every wire tuple with histories of length 2; N=5',
}
TOL = 2e-5
LABELS = {'Hadamard': 'Hadamard', 'PauliX': 'PauliX', 'PauliY': 'PauliY', 'PauliZ': 'PauliZ', 'Rx': 'rx', 'Ry': 'ry', 'Rz': 'rz',
          'u1': 'u1', 'u3': 'u3', 'Rxx': 'rxx', 'Ryy': 'ryy', 'Rzz': 'rzz', 'cnot': 'cnot', 'cz': 'cz', 'cphase': 'cphase', 'cu3': 'cu3',
          'SWAP': 'SWAP', 'toffoli': 'toffoli', 'HadamardLayer': 'HLayer', 'BasicEntangleLayer': 'BasicEntangleLayer',
          'XYZLayer': 'XYZLayer', 'ZYXLayer': 'ZYXLayer', 'YZYLayer': 'YZYLayer', 'XZXLayer': 'XZXLayer', 'XZLayer': 'XZLayer',
          'ZXLayer': 'ZXLayer'}
PAIRS = {'ring_of_cnot_Layer': 1, 'ring_of_cnot2_Layer': 1, 'ring_of_cnot_dagger': -1}


def rebuild(info, N):
    """The operator an operation's self-description stands for."""
    lab = info['label']
    ctl, tgt = [int(q) for q in info['contral_lst']], [int(q) for q in info['target_lst']]
    p = [] if info['params'] is None else [float(x) for x in npy(info['params']).real.reshape(-1)]
    t = np.eye(2 ** N, dtype=complex).reshape((2,) * N + (2 ** N,))
    if lab in PAIRS:
        need(len(ctl) == len(tgt) and len(ctl), '%s names %d controls and %d targets' % (lab, len(ctl), len(tgt)))
        for c, g in list(zip(ctl, tgt))[::PAIRS[lab]]:
            need(c != g, '%s names the pair (%d, %d)' % (lab, c, g))
            t = ref.apply_m(ref.CNOT, [c, g], t)
        return t.reshape(2 ** N, 2 ** N), p, ctl + tgt
    if lab.endswith('_control_cnot'):
        need(int(lab.split('_')[0]) == len(ctl), 'label %s but %d controls' % (lab, len(ctl)))
        kind = 'multi_control_cnot'
    else:
        need(lab in LABELS, 'unknown label %r' % lab)
        kind = LABELS[lab]
    need(len(p) == 0 or A.nparams(kind, tgt) > 0, '%s reports parameters' % lab)
    ex = []
    if kind == 'BasicEntangleLayer':
        need(len(p) % (3 * len(tgt)) == 0, '%s reports %d parameters on %d wires' % (lab, len(p), len(tgt)))
        ex = [{'repeat': len(p) // (3 * len(tgt))}]
    else:
        need(len(p) == A.nparams(kind, tgt), '%s reports %d parameters on targets %s' % (lab, len(p), tgt))
    return ref.U([kind, ctl + tgt, p] + ex, N), p, ctl + tgt


def judge(o, N, engines, what):
    info = o.info()
    U, p, wires = rebuild(info, N)
    D = o.U_expand()
    expect(D, U, '%s: dense operator against info() %s' % (what, info), TOL)
    need(o.num_params == len(p), '%s: num_params is %s, info() has %d' % (what, o.num_params, len(p)))
    if hasattr(o, 'num_wires'):
        need(o.num_wires == len(set(wires)), '%s: num_wires is %s, info() names %s' % (what, o.num_wires, wires))
    need(o.nqubits == N, '%s: nqubits is %s' % (what, o.nqubits))
    d = npy(D)
    if getattr(o, 'self_inverse', False):
        expect(d @ d, np.eye(2 ** N), '%s declares itself self-inverse: square' % what, TOL)
    if getattr(o, 'diagonal', False):
        expect(d - np.diag(np.diag(d)), np.zeros_like(d), '%s declares itself diagonal: rest' % what, 1e-6)
    if o.supportTN:
        v = f32vec(make_state(N, ['g']))
        for e in engines:
            expect(run_op(o, N, v, e), U @ v, '%s declares tensor-network support: %s' % (what, e), TOL)


def check_case(c):
    qc = lib()[2]
    N, op = c['N'], c['op']
    kind = op[0]
    o = A.build(op, N, c.get('pc', 'auto'), c.get('wc', 'list'))
    n = len(op[2])
    dag = kind not in ('BasicEntangleLayer', 'ring_of_cnot2')
    want = ref.U(op, N)
    inverted = False
    for a in c.get('hist', []):
        if a[0] == 'upd' and n:
            q = A.gen(n, a[1])
            o.params_update(A.mk_params(kind, q, a[2]))
            # an inverse may be of another kind: its own description (judge) is then what the update is held to
            want = None if inverted else ref.U([kind, op[1], q] + op[3:], N)
        elif a[0] == 'inv' and dag:
            o = o.operation_dagger()
            inverted = True
            want = None if want is None else want.conj().T
        elif a[0] == 'ev':
            o.U_expand()
            if o.supportTN:
                run_op(o, N, make_state(N, ['p']), a[1])
        elif a[0] == 'grad':
            cir = qc.Circuit(N)
            cir.add(o)
            g = qc.parameter_shift(cir, row(make_state(N, ['g'])), T(observable(N, 'H'))).cal_params_grad()
            need(g.numel() == o.num_params, 'gradient has %d entries, num_params is %d' % (g.numel(), o.num_params))
    judge(o, N, ENGINES[1:], '%s on %s' % (kind, op[1]))
    if want is not None:
        expect(o.U_expand(), want, '%s: dense operator' % kind, TOL)


def go(ctx, c):
    ctx.count('transitions', 1 + len(c.get('hist', [])))
    ctx.count('traces_validated_against_impl')
    ctx.distinct(c)
    ctx.sample(c)
    return ctx.case(c)


def unit(cs, ctx):
    for c in cs:
        if not go(ctx, c):
            return


ACTS = [['upd', 6, 'auto'], ['upd', 11, 'list'], ['upd', 3, 'grad'], ['upd', 9, 't1'], ['inv', 0], ['ev', 'mps'], ['ev', 'tn'], ['grad'],
        ['ev', 'batch']]


def unit_hist(u, ctx):
    N, op, depth, pre = u
    for rest in itertools.product(ACTS, repeat=depth - len(pre)):
        if not go(ctx, {'N': N, 'op': op, 'hist': pre + list(rest)}):
            return


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def choices(kind):
    lo, hi = A.arity(kind)
    if hi == 1:
        return [[1], [2]]
    if hi == 2:
        return [[2, 0], [0, 1]]
    if hi == 3:
        return [[2, 0, 1], [0, 1, 2]]
    return [[2, 0], [1, 2, 0]]


def explore(eng):
    q = eng.quick
    for N in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        cs = []
        for kind in A.ALL_KINDS:
            for w in A.wire_choices(kind, N, 3 if N == 5 else None):
                op = [kind, w, A.gen(A.nparams(kind, w), len(w))]
                cs.append({'N': N, 'op': op})
                if N < 4:
                    cs.append({'N': N, 'op': op, 'pc': 'list', 'wc': 'tuple'})
                    if op[2]:
                        cs.append({'N': N, 'op': op, 'pc': 'grad'})
                if kind == 'BasicEntangleLayer' and N < 4:
                    cs.append({'N': N, 'op': [kind, w, A.gen(6 * len(w)), {'repeat': 2}]})
        eng.map(unit, chunks(cs, 20))
    cs = []
    for N in (4, 5, 6) if q else (5, 6, 7):
        cs += [{'N': N, 'op': op, 'hist': h} for op in A.wide_ops(N) for h in ([], [['upd', 6, 'auto']], [['inv', 0], ['ev', 'tn']])]
        cs += [{'N': N, 'op': op} for op in A.ops(N, [k for k in A.ALL_KINDS if k not in A.VARIABLE])] if N > 4 else []
    for r in (1, 2, 3, 4, 5):
        for N, w in ((2, [1, 0]), (3, [2, 0, 1]), (4, [0, 1, 2, 3])):
            for h in ([], [['upd', 6, 'auto']], [['grad'], ['upd', 3, 'list'], ['grad']]):
                cs.append({'N': N, 'op': ['BasicEntangleLayer', w, A.gen(3 * len(w) * r), {'repeat': r}], 'hist': h})
    for kind in A.ALL_KINDS:        # long histories
        for w in choices(kind):
            for a in (1, 2, 4, 5, 7):
                for n in (7, 16):
                    cs.append({'N': 3, 'op': [kind, w, A.gen(A.nparams(kind, w))], 'hist': [ACTS[(i * a + n) % len(ACTS)] for i in range(n)]})
    eng.map(unit, chunks(cs, 20))
    for depth in (1, 2, 3) if q else (1, 2, 3, 4):
        units = []
        for kind in A.ALL_KINDS:
            ws = choices(kind) if depth < 3 or not q else choices(kind)[:1]
            if not q and depth == 2:
                ws = A.wire_choices(kind, 3)
            for w in ws:
                op = [kind, w, A.gen(A.nparams(kind, w))]
                units += [(3, op, depth, [a]) for a in ACTS]
        eng.map(unit_hist, units)
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
