"""C21: every bounded session over two coexisting circuits keeps the bookkeeping and the results truthful."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, to_mps, from_mps, T, npy
from .gradlib import observable, f32vec
from .c08 import norm

LEVEL = 'model_checking'
RULE = ('states = session histories over two circuits (every history is a state: hidden caches make them different); '
        'transitions = actions executed on real circuits; after each history both circuits are compared with the '
        'abstract list of operations added since the last clear (operations, parameters, count, TN capability, U and its '
        'reverse, both tensor-network evolutions, expectation by both routes) and with a freshly built circuit')
BOUNDS = {
    'quick': 'all histories of length <=3 over 28 actions and of length 4 over 11 actions, registers of (2,2) qubits; '
             'length <=2 on (3,2); walks of 8, 20 and 45 actions on (2,2), (3,2), (4,3), (5,2)',
    'thorough': 'length 4 over 19 actions, length 5 over 11, length 3 on (3,2)',
}
TOL = 3e-5
G = A.GEN

# action letters: (circuit index, action, ...)
FULL = [
    [0, 'add', ['rx', [0], [0.7]]], [0, 'add', ['u3', [1], G[:3]]], [0, 'add', ['XZLayer', [1, 0], G[2:6]]],
    [0, 'add', ['cnot', [1, 0], []]], [0, 'add', ['multi_control_cnot', [0, 1], []]],
    [0, 'add', ['BasicEntangleLayer', [1, 0], G[4:10]]], [0, 'pre', ['cphase', [0, 1], [1.9]]],
    [0, 'clear'], [0, 'U'], [0, 'rev'], [0, 'mps'], [0, 'tn'], [0, 'exp'], [0, 'expD'], [0, 'grad'], [0, 'grad2'], [0, 'meas'],
    [0, 'upd', 0, 7], [0, 'upd', -1, 12],
    [1, 'add', ['ry', [1], [-1.3]]], [1, 'add', ['rzz', [1, 0], [0.45]]], [1, 'pre', ['ring_of_cnot2', [0, 1], []]],
    [1, 'clear'], [1, 'U'], [1, 'upd', 0, 3], [1, 'grad'], [0, 'init'], [1, 'init'],
]
SMALL = [FULL[0], FULL[2], FULL[4], FULL[6], [0, 'clear'], [0, 'U'], [0, 'grad'], [0, 'upd', 0, 7], [1, 'add', ['ry', [1], [-1.3]]],
         [1, 'clear'], [0, 'exp']]
MID = SMALL + [[0, 'grad2'], [0, 'mps'], [0, 'upd', -1, 12], [1, 'upd', 0, 3], [1, 'U'], [0, 'rev'], FULL[3], [1, 'grad']]


def params_now(op):
    return np.array([ref.f32(x) for x in op[2]])


def observe(cir, ops, N, who):
    qo, ql, qc, qt, qm = lib()
    need(len(cir.gate) == len(ops), '%s holds %d operations, %d were added since the last clear' % (who, len(cir.gate), len(ops)))
    fresh = A.circuit(ops, N)
    for i, (g, f) in enumerate(zip(cir.gate, fresh.gate)):
        need(type(g) is type(f) and norm(g.info()) == norm(f.info()), '%s: operation %d is %s, added was %s'
             % (who, i, norm(g.info()), norm(f.info())))
    need(cir.cir_num_params == sum(len(o[2]) for o in ops), '%s: cir_num_params is %s instead of %d'
         % (who, cir.cir_num_params, sum(len(o[2]) for o in ops)))
    d = cir.cir_params
    need(sorted(d) == list(range(len(ops))), '%s: cir_params has keys %s for %d operations' % (who, list(d), len(ops)))
    for i, o in enumerate(ops):
        if o[2]:
            need(d[i] is not None, '%s: cir_params has nothing for operation %d' % (who, i))
            expect(d[i].reshape(-1), params_now(o), '%s: cir_params[%d]' % (who, i), 2e-6)
        else:
            need(d[i] is None, '%s: cir_params has %r for operation %d, which has none' % (who, d[i], i))
    tn = all(A.support_tn(o) for o in ops)
    need(bool(cir.TN_check()) == tn, '%s: TN_check says %s' % (who, cir.TN_check()))
    want = ref.U_seq(ops, N)
    U = cir.U()
    expect(U, want, '%s: U()' % who, TOL)
    expect(fresh.U(), npy(U), '%s: U() against a fresh circuit' % who, 1e-5)
    expect(cir.U(left_to_right=False), ref.U_seq(ops[::-1], N), '%s: reverse U()' % who, TOL)
    v = f32vec(make_state(N, ['g']))
    M = f32vec(observable(N, 'H'))
    f = want @ v
    for TN in (True, False):
        e = cir.cir_expectation(row(v), T(M), TN=TN)
        need(abs(float(e) - np.vdot(f, M @ f).real) < 1e-4, '%s: cir_expectation(TN=%s) is %s' % (who, TN, float(e)))
    if tn:
        expect(from_mps(cir.TN_evolution(to_mps(v, N))), f, '%s: MPS evolution' % who, TOL, shape=(1, 2 ** N))
        expect(cir.TN_contract_evolution(tens(v, N)), f, '%s: contraction' % who, TOL, shape=(2,) * N)
    expect(cir.state_init().reshape(-1), make_state(N, ['b', 0]), '%s: initial state' % who, 0)


def act(a, cirs, contents, Ns):
    qo, ql, qc, qt, qm = lib()
    k = a[0]
    cir, ops, N = cirs[k], contents[k], Ns[k]
    v = f32vec(make_state(N, ['g', 1]))
    t = a[1]
    tn = all(A.support_tn(o) for o in ops)
    if t in ('add', 'pre'):
        A.add(cir, a[2], how='prebuilt' if t == 'pre' else 'method')
        ops.append(a[2])
    elif t == 'clear':
        cir.clear()
        ops.clear()
    elif t == 'U':
        cir.U().mul_(0)
    elif t == 'init':
        cir.state_init().mul_(0).add_(0.5)          # the returned state belongs to the caller
    elif t == 'rev':
        cir.U(left_to_right=False).mul_(0)
    elif t == 'mps' and tn:
        for x in cir.TN_evolution(to_mps(v, N)):
            x.detach().mul_(0)
    elif t == 'tn' and tn:
        cir.TN_contract_evolution(tens(v, N)).mul_(0)
        cir.TN_contract_evolution(torch.stack([tens(v, N)] * 2), batch_mod=True)
    elif t in ('exp', 'expD'):
        cir.cir_expectation(row(v), T(observable(N, 'H')), TN=t == 'exp')
    elif t == 'meas':
        qm.measure(N, cir.U() @ T(v).view(-1, 1))
    elif t == 'grad':
        g = qc.parameter_shift(cir, row(v), T(observable(N, 'H'))).cal_params_grad()
        need(g.numel() == sum(len(o[2]) for o in ops), 'gradient has %d entries' % g.numel())
    elif t == 'grad2' and tn and ops:
        ps = qc.parameter_shift(cir, row(v), qo.PauliZ(N, 0).U_expand())
        d, sv = ps.save_mid_MPS(qo.PauliZ(N, 0))
        g = ps.cal_params_grad2(d)
        need(g.numel() == sum(len(o[2]) for o in ops), 'gradient has %d entries' % g.numel())
    elif t == 'upd':
        has = [i for i, o in enumerate(ops) if o[2]]
        if has:
            i = has[0] if a[2] == 0 else has[-1]
            p = A.gen(len(ops[i][2]), a[3])
            cir.gate[i].params_update(A.mk_params(ops[i][0], p))
            ops[i] = [ops[i][0], ops[i][1], p] + ops[i][3:]


def check_case(c):
    qc = lib()[2]
    Ns = c['Ns']
    cirs = [qc.Circuit(n) for n in Ns]
    contents = [[], []]
    for a in c['hist']:
        act(a, cirs, contents, Ns)
    for k in (0, 1):
        observe(cirs[k], contents[k], Ns[k], 'circuit %d' % k)


def unit(u, ctx):
    Ns, letters, pre, depth = u
    L = {'full': FULL, 'mid': MID, 'small': SMALL}[letters]
    for rest in itertools.product(L, repeat=depth - len(pre)):
        hist = [L[i] for i in pre] + list(rest)
        c = {'Ns': Ns, 'hist': hist}
        ctx.count('transitions', len(hist))
        ctx.count('traces_validated_against_impl')
        ctx.distinct((Ns, hist))
        ctx.sample(c)
        if not ctx.case(c):
            return


def wide(a, Ns):
    """The same action on far wires / all wires of a larger register."""
    if a[1] not in ('add', 'pre'):
        return a
    N = Ns[a[0]]
    kind, w = a[2][0], a[2][1]
    if A.arity(kind)[1] is None and kind != 'multi_control_cnot':
        w = list(range(N))[::-1]
        return [a[0], a[1], [kind, w, A.gen(A.nparams(kind, w), N)]]
    return [a[0], a[1], [kind, [N - 1 if q == 1 else q for q in w], a[2][2]]]


def unit_walk(c, ctx):
    ctx.count('transitions', len(c['hist']))
    ctx.count('traces_validated_against_impl')
    ctx.distinct(c)
    ctx.case(c)


def explore(eng):
    q = eng.quick
    eng.map(unit, [([2, 2], 'full', [], 0)])
    for d in (1, 2, 3):
        eng.map(unit, [([2, 2], 'full', [i] if d == 1 else [i, j], d) for i in range(len(FULL))
                       for j in (range(len(FULL)) if d > 1 else [0])])
    for d in (1, 2) if q else (1, 2, 3):
        eng.map(unit, [([3, 2], 'full', [i], d) for i in range(len(FULL))])
    n = len(SMALL if q else MID)
    eng.map(unit, [([2, 2], 'small' if q else 'mid', [i, j], 4) for i in range(n) for j in range(n)])
    if not q:
        n = len(SMALL)
        eng.map(unit, [([2, 2], 'small', [i, j], 5) for i in range(n) for j in range(n)])
    # long sessions: walks over the letters
    walks = []
    for Ns in ([2, 2], [3, 2], [4, 3], [5, 2]):
        for n in (8, 20, 45):
            for a in (1, 5, 11, 17, 23):
                for b in range(4 if q else 28):
                    hist = [FULL[(i * a + b * 7 + i * i // 5) % len(FULL)] for i in range(n)]
                    if Ns[0] > 3:
                        hist = [wide(x, Ns) for x in hist]
                    walks.append({'Ns': Ns, 'hist': hist})
    eng.map(unit_walk, walks)
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
