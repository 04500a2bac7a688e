"""C10: forward-backward (saved-state) gradient against analytic derivatives, over all short tensor-network circuits."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, T, npy
from .gradlib import f32vec, alphabet3

LEVEL = 'exploration'
RULE = ('one case = non-empty tensor-network circuit x initial state x Pauli observable (axis, qubit) x history; oracle: '
        'analytic derivative and final state of the reference model; distinct = distinct cases with a parameter')
BOUNDS = {
    'quick': 'every operation on every wire tuple (N<=3; N=4 <=2 wires) alone and dressed x Pauli axes and qubits; all '
             'pairs on 2 qubits; all triples on 1 qubit; all pairs of a 16-letter 3-qubit alphabet; special angles; '
             'update/gradient histories of length <=3; wide layers N=4,5; walks of 3..70 operations (tens of parameters) on 1..8 qubits',
    'thorough': 'all pairs on 3 qubits (<=2 wires), triples of the 3-qubit alphabet, N=4 <=3 wires',
}
TOL = 1e-4


def one(ps, cir, ops, N, psi, obs, what):
    qo = lib()[0]
    ax, q = obs
    before = [None if g.num_params == 0 else npy(g.params).copy() for g in cir.gate]
    U0 = npy(cir.U())
    fin = psi.reshape((2,) * N)
    for op in ops:
        fin = ref.apply(op, fin)
    M = ref.embed(ref.PAULI[ax], [q], N)
    want = ref.grad_expectation(ops, N, psi, M)
    sd, sv = ps.save_mid_MPS(getattr(qo, 'Pauli' + ax)(N, q))
    expect(sv, fin.reshape(-1), '%s: final state' % what, 3e-5, shape=(1, 2 ** N))
    for rep in ('', ', same saved states again'):
        g = ps.cal_params_grad2(sd)
        expect(g.detach().reshape(-1), want, '%s: gradient%s' % (what, rep), TOL * (1 + len(ops) // 30))
    after = [None if g.num_params == 0 else npy(g.params) for g in cir.gate]
    need(len(after) == len(before), '%s: number of operations changed' % what)
    for i, (x, y) in enumerate(zip(before, after)):
        need((x is None) == (y is None) and (x is None or (x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=2e-6))),
             '%s: parameters of operation %d changed from %s to %s' % (what, i, x, y))
    need(np.allclose(U0, npy(cir.U()), rtol=0, atol=5e-6), '%s: the circuit operator changed' % what)


def check_case(c):
    N, ops = c['N'], [list(o) for o in c['ops']]
    psi = f32vec(make_state(N, c.get('s', ['g'])))
    qc = lib()[2]
    cir = A.circuit(ops, N, c.get('pc', 'auto'), how=c.get('how', 'method'))
    ps = qc.parameter_shift(cir, row(psi), None)
    for k, act in enumerate(c.get('hist', [])):
        if act[0] == 'grad':
            one(ps, cir, ops, N, psi, act[1], 'step %d' % k)
        elif act[0] == 'upd':
            i = act[1] % len(ops)
            n = len(ops[i][2])
            if n:
                p = A.gen(n, act[2])
                cir.gate[i].params_update(A.mk_params(ops[i][0], p, act[3]))
                ops[i] = [ops[i][0], ops[i][1], p] + ops[i][3:]
        elif act[0] == 'add':
            A.add(cir, act[1])
            ops.append(act[1])
        elif act[0] == 'shift':             # the other gradient method in between
            M = ref.embed(ref.PAULI['Z'], [0], N)
            lib()[2].parameter_shift(cir, row(psi), T(M)).cal_params_grad()
    one(ps, cir, ops, N, psi, c['obs'], 'circuit')


def go(ctx, c):
    ctx.count('evaluations')
    if any(o[2] for o in c['ops']):
        ctx.distinct(c)
    ctx.sample(c)
    return ctx.case(c)


def unit_single(u, ctx):
    N, kind, kmax, obss = u
    for op in A.tn_ops(N, kmax) if kind is None else A.ops(N, [kind], kmax):
        for obs in obss:
            pre = [['ry', [0], [0.4]]]
            post = [['cnot', [0, N - 1], []]] if N > 1 else [['Hadamard', [0], []]]
            for ops in ([op], pre + [op] + post, post + [op] + pre):
                if not go(ctx, {'N': N, 'ops': ops, 'obs': obs}):
                    return


def unit_shape(u, ctx):
    for c in u:
        if not go(ctx, c):
            return


def shapes(q):
    """Wide layers and long circuits (many parameters)."""
    out = []
    for N in ((4, 5) if q else (4, 5, 6)):
        for k in A.VARIABLE:
            if A.nparams(k, [0, 1]) and k not in A.NO_TN:
                ws = A.wide_choices(k, N, 4 if N < 6 else 6)
                out += [[{'N': N, 'ops': [['ry', [0], [0.4]], [k, w, A.gen(A.nparams(k, w))], ['cnot', [0, N - 1], []]],
                          'obs': ['XYZ'[i % 3], i % N]}] for i, w in enumerate(ws if not q else ws[N % 2::2])]
    for N, n in ((1, 12), (2, 12), (3, 10), (4, 8), (5, 5), (6, 3)) if q else ((1, 30), (2, 30), (3, 20), (4, 14), (5, 8), (6, 6), (7, 4)):
        al = A.tn_ops(N, 3 if N < 5 else 2)
        for a in (1, 7, 31):
            for b in range(6 if q else 60):
                c = {'N': N, 'ops': A.strided(al, n, a, b * 5), 'obs': ['XYZ'[b % 3], (a + b) % N], 'how': ('method', 'prebuilt')[a % 2], 'pc': ('auto', 'grad')[b % 2]}
                out.append([c])
                if b % 3 == 0:
                    out.append([dict(c, hist=[['grad', ['Z', 0]], ['upd', 2, 4, 'auto'], ['upd', n - 1, 7, 'list'], ['shift'],
                                              ['grad', ['X', N - 1]], ['add', ['rz', [N - 1], [0.9]]], ['upd', n // 2, 11, 'grad']])])
    for N, n in ((1, 70), (2, 60), (3, 40), (4, 24), (5, 14), (6, 9), (7, 5), (8, 3)):     # longer still, larger registers
        al = A.tn_ops(N, 3 if N < 5 else 2)
        for a, b in ((7, 1), (31, 4), (13, 9)):
            out.append([{'N': N, 'ops': A.strided(al, n, a, b), 'obs': ['XYZ'[b % 3], (b + n) % N]}])
    return out


def unit_angles(u, ctx):
    N, kind = u
    w = list(range(A.arity(kind)[0]))[::-1]
    n = A.nparams(kind, w)
    for slot in range(n):
        for a in A.ANGLES:
            p = A.gen(n)
            p[slot] = a
            if not go(ctx, {'N': N, 'ops': [[kind, w, p], ['rx', [0], [0.3]]], 'obs': ['Y', w[-1]]}):
                return
    for pc in ('float', 't1', 'list', 'grad'):
        if not go(ctx, {'N': N, 'ops': [[kind, w, A.gen(n)], [kind, w, A.gen(n, 3)]], 'pc': pc, 'obs': ['X', w[0]]}):
            return


def unit_seq(u, ctx):
    N, al, pre, depth, obs = u
    al = [o for o in alphabet3()] if al == 'a3' else A.tn_ops(N, al)
    for rest in itertools.product(range(len(al)), repeat=depth - len(pre)):
        if not go(ctx, {'N': N, 'ops': [al[i] for i in list(pre) + list(rest)], 'obs': obs}):
            return


HACT = [['grad', ['Z', 0]], ['grad', ['X', 1]], ['upd', 0, 4, 'auto'], ['upd', 1, 7, 'grad'], ['add', ['rz', [1], [0.9]]],
        ['add', ['XZLayer', [1, 0], [0.3, 0.5, -0.8, 1.2]]], ['add', ['Hadamard', [1], []]], ['shift']]
HCIR = [[['ry', [0], [0.5]], ['cu3', [0, 1], [0.3, 0.8, -0.4]], ['cphase', [1, 0], [0.7]]],
        [['u3', [1], [0.3, 0.8, -0.4]], ['rxx', [1, 0], [0.2]], ['YZYLayer', [0, 1], A.gen(6)]]]


def unit_hist(u, ctx):
    base, pre, depth = u
    for rest in itertools.product(HACT, repeat=depth - len(pre)):
        if not go(ctx, {'N': 2, 'ops': base, 'hist': pre + list(rest), 's': ['p'], 'obs': ['Y', 0]}):
            return


def explore(eng):
    q = eng.quick
    kinds = [k for k in A.ALL_KINDS if k not in A.NO_TN]
    par = [k for k in kinds if A.nparams(k, [0, 1, 2])]
    allobs = lambda N: [[a, i] for a in 'XYZ' for i in range(N)]
    eng.map(unit_single, [(N, k, None, allobs(N)) for N in (1, 2) for k in kinds])
    eng.map(unit_angles, [(2, k) for k in par])
    n1, n2 = len(A.tn_ops(1)), len(A.tn_ops(2))
    eng.map(unit_seq, [(1, None, [i, j], 3, ['Y', 0]) for i in range(n1) for j in range(n1)])
    eng.map(unit_hist, [(b, [x], d) for d in (1, 2) for b in HCIR for x in HACT])
    eng.map(unit_hist, [(b, [x, y], 3 if q else 4) for b in HCIR for x in HACT for y in HACT])
    eng.map(unit_seq, [(2, None, [i], 2, o) for o in (['Y', 1], ['X', 0]) for i in range(n2)])
    eng.map(unit_seq, [(3, 'a3', [i], 2, o) for o in (['Y', 1], ['X', 2]) for i in range(16)])
    eng.map(unit_single, [(3, k, None, [['Y', 1], ['X', 2]]) for k in par])
    eng.map(unit_single, [(4, k, 2 if q else 3, [['Y', 2]]) for k in par])
    if not q:
        eng.map(unit_seq, [(3, 2, [i], 2, ['Y', 2]) for i in range(len(A.tn_ops(3, 2)))])
        eng.map(unit_seq, [(3, 'a3', [i, j], 3, ['Y', 1]) for i in range(16) for j in range(16)])
    eng.map(unit_shape, shapes(q))
