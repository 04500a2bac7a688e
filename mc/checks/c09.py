"""C09: parameter-shift gradient against analytic derivatives, over all short circuits and update histories."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, T, npy
from .gradlib import observable, f32vec, alphabet3

LEVEL = 'exploration'
RULE = ('one case = circuit x initial state x observable x history of updates/gradients; oracle: analytic derivative of '
        'the reference model; distinct = distinct cases with at least one parameter')
BOUNDS = {
    'quick': 'every operation on every wire tuple (N<=3, N=4 <=2 wires) alone between fixed entangling operations; all '
             'pairs on 2 qubits; all triples on 1 qubit; all pairs of a 16-letter 3-qubit alphabet; update/gradient '
             'histories of length <=3; special angles; parameter containers; '
             'wide layers N=4,5, repeat 1..5, walks of 3..70 operations (tens of parameters) on 1..8 qubits with histories',
    'thorough': 'all pairs on 3 qubits (<=2 wires), triples of the 3-qubit alphabet, N=4 <=3 wires, histories of length 4',
}
TOL = 1e-4


def cur(ops):
    return [o for o in ops]


def grad_ok(ps, cir, ops, N, psi, M, what):
    before = [None if g.num_params == 0 else npy(g.params).copy() for g in cir.gate]
    U0 = npy(cir.U())
    e0 = float(cir.cir_expectation(row(psi), T(M)))
    got = ps.cal_params_grad()
    want = ref.grad_expectation(ops, N, psi, M)
    expect(got.detach().reshape(-1).to(torch.float32) if isinstance(got, torch.Tensor) else got, want, what, TOL * (1 + len(ops) // 30))
    after = [None if g.num_params == 0 else npy(g.params) for g in cir.gate]
    need(len(before) == len(after) == len(ops), '%s: the circuit has %d operations afterwards' % (what, len(after)))
    for i, (x, y) in enumerate(zip(before, after)):
        need((x is None) == (y is None) and (x is None or (x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=2e-6))),
             '%s: parameters of operation %d changed from %s to %s' % (what, i, x, y))
    need(np.allclose(U0, npy(cir.U()), rtol=0, atol=5e-6), '%s: the circuit operator changed' % what)
    need(abs(float(cir.cir_expectation(row(psi), T(M))) - e0) < 1e-5, '%s: the expectation changed' % what)


def check_case(c):
    N, ops = c['N'], [list(o) for o in c['ops']]
    psi = f32vec(make_state(N, c.get('s', ['g'])))
    M = f32vec(observable(N, c.get('M', 'H')))
    qc = lib()[2]
    cir = A.circuit(ops, N, c.get('pc', 'auto'), how=c.get('how', 'method'))
    ps = qc.parameter_shift(cir, row(psi), T(M))
    if not c.get('hist'):
        grad_ok(ps, cir, ops, N, psi, M, 'gradient')
        return
    for k, act in enumerate(c['hist']):
        if act[0] == 'grad':
            grad_ok(ps, cir, ops, N, psi, M, 'gradient at step %d' % k)
        elif act[0] == 'upd' and ops:
            i = act[1] % len(ops)
            n = len(ops[i][2])
            if n:
                p = A.gen(n, act[2])
                cir.gate[i].params_update(A.mk_params(ops[i][0], p, act[3]))
                ops[i] = [ops[i][0], ops[i][1], p] + ops[i][3:]
        elif act[0] == 'add':
            A.add(cir, act[1])
            ops.append(act[1])
        elif act[0] == 'clear':
            cir.clear()
            ops = []
        elif act[0] == 'exp':
            cir.cir_expectation(row(psi), T(M))
    grad_ok(ps, cir, ops, N, psi, M, 'gradient after the history')
    ps2 = qc.parameter_shift(cir, row(psi), T(M))
    grad_ok(ps2, cir, ops, N, psi, M, 'gradient by a second object')


def go(ctx, c):
    ctx.count('evaluations')
    if any(o[2] for o in c['ops']):
        ctx.distinct(c)
    ctx.sample(c)
    return ctx.case(c)


def dress(N, op):
    """op between operations that make every parameter matter."""
    pre = [['ry', [q], [0.4 + 0.3 * q]] for q in range(N)]
    post = [['cnot', [0, N - 1], []]] if N > 1 else [['Hadamard', [0], []]]
    return pre[:1] + [op] + post


def unit_single(u, ctx):
    N, kind, kmax, Ms = u
    for op in A.ops(N, [kind], kmax):
        for M in Ms:
            if not go(ctx, {'N': N, 'ops': dress(N, op), 'M': M}):
                return
        if not go(ctx, {'N': N, 'ops': [op], 'M': 'H', 'how': 'prebuilt'}):
            return
    if kind == 'BasicEntangleLayer' and N > 1:
        go(ctx, {'N': N, 'ops': [[kind, [0, 1], A.gen(12), {'repeat': 2}]]})


def unit_shape(u, ctx):
    """Wide layers, repeated layers and long circuits (many parameters)."""
    for c in u:
        if not go(ctx, c):
            return


def shapes(q):
    out = []
    for N in ((4, 5) if q else (4, 5, 6)):
        for k in A.VARIABLE:
            if A.nparams(k, [0, 1]):
                ws = A.wide_choices(k, N, 4 if N < 6 else 6)
                out += [[{'N': N, 'ops': dress(N, [k, w, A.gen(A.nparams(k, w))])}] for w in (ws if not q else ws[N % 3::3])]
    for r in (1, 2, 3, 4, 5):
        for N, w in ((2, [0, 1]), (2, [1, 0]), (3, [2, 0, 1])):
            out.append([{'N': N, 'ops': [['BasicEntangleLayer', w, A.gen(3 * len(w) * r), {'repeat': r}], ['rx', [0], [0.3]]]}])
    for N, n in ((1, 12), (2, 12), (3, 10), (4, 8), (5, 5), (6, 3)) if q else ((1, 30), (2, 30), (3, 20), (4, 14), (5, 8), (6, 6), (7, 4)):
        al = A.ops(N, kmax=3 if N < 5 else 2)
        for a in (1, 7, 31):
            for b in range(6 if q else 60):
                c = {'N': N, 'ops': A.strided(al, n, a, b * 5), 'M': ('H', 'asym')[b % 2], 'how': ('method', 'prebuilt')[a % 2]}
                out.append([c])
                if b % 3 == 0:
                    out.append([dict(c, hist=[['grad'], ['upd', 2, 4, 'auto'], ['upd', n - 1, 7, 'list'], ['exp'], ['grad'],
                                              ['add', ['rz', [N - 1], [0.9]]], ['upd', n // 2, 11, 'grad']])])
    for N, n in ((1, 70), (2, 60), (3, 40), (4, 24), (5, 14), (6, 9), (7, 5), (8, 3)):     # longer still, larger registers
        al = A.ops(N, kmax=3 if N < 5 else 2)
        for a, b in ((7, 1), (31, 4), (13, 9)):
            out.append([{'N': N, 'ops': A.strided(al, n, a, b), 'M': 'H'}])
    return out


def unit_angles(u, ctx):
    N, kind = u
    w = list(range(A.arity(kind)[0]))[::-1]
    n = A.nparams(kind, w)
    for slot in range(n):
        for a in A.ANGLES:
            p = A.gen(n)
            p[slot] = a
            if not go(ctx, {'N': N, 'ops': [[kind, w, p]], 'M': 'H'}):
                return
    for p in ([0.0] * n, [A.PI] * n):
        if not go(ctx, {'N': N, 'ops': [[kind, w, p]], 'M': 'H'}):
            return
    for pc in ('float', 't1', 'list', 'grad'):
        if not go(ctx, {'N': N, 'ops': [[kind, w, A.gen(n)], [kind, w, A.gen(n, 3)]], 'pc': pc}):
            return
    if n == 1:
        for v in (1, -2, 3):
            if not go(ctx, {'N': N, 'ops': [[kind, w, [v]]], 'pc': 'float'}):
                return


def unit_seq(u, ctx):
    N, al, pre, depth, M = u
    al = alphabet3() if al == 'a3' else A.ops(N, None, al)
    for rest in itertools.product(range(len(al)), repeat=depth - len(pre)):
        ops = [al[i] for i in list(pre) + list(rest)]
        if not go(ctx, {'N': N, 'ops': ops, 'M': M}):
            return


HACT = [['grad'], ['upd', 0, 4, 'auto'], ['upd', 1, 7, 'list'], ['upd', 2, 9, 'grad'], ['add', ['rz', [1], [0.9]]],
        ['add', ['XZLayer', [1, 0], [0.3, 0.5, -0.8, 1.2]]], ['clear'], ['exp']]
HCIR = [[['ry', [0], [0.5]], ['cu3', [0, 1], [0.3, 0.8, -0.4]], ['cphase', [1, 0], [0.7]]],
        [['u3', [1], [0.3, 0.8, -0.4]], ['rxx', [1, 0], [0.2]], ['BasicEntangleLayer', [0, 1], A.gen(6)]]]


def unit_hist(u, ctx):
    base, pre, depth = u
    for rest in itertools.product(HACT, repeat=depth - len(pre)):
        if not go(ctx, {'N': 2, 'ops': base, 'hist': pre + list(rest), 's': ['p'], 'M': 'H'}):
            return


def explore(eng):
    q = eng.quick
    kinds = [k for k in A.ALL_KINDS if A.nparams(k, [0, 1, 2])]
    eng.map(unit_single, [(N, k, None, ['H', 'Z' + 'I' * (N - 1), 'I' * (N - 1) + 'X', 'asym']) for N in (1, 2) for k in kinds])
    eng.map(unit_single, [(3, k, None, ['H', 'IYZ']) for k in kinds])
    eng.map(unit_angles, [(2, k) for k in kinds])
    n1, n2 = len(A.ops(1)), len(A.ops(2))
    eng.map(unit_seq, [(1, None, [i, j], 3, 'H') for i in range(n1) for j in range(n1)])
    eng.map(unit_hist, [(b, [x], d) for d in (1, 2) for b in HCIR for x in HACT])
    eng.map(unit_hist, [(b, [x, y], 3 if q else 4) for b in HCIR for x in HACT for y in HACT])
    eng.map(unit_seq, [(2, None, [i], 2, 'H') for i in range(n2)])
    eng.map(unit_seq, [(3, 'a3', [i], 2, 'H') for i in range(16)])
    eng.map(unit_single, [(4, k, 2 if q else 3, ['H']) for k in kinds])
    if not q:
        eng.map(unit_seq, [(3, 2, [i], 2, 'H') for i in range(len(A.ops(3, None, 2)))])
        eng.map(unit_seq, [(3, 'a3', [i, j], 3, 'H') for i in range(16) for j in range(16)])
    eng.map(unit_shape, shapes(q))
