"""C07: every inverse undoes its operation on every engine; reversed inverses undo whole circuits."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..core import Violation
from ..impl import expect, lib, need, make_state, to_mps, from_mps, tens, T, npy

LEVEL = 'exploration'
RULE = ('one case = operation (or sequence) x register x wires x parameters x engine; both composition orders and the '
        'double inverse are evaluated; distinct = distinct (N, sequence)')
BOUNDS = {
    'quick': 'N<=4 all operations and wire tuples on all 4 engines (N=5: <=2 wires); every listed angle (N<=3); all '
             '2-operation sequences on 2 qubits, 3-operation ones on 3 qubits over a 12-letter alphabet; wide layers/rings N=4..9; all pairs N=6,7; walks of 4..80 operations on 1..8 qubits',
    'thorough': 'N=5 (<=4 wires), N=6 (<=3); angles on N=4; all 2-operation sequences on 3 qubits',
}
TOL = 3e-5


def inv(o, op):
    d = o.operation_dagger()
    if d is None:
        raise Violation('%s.operation_dagger() gives no operation' % op[0], sig='%s-no-inverse' % op[0])
    return d


def check_case(c):
    N, ops = c['N'], c['ops']
    objs = [A.build(op, N, c.get('pc', 'auto')) for op in ops]
    dags = [inv(o, op) for o, op in zip(objs, ops)]
    tol = c.get('tol', TOL)
    eye = np.eye(2 ** N)
    # dense
    Us = [o.U_expand() for o in objs]
    Ds = [d.U_expand() for d in dags]
    F = torch.eye(2 ** N) + 0j
    for u in Us:
        F = u @ F
    B = torch.eye(2 ** N) + 0j
    for d in reversed(Ds):
        B = d @ B
    expect(B @ F, eye, 'inverse after operation (dense)', tol)
    expect(F @ B, eye, 'operation after inverse (dense)', tol)
    for o, d, op, u, dd in zip(objs, dags, ops, Us, Ds):
        expect(inv(d, op).U_expand(), npy(u), 'inverse of the inverse of %s (dense)' % op[0], tol)
        expect(o.U_expand(), npy(u), '%s after its inverse was taken' % op[0], 0)
    # tensor engines
    if all(A.support_tn(op) for op in ops):
        v = make_state(N, c.get('s', ['g']))
        order1 = objs + dags[::-1]
        order2 = dags[::-1] + objs
        for name, seq in (('operation then inverse', order1), ('inverse then operation', order2)):
            t = tens(v, N)
            m = to_mps(v, N)
            b = torch.stack([tens(v, N), tens(make_state(N, ['p']), N), tens(v, N)])
            b0 = npy(b)
            for o in seq:
                t = o.TN_contract(t)
                m = o.TN_operation(m)
                b = o.TN_contract(b, batch_mod=True)
            expect(t, v, '%s (contraction)' % name, tol, shape=(2,) * N)
            expect(from_mps(m), v, '%s (MPS)' % name, tol, shape=(1, 2 ** N))
            expect(b, b0, '%s (batched)' % name, tol)
        # the double inverse acts like the original on the tensor engines
        for o, d, op in zip(objs, dags, ops):
            dd = inv(d, op)
            expect(dd.TN_contract(tens(v, N)), npy(o.TN_contract(tens(v, N))), 'double inverse (contraction)', tol)
            expect(from_mps(dd.TN_operation(to_mps(v, N))), npy(from_mps(o.TN_operation(to_mps(v, N)))),
                   'double inverse (MPS)', tol)
            expect(dd.TN_contract(b, batch_mod=True), npy(o.TN_contract(b, batch_mod=True)),
                   'double inverse (batched)', tol)


def go(ctx, c):
    ctx.count('evaluations')
    ctx.distinct(c)
    ctx.sample(c)
    return ctx.case(c)


def unit_ops(u, ctx):
    N, kind, kmax = u
    for off in (0, 7):
        for op in A.ops(N, [kind], kmax, off):
            if off and not op[2]:
                continue
            if not go(ctx, {'N': N, 'ops': [op], 's': ['g'] if not off else ['p', 2]}):
                return
    if kind == 'BasicEntangleLayer' and N <= 3:
        for w in A.wire_choices(kind, N):
            if not go(ctx, {'N': N, 'ops': [[kind, w, A.gen(6 * len(w)), {'repeat': 2}]]}):
                return


NOINV = ('ring_of_cnot2', 'BasicEntangleLayer')


def unit_wide(u, ctx):
    N, kind, kmin = u
    for op in A.wide_ops(N, [kind], kmin):
        if not go(ctx, {'N': N, 'ops': [op]}):
            return


def unit_walk(u, ctx):
    N, n, a, b = u
    al = [o for o in A.full(N) if o[0] not in NOINV]
    tn = b % 2
    go(ctx, {'N': N, 'ops': A.strided([o for o in al if not tn or A.support_tn(o)], n, a, b), 'tol': 2e-4})


def unit_angles(u, ctx):
    N, kind = u
    for w in A.wire_choices(kind, N, 2):
        n = A.nparams(kind, w)
        for slot in range(n):
            for a in A.ANGLES:
                p = A.gen(n)
                p[slot] = a
                if not go(ctx, {'N': N, 'ops': [[kind, w, p]], 'pc': 'float' if isinstance(a, int) and n == 1 else 'auto'}):
                    return
        for pc in ('float', 't1', 'grad', 'list'):
            if not go(ctx, {'N': N, 'ops': [[kind, w, A.gen(n)]], 'pc': pc}):
                return


def alphabet():
    g = A.gen
    return [['Hadamard', [1], []], ['PauliY', [0], []], ['rx', [0], [0.7]], ['u1', [1], [1.9]], ['u3', [2], g(3)],
            ['rxx', [2, 0], [0.7]], ['cphase', [0, 2], [2.1]], ['cu3', [2, 1], g(3, 2)], ['cnot', [2, 0], []],
            ['toffoli', [2, 0, 1], []], ['XZLayer', [2, 0], g(4)], ['ring_of_cnot', [1, 2, 0], []]]


def unit_seq(u, ctx):
    N, kmax, pre, depth = u
    al = alphabet() if kmax == 'alpha' else [op for op in A.ops(N, None, kmax)
                                             if op[0] not in ('ring_of_cnot2', 'BasicEntangleLayer')]
    for rest in itertools.product(range(len(al)), repeat=depth - len(pre)):
        if not go(ctx, {'N': N, 'ops': [al[i] for i in list(pre) + list(rest)], 'tol': 5e-5}):
            return


def explore(eng):
    q = eng.quick
    eng.map(unit_ops, [(N, k, None) for N in (1, 2, 3, 4) for k in A.ALL_KINDS])
    eng.map(unit_ops, [(5, k, 2 if q else 4) for k in A.ALL_KINDS])
    if not q:
        eng.map(unit_ops, [(6, k, 3) for k in A.ALL_KINDS])
    par = [k for k in A.ALL_KINDS if A.nparams(k, [0, 1, 2])]
    eng.map(unit_angles, [(N, k) for N in ((1, 2, 3) if q else (1, 2, 3, 4)) for k in par])
    eng.map(unit_seq, [(3, 'alpha', [i, j], 3) for i in range(12) for j in range(12)])
    n2 = len([o for o in A.ops(3, None, 2) if o[0] not in ('ring_of_cnot2', 'BasicEntangleLayer')])
    n3 = len([o for o in A.ops(3, None, 3) if o[0] not in ('ring_of_cnot2', 'BasicEntangleLayer')])
    if q:
        eng.map(unit_seq, [(2, None, [i], 2) for i in range(len([o for o in A.ops(2) if o[0] not in ('ring_of_cnot2', 'BasicEntangleLayer')]))])
    else:
        eng.map(unit_seq, [(3, 3, [i], 2) for i in range(n3)])
    eng.map(unit_wide, [(N, k, 4) for N in ((4, 5, 6) if q else (4, 5, 6, 7)) for k in A.VARIABLE if k not in NOINV])
    eng.map(unit_ops, [(N, 'toffoli', 3) for N in ((5,) if q else (5, 6))])
    eng.map(unit_ops, [(N, k, 2) for N in ((6, 7) if q else (7, 8)) for k in A.ALL_KINDS if A.arity(k)[1] == 2])
    eng.map(unit_wide, [(N, k, N) for N in (7, 8, 9) for k in A.VARIABLE if k not in NOINV])
    eng.map(unit_walk, [(N, n, a, b) for N, n in ((1, 80), (2, 30), (3, 30), (4, 15), (5, 12), (6, 6), (7, 5), (8, 4)) for a in (1, 7, 31)
                        for b in range(6 if q else 40)])
