"""C35: evolution, conversion, overlap and expectation are linear in the state: any length, any superposition, any phase."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, from_mps, T, npy, regauge, bonds_ok
from .gradlib import observable, f32vec, alphabet3

LEVEL = 'exploration'
RULE = ('one case = an operation, circuit or library call x two states x two coefficients; the result for the combination is compared with '
        'the reference for it, relative to its length; distinct = distinct cases')
BOUNDS = {
    'quick': '10 coefficient pairs (lengths 1e-2 .. 1e3, every phase quadrant, cancellations down to 1e-2) x 6 state pairs x every kind x every wire tuple '
             '(N<=3; 4 and 5: <=2 wires) on every engine, batches whose entries have different lengths; every pair of a 16-letter alphabet and 60 walks on 1..6 qubits with '
             'expectations and gradients; conversions, overlaps, local expectations and measurements N<=6',
    'thorough': 'every wire tuple N=4, 40 coefficient pairs, walks of 40 operations',
}
TOL = 2e-5
COEF = [[1, 1], [2, 0.5], [1e-2, 0], [0.02, 0.01j], [1e3, -7], [0, -1], [1j, 0], [0.6, -0.59], [-0.3, 0.4j], [30 - 40j, 5j]]
MORE = [[x * np.exp(0.7j * k), y * np.exp(-1.9j * k)] for k, (x, y) in enumerate(itertools.product((0.05, 1, 3, 40, 500), (0.02, 0.7, 1, 2, 100, 1e3)))]
PAIRS = [[['g'], ['p', 1]], [['b', 0], ['b', -1]], [['g', 2], ['g', 5]], [['ghz'], ['b', 0]], [['p', 3], ['p', 4]], [['b', 1], ['g']]]


def combo(N, s, ab):
    a, b = (complex(x) for x in ab)
    st = [make_state(N, [x[0]] + [y % 2 ** N if x[0] == 'b' else y for y in x[1:]]) for x in s]
    v = f32vec(a * st[0] + b * st[1])
    if np.linalg.norm(v) < 5e-3:             # (a zero vector is not a state)
        v = f32vec(a * st[0])
    return v


def near(got, want, what, shape=None, k=1):
    expect(got, want, what, TOL * k * max(float(np.linalg.norm(np.asarray(want))), 1e-3), shape)


def chain(v, N, what):
    qt = lib()[3]
    m = qt.StateVec2MPS(row(v), N)
    near(qt.MPS2StateVec(m), v, what + ': vector to chain and back', (1, 2 ** N), 2)
    return m


def op_case(c):
    N, op = c['N'], c['op']
    o = A.build(op, N)
    U = ref.U(op, N)
    tn = A.support_tn(op)
    vs = [combo(N, s, COEF[i]) for s, i in c['sc']]
    ws = [U @ v for v in vs]
    D = o.U_expand()
    for v, w, x in zip(vs, ws, c['sc']):
        what = '%s on a state of length %.3g' % (op[0], np.linalg.norm(v))
        near((D @ T(v).view(-1, 1)).reshape(-1), w, what + ' (dense)', k=2)
        if tn:
            near(o.TN_contract(tens(v, N)), w, what + ' (contraction)', (2,) * N)
            near(from_mps(o.TN_operation(chain(v, N, what))), w, what + ' (chain)', (1, 2 ** N), 3)
    if tn:
        b = o.TN_contract(torch.stack([tens(v, N) for v in vs]), batch_mod=True)
        for i, w in enumerate(ws):
            near(b[i], w, '%s on a batch of states of different lengths, entry %d' % (op[0], i), (2,) * N)


def cir_case(c):
    qo, ql, qc, qt, qm = lib()
    N, ops = c['N'], c['ops']
    v = combo(N, c['s'], c['ab'])
    n2 = float(np.linalg.norm(v)) ** 2
    w = v
    for op in ops:
        w = ref.apply_vec(op, w, N)
    k = 2 + len(ops) // 4
    M = f32vec(observable(N, 'H')) * c.get('m', 1)
    e = np.vdot(w, M @ w).real
    cir = A.circuit(ops, N)
    tol = 3e-5 * k * n2 * max(1, c.get('m', 1))
    what = 'a state of length %.3g' % np.sqrt(n2)
    tn = all(A.support_tn(o) for o in ops)
    out = (cir.U() @ T(v).view(-1, 1)).reshape(-1)
    near(out, w, 'circuit operator on ' + what, k=k)
    expect(cir.cir_expectation(row(v), T(M), TN=False).reshape(-1), np.array([e]), 'dense expectation in ' + what, tol)
    if tn:
        near(cir.TN_contract_evolution(tens(v, N)), w, 'contraction of ' + what, (2,) * N, k)
        u = make_state(N, ['p', 2])
        b = cir.TN_contract_evolution(torch.stack([tens(u, N), tens(v, N)]), batch_mod=True)
        near(b[1], w, 'batched ' + what, (2,) * N, k)
        m = cir.TN_evolution(chain(v, N, what))
        near(from_mps(m), w, 'chain of ' + what, (1, 2 ** N), 2 * k)
        expect(cir.cir_expectation(row(v), T(M)).reshape(-1), np.array([e]), 'expectation in ' + what, 2 * tol)
    expect(qm.expval(out.view(-1, 1), T(M)).reshape(-1), np.array([e]), 'expval in ' + what, tol)
    z = [np.vdot(w, ref.embed(ref.Z, [q], N) @ w).real for q in range(N)]
    expect(qm.measure(N, out, list(range(N))).reshape(-1), np.array(z), 'measure in ' + what, tol)
    if any(o[2] for o in ops) and c.get('grad'):
        g = qc.parameter_shift(cir, row(v), T(M)).cal_params_grad()
        expect(g.detach().reshape(-1), ref.grad_expectation(ops, N, v, M), 'parameter-shift gradient in ' + what, 5 * tol)
        if tn:
            ps = qc.parameter_shift(cir, row(v), None)
            sd, sv = ps.save_mid_MPS(qo.PauliX(N, N - 1))
            near(sv, w, 'saved final state of ' + what, (1, 2 ** N), 2 * k)
            expect(ps.cal_params_grad2(sd).detach().reshape(-1), ref.grad_expectation(ops, N, v, ref.embed(ref.X, [N - 1], N)),
                   'saved-state gradient in ' + what, 5 * tol)


def lib_case(c):
    qo, ql, qc, qt, qm = lib()
    N = c['N']
    v, u = combo(N, c['s'], c['ab']), combo(N, PAIRS[2], c['cd'])
    nv, nu = float(np.linalg.norm(v)), float(np.linalg.norm(u))
    a, b = chain(v, N, 'ket'), chain(u, N, 'bra')
    bonds_ok(a, N, 'chain of an unnormalised state')
    t = 4 * TOL * nv * nu
    for x, y in ((a, b), (regauge(a, 'pad'), b), (a, regauge(b, 'gauge'))):
        expect(qt.MPS_inner_product(x, y).reshape(-1), np.array([np.vdot(u, v)]), 'overlap of states of lengths %.3g and %.3g' % (nv, nu), 3 * t)
    expect(qt.MPS_inner_product(a, a).reshape(-1), np.array([nv ** 2]), 'squared length', 4 * TOL * nv * nv)
    for q in range(N):
        for H in (f32vec(observable(1, 'H')), 25 * ref.Y):
            want = np.vdot(v, ref.embed(H, [q], N) @ v)
            expect(qt.MPS_expec([x.clone() for x in a], [q], [T(H)]).reshape(-1), np.array([want]), 'local expectation in a state of length %.3g' % nv,
                   4 * TOL * nv * nv * np.linalg.norm(H))
    near(qt.MatrixProductState(row(v), N), v, 'MatrixProductState', (2,) * N) if hasattr(qt, 'MatrixProductState') and N > 1 else None
    # mixtures: the expectation of a mixture is the mixture of the expectations, and its reduction the mixture of the reductions
    p = c['p']
    d = f32vec(p * np.outer(v, v.conj()) / nv ** 2 + (1 - p) * np.outer(u, u.conj()) / nu ** 2)
    M = 30 * f32vec(observable(N, 'H'))
    want = p * np.vdot(v, M @ v).real / nv ** 2 + (1 - p) * np.vdot(u, M @ u).real / nu ** 2
    expect(qm.expval(T(d), T(M), rho=True).reshape(-1), np.array([want]), 'expval of a mixture', 60 * TOL)
    for l in ([0], [N - 1], list(range(1, N))) if N > 1 else ():
        left = [q for q in range(N) if q not in l]
        want = 0
        for x, w in ((v, p / nv ** 2), (u, (1 - p) / nu ** 2)):
            x = x.reshape((2,) * N).transpose(left + l).reshape(2 ** len(left), -1)
            want = want + w * (x @ x.conj().T)
        for f in (qm.partial_trace, qm.partial_trace_old):
            expect(f(T(d), N, l), want, '%s of a mixture' % f.__name__, TOL)


def check_case(c):
    {'op': op_case, 'cir': cir_case, 'lib': lib_case}[c['t']](c)


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations', len(c.get('sc', [0])))
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    coef = range(len(COEF))
    cs = []
    for N, km in ((1, None), (2, None), (3, None), (4, 2 if q else None), (5, 2)):
        for j, op in enumerate(A.ops(N, None, km)):
            if N > 3 and q and j % 2:
                continue
            cs.append({'t': 'op', 'N': N, 'op': op, 'sc': [[s, i] for k, s in enumerate(PAIRS) for i in coef if N < 3 or (i + j + k) % (3 if q else 1) == 0]})
    eng.map(unit, chunks(cs, 8))
    ab = COEF if q else COEF + MORE
    al = alphabet3() + [['BasicEntangleLayer', [2, 0], A.gen(6)], ['HLayer', [2, 1], []]]
    cs = [{'t': 'cir', 'N': 3, 'ops': [a, b], 's': PAIRS[(i + j) % 6], 'ab': _js(ab[(i + 3 * j) % len(ab)]), 'grad': (i + j) % 2, 'm': (1, 40)[j % 2]}
          for i, a in enumerate(al) for j, b in enumerate(al)]
    cs += [{'t': 'cir', 'N': 3, 'ops': [a], 's': s, 'ab': _js(x), 'grad': 1} for a in al for s in PAIRS[:3] for x in ab]
    for N, n in ((1, 12), (2, 12), (3, 10), (4, 8), (5, 6), (6, 5)) if q else ((1, 40), (2, 40), (3, 30), (4, 20), (5, 15), (6, 10)):
        for k in range(10):
            cs.append({'t': 'cir', 'N': N, 'ops': A.strided(A.tn_ops(N, 3 if N < 5 else 2), n, 7 + 6 * k, k), 's': PAIRS[k % 6],
                       'ab': _js(ab[k % len(ab)]), 'grad': N < 5})
    eng.map(unit, chunks(cs, 12))
    cs = [{'t': 'lib', 'N': N, 's': s, 'ab': _js(x), 'cd': _js(COEF[(i + 3) % 10]), 'p': [1, 0.3, 0.5, 0.001][(i + N) % 4]}
          for N in (1, 2, 3, 4, 5, 6) for s in PAIRS for i, x in enumerate(ab)]
    eng.map(unit, chunks(cs, 6))


def _js(ab):
    """Coefficients as something JSON can hold."""
    return ['%r' % complex(x) for x in ab]
