"""C11: back-propagation through every evaluation path against analytic derivatives."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, T, npy, to_mps, from_mps
from .gradlib import observable, f32vec

LEVEL = 'exploration'
RULE = ('one case = parameterised operation or circuit x wires x evaluation path x way the parameters are supplied; '
        'oracle: analytic derivative; distinct = distinct cases')
BOUNDS = {
    'quick': 'every parameterised operation on every wire tuple (N<=3; N=4 <=2 wires, no MPS) on dense/contraction/batch/'
             'MPS/inverse/measure/expectation paths x {constructor leaf, 1-element leaf, slice of a shared weight, after '
             'an update}; all pairs of operations on 2 qubits through the circuit paths; special angles; wide layers N=4,5 '
             'and repeated layers; walks of 3..12 operations on 1..6 qubits fed by one weight vector',
    'thorough': 'plus all pairs on 3 qubits (<=2 wires), N=4 all wires',
}
PATHS = ['dense', 'tn', 'batch', 'mps']


def apply_path(o, N, v, path):
    if path == 'dense':
        return (o.U_expand() @ T(v).view(-1, 1)).reshape(-1)
    if path == 'tn':
        return o.TN_contract(tens(v, N)).reshape(-1)
    if path == 'batch':
        b = torch.stack([tens(make_state(N, ['p', 3]), N), tens(v, N)])
        return o.TN_contract(b, batch_mod=True)[1].reshape(-1)
    return from_mps(o.TN_operation(to_mps(v, N))).reshape(-1)


def leaf_for(kind, p, supply):
    """(leaf tensor, parameters handed to the operation, index of the first parameter in the leaf)."""
    one = kind in A.KINDSP_1 + A.KINDSP_2
    p = [float(x) for x in p]
    if supply == 'slice':                    # a piece of a longer weight, as training code does
        w = torch.tensor([9.0] + p + [7.0], requires_grad=True)
        return w, (w[1] if one else w[1:1 + len(p)]), 1
    if supply == 'scaled':                   # computed from a leaf
        w = torch.tensor([x / 2 for x in p], requires_grad=True)
        q = 2 * w
        return w, (q[0] if one else q), 0
    if one and supply != 't1':
        w = torch.tensor(p[0], requires_grad=True)
    else:
        w = torch.tensor(p, requires_grad=True)
    return w, w, 0


def got_grad(w, off, n, scale=1.0):
    need(w.grad is not None, 'no gradient reaches the parameters')
    g = npy(w.grad).reshape(-1).real
    if g.size > n:
        need(np.all(g[:off] == 0) and np.all(g[off + n:] == 0), 'gradient reaches unrelated weights')
    return g[off:off + n] / scale


def near(g, want, what, tol):
    g, want = np.asarray(g), np.asarray(want)
    ok = np.abs(g - want) <= tol * (1 + np.abs(want))
    need(g.shape == want.shape and bool(np.all(ok)), '%s: gradient %s, true derivative %s' % (what, g, want))


def check_case(c):
    N = c['N']
    if c['t'] == 'circuit':
        return circuit_case(c)
    op = c['op']
    kind, n = op[0], len(op[2])
    v, w = f32vec(make_state(N, ['g'])), f32vec(make_state(N, ['g', 2]))
    leaf, par, off = leaf_for(kind, op[2], c['supply'])
    if c['t'] in ('upd', 'updagain'):
        o = A.build([kind, op[1], A.gen(n, 5)] + op[3:], N)
        if c['t'] == 'updagain':
            apply_path(o, N, v, c['path'])
            o.params_update(A.mk_params(kind, A.gen(n, 9), 'grad'))
            apply_path(o, N, v, c['path'])
        o.params_update(par)
    else:
        o = A.build(op, N, params=par)
    if c['t'] == 'dag':
        d = o.operation_dagger()
        out = apply_path(d, N, v, c['path'])
        want = [float(np.real(np.vdot(ref.dapply(op, k, w.reshape((2,) * N)).reshape(-1), v))) for k in range(n)]
    else:
        out = apply_path(o, N, v, c['path'])
        want = [float(np.real(np.vdot(w, ref.dapply(op, k, v.reshape((2,) * N)).reshape(-1)))) for k in range(n)]
    if c['t'] == 'measure':
        qm = lib()[4]
        q = c['q']
        val = qm.measure(N, out, q)
        qs = list(range(N)) if q is None else [q] if isinstance(q, int) else q
        need(val.numel() == len(qs), 'measure returns %d values for %d qubits' % (val.numel(), len(qs)))
        cf = [0.3 + 0.5 * i for i in range(len(qs))]
        loss = sum(a * b for a, b in zip(cf, val.reshape(-1)))
        M = sum(a * ref.embed(ref.Z, [i], N) for a, i in zip(cf, qs))
        want = ref.grad_expectation([op], N, v, M)
    else:
        loss = (T(w).conj() * out).sum().real
    need(loss.requires_grad, '%s path drops the parameters from the graph' % c['path'])
    loss.backward()
    sc = 2.0 if c['supply'] == 'scaled' else 1.0
    near(got_grad(leaf, off, n, sc), want, '%s via %s (%s)' % (kind, c['path'], c['t']), 3e-3 if c['path'] == 'mps' else 2e-4)


def circuit_case(c):
    """One weight vector feeding every operation of a circuit."""
    N, ops = c['N'], c['ops']
    qo, ql, qc, qt, qm = lib()
    v = f32vec(make_state(N, ['g']))
    allp = [float(x) for o in ops for x in o[2]]
    w = torch.tensor(allp, requires_grad=True)
    cir = qc.Circuit(N)
    i = 0
    for op in ops:
        n = len(op[2])
        one = op[0] in A.KINDSP_1 + A.KINDSP_2
        A.add(cir, op, params=(w[i] if one else w[i:i + n]) if n else None)
        i += n
    M = f32vec(observable(N, 'H'))
    path = c['path']
    if path == 'expTN':
        loss = cir.cir_expectation(row(v), T(M), TN=True)
    elif path == 'expU':
        loss = cir.cir_expectation(row(v), T(M), TN=False)
    else:
        if path == 'U':
            out = (cir.U() @ T(v).view(-1, 1)).reshape(-1)
        elif path == 'tn':
            out = cir.TN_contract_evolution(tens(v, N)).reshape(-1)
        elif path == 'batch':
            out = cir.TN_contract_evolution(torch.stack([tens(v, N)] * 2), batch_mod=True)[1].reshape(-1)
        else:
            out = from_mps(cir.TN_evolution(to_mps(v, N))).reshape(-1)
        loss = (out.conj() @ (T(M) @ out)).real
    need(loss.requires_grad, 'circuit path %s drops the parameters' % path)
    loss.backward()
    near(got_grad(w, 0, len(allp)), ref.grad_expectation(ops, N, v, M), 'circuit via %s' % path,
         5e-3 if path in ('mps', 'expTN') else 3e-4)


def go(ctx, c):
    ctx.count('evaluations')
    ctx.distinct(c)
    ctx.sample(c)
    return ctx.case(c)


def unit_ops(u, ctx):
    N, kind, kmax, mps = u
    tn = A.support_tn([kind])
    paths = [p for p in PATHS if (p == 'dense' or tn) and (p != 'mps' or mps)]
    sup = ['leaf', 't1', 'slice', 'scaled'] if kind in A.KINDSP_1 + A.KINDSP_2 else ['leaf', 'slice', 'scaled']
    for op in A.ops(N, [kind], kmax):
        for path in paths:
            for s in sup:
                if not go(ctx, {'N': N, 'op': op, 'path': path, 'supply': s, 't': 'ctor'}):
                    return
            ts = ['upd', 'updagain'] + (['dag'] if kind not in ('BasicEntangleLayer',) else [])
            for t in ts:
                if not go(ctx, {'N': N, 'op': op, 'path': path, 'supply': 'leaf', 't': t}):
                    return
            if path != 'mps':
                for q in [None, 0, N - 1, list(range(N))[::-1]]:
                    if not go(ctx, {'N': N, 'op': op, 'path': path, 'supply': 'leaf', 't': 'measure', 'q': q}):
                        return


def unit_shape(u, ctx):
    for c in u:
        if not go(ctx, c):
            return


def shapes(q):
    """Wide and repeated layers; one weight vector feeding long circuits."""
    out = []
    for N in ((4, 5) if q else (4, 5, 6)):
        for k in A.VARIABLE:
            if not A.nparams(k, [0, 1]):
                continue
            ws = A.wide_choices(k, N, 4 if N < 6 else 6)
            for i, w in enumerate(ws if not q else ws[N % 2::2]):
                op = [k, w, A.gen(A.nparams(k, w))]
                for path in ('dense', 'tn', 'batch') if A.support_tn(op) else ('dense',):
                    out.append([{'N': N, 'op': op, 'path': path, 'supply': ('leaf', 'slice', 'scaled')[i % 3], 't': ('ctor', 'upd')[i % 2]}])
    for r in (1, 2, 3, 4, 5):
        for N, w in ((2, [0, 1]), (2, [1, 0]), (3, [2, 0, 1])):
            op = ['BasicEntangleLayer', w, A.gen(3 * len(w) * r), {'repeat': r}]
            out += [[{'N': N, 'op': op, 'path': 'dense', 'supply': s, 't': t}] for s in ('leaf', 'slice', 'scaled') for t in ('ctor', 'upd')]
            out.append([{'t': 'circuit', 'N': N, 'ops': [op, ['rx', [0], [0.3]]], 'path': 'U'}])
    for N, n in ((1, 12), (2, 12), (3, 10), (4, 8), (5, 5), (6, 3)) if q else ((1, 30), (2, 30), (3, 20), (4, 14), (5, 8), (6, 6), (7, 4)):
        for a in (1, 7, 31):
            for b in range(4 if q else 40):
                al = A.ops(N, kmax=3 if N < 5 else 2) if b % 2 else A.tn_ops(N, 3 if N < 5 else 2)
                ops = A.strided(al, n, a, b * 5)
                if not any(o[2] for o in ops):
                    continue
                tn = all(A.support_tn(o) for o in ops)
                for path in ('U', 'expU', 'tn', 'batch') if tn else ('U', 'expU'):
                    out.append([{'t': 'circuit', 'N': N, 'ops': ops, 'path': path}])
    return out


def unit_angles(u, ctx):
    kind = u
    N = 2
    w = list(range(A.arity(kind)[0]))[::-1]
    n = A.nparams(kind, w)
    for slot in range(n):
        for a in A.ANGLES:
            p = A.gen(n)
            p[slot] = float(a)
            for path in ('dense', 'tn', 'mps') if A.support_tn([kind]) else ('dense',):
                if not go(ctx, {'N': N, 'op': [kind, w, p], 'path': path, 'supply': 'leaf', 't': 'ctor'}):
                    return
                if not go(ctx, {'N': N, 'op': [kind, w, p], 'path': path, 'supply': 'leaf', 't': 'upd'}):
                    return


def unit_seq(u, ctx):
    N, kmax, i, paths = u
    al = A.ops(N, None, kmax)
    for op in al:
        ops = [al[i], op]
        if not any(o[2] for o in ops):
            continue
        tn = all(A.support_tn(o) for o in ops)
        for p in paths:
            if not tn and p not in ('U', 'expU', 'expTN'):
                continue
            if not go(ctx, {'t': 'circuit', 'N': N, 'ops': ops, 'path': p}):
                return


def explore(eng):
    q = eng.quick
    kinds = [k for k in A.ALL_KINDS if A.nparams(k, [0, 1, 2])]
    eng.map(unit_ops, [(N, k, None, True) for N in (1, 2, 3) for k in kinds])
    eng.map(unit_angles, kinds)
    eng.map(unit_seq, [(2, None, i, ['U', 'tn', 'batch', 'mps', 'expTN', 'expU']) for i in range(len(A.ops(2)))])
    eng.map(unit_ops, [(4, k, 2 if q else None, False) for k in kinds])
    if not q:
        eng.map(unit_seq, [(3, 2, i, ['U', 'tn', 'batch', 'expU']) for i in range(len(A.ops(3, None, 2)))])
    eng.map(unit_shape, shapes(q))
