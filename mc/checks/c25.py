"""C25: back-propagation into states, density matrices, data and builder angles against exact derivatives."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, T, npy, to_mps, from_mps
from .gradlib import observable, f32vec, alphabet3
from . import c13, c18, c19, c20

LEVEL = 'exploration'
RULE = ('one case = differentiable function of a state / density matrix / data vector / builder angle x argument x evaluation path; '
        'oracle: adjoint of the exact operator for linear functions, central differences of the double-precision reference otherwise; '
        'distinct = distinct cases')
BOUNDS = {
    'quick': 'evolution: every operation on every wire tuple (N<=3; N=4 <=2 wires) on dense/contraction/batch/MPS (MPS: N<=3, generic states) '
             'with generic, basis and product states as leaves, wide layers N=4,5, circuits of 2 operations of a 16-letter alphabet; conversions '
             'N<=4; matrix-product tensors as leaves (N<=4, full and padded bonds) through conversion, inner product, local expectation and '
             'operations; every partial trace and ordered list N<=4 (N=5 subsets); expectations and every ordered qubit selection N<=3, pure '
             'and mixed; encodings over every axis, length and ordered wire list N<=3; every layer builder N<=5 and gate-list calls of length '
             '<=2 (N=2,3); images up to 4x4, every stride 1..3',
    'thorough': 'evolution N=4 every wire tuple, N=5 <=2 wires; circuits of 2 operations over all operations with <=2 wires on 3 qubits; '
                'builders N<=6; images up to 6x6',
}
LIN, SVD = 2e-4, 4e-3


def weight(shape, k=0, real=False):
    """Generic fixed cotangent."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n)
    w = np.cos(1.3 * i + 0.4 + k) + (0 if real else 1j * np.sin(0.9 * i * i + 0.2 + k))
    return w.reshape(shape).astype(np.float32 if real else np.complex64)


def leaf(x, real=False):
    x = np.asarray(x)
    return torch.tensor(x, dtype=torch.float32 if real else torch.complex64).requires_grad_(True)


def loss_t(out, k=0):
    w = torch.tensor(weight(tuple(out.shape), k, not out.is_complex()))
    return (w.conj() * out).sum().real if out.is_complex() else (w * out).sum()


def loss_n(out, k=0, shape=None, real=None):
    out = np.asarray(out)
    real = (not np.iscomplexobj(out)) if real is None else real
    w = weight(out.shape if shape is None else shape, k, real).reshape(out.shape)
    return float(np.real(np.sum(np.conj(w.astype(complex)) * out)))


def numgrad(f, xs, h=1e-5):
    """d f / d Re + i d f / d Im (torch's convention) for every entry of every array."""
    gs = []
    for a in range(len(xs)):
        x = xs[a]
        g = np.zeros(x.shape, dtype=complex)
        for idx in np.ndindex(*x.shape):
            for u in ((1, 1j) if np.iscomplexobj(x) else (1,)):
                ys = [y.copy() for y in xs]
                ys[a][idx] += h * u
                p = f(ys)
                ys[a][idx] -= 2 * h * u
                g[idx] += u * (p - f(ys)) / (2 * h)
        gs.append(g)
    return gs


def near(x, want, what, tol):
    need(x.grad is not None, '%s: no gradient reaches the argument' % what)
    g = npy(x.grad).reshape(-1)
    want = np.asarray(want).reshape(-1)
    need(g.shape == want.shape, '%s: gradient has %d entries instead of %d' % (what, g.size, want.size))
    s = 1 + np.abs(want).max() if want.size else 1
    d = np.abs(g - want)
    need(bool(np.all(d <= tol * s)), '%s: gradient %s, true derivative %s' % (what, g[:8], want[:8]))


def back(out, what, k=0):
    need(isinstance(out, torch.Tensor) and out.requires_grad, '%s: the argument is not in the graph of the result' % what)
    loss_t(out, k).backward()


def numeric(c, tfn, nfn, xs, what, tol=LIN, real=False):
    """tfn(leaves) against the numeric derivative of nfn(arrays)."""
    xs = [np.asarray(x, dtype=np.float32 if real else np.complex64).astype(float if real else complex) for x in xs]
    ls = [leaf(x, real) for x in xs]
    out = tfn(ls)
    ref_out = np.asarray(nfn(xs))
    need(isinstance(out, torch.Tensor) and out.numel() == ref_out.size, '%s: unexpected result shape' % what)
    real_out = not out.is_complex()
    expect(out.reshape(-1), ref_out.reshape(-1), '%s: value' % what, 2e-5 * (1 + np.abs(ref_out).max()))
    back(out, what)
    sh = tuple(out.shape)
    gs = numgrad(lambda ys: loss_n(np.asarray(nfn(ys)).reshape(sh), 0, real=real_out), xs)
    for i, (l, g) in enumerate(zip(ls, gs)):
        near(l, g, what + (' (argument %d)' % i if len(ls) > 1 else ''), tol)


# ---- evolution --------------------------------------------------------------------------------------

def evolve_case(c):
    N, ops, path = c['N'], c['ops'], c['path']
    U = ref.U_seq(ops, N)
    v = f32vec(make_state(N, c['s']))
    what = '%s via %s' % ('/'.join(o[0] for o in ops), path)
    tol = SVD if path == 'mps' else LIN
    if c.get('cir'):
        cir = A.circuit(ops, N)
        f = {'dense': 'U', 'tn': 'TN_contract_evolution', 'batch': 'TN_contract_evolution', 'mps': 'TN_evolution'}[path]
        f = getattr(cir, f)
    else:
        o = A.build(ops[0], N)
        f = getattr(o, {'dense': 'U_expand', 'tn': 'TN_contract', 'batch': 'TN_contract', 'mps': 'TN_operation'}[path])
    if path == 'batch':
        vs = [v, f32vec(make_state(N, ['p', 2])), f32vec(make_state(N, ['b', 2 ** N - 1]))]
        x = leaf(np.stack(vs).reshape((3,) + (2,) * N))
        out = f(x, batch_mod=True)
        expect(out.reshape(3, -1), np.stack(vs) @ U.T, what, 5e-5)
        back(out, what)
        near(x, weight(tuple(out.shape)).reshape(3, -1).astype(complex) @ U.conj(), what, tol)
        return
    if path == 'dense':
        x = leaf(v.reshape(-1, 1))
        out = f() @ x
    elif path == 'tn':
        x = leaf(v.reshape((2,) * N))
        out = f(x)
    else:
        x = leaf(v.reshape(1, -1))
        out = from_mps(f(lib()[3].StateVec2MPS(x, N)))
    expect(out.reshape(-1), U @ v, what, 5e-5)
    out = out.reshape(-1)
    back(out, what)
    near(x, U.conj().T @ weight(tuple(out.shape)).astype(complex), what, tol)


# ---- conversions and matrix product tensors ---------------------------------------------------------

def contract(ts):
    """(2, Dl, Dr) tensors -> vector."""
    r = ts[0].transpose(1, 0, 2).reshape(-1, ts[0].shape[2]) if ts[0].shape[1] == 1 else None
    for t in ts[1:]:
        r = np.einsum('xa,iab->xib', r, t).reshape(-1, t.shape[2])
    return r.reshape(-1)


def mps_leaves(N, how, k=0):
    b = [1] + [2 ** min(i + 1, N - 1 - i) for i in range(N - 1)] + [1]
    if how == 'wide':
        b = [1] + [x + 1 for x in b[1:-1]] + [1]
    if how == 'thin':
        b = [1] * (N + 1)
    ts = []
    for q in range(N):
        i = np.arange(2 * b[q] * b[q + 1])
        a = (0.5 + 0.4 * np.cos(1.7 * i * i + q + k)) * np.exp(1j * (1.1 * i + 0.5 * i * i + 0.7 * q + k))
        ts.append((a / np.sqrt(b[q])).reshape(2, b[q], b[q + 1]))
    return ts


def conv_case(c):
    qt, N, f = lib()[3], c['N'], c['f']
    if f in ('sv', 'rank'):
        v = f32vec(make_state(N, c['s']))
        x = leaf(v.reshape(1, -1))
        out = qt.MPS2StateVec(qt.StateVec2MPS(x, N)) if f == 'sv' else qt.MPS2StateVec(qt.StateVec2MPS(x, N), return_sv=False)
        out = out.reshape(-1)
        back(out, 'round trip')
        near(x, weight(tuple(out.shape)), 'round trip', SVD)
    elif f == 'view':
        numeric(c, lambda l: qt.MatrixProductState(l[0], N), lambda x: x[0], [make_state(N, c['s']).reshape(1, -1)], 'MatrixProductState')
    elif f == 'mpdo':
        numeric(c, lambda l: qt.MatrixProductDensityOperator(l[0], N), lambda x: x[0], [c13.rho_of(c['rho'])], 'MatrixProductDensityOperator')


def mps_case(c):
    qt, N, f = lib()[3], c['N'], c['f']
    ts = mps_leaves(N, c['how'])
    if f == 'sv':
        numeric(c, lambda l: qt.MPS2StateVec(list(l)), contract, ts, 'MPS2StateVec')
    elif f == 'rank':
        numeric(c, lambda l: qt.MPS2StateVec(list(l), return_sv=False), contract, ts, 'MPS2StateVec to rank N')
    elif f == 'inner':
        us = mps_leaves(N, c.get('how2', c['how']), 3)
        numeric(c, lambda l: qt.MPS_inner_product(list(l[:N]), list(l[N:])),
                lambda x: np.array(np.vdot(contract(x[N:]), contract(x[:N]))), ts + us, 'MPS_inner_product')
    elif f == 'expec':
        Ms = [ref.PAULI[p] for p in c['M']]

        def nfn(x):
            v = contract(x)
            u = v.reshape((2,) * N)
            for q, m in zip(c['w'], Ms):
                u = ref.apply_m(m, [q], u)
            return np.array(np.vdot(v, u.reshape(-1)).real)
        numeric(c, lambda l: qt.MPS_expec(list(l), list(c['w']), [T(m) for m in Ms]), nfn, ts, 'MPS_expec')
    elif f == 'op':
        U = ref.U(c['op'], N)
        numeric(c, lambda l: from_mps(A.build(c['op'], N).TN_operation(list(l))).reshape(-1),
                lambda x: U @ contract(x), ts, '%s on matrix product tensors' % c['op'][0], SVD)


# ---- traces and expectations ------------------------------------------------------------------------

def trace_case(c):
    qm, N, lst = lib()[4], c['N'], c['lst']
    rho = c13.rho_of(c['rho'])
    if c['f'] == 'ptrace':
        lst = list(range(c['keep'], N))
        numeric(c, lambda l: qm.ptrace(l[0], c['keep'], N - c['keep']), lambda x: c13.reduced(x[0], N, lst), [rho], 'ptrace')
    else:
        numeric(c, lambda l: getattr(qm, c['f'])(l[0], N, list(lst)), lambda x: c13.reduced(x[0], N, lst), [rho], '%s %s' % (c['f'], lst))


def expect_case(c):
    qo, ql, qc, qt, qm = lib()
    N, f = c['N'], c['f']
    if 'M' in c:
        M = f32vec(observable(N, c['M']))
    if f == 'expval':
        v = make_state(N, c['s'])
        numeric(c, lambda l: qm.expval(l[0], T(M)), lambda x: np.array(np.vdot(x[0], M @ x[0]).real), [v], 'expval')
    elif f == 'expval_rho':
        numeric(c, lambda l: qm.expval(l[0], T(M), rho=True), lambda x: np.array(np.trace(x[0] @ M).real), [c13.rho_of(c['rho'])], 'expval of rho')
    elif f == 'cir':
        U = ref.U_seq(c['ops'], N)
        H = U.conj().T @ M @ U
        numeric(c, lambda l: A.circuit(c['ops'], N).cir_expectation(l[0], T(M), TN=c['TN']),
                lambda x: np.array(np.vdot(x[0], H @ x[0].reshape(-1)).real), [make_state(N, c['s']).reshape(1, -1)],
                'cir_expectation(TN=%s)' % c['TN'], SVD if c['TN'] else LIN)
    else:
        q = c['q']
        qs = list(range(N)) if q is None else [q] if isinstance(q, int) else q
        Zs = [ref.embed(ref.Z, [i], N) for i in qs]
        if f == 'measure':
            numeric(c, lambda l: qm.measure(N, l[0], q).reshape(-1),
                    lambda x: np.array([np.vdot(x[0], z @ x[0]).real for z in Zs]), [make_state(N, c['s'])], 'measure %s' % q)
        else:
            numeric(c, lambda l: qm.measure(N, l[0], q).reshape(-1),
                    lambda x: np.array([np.trace(x[0] @ z).real for z in Zs]), [c13.rho_of(c['rho'])], 'measure of rho %s' % q)


# ---- helpers, encodings, builders -------------------------------------------------------------------

def helper_case(c):
    qm = lib()[4]
    mats = [weight(tuple(s), i) for i, s in enumerate(c['shapes'])]
    if c['f'] == 'dag':
        numeric(c, lambda l: qm.dag(l[0]), lambda x: x[0].conj().T, mats, 'dag')
    else:
        numeric(c, lambda l: qm.multi_kron(list(l)), lambda x: ref.kron(x), mats, 'multi_kron')


def enc_case(c):
    from deepquantum.embeddings.qembedding import AmplitudeEncoding, PauliEncoding
    N = c['N']
    if c['f'] == 'amp':
        def nfn(x):
            out = np.zeros(2 ** N, dtype=complex)
            out[:len(x[0])] = x[0] / np.sqrt(np.sum(np.abs(x[0]) ** 2))
            return out
        x = np.array([0.3 + 0.45 * i * (-1) ** i for i in range(c['n'])])
        if c['cplx']:
            x = x * np.exp(1j * 0.8 * np.arange(c['n']) ** 2)
        numeric(c, lambda l: AmplitudeEncoding(N, l[0]).encoded_state(), nfn, [x], 'amplitude encoding', real=not c['cplx'])
        return
    v = f32vec(make_state(N, ['g']))

    def nfn(x):
        t = v.reshape((2,) * N)
        for i, q in enumerate(c['w']):
            t = ref.apply_m(ref.ROT[c['axis']](x[0][i % len(x[0])]), [q], t)
        return t.reshape(-1)

    def tfn(l):
        e = PauliEncoding(N, l[0], list(c['w']), c['axis'])
        if c['path'] == 'dense':
            return (e.U_expand() @ T(v).view(-1, 1)).reshape(-1)
        if c['path'] == 'tn':
            return e.TN_contract(tens(v, N)).reshape(-1)
        if c['path'] == 'batch':
            return e.TN_contract(torch.stack([tens(v, N)] * 2), batch_mod=True)[1].reshape(-1)
        return from_mps(e.TN_operation(to_mps(v, N))).reshape(-1)
    numeric(c, tfn, nfn, [A.gen(c['n'])], 'rotation encoding via ' + c['path'], SVD if c['path'] == 'mps' else LIN, real=True)


def builder_case(c):
    N, name = c['N'], c['f']

    def nfn(x):
        t = np.eye(2 ** N, dtype=complex).reshape((2,) * N + (2 ** N,))
        for m, w in c20.factors(name, N, x[0], True, c.get('inner', 'YZY'), exact=True):
            t = ref.apply_m(m, w, t)
        return t.reshape(2 ** N, 2 ** N)

    def tfn(l):
        f = getattr(c20.ql(), name)
        return f(N, l[0], single_gate=c['inner']) if name in c20.COMB else f(N, l[0])
    numeric(c, tfn, nfn, [A.gen(c20.count(name, N, c.get('inner', 'YZY')), N)], name, real=True)


def gatelist_case(c):
    N, seq = c['N'], c['seq']
    ps = [i for i, x in enumerate(seq) if x[2] is not None]
    w = leaf([seq[i][2] for i in ps], True)
    from deepquantum.gates import qgate
    cir = qgate.Circuit(N)
    for i, x in enumerate(seq):
        m, ws = x[0], x[1]
        if m == 'multi_control_cnot':
            cir.multi_control_cnot(list(ws[:-1]), ws[-1])
        elif x[2] is None:
            getattr(cir, m)(*ws)
        else:
            getattr(cir, m)(*ws, w[ps.index(i)])
    U = cir.U()
    back(U, 'gate-list circuit')
    W = weight(tuple(U.shape)).astype(complex)
    ops = [c19.rop(x) for x in seq]
    want = []
    for i in ps:
        t = np.eye(2 ** N, dtype=complex).reshape((2,) * N + (2 ** N,))
        for j, op in enumerate(ops):
            t = ref.dapply(op, 0, t) if j == i else ref.apply(op, t)
        want.append(np.real(np.sum(W.conj() * t.reshape(2 ** N, 2 ** N))))
    near(w, want, 'gate-list circuit %s' % [x[0] for x in seq], LIN)


def image_case(c):
    m = c18.layer(c)
    w = npy(m.weight).real * float(m.w_mul)
    numeric(c, lambda l: m(l[0]), lambda x: c18.expected(x[0], w, 2, c['stride']), [c18.image(c)], 'image', LIN, real=True)


CASES = {'evolve': evolve_case, 'conv': conv_case, 'mps': mps_case, 'trace': trace_case, 'expect': expect_case, 'helper': helper_case,
         'enc': enc_case, 'builder': builder_case, 'gatelist': gatelist_case, 'image': image_case}


def check_case(c):
    CASES[c['t']](c)


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def cases(q):
    out = []
    # evolution
    for N in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        kmax = None if N < 4 or (N == 4 and not q) else 2
        for i, op in enumerate(A.ops(N, kmax=kmax)):
            if kmax and len(op[1]) > kmax:
                continue
            paths = ['dense'] + (['tn', 'batch'] if A.support_tn(op) else [])
            for p in paths:
                for s in (['g'], ['b', 1], ['p', 1]) if N < 4 else (['g'],):
                    out.append({'t': 'evolve', 'N': N, 'ops': [op], 'path': p, 's': s})
            if A.support_tn(op) and N < 4:
                out.append({'t': 'evolve', 'N': N, 'ops': [op], 'path': 'mps', 's': ['g']})
    for N in (4, 5):
        for op in A.wide_ops(N):
            for p in ['dense'] + (['tn', 'batch'] if A.support_tn(op) else []):
                out.append({'t': 'evolve', 'N': N, 'ops': [op], 'path': p, 's': ['g']})
    al = alphabet3() if q else [o for o in A.ops(3, kmax=2) if A.support_tn(o)]
    for a, b in itertools.product(al, al):
        for p in ('dense', 'tn', 'batch', 'mps'):
            out.append({'t': 'evolve', 'N': 3, 'ops': [a, b], 'path': p, 's': ['g'], 'cir': 1})
    # conversions
    for N in (1, 2, 3, 4):
        for s in (['g'], ['g', 1], ['g', 4]):
            for f in ('sv', 'rank', 'view'):
                out.append({'t': 'conv', 'f': f, 'N': N, 's': s})
        if N < 4:
            for k in (0, 1, 4 ** N):
                out.append({'t': 'conv', 'f': 'mpdo', 'N': N, 'rho': {'N': N, 'k': k}})
        hows = ('full', 'wide', 'thin')
        for how in hows if N > 1 else ('full',):
            for f in ('sv', 'rank'):
                out.append({'t': 'mps', 'f': f, 'N': N, 'how': how})
            for h2 in hows if N > 1 else ('full',):
                out.append({'t': 'mps', 'f': 'inner', 'N': N, 'how': how, 'how2': h2})
            for w in A.subsets(N, 1, 2):
                for M in (('Z', 'X'), ('Y', 'Y'), ('X', 'Z')):
                    out.append({'t': 'mps', 'f': 'expec', 'N': N, 'how': how, 'w': w, 'M': M[:len(w)]})
        if N in (2, 3):
            for op in A.ops(N):
                if A.support_tn(op):
                    out.append({'t': 'mps', 'f': 'op', 'N': N, 'how': 'full', 'op': op})
    # traces
    for N in (1, 2, 3, 4, 5):
        rhos = [{'N': N, 'k': 1}, {'N': N, 'mix': [[0.7, ['g']], [0.3, ['g', 2]]]}] if N < 4 else [{'N': N, 'mix': [[0.7, ['g']], [0.3, ['g', 2]]]}]
        lsts = A.subsets(N, 0, N) if N < 4 else [list(s) for k in range(N + 1) for s in itertools.combinations(range(N), k)]
        if N == 4:
            lsts += [l[::-1] for l in lsts if len(l) > 1]
        for rho in rhos:
            for lst in lsts:
                for f in ('partial_trace', 'partial_trace_old'):
                    out.append({'t': 'trace', 'f': f, 'N': N, 'lst': lst, 'rho': rho})
            for k in range(1, N):
                out.append({'t': 'trace', 'f': 'ptrace', 'N': N, 'keep': k, 'lst': [], 'rho': rho})
    # expectations
    for N in (1, 2, 3):
        for M in ('H', 'asym') + tuple(''.join(p) for p in itertools.product('XYZ', repeat=N)):
            for s in (['g'], ['b', 0], ['p', 1]):
                out.append({'t': 'expect', 'f': 'expval', 'N': N, 'M': M, 's': s})
            out.append({'t': 'expect', 'f': 'expval_rho', 'N': N, 'M': M, 'rho': {'N': N, 'mix': [[0.7, ['g']], [0.3, ['g', 2]]]}})
        for qs in [None] + list(range(N)) + A.subsets(N, 1, N):
            out.append({'t': 'expect', 'f': 'measure', 'N': N, 'q': qs, 's': ['g']})
            out.append({'t': 'expect', 'f': 'measure', 'N': N, 'q': qs, 's': ['b', 0]})
            out.append({'t': 'expect', 'f': 'measure_rho', 'N': N, 'q': qs, 'rho': {'N': N, 'mix': [[0.7, ['g']], [0.3, ['g', 2]]]}})
    for op in A.ops(3):
        for TN in (True, False):
            out.append({'t': 'expect', 'f': 'cir', 'N': 3, 'M': 'H', 's': ['g'], 'ops': [op], 'TN': TN and A.support_tn(op)})
    # helpers
    for sh in ([1, 1], [2, 2], [2, 3], [4, 4], [1, 4]):
        out.append({'t': 'helper', 'f': 'dag', 'shapes': [sh]})
    for n in (1, 2, 3, 4):
        for sh in itertools.product(([2, 2], [1, 2], [2, 1]), repeat=n):
            out.append({'t': 'helper', 'f': 'kron', 'shapes': list(sh)})
    # encodings
    for N in (1, 2, 3, 4):
        for n in range(1, 2 ** N + 1):
            for cx in (0, 1):
                out.append({'t': 'enc', 'f': 'amp', 'N': N, 'n': n, 'cplx': cx})
    for N in (1, 2, 3):
        for ax in 'XYZ':
            for w in A.subsets(N, 1, N):
                for n in range(1, N + 1):
                    for p in ('dense', 'tn', 'batch', 'mps'):
                        out.append({'t': 'enc', 'f': 'pauli', 'N': N, 'n': n, 'w': w, 'axis': ax, 'path': p})
    # builders
    for N in range(1, 6 if q else 7):
        for f in list(c20.ROTS) + list(c20.TWOS) + c20.COMB:
            if N < 2 and f not in c20.ROTS:
                continue
            if f in c20.COMB:
                if N > 4 and q:
                    continue
                out += [{'t': 'builder', 'f': f, 'N': N, 'inner': i} for i in (c20.INNER if N < 4 else c20.INNER[:1])]
            else:
                out.append({'t': 'builder', 'f': f, 'N': N})
    for N in (2, 3):
        cs = c19.calls(N)
        par = [x for x in cs if x[2] is not None]
        out += [{'t': 'gatelist', 'N': N, 'seq': [x]} for x in par]
        out += [{'t': 'gatelist', 'N': N, 'seq': [a, b]} for a in cs for b in cs if a in par or b in par]
    # images
    for h in (2, 3, 4) if q else (2, 3, 4, 5, 6):
        for w in (2, 3, 4) if q else (2, 3, 4, 5, 6):
            for s in (1, 2, 3):
                out.append({'t': 'image', 'shape': [1, 1, h, w], 'stride': s})
    for sh in ([2, 1, 3, 3], [3, 2, 2, 3]):
        out.append({'t': 'image', 'shape': sh, 'stride': 1})
    return out


def explore(eng):
    cs = cases(eng.quick)
    eng.map(unit, [cs[i:i + 20] for i in range(0, len(cs), 20)])
