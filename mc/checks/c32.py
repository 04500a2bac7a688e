"""C32: any route through the representations (vector, chain, tensor, batch, density matrix, density chain) gives the same physics."""
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, npy, make_state, T, row, basis

LEVEL = 'model_checking'
RULE = ('a path through the graph whose nodes are the representations of a state and whose edges are the real conversions and '
        'evolutions (and, from special states, evolutions there and back); every path up to the depth bound is executed from the start on the real code, every result being handed '
        'on exactly as it was returned (its layout, views and bonds included), and the final representation and what can be '
        'measured on it compared with the reference')
BOUNDS = {
    'quick': '3 qubits: every path of <=5 edges from a generic vector, <=4 from a product, a GHZ and a basis state (there also a circuit followed by its inverse, which leaves rounding noise); 2 qubits: <=5; 4: <=4; 5: <=3; '
             'every path of <=4 edges on 2 and 3 qubits (no density chain) differentiated by an angle shared by all gates',
    'thorough': '3 and 2 qubits: <=7 edges (<=6 from the special states); 4: <=6; 5: <=5; 6: <=4; differentiated: <=6 (4 qubits: <=4)',
}
TOL = 4e-5
GTOL = 2e-3

# what every gate edge applies: a different operation at every depth, so that short paths meet all kinds
def programs(N, th=None):
    a = 0.7 if th is None else th
    e = N - 1
    m = N // 2
    g = A.gen
    out = [[['ry', [0], [a]]], [['cnot', [e, 0], []]], [['YZYLayer', [e, 0], [a] * 6]], [['rxx', [e, 0], [a]]], [['cu3', [0, e], [a] * 3]],
           [['Hadamard', [m], []], ['rzz', [0, e], [a]]], [['DAG', ['cphase', [e, 0], [a]], []]], [['ring_of_cnot', list(range(N)), []]],
           [['u3', [e], [a] * 3], ['SWAP', [e, 0], []]], [['XZLayer', list(range(N)), [a] * (2 * N)], ['cz', [0, e], []]],
           [['DAG', ['YZYLayer', [0, e], [a] * 6], []]], [['ryy', [0, e], [a]]], [['rx', [m], [a]], ['u1', [e], [a]], ['HLayer', [e, 0], []]],
           [['ring_of_cnot', [e, 0], []], ['rz', [0], [a]]]]
    if N > 2:
        out[1] = [['toffoli', [e, 0, 1], []]]
        out[7] = [['ring_of_cnot_dagger', [1, e, 0], []]]
    assert g
    return out


GATES = ('g0', 'g1', 'circ')
EDGES = {
    'v': [('g0', 'v'), ('circ', 'v'), ('mps', 'm'), ('ten', 't'), ('amp', 'v'), ('rho', 'r'), ('conj', 'v')],
    'm': [('g0', 'm'), ('g1', 'm'), ('circ', 'm'), ('vec', 'v'), ('ten', 't'), ('conj', 'm')],
    't': [('g0', 't'), ('g1', 't'), ('circ', 't'), ('vec', 'v'), ('bat', 'b'), ('bat2', 'b'), ('conj', 't')],
    'b': [('g0', 'b'), ('g1', 'b'), ('circ', 'b'), ('one', 't'), ('conj', 'b')],
    'r': [('g0', 'r'), ('circ', 'r'), ('anc', 'r'), ('anc_old', 'r'), ('pt', 'r'), ('mpdo', 'd'), ('ten', 'T'), ('dag', 'r'), ('conj', 'r')],
    'd': [('rho', 'r')],
    'T': [('rho', 'r')],
}


def paths(n, grad=False, echo=False):
    """Every path of exactly n edges from a vector."""
    todo = [([], 'v')]
    for _ in range(n):
        todo = [(p + [e], d) for p, s in todo for e, d in EDGES[s] + ([('echo', s)] if echo and s in 'vmtbr' else [])
                if not (grad and d in 'dT')]
    return [p for p, _ in todo]


def echo(N):
    """A circuit and its inverse: the state comes back with rounding noise where it had zeros."""
    ops = [['YZYLayer', list(range(N)), [0.3 + 0.41 * i for i in range(3 * N)]], ['cnot', [0, N - 1], []], ['rxx', [N - 1, 0], [0.8]]]
    return ops + [['DAG', o, []] for o in reversed(ops)]


def ops_at(N, i, e, th):
    al = programs(N, th)
    k = {'g0': 3 * i, 'g1': 3 * i + 1, 'circ': 3 * i + 2}[e]
    return al[k % len(al)]


def kraus(N, ops):
    U = np.eye(2 ** N, dtype=complex)
    for o in ops:
        U = ref.U(o, N) @ U
    return U


def params(o, N, th):
    """Build the operation; with th, every angle is the one trainable number th."""
    if th is None:
        return A.build(o, N)
    if o[0] == 'DAG':
        return params(o[1], N, th).operation_dagger()
    n = len(o[2])
    if not n:
        return A.build(o, N)
    return A.build(o, N, params=th if o[0] in A.KINDSP_1 + A.KINDSP_2 else torch.stack([th] * n))


def step(x, s, e, N, ops, th):
    _, qc, _, qt, qm = lib()[0], lib()[2], lib()[1], lib()[3], lib()[4]
    if e in GATES or e == 'echo':
        real = [params(o, N, th) for o in (echo(N) if e == 'echo' else ops)]
        if e == 'circ':
            c = qc.Circuit(N)
            for o in real:
                c.add(o)
            if s == 'v':
                return (c.U() @ x.view(-1, 1)).permute(1, 0), 'v'
            if s == 'm':
                return c.TN_evolution(x), 'm'
            if s in 'tb':
                return c.TN_contract_evolution(x, batch_mod=s == 'b'), s
            U = c.U()
            return U @ x @ qm.dag(U), 'r'
        for o in real:
            if s == 'v':
                x = (o.U_expand() @ x.view(-1, 1)).permute(1, 0)
            elif s == 'm':
                x = o.TN_operation(x)
            elif s in 'tb':
                x = o.TN_contract(x, batch_mod=s == 'b')
            else:
                U = o.U_expand()
                x = U @ x @ qm.dag(U)
        return x, s
    k = (s, e)
    if e == 'conj':                     # lazily: only a bit in the tensor; a density matrix by transposing it
        return ([t.conj() for t in x] if s == 'm' else x.T if s == 'r' else x.conj()), s
    if e == 'dag':
        return qm.dag(x), 'r'
    if k == ('v', 'mps'):
        return qt.StateVec2MPS(x, N), 'm'
    if k == ('v', 'ten'):
        return qt.MatrixProductState(x, N), 't'
    if k == ('v', 'amp'):
        from deepquantum.embeddings.qembedding import AmplitudeEncoding
        return AmplitudeEncoding(N, x.squeeze()).encoded_state().view(1, -1), 'v'
    if k == ('v', 'rho'):
        return x.T @ x.conj(), 'r'
    if k == ('m', 'vec'):
        return qt.MPS2StateVec(x), 'v'
    if k == ('m', 'ten'):
        return qt.MPS2StateVec(x, return_sv=False), 't'
    if k == ('t', 'vec'):
        return x.reshape(1, -1), 'v'
    if k == ('t', 'bat'):
        return torch.stack([x, T(basis(N, 1)).view([2] * N)]), 'b'
    if k == ('t', 'bat2'):
        return torch.stack([T(basis(N, 2)).view([2] * N), x, x.conj()])[1:].flip(0).flip(0), 'b'
    if k == ('b', 'one'):
        return x[0], 't'
    if k == ('r', 'anc'):               # one more qubit on each side, traced out again
        a = T([[0.3, 0.1j], [-0.1j, 0.7]])
        return qm.partial_trace(qm.multi_kron([a, x, a]), N + 2, [N + 1, 0]), 'r'
    if k == ('r', 'anc_old'):
        a = T([[0.3, 0.1j], [-0.1j, 0.7]])
        return qm.partial_trace_old(qm.multi_kron([x, a]), N + 1, [N]), 'r'
    if k == ('r', 'pt'):
        a = T([[0.6, 0.2], [0.2, 0.4]])
        return qm.ptrace(qm.multi_kron([x, a]), N, 1), 'r'
    if k == ('r', 'mpdo'):
        return qt.Rho2MPS(x, N), 'd'
    if k == ('d', 'rho'):
        return qt.MPS2Rho(x), 'r'
    if k == ('r', 'ten'):
        return qt.MatrixProductDensityOperator(x, N), 'T'
    if k == ('T', 'rho'):
        return x.reshape(2 ** N, 2 ** N), 'r'
    raise KeyError(k)


def observable(N):
    i = np.arange(2 ** N)
    m = np.cos(i[:, None] + 2 * i[None]) + 1j * np.sin(3 * i[:, None] - i[None])
    m = m + m.conj().T
    return m / np.linalg.norm(m, 2)


def same(x, s, v, N, what):
    """The representation itself and everything that can be measured on it."""
    qt, qm = lib()[3], lib()[4]
    z = np.array([1 - 2 * ((np.arange(2 ** N) >> (N - 1 - q)) & 1) for q in range(N)]) @ np.abs(v) ** 2
    M = observable(N)
    if s == 'm':
        need(len(x) == N, '%s: %d tensors' % (what, len(x)))
        expect(qt.MPS_expec(x, [N - 1], [T(ref.Z)]), z[N - 1], what + ': MPS_expec', TOL)
        w = make_state(N, ['p', 2])
        expect(qt.MPS_inner_product(x, qt.StateVec2MPS(row(w), N)), np.vdot(w, v), what + ': MPS_inner_product', TOL)
        x, s = qt.MPS2StateVec(x), 'v'
    if s == 'v':
        expect(x, v, what, TOL, shape=(1, 2 ** N))
        expect(qm.measure(N, x), z, what + ': measure', TOL)
        expect(qm.expval(x, T(M)), (v.conj() @ M @ v).real, what + ': expval', TOL)
        return
    if s == 't':
        expect(x, v, what, TOL, shape=(2,) * N)
        return
    if s == 'b':
        expect(x[0], v, what, TOL, shape=(2,) * N)
        return
    rho = np.outer(v, v.conj())
    if s == 'T':
        expect(x, rho, what, TOL, shape=(2,) * (2 * N))
        return
    if s == 'd':
        x = qt.MPS2Rho(x)
    expect(x, rho, what, TOL, shape=(2 ** N, 2 ** N))
    expect(qm.expval(x, T(M), rho=True), np.trace(rho @ M).real, what + ': expval', TOL)
    expect(qm.measure(N, x), z, what + ': measure', TOL)
    for q in range(N):
        want = ref_trace(rho, N, [q])
        expect(qm.partial_trace(x, N, [q]), want, what + ': partial_trace %d' % q, TOL)


def ref_trace(rho, N, out):
    t = rho.reshape((2,) * (2 * N))
    for q in sorted(out, reverse=True):
        n = t.ndim // 2
        t = np.trace(t, axis1=q, axis2=n + q)
    d = int(round(np.sqrt(t.size)))
    return t.reshape(d, d)


def want_vec(c, th=None):
    N = c['N']
    v = make_state(N, c['s'])
    for i, e in enumerate(c['path']):
        if e in GATES:
            for o in ops_at(N, i, e, th):
                v = ref.apply_vec(o, v, N)
        elif e == 'conj':
            v = v.conj()
    return v


def value(x, s, N):
    qt, qm = lib()[3], lib()[4]
    M = T(observable(N))
    if s == 'm':
        x, s = qt.MPS2StateVec(x), 'v'
    if s in 'vt':
        return qm.expval(x.reshape(1, -1), M)
    if s == 'b':
        return qm.expval(x[0].reshape(1, -1), M)
    return qm.expval(x, M, rho=True)


def check_case(c):
    N = c['N']
    x = row(make_state(N, c['s']))
    s = 'v'
    th = torch.tensor(c['grad'], requires_grad=True) if 'grad' in c else None
    for i, e in enumerate(c['path']):
        x, s = step(x, s, e, N, ops_at(N, i, e, c.get('grad')) if e in GATES else None, th)
    what = 'route %s on %d qubits' % ('>'.join(c['path']) or '-', N)
    if th is None:
        same(x, s, want_vec(c), N, what)
        return
    val = value(x, s, N)
    M = observable(N)
    f = lambda t: float((lambda v: v.conj() @ M @ v)(wide(c, t)).real)
    t0 = ref.f32(c['grad'])
    expect(val, f(t0), what + ': value', TOL)
    h = 1e-5
    d = (f(t0 + h) - f(t0 - h)) / (2 * h)
    if not val.requires_grad:
        need(not any(e in GATES and angles(ops_at(N, i, e, c['grad'])) for i, e in enumerate(c['path'])),
             what + ': the value does not depend on the angle for autograd')
        return
    g, = torch.autograd.grad(val, th, allow_unused=True)
    expect(g if g is not None else torch.zeros(()), d, what + ': derivative', GTOL)


def angles(ops):
    return any(len((o[1] if o[0] == 'DAG' else o)[2]) for o in ops)


def wide(c, t):
    """The reference at an angle that is no float32 value (for finite differences in double precision)."""
    keep = ref.f32
    ref.f32 = float
    try:
        return want_vec(c, t)
    finally:
        ref.f32 = keep


def unit(u, ctx):
    N, s, grad, block = u
    for p in block:
        c = {'N': N, 's': s, 'path': p}
        if grad:
            c['grad'] = 0.6
        if not ctx.case(c):
            return
        ctx.count('transitions', len(p))
        ctx.count('traces_validated_against_impl')
        ctx.distinct((N, s, grad, p))
        ctx.sample(c)


def explore(eng):
    q = eng.quick
    plan = [(3, ['g'], 5, 0), (3, ['p'], 4, 0), (3, ['ghz'], 4, 0), (3, ['b', 5], 4, 0), (2, ['b', 3], 4, 0), (2, ['g'], 5, 0), (4, ['g'], 4, 0), (5, ['g'], 3, 0),
            (3, ['g'], 4, 1), (2, ['g'], 4, 1)] if q else [
            (3, ['g'], 7, 0), (3, ['p'], 6, 0), (3, ['ghz'], 6, 0), (3, ['b', 5], 6, 0), (2, ['b', 3], 6, 0), (2, ['g'], 7, 0), (4, ['g'], 6, 0), (5, ['g'], 5, 0), (6, ['g'], 4, 0),
            (3, ['g'], 6, 1), (2, ['g'], 6, 1), (4, ['g'], 4, 1)]
    units = []
    for N, s, depth, grad in plan:
        for n in range(depth + 1):
            ps = paths(n, grad, echo=s != ['g'])
            units += [(N, s, grad, ps[i:i + 60]) for i in range(0, len(ps), 60)]
    eng.map(unit, units)
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
