"""Thin access to the code under test (public API only) and comparison helpers."""
import numpy as np
import torch

from . import alpha, ref
from .core import Violation

TOL = 2e-5


def lib():
    import deepquantum.gates.qoperator as qo
    import deepquantum.gates.qcircuit as qc
    import deepquantum.layers.qlayers as ql
    import deepquantum.gates.qtensornetwork as qt
    import deepquantum.gates.qmath as qm
    return qo, ql, qc, qt, qm


def npy(t):
    if isinstance(t, torch.Tensor):
        return t.detach().resolve_conj().resolve_neg().numpy().astype(np.complex128)
    return np.asarray(t, dtype=np.complex128)


def expect(got, want, what, tol=TOL, shape=None, sig=None, case=None):
    if isinstance(got, torch.Tensor) is False and not isinstance(got, np.ndarray):
        raise Violation('%s: no tensor but %r' % (what, type(got).__name__), sig, case)
    g = npy(got)
    w = np.asarray(want)
    if shape is None:
        shape = w.shape
    if tuple(g.shape) != tuple(shape):
        raise Violation('%s: shape %s instead of %s' % (what, tuple(g.shape), tuple(shape)), sig, case)
    d = np.abs(g.reshape(-1) - w.reshape(-1))
    if d.size and not (float(d.max()) <= tol):
        i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
        raise Violation('%s: differs at flat index %d: got %s want %s (|diff| %.3g)'
                        % (what, i, g.reshape(-1)[i], w.reshape(-1)[i], d[i]), sig, case)


def need(cond, what, sig=None, case=None):
    if not cond:
        raise Violation(what, sig, case)


# ---- states ------------------------------------------------------------------------------------------

def gstate(N, k=0):
    """Generic normalised state: all amplitudes different, complex, full Schmidt rank on every cut."""
    i = np.arange(2 ** N)
    a = 1 + 0.7 * np.cos(1.3 * i * i + 0.9 * k) + 0.2 * i % 0.77
    v = a * np.exp(1j * (0.37 * i * i + 1.1 * i + 0.6 * k + 0.2 * i ** 3))
    return v / np.linalg.norm(v)


def basis(N, i=0):
    v = np.zeros(2 ** N, dtype=np.complex128)
    v[i] = 1
    return v


def ghz(N, a=None):
    v = basis(N, 0) + basis(N, 2 ** N - 1) * (1j if a is None else a)
    return v / np.linalg.norm(v)


def product(N, k=0):
    v = np.ones(1, dtype=np.complex128)
    for q in range(N):
        t, f = 0.4 + 0.5 * q + 0.3 * k, 0.9 * q - 0.7 + 0.2 * k
        v = np.kron(v, np.array([np.cos(t), np.exp(1j * f) * np.sin(t)]))
    return v


def eps_state(N, e, k=0):
    """Nearly a product state: a generic correction of size e (tiny Schmidt values)."""
    v = product(N, k) + e * gstate(N, k + 1)
    return v / np.linalg.norm(v)


def eps_pair(N, e, i, j):
    """|i> + e|j>: one small amplitude on a distinct basis state."""
    v = basis(N, i) + e * basis(N, j)
    return v / np.linalg.norm(v)


def make_state(N, s):
    """JSON state descriptor -> vector."""
    kind = s[0]
    return {'g': gstate, 'b': basis, 'ghz': ghz, 'p': product, 'eps': eps_state, 'pair': eps_pair,
            'v': lambda N, v: np.array([complex(*x) for x in v])}[kind](N, *s[1:])


def T(v, dtype=torch.complex64):
    return torch.tensor(np.asarray(v), dtype=dtype)


def row(v):
    return T(v).view(1, -1)


def tens(v, N):
    return T(v).view([2] * N)


def to_mps(v, N):
    return lib()[3].StateVec2MPS(row(v), N)


def from_mps(m):
    return lib()[3].MPS2StateVec(m)


def clone_mps(m):
    return [t.clone() for t in m]


def bonds_ok(m, N, what):
    """Every bond within the exact bound 2^min(left, right), and consistent between neighbours."""
    need(len(m) == N, '%s: %d tensors for %d qubits' % (what, len(m), N))
    need(m[0].shape[1] == 1 and m[-1].shape[2] == 1, '%s: outer bonds are not 1' % what)
    for i in range(N - 1):
        b = m[i].shape[2]
        need(b == m[i + 1].shape[1], '%s: bond %d does not match its neighbour' % (what, i))
        bound = 2 ** min(i + 1, N - 1 - i)
        need(b <= bound, '%s: bond %d is %d, exact bound %d' % (what, i, b, bound))


def profile(m):
    return tuple(int(t.shape[2]) for t in m)


ENGINES = ['dense', 'mps', 'tn', 'batch']


def run_op(o, N, v, engine):
    """Apply one real operation to state v on an engine, returning a flat vector."""
    if engine == 'dense':
        return npy(o.U_expand() @ T(v).view(-1, 1)).reshape(-1)
    if engine == 'mps':
        return npy(from_mps(o.TN_operation(to_mps(v, N)))).reshape(-1)
    if engine == 'tn':
        return npy(o.TN_contract(tens(v, N))).reshape(-1)
    if engine == 'batch':
        b = torch.stack([tens(v, N), tens(basis(N, 2 ** N - 1), N)])
        return npy(o.TN_contract(b, batch_mod=True))[0].reshape(-1)
    raise KeyError(engine)


def engines_for(op):
    return ENGINES if alpha.support_tn(op) else ['dense']


def regauge(m, how):
    """Another matrix product form of the same state: padded bonds, or an invertible matrix moved across a bond."""
    m = [t.clone() for t in m]
    for i in range(len(m) - 1):
        D = m[i].shape[2]
        if how == 'pad':
            m[i] = torch.cat([m[i], torch.zeros(2, m[i].shape[1], 1) + 0j], 2)
            m[i + 1] = torch.cat([m[i + 1], (0.3 + 0.4j) * torch.ones(2, 1, m[i + 1].shape[2])], 1)
        else:
            k = np.arange(D * D).reshape(D, D)
            G = np.eye(D) * 1.5 + 0.3 * np.exp(1j * k) / D
            m[i] = m[i] @ T(G)
            m[i + 1] = T(np.linalg.inv(G)) @ m[i + 1]
    return m
