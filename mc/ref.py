"""Boring reference model: quantum operations from their textbook definitions.

numpy complex128 only; imports nothing from the code under test.  Qubit 0 is the most significant bit.
An operation is a JSON-able descriptor  [kind, wires, params, extra?]  (see alpha.py);
`factors(op)` spells it as an ordered list of (small matrix, wires), first factor acting first.
"""
import numpy as np

C = np.complex128
I2 = np.eye(2, dtype=C)
X = np.array([[0, 1], [1, 0]], dtype=C)
Y = np.array([[0, -1j], [1j, 0]], dtype=C)
Z = np.array([[1, 0], [0, -1]], dtype=C)
H = np.array([[1, 1], [1, -1]], dtype=C) / np.sqrt(2.0)
P00 = np.array([[1, 0], [0, 0]], dtype=C)
P11 = np.array([[0, 0], [0, 1]], dtype=C)
CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=C)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=C)


def f32(x):
    """The value a float32 parameter really has."""
    return float(np.float32(x))


def rot(G, t):
    return np.cos(t / 2) * np.eye(len(G), dtype=C) - 1j * np.sin(t / 2) * G


def rx(t):
    return rot(X, t)


def ry(t):
    return rot(Y, t)


def rz(t):
    return rot(Z, t)


def u1(t):
    return np.diag([1, np.exp(1j * t)]).astype(C)


def u3(p):
    t, f, l = p
    return rz(f) @ rx(-np.pi / 2) @ rz(t) @ rx(np.pi / 2) @ rz(l)


def ctrl(U, n=1):
    """U controlled by n qubits, controls first."""
    d = len(U)
    M = np.eye(d * 2 ** n, dtype=C)
    M[-d:, -d:] = U
    return M


ROT = {'X': rx, 'Y': ry, 'Z': rz}
# gate order inside a rotation layer, in order of application, per wire
LAYERS = {'XYZLayer': 'XYZ', 'ZYXLayer': 'ZYX', 'YZYLayer': 'YZY', 'XZXLayer': 'XZX', 'XZLayer': 'XZ',
          'ZXLayer': 'ZX'}


def _ring(w, hop, back=False):
    L = len(w)
    if L == 2:
        pairs = [(w[0], w[1])]
    else:
        pairs = [(w[i], w[(i + hop) % L]) for i in range(L)]
    if back:
        pairs.reverse()
    return [(CNOT, list(p)) for p in pairs]


def factors(op):
    kind, w, p = op[0], list(op[1]), [f32(x) for x in op[2]]
    extra = op[3] if len(op) > 3 else {}
    if kind == 'Hadamard':
        return [(H, w)]
    if kind == 'PauliX':
        return [(X, w)]
    if kind == 'PauliY':
        return [(Y, w)]
    if kind == 'PauliZ':
        return [(Z, w)]
    if kind == 'rx':
        return [(rx(p[0]), w)]
    if kind == 'ry':
        return [(ry(p[0]), w)]
    if kind == 'rz':
        return [(rz(p[0]), w)]
    if kind == 'u1':
        return [(u1(p[0]), w)]
    if kind == 'u3':
        return [(u3(p), w)]
    if kind == 'rxx':
        return [(rot(np.kron(X, X), p[0]), w)]
    if kind == 'ryy':
        return [(rot(np.kron(Y, Y), p[0]), w)]
    if kind == 'rzz':
        return [(rot(np.kron(Z, Z), p[0]), w)]
    if kind == 'cnot':
        return [(CNOT, w)]
    if kind == 'cz':
        return [(ctrl(Z), w)]
    if kind == 'cphase':
        return [(ctrl(u1(p[0])), w)]
    if kind == 'cu3':
        return [(ctrl(u3(p)), w)]
    if kind == 'SWAP':
        return [(SWAP, w)]
    if kind in ('toffoli', 'multi_control_cnot'):
        return [(ctrl(X, len(w) - 1), w)]
    if kind == 'HLayer':
        return [(H, [q]) for q in w]
    if kind in LAYERS:
        s = LAYERS[kind]
        out = []
        for i, q in enumerate(w):
            for j, a in enumerate(s):
                out.append((ROT[a](p[len(s) * i + j]), [q]))
        return out
    if kind == 'ring_of_cnot':
        return _ring(w, 1)
    if kind == 'ring_of_cnot_dagger':
        return _ring(w, 1, True)
    if kind == 'ring_of_cnot2':
        return _ring(w, 2)
    if kind == 'BasicEntangleLayer':
        out, L = [], 3 * len(w)
        for r in range(extra.get('repeat', 1)):
            out += factors(['YZYLayer', w, p[r * L:(r + 1) * L]])
            out += _ring(w, 1)
        return out
    if kind == 'PauliEncoding':
        R = ROT[extra['pauli']]
        return [(R(p[i % len(p)]), [q]) for i, q in enumerate(w)]
    if kind == 'DAG':           # the inverse of another operation
        return [(m.conj().T, ww) for m, ww in reversed(factors(op[1]))]
    raise KeyError(kind)


def apply_m(m, w, t):
    """Apply small matrix m on axes w of a tensor of shape (2,)*N (+ trailing axes)."""
    k = len(w)
    m = m.reshape((2,) * (2 * k))
    t = np.tensordot(m, t, axes=(list(range(k, 2 * k)), list(w)))
    return np.moveaxis(t, list(range(k)), list(w))


def apply(op, t):
    for m, w in factors(op):
        t = apply_m(m, w, t)
    return t


def apply_vec(op, v, N):
    return apply(op, v.reshape((2,) * N)).reshape(-1)


def U(op, N):
    return apply(op, np.eye(2 ** N, dtype=C).reshape((2,) * N + (2 ** N,))).reshape(2 ** N, 2 ** N)


def U_seq(ops, N):
    t = np.eye(2 ** N, dtype=C).reshape((2,) * N + (2 ** N,))
    for op in ops:
        t = apply(op, t)
    return t.reshape(2 ** N, 2 ** N)


def embed(m, w, N):
    t = np.eye(2 ** N, dtype=C).reshape((2,) * N + (2 ** N,))
    return apply_m(m, w, t).reshape(2 ** N, 2 ** N)


def kron(ms):
    r = np.eye(1, dtype=C)
    for m in ms:
        r = np.kron(r, m)
    return r


PAULI = {'I': I2, 'X': X, 'Y': Y, 'Z': Z}


def pauli_string(s):
    return kron([PAULI[c] for c in s])


def phase_key(v, nd=3):
    """Canonical form modulo global phase (first entry of large modulus made positive)."""
    v = np.asarray(v).reshape(-1)
    i = int(np.argmax(np.abs(v) > 0.5 * np.abs(v).max()))
    v = v * (np.abs(v[i]) / v[i])
    r = np.round(v, nd) + (0.0 + 0.0j)
    return r.tobytes()


# ---- derivatives (for the gradient properties): d factors / d params, analytically --------------------

def dfactors(op, k):
    """List of sums: the derivative of the operator wrt parameter k, as a list of factor lists."""
    kind, w, p = op[0], list(op[1]), [f32(x) for x in op[2]]
    extra = op[3] if len(op) > 3 else {}
    G = {'rx': X, 'ry': Y, 'rz': Z, 'rxx': np.kron(X, X), 'ryy': np.kron(Y, Y), 'rzz': np.kron(Z, Z)}
    if kind in G:
        return [[(-0.5j * G[kind] @ rot(G[kind], p[0]), w)]]
    if kind == 'u1':
        return [[(1j * np.exp(1j * p[0]) * P11, w)]]
    if kind == 'cphase':
        return [[(1j * np.exp(1j * p[0]) * np.diag([0, 0, 0, 1]).astype(C), w)]]
    if kind in ('u3', 'cu3'):
        t, f, l = p
        A = [rz(l), rx(np.pi / 2), rz(t), rx(-np.pi / 2), rz(f)]      # application order
        pos = {0: 2, 1: 4, 2: 0}[k]
        A[pos] = -0.5j * Z @ A[pos]
        M = I2
        for a in A:
            M = a @ M
        if kind == 'cu3':
            D = np.zeros((4, 4), dtype=C)
            D[2:, 2:] = M
            return [[(D, w)]]
        return [[(M, w)]]
    if kind in LAYERS:
        s = LAYERS[kind]
        out = []
        for i, q in enumerate(w):
            for j, a in enumerate(s):
                m = ROT[a](p[len(s) * i + j])
                if len(s) * i + j == k:
                    m = -0.5j * PAULI[a] @ m
                out.append((m, [q]))
        return [out]
    if kind == 'BasicEntangleLayer':
        out, L = [], 3 * len(w)
        for r in range(extra.get('repeat', 1)):
            y = ['YZYLayer', w, p[r * L:(r + 1) * L]]
            out += dfactors(y, k - r * L)[0] if r * L <= k < (r + 1) * L else factors(y)
            out += _ring(w, 1)
        return [out]
    if kind == 'PauliEncoding':
        out = []
        R = ROT[extra['pauli']]
        terms = []
        for i0, q0 in enumerate(w):
            if i0 % len(p) != k:
                continue
            fs = []
            for i, q in enumerate(w):
                m = R(p[i % len(p)])
                if i == i0:
                    m = -0.5j * PAULI[extra['pauli']] @ m
                fs.append((m, [q]))
            terms.append(fs)
        return terms
    raise KeyError(kind)


def dapply(op, k, t):
    r = 0
    for fs in dfactors(op, k):
        x = t
        for m, w in fs:
            x = apply_m(m, w, x)
        r = r + x
    return r


def grad_expectation(ops, N, psi, M):
    """All derivatives of <psi|U^dag M U|psi> wrt every parameter, in circuit order."""
    sh = (2,) * N
    fin = psi.reshape(sh)
    for op in ops:
        fin = apply(op, fin)
    back = (M @ fin.reshape(-1)).conj()
    out = []
    pre = psi.reshape(sh)
    for i, op in enumerate(ops):
        for k in range(len(op[2]) if op[0] != 'DAG' else 0):
            t = dapply(op, k, pre)
            for o in ops[i + 1:]:
                t = apply(o, t)
            out.append(2 * float(np.real(back @ t.reshape(-1))))
        pre = apply(op, pre)
    return np.array(out)
