"""Programs, observables and histories shared by the gradient checks C09 and C10."""
import numpy as np
from .. import alpha as A, ref


def observable(N, name):
    if name == 'H':                          # generic Hermitian: every Pauli component present
        d = 2 ** N
        i, j = np.meshgrid(np.arange(d), np.arange(d), indexing='ij')
        m = np.cos(1.1 * i * j + 0.3 * i + 0.7 * j) + 1j * np.sin(0.9 * i * i + 0.4 * j)
        m = (m + m.conj().T) / 2
        return m / np.linalg.norm(m, 2)
    if name == 'asym':                       # real, diagonal, all different
        return np.diag(np.linspace(-1, 1, 2 ** N)).astype(complex)
    return ref.pauli_string(name)


def f32vec(v):
    v = np.asarray(v)
    return v.astype(np.complex64).astype(np.complex128)


def alphabet3():
    g = A.gen
    return [['Hadamard', [1], []], ['rx', [0], [0.7]], ['ry', [2], [-1.3]], ['rz', [1], [2.1]], ['u1', [0], [1.9]],
            ['u3', [2], g(3)], ['rxx', [2, 0], [0.7]], ['ryy', [0, 1], [1.3]], ['rzz', [2, 1], [0.45]],
            ['cphase', [0, 2], [2.1]], ['cu3', [2, 1], g(3, 2)], ['cnot', [2, 0], []], ['toffoli', [2, 0, 1], []],
            ['XZLayer', [2, 0], g(4)], ['YZYLayer', [1, 2], g(6, 3)], ['ring_of_cnot', [0, 1, 2], []]]
