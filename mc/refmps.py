"""Boring reference model for registers far too large for a vector: matrix product states in numpy complex128.

Imports nothing from the code under test.  A state is a list of tensors (2, left, right).  An operation is spelled by
`ref.factors`; each small matrix is split, qubit by qubit, into a chain of four-leg pieces (exact: QR without truncation) and the
chain is laid over the state, with identities carrying the bond across the qubits in between.  Nothing is ever truncated.
"""
import numpy as np
from . import ref

C = np.complex128


def product(N, k=0):
    """A product state with a different vector on every qubit."""
    out = []
    for q in range(N):
        t, f = 0.4 + 0.5 * q + 0.3 * k, 0.9 * q - 0.7 + 0.2 * k
        out.append(np.array([np.cos(t), np.exp(1j * f) * np.sin(t)]).reshape(2, 1, 1))
    return out


def basis(N, bits):
    out = []
    for q in range(N):
        v = np.zeros((2, 1, 1), dtype=C)
        v[bits[q % len(bits)], 0, 0] = 1
        out.append(v)
    return out


def entangled(N, D=2, k=0):
    """Normalised, every bond D, every tensor different and of full rank."""
    out = []
    for q in range(N):
        l, r = (1 if q == 0 else D), (1 if q == N - 1 else D)
        i = np.arange(2 * l * r).reshape(2, l, r)
        t = (1 + 0.5 * np.cos(1.3 * i * i + q + k)) * np.exp(1j * (0.7 * i * i + 1.9 * i + 0.4 * q + 0.3 * k))
        m, _ = np.linalg.qr(t.transpose(1, 0, 2).reshape(2 * l, r)) if 2 * l >= r else (t.reshape(2 * l, r), None)
        out.append(m.reshape(l, 2, r).transpose(1, 0, 2).astype(C))
    return out                  # left-isometric, so of norm one


def split(m, k):
    """A 2^k x 2^k matrix as k pieces (left, out, in, right)."""
    t = m.reshape((2,) * (2 * k)).transpose([x for i in range(k) for x in (i, k + i)]).reshape(1, -1)
    out = []
    for i in range(k - 1):
        l = t.shape[0]
        q, r = np.linalg.qr(t.reshape(l * 4, -1))
        out.append(q.reshape(l, 2, 2, -1))
        t = r
    out.append(t.reshape(t.shape[0], 2, 2, 1))
    return out


def lay(piece, a):
    b = np.einsum('xoiy,ilr->oxlyr', piece, a)
    s = b.shape
    return b.reshape(2, s[1] * s[2], s[3] * s[4])


def apply_m(m, w, mps):
    k = len(w)
    o = sorted(range(k), key=lambda i: w[i])
    m = m.reshape((2,) * (2 * k)).transpose(o + [k + i for i in o]).reshape(2 ** k, 2 ** k)
    w = [w[i] for i in o]
    pieces = split(m, k)
    out = list(mps)
    for j in range(w[0], w[-1] + 1):
        if j in w:
            p = pieces[w.index(j)]
            d = p.shape[3]
        else:
            p = np.einsum('xy,oi->xoiy', np.eye(d), np.eye(2))
        out[j] = lay(p, out[j])
    return out


def apply(op, mps):
    for m, w in ref.factors(op):
        mps = apply_m(m, w, mps)
    return mps


def inner(a, b):
    """<a|b>"""
    t = np.ones((1, 1), dtype=C)
    for x, y in zip(a, b):
        t = np.einsum('ac,iab->icb', t, x.conj())
        t = np.einsum('icb,icd->bd', t, y)
    return t[0, 0]


def distance(a, b):
    return np.sqrt(max(0.0, (inner(a, a) + inner(b, b) - 2 * inner(a, b)).real))


def vector(mps):
    """Small registers only: the full vector, to check this module against `ref`."""
    t = np.ones((1, 1), dtype=C)
    for x in mps:
        t = np.einsum('va,iab->vib', t, x).reshape(-1, x.shape[2])
    return t.reshape(-1)
