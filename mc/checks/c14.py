"""C14: density matrix -> tensor train -> density matrix is the identity, and the rank-2N view keeps rows before columns."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, T, npy
from .gradlib import f32vec
from .c12 import stabilizer_states, stab
from .c13 import basis_rho

LEVEL = 'model_checking'
RULE = ('states = distinct density matrices converted; transitions = conversions executed (forward and back counted as '
        'one, rank-2N view as another)')
BOUNDS = {
    'quick': 'N=1,2: every pair mixture of stabilizer states at 3 weights and every pure one; N=3: every stabilizer state '
             'pure; Hermitian basis N<=3; every mixture of distinct computational basis states with distinct weights '
             '(N<=3, all nonempty supports); generic mixtures of every rank 1..2^N, N<=5; every one-entry rank-2N probe N<=3; 12 ranks at N=6,7; '
             'each matrix also held as dag(...), a transpose, a lazy conjugate and a strided slice',
    'thorough': 'every stabilizer state of 3 qubits mixed with 5 partners; Hermitian basis N=4; ranks for N=6',
}
TOL = 2e-5


def rho_of(c):
    N = c['N']
    d = 2 ** N
    if 'k' in c:
        return f32vec(basis_rho(N, c['k']))
    if 'supp' in c:             # diagonal with pairwise distinct weights on a support
        w = np.zeros(d)
        for n, i in enumerate(c['supp']):
            w[i] = 1 + 0.37 * n
        return f32vec(np.diag(w / w.sum()))
    if 'rank' in c:
        r = 0
        for k in range(c['rank']):
            v = make_state(N, ['g', k])
            r = r + (1 + 0.3 * k) * np.outer(v, v.conj())
        return f32vec(r / np.trace(r))
    r = 0
    for p, s in c['mix']:
        v = stab(N, s[1]) if s[0] == 'stab' else make_state(N, s)
        r = r + p * np.outer(v, v.conj())
    return f32vec(r / np.trace(r))


def layouts(rho):
    big = np.zeros((2 * len(rho), 3 * len(rho)), dtype=complex) + 7
    big[::2, ::3] = rho
    return [('dag of its adjoint', lib()[4].dag(T(rho.conj().T))), ('a transpose', T(rho.T).T), ('a lazy conjugate', T(rho.conj()).conj()),
            ('a strided slice', T(big)[::2, ::3])]


def check_case(c):
    qt = lib()[3]
    N = c['N']
    if 'probe' in c:
        i, j = c['probe']
        M = np.zeros((2 ** N, 2 ** N), dtype=complex)
        M[i, j] = 0.5 - 0.75j
        M[j, j] += 0.25
        t = qt.MatrixProductDensityOperator(T(M), N)
        expect(t, M.reshape((2,) * (2 * N)), 'rank-2N tensor', 0)
        return
    rho = rho_of(c)
    x = T(rho)
    m = qt.Rho2MPS(x, N)
    need(len(m) == N, 'Rho2MPS gives %d tensors for %d qubits' % (len(m), N))
    for q in range(N):
        need(m[q].dim() == 4 and tuple(m[q].shape[:2]) == (2, 2), 'tensor %d is %s' % (q, tuple(m[q].shape)))
        if q:
            need(m[q].shape[2] == m[q - 1].shape[3], 'bond %d does not fit' % q)
    need(m[0].shape[2] == 1 and m[-1].shape[3] == 1, 'outer bonds are not 1')
    back = qt.MPS2Rho(m)
    expect(back, rho, 'MPS2Rho(Rho2MPS(rho))', TOL)
    again = qt.MPS2Rho(m)
    expect(again, npy(back), 'MPS2Rho asked again', 0)
    t = qt.MatrixProductDensityOperator(x, N)
    expect(t, rho.reshape((2,) * (2 * N)), 'rank-2N tensor', 0)
    # the same matrix in other memory layouts (what dag, .T and slicing give)
    for lay, y in layouts(rho) if N <= 4 else layouts(rho)[:2]:
        expect(qt.MPS2Rho(qt.Rho2MPS(y, N)), rho, 'round trip of the matrix held as %s' % lay, TOL)
        expect(qt.MatrixProductDensityOperator(y, N), rho.reshape((2,) * (2 * N)), 'rank-2N tensor of the matrix held as %s' % lay, 0)
        expect(y, rho, 'the matrix held as %s afterwards' % lay, 0)
    # and the converted matrix converted once more
    expect(qt.MPS2Rho(qt.Rho2MPS(back, N)), rho, 'second round trip', 2 * TOL)


def unit(cs, ctx):
    for c in cs:
        ctx.count('transitions', 1 if 'probe' in c else 3)
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    for N in (1, 2, 3):
        d = 2 ** N
        eng.map(unit, chunks(({'N': N, 'probe': [i, j]} for i in range(d) for j in range(d)), 40))
    for N in (1, 2, 3) if q else (1, 2, 3, 4):
        eng.map(unit, chunks(({'N': N, 'k': k} for k in range(4 ** N + 1)), 17))
    for N in (1, 2, 3):
        d = 2 ** N
        supp = [list(s) for k in range(1, d + 1) for s in itertools.combinations(range(d), k)]
        eng.map(unit, chunks(({'N': N, 'supp': s} for s in supp), 32))
    for N in (1, 2):
        st = [['stab', h] for h in stabilizer_states(N)]
        cs = [{'N': N, 'mix': [[1.0, s]]} for s in st]
        for a, b in itertools.combinations(st, 2):
            for p in (0.5, 0.3, 0.01):
                cs.append({'N': N, 'mix': [[p, a], [1 - p, b]]})
        eng.map(unit, chunks(cs, 60))
    st = [['stab', h] for h in stabilizer_states(3)]
    cs = [{'N': 3, 'mix': [[1.0, s]]} for s in st]
    if not q:
        cs += [{'N': 3, 'mix': [[0.3, s], [0.7, p]]} for s in st for p in (['g'], ['ghz'], ['p'], ['b', 5], st[77])]
    eng.map(unit, chunks(cs, 40))
    for N in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6):
        eng.map(unit, chunks(({'N': N, 'rank': r} for r in range(1, 2 ** N + 1)), 4))
    if q:
        eng.map(unit, [[{'N': 6, 'rank': r}] for r in (1, 2, 3, 7, 15, 31, 33, 63, 64)])
        eng.map(unit, [[{'N': 7, 'rank': r}] for r in (1, 2, 5)])
        eng.map(unit, chunks(({'N': N, 'probe': [i * 7 % 2 ** N, i * 13 % 2 ** N]} for N in (4, 5, 6) for i in range(2 ** N)), 20))
    fam = [['g'], ['ghz'], ['p'], ['b', 0], ['b', 1], ['eps', 1e-2]]
    for N in (2, 3, 4, 5):
        cs = [{'N': N, 'mix': [[1.0, a]]} for a in fam]
        cs += [{'N': N, 'mix': [[p, a], [1 - p, b]]} for a, b in itertools.combinations(fam, 2) for p in (0.5, 0.2, 0.001)]
        eng.map(unit, chunks(cs, 5))
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
