"""C06: state vector -> MPS -> state vector is the identity; every bond within the exact bound, also after evolution."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..core import hash_key
from ..impl import expect, lib, need, make_state, to_mps, from_mps, bonds_ok, T, row, npy, clone_mps, profile

LEVEL = 'model_checking'
RULE = ('states = distinct state vectors converted (amplitude patterns and families) plus distinct (state, bond profile) '
        'reached by evolution; transitions = conversions and operations executed')
BOUNDS = {
    'quick': 'every amplitude pattern over {0,1,-1,i,-i} for N=1,2 and over {0,1,i} (N=3: {0,1,i} all 6561); families '
             'to N=12; wide layers/rings N=4..6, walks of 3..40 operations on 2..11 qubits; small amplitudes down to 1e-6; bonds after every 2-operation circuit on 3 qubits and every '
             'operation on 4 qubits from product and generic states',
    'thorough': 'N=3 patterns over {0,1,-1,i,-i} (390625), N=4 patterns over {0,1} (65535); pairs of operations on 4 qubits',
}
SYM = {'0': 0, '1': 1, '-': -1, 'i': 1j, 'j': -1j}


def vec(c):
    N = c['N']
    if 'pat' in c:
        v = np.array([SYM[x] for x in c['pat']], dtype=complex)
        return v / np.linalg.norm(v)
    if 'slot' in c:                         # product/basis state plus one amplitude of size e
        v = make_state(N, c['s']).copy()
        v[c['slot']] += c['e'] * np.exp(0.9j)
        return v / np.linalg.norm(v)
    return make_state(N, c['s'])


def roundtrip(c, v, tol):
    N = c['N']
    _, _, _, qt, _ = lib()
    psi = row(v)
    if c.get('scale'):
        psi = psi * c['scale']
        v = v * c['scale']
    m = qt.StateVec2MPS(psi, N)
    bonds_ok(m, N, 'StateVec2MPS')
    for t in m:
        need(t.dim() == 3 and t.shape[0] == 2, 'an MPS tensor is not (2, l, r) but %s' % (tuple(t.shape),))
    expect(qt.MPS2StateVec(m), v, 'round trip (row vector)', tol, shape=(1, 2 ** N))
    expect(qt.MPS2StateVec(m, return_sv=False), v, 'round trip (rank-N tensor)', tol, shape=(2,) * N)
    return m


def check_case(c):
    N = c['N']
    v = vec(c)
    tol = c.get('tol', 3e-6)
    m = roundtrip(c, v, tol)
    if c.get('ops'):
        qt = lib()[3]
        for k, op in enumerate(c['ops']):
            m = A.build(op, N).TN_operation(m)
            bonds_ok(m, N, 'after operation %d (%s on %s)' % (k + 1, op[0], op[1]))
        a, b = qt.MPS2StateVec(m), qt.MPS2StateVec(m, return_sv=False)
        expect(a, npy(b), 'row vector and tensor forms', 1e-6, shape=(1, 2 ** N))
        expect(b, npy(a), 'row vector and tensor forms', 1e-6, shape=(2,) * N)
        # the evolved state converted again: the same state, minimal bonds again
        m2 = qt.StateVec2MPS(a, N)
        bonds_ok(m2, N, 'reconverted')
        expect(qt.MPS2StateVec(m2), npy(a), 'round trip of an evolved state', tol, shape=(1, 2 ** N))


def go(ctx, c):
    ctx.count('transitions', 1 + len(c.get('ops', [])))
    ctx.distinct(c)
    ctx.sample(c)
    ctx.count('traces_validated_against_impl')
    return ctx.case(c)


def unit_pat(u, ctx):
    N, syms, pre = u
    for rest in itertools.product(syms, repeat=2 ** N - len(pre)):
        p = pre + ''.join(rest)
        if set(p) != {'0'} and not go(ctx, {'N': N, 'pat': p}):
            return


def unit_cases(cs, ctx):
    for c in cs:
        if not go(ctx, c):
            return


def unit_evo(u, ctx):
    N, s, kmax, pre, depth = u
    al = A.tn_ops(N, kmax)
    for rest in itertools.product(al, repeat=depth - len(pre)):
        if not go(ctx, {'N': N, 's': s, 'ops': [al[i] for i in pre] + list(rest)}):
            return


def explore(eng):
    q = eng.quick
    eng.map(unit_pat, [(1, '01-ij', '')] + [(2, '01-ij', a) for a in '01-ij'])
    if q:
        eng.map(unit_pat, [(3, '01i', a + b) for a in '01i' for b in '01i'])
    else:
        eng.map(unit_pat, [(3, '01-ij', a + b + c) for a in '01-ij' for b in '01-ij' for c in '01-ij'])
        eng.map(unit_pat, [(4, '01', ''.join(t)) for t in itertools.product('01', repeat=5)])
    units = []
    for N in range(1, 13 if q else 15):
        fam = [{'N': N, 's': s} for s in (['g'], ['g', 3], ['p'], ['p', 2], ['ghz'], ['b', 0], ['b', 2 ** N - 1],
                                           ['b', (2 ** N) // 3])]
        fam += [{'N': N, 's': ['eps', e, k]} for e in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6) for k in range(2)]
        fam += [{'N': N, 's': ['g'], 'scale': x, 'tol': 3e-6 * max(x, 1)} for x in (0.5, 3.0)]
        units.append(fam)
    eng.map(unit_cases, units)
    # evolved states of larger registers: wide operations and walks, bonds checked after every step
    units = [[{'N': N, 's': s, 'ops': [op]} for op in A.wide_ops(N, [k])] for N in ((4, 5, 6) if q else (4, 5, 6, 7))
             for s in (['g'], ['b', 0]) for k in A.VARIABLE if k not in A.NO_TN]
    units += [[{'N': N, 's': s, 'ops': A.strided(A.full(N, True), n, a, b), 'tol': 1e-4}]
              for N, n in ((2, 40), (3, 40), (4, 30), (5, 20), (6, 12), (7, 8)) for s in (['g'], ['b', 0], ['ghz'])
              for a in (1, 31) for b in range(3 if q else 30)]
    units += [[{'N': N, 's': s, 'ops': A.strided(A.large_ops(N), 3, 13, b), 'tol': 5e-5}] for N in (8, 9, 10, 11)
              for s in (['g'], ['p']) for b in range(0, 60, 12 if q else 1)]
    eng.map(unit_cases, units)
    units = []
    for N in range(1, 6 if q else 7):
        for s in (['b', 0], ['p'], ['ghz']):
            for e in (1e-2, 1e-3, 1e-4, 3e-5, 1e-5):
                units.append([{'N': N, 's': s, 'slot': i, 'e': e, 'tol': 2e-6} for i in range(2 ** N)])
    eng.map(unit_cases, units)
    if q:
        eng.map(unit_cases, [[{'N': N, 's': ['b', i]} for i in range(2 ** N)] for N in range(1, 9)])
    for s in (['g'], ['b', 0], ['p']):
        eng.map(unit_evo, [(N, s, None, [i], 1) for N in (2, 3, 4) for i in range(len(A.tn_ops(N)))])
    eng.map(unit_evo, [(3, ['g'], 2, [i], 2) for i in range(len(A.tn_ops(3, 2)))])
    eng.map(unit_evo, [(5, s, 2, [i], 1) for s in (['g'], ['p']) for i in range(len(A.tn_ops(5, 2)))])
    if not q:
        eng.map(unit_evo, [(3, s, None, [i], 2) for s in (['b', 0], ['p']) for i in range(len(A.tn_ops(3)))])
        eng.map(unit_evo, [(4, ['g'], 2, [i], 2) for i in range(len(A.tn_ops(4, 2)))])
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
