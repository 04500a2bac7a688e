"""C15: inner product of every pair of matrix product states, however made."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, T, npy, to_mps, from_mps, regauge
from .gradlib import f32vec
from .c12 import stabilizer_states, stab

LEVEL = 'model_checking'
RULE = ('states = distinct matrix product states (vector, history that made it, gauge/padding); transitions = ordered '
        'pairs whose inner product was taken and compared with the complex inner product of the vectors')
BOUNDS = {
    'quick': 'all ordered pairs of stabilizer states, N=1 (6x6) and 2 (60x60); all N=3 stabilizer states (1080) against 6 '
             'partners; families N<=11 all pairs; all pairs of single-operation evolutions on 3 qubits; padded, gauge-'
             'transformed and unnormalised MPS; every state also with itself as one and the same list',
    'thorough': 'all ordered pairs of the 1080 stabilizer states of 3 qubits; all pairs of evolutions on 4 qubits',
}
TOL = 1e-5


def make(N, d):
    """state descriptor {s, ops?, how?} -> (vector, MPS)"""
    s = d['s']
    v = f32vec(stab(N, s[1]) if s[0] == 'stab' else make_state(N, s))
    if d.get('bond1'):
        # a product state written down directly with bond dimension 1
        v, m = np.ones(1), []
        for q in range(N):
            a = make_state(1, ['p', q + d['bond1']])
            v = np.kron(v, a)
            m.append(T(a).view(2, 1, 1))
        return f32vec(v), m
    m = to_mps(v, N)
    for op in d.get('ops', []):
        m = A.build(op, N).TN_operation(m)
        v = ref.apply_vec(op, v, N)
    if d.get('how'):
        m = regauge(m, d['how'])
    if d.get('scale'):
        # states that are not normalised, the factor spread over every tensor
        f = d['scale'] ** (1.0 / N) * np.exp(0.3j)
        v, m = v * f ** N, [t * complex(f) for t in m]
    return v, m


def pair(N, a, b, what=''):
    qt = lib()[3]
    (va, ma), (vb, mb) = a, (a if b is None else b)
    sa, sb = [t.clone() for t in ma], [t.clone() for t in mb]
    got = qt.MPS_inner_product(ma, mb)
    need(isinstance(got, torch.Tensor) and got.numel() == 1, 'inner product is no single number')
    expect(got.reshape(()), np.array(np.vdot(vb, va)), 'inner product <bra|ket>',
           TOL * max(1.0, np.linalg.norm(va) * np.linalg.norm(vb)))
    for s, m, n in ((sa, ma, 'ket'), (sb, mb, 'bra')):
        need(len(s) == len(m) and all(torch.equal(x, y) for x, y in zip(s, m)), 'the %s changed' % n)


def check_case(c):
    N = c['N']
    pair(N, make(N, c['ket']), None if c['bra'] == 'same' else make(N, c['bra']))


def unit(u, ctx):
    """every descriptor of `kets` against every one of `bras`"""
    N, kets, bras = u
    made = []
    for b in bras:
        made.append(ctx.guard({'N': N, 'ket': b, 'bra': b}, make, N, b))
    if any(x is None for x in made):
        return
    for a in kets:
        ctx.distinct((N, a))
        x = ctx.guard({'N': N, 'ket': a, 'bra': a}, make, N, a)
        if x is None:
            return
        for b, y in [('same', None)] + list(zip(bras, made)):
            c = {'N': N, 'ket': a, 'bra': b}
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
            ctx.sample(c)
            n = len(ctx.fails)
            ctx.guard(c, pair, N, x, y)
            if len(ctx.fails) > n:
                return


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    for N in range(1, 12):
        fam = [{'s': s} for s in (['g'], ['g', 4], ['p'], ['p', 3], ['ghz'], ['b', 0], ['b', 2 ** N - 1], ['b', 2 ** N // 3])]
        fam += [{'s': ['g'], 'bond1': k} for k in (1, 5)]
        fam += [{'s': ['eps', 1e-3]}, {'s': ['ghz', -1]}]
        fam += [{'s': ['g', 2], 'scale': x} for x in (0.5, 3.0)]
        fam += [{'s': s, 'how': h} for s in (['g', 2], ['p', 1], ['ghz']) for h in ('pad', 'gauge')]
        eng.map(unit, [(N, [a], fam) for a in fam])
    for N in (1, 2):
        st = [{'s': ['stab', h]} for h in stabilizer_states(N)]
        eng.map(unit, [(N, k, st) for k in chunks(st, 8)])
    st = [{'s': ['stab', h]} for h in stabilizer_states(3)]
    part = st if not q else [{'s': ['g']}, {'s': ['p']}, {'s': ['g', 1], 'how': 'gauge'}] + st[5::500]
    eng.map(unit, [(3, k, part) for k in chunks(st, 27)])
    ev = [{'s': s, 'ops': [op]} for s in (['p'], ['g']) for op in A.tn_ops(3, 2)]
    eng.map(unit, [(3, k, ev) for k in chunks(ev, 8)])
    ev = [{'s': ['p'], 'ops': [op]} for op in A.tn_ops(4, 2 if q else 3)]
    eng.map(unit, [(4, k, ev if not q else ev[::9]) for k in chunks(ev, 8)])
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
