"""C04: direct tensor contraction against exact evolution: BFS over (stabilizer state, memory layout), generic states."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..core import hash_key
from ..impl import expect, lib, need, make_state, tens, T, npy

LEVEL = 'model_checking'
RULE = ('states = (stabilizer state mod phase, strides of the real tensor); reached by replaying the operation history '
        'on the real TN_contract; every operation on every wire tuple is a transition')
BOUNDS = {
    'quick': 'BFS closure for 2 qubits x all operations and 3 qubits x Clifford operations (all operations up to depth '
             '2); generic states on 1..4 qubits x all operations x all axis-permuted, sliced and conjugated layouts; '
             '5 qubits <=3 wires; 6..8 qubits all ordered pairs; all 2-operation circuits on 3 qubits; wide '
             'layers/rings on 4..7; strided walks of 20..200 operations on 2..8 qubits; 1 and 5 operations on 9..13 qubits; special angles (zero, full turns, ...) in every slot and nearly equal operations, N<=3',
    'thorough': 'plus 3 qubits x all operations from every state, 5 qubits all operations, 6 qubits <=4 wires, all '
                '2-operation circuits on 4 qubits (<=3 wires), all 3-operation circuits of 3-qubit operations on <=2 wires',
}
TOL = 2e-5


def layout(v, N, lay):
    """The same rank-N state in different memory layouts."""
    t = tens(v, N)
    if lay is None:
        return t
    if lay[0] == 'perm':
        p = lay[1]
        inv = [p.index(i) for i in range(N)]
        return t.permute(p).contiguous().permute(inv)
    if lay[0] == 'slice':
        big = torch.zeros([2] * N + [3], dtype=t.dtype)
        big[..., 1] = t
        return big[..., 1]
    if lay[0] == 'conj':
        return tens(v.conj(), N).conj()
    raise KeyError(lay)


def check_case(c):
    N, ops = c['N'], c['ops']
    v = make_state(N, c['s'])
    want = v.reshape((2,) * N)
    for op in ops:
        want = ref.apply(op, want)
    t = layout(v, N, c.get('lay'))
    if c.get('t') == 'circuit':
        out = A.circuit(ops, N).TN_contract_evolution(t)
    else:
        out = t
        for op in ops:
            out = A.build(op, N).TN_contract(out)
    expect(out, want, 'contraction', c.get('tol', TOL))


def expand(states, ctx):
    out = {}
    N, mode = states[0]['N'], states[0]['mode']
    cl = A.clifford_ops(N)
    every = cl + A.tn_ops(N)
    built = [A.build(op, N) for op in every]
    for st in states:
        al = every if len(st['h']) <= mode else cl
        ops = [cl[i] for i in st['h']]
        v = make_state(N, ['b', 0])
        t0 = tens(v, N)
        for i in st['h']:
            t0 = built[i].TN_contract(t0)
            v = ref.apply_vec(cl[i], v, N)
        for j, op in enumerate(al):
            w = ref.apply_vec(op, v, N)
            ctx.count('transitions')

            def step():
                t = built[j].TN_contract(t0)
                expect(t, w, '%s on %s of %d after %d operations' % (op[0], op[1], N, len(ops)), TOL, shape=(2,) * N)
                return tuple(t.stride())
            k = len(ctx.fails)
            sr = ctx.guard({'N': N, 's': ['b', 0], 'ops': ops + [op]}, step)
            if len(ctx.fails) > k:
                return []
            ctx.count('traces_validated_against_impl')
            if j < len(cl):
                key = hash_key((ref.phase_key(w), sr))
                if key not in out:
                    out[key] = {'N': N, 'mode': mode, 'h': st['h'] + [j]}
        ctx.sample({'N': N, 'ops': ops})
    return list(out.items())


def layouts(N):
    out = [None, ['slice'], ['conj']]
    if N <= 4:
        out += [['perm', list(p)] for p in itertools.permutations(range(N)) if list(p) != list(range(N))]
    else:
        out += [['perm', list(range(N - 1, -1, -1))], ['perm', list(range(1, N)) + [0]]]
    return out


def unit_states(u, ctx):
    N, s, kind, kmax, lays = u
    for op in A.ops(N, [kind], kmax):
        for lay in lays:
            c = {'N': N, 's': s, 'ops': [op], 'lay': lay}
            if not ctx.case(c):
                return
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
        ctx.distinct((N, s, op))
        ctx.sample(c)


def unit_seq(u, ctx):
    N, s, kmax, pre, depth = u
    al = A.tn_ops(N, kmax)
    for rest in itertools.product(al, repeat=depth - len(pre)):
        ops = [al[i] for i in pre] + list(rest)
        if not ctx.case({'N': N, 's': s, 'ops': ops, 't': 'circuit'}):
            return
        ctx.count('transitions', depth)
        ctx.count('traces_validated_against_impl')


def unit_long(c, ctx):
    if ctx.case(c):
        ctx.count('transitions', len(c['ops']))
        ctx.count('traces_validated_against_impl')


def unit_special(u, ctx):
    N, s, kind = u
    for prog in A.special_progs(N, [kind]):
        c = {'N': N, 's': s, 'ops': prog, 't': 'circuit'}
        if not ctx.case(c):
            return
        ctx.count('transitions', len(prog))
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)


def unit_wide(u, ctx):
    N, kind = u
    for w in A.wide_choices(kind, N):
        for lay in (None, ['perm', list(range(N))[::-1]]):
            c = {'N': N, 's': ['g'], 'ops': [[kind, w, A.gen(A.nparams(kind, w))]], 'lay': lay}
            if not ctx.case(c):
                return
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
        ctx.distinct((N, c['ops']))


def unit_walk(u, ctx):
    """A long program, or few operations on a large register."""
    N, s, n, a, b = u
    al = A.full(N, True) if N <= 8 else A.large_ops(N)
    c = {'N': N, 's': s, 'ops': A.strided(al, n, a, b), 't': 'circuit', 'tol': 2e-4}
    if ctx.case(c):
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)


def explore(eng):
    q = eng.quick
    kinds = [k for k in A.ALL_KINDS if k not in A.NO_TN]
    eng.map(unit_states, [(N, s, k, None, layouts(N)) for N in (1, 2, 3) for s in (['g'], ['b', 1]) for k in kinds])
    eng.map(unit_states, [(4, ['g'], k, None, layouts(4)) for k in kinds])
    root = lambda N, mode: [(hash_key(('root', N)), {'N': N, 'mode': mode, 'h': []})]
    for N in (2, 3):
        mode = 99 if N == 2 or not q else 2
        eng.bfs(expand, root(N, mode), chunk=2 if N == 2 else 32,
                stage='%d qubits; all operations from states of depth <=%d, Clifford ones from all' % (N, mode))
    eng.map(unit_states, [(5, ['g'], k, 3 if q else None, layouts(5)) for k in kinds])
    if not q:
        eng.map(unit_states, [(6, ['g'], k, 4, [None]) for k in kinds])
    eng.map(unit_states, [(N, ['g'], k, 2, [None, ['perm', list(range(N))[::-1]]]) for N in (6, 7, 8)
                          for k in kinds])
    eng.map(unit_special, [(N, ['g'], k) for N in (1, 2, 3) for k in kinds])
    eng.map(unit_wide, [(N, k) for N in ((4, 5, 6, 7) if q else (4, 5, 6, 7, 8, 9)) for k in kinds])
    eng.map(unit_walk, [(N, s, n, a, b) for N, n in ((2, 60), (3, 200), (4, 60), (5, 60), (6, 40), (7, 30), (8, 20))
                        for s in (['g'], ['b', 0]) for a in (1, 7, 31, 101) for b in range(8 if q else 40)])
    eng.map(unit_walk, [(N, ['g'], n, 13, b) for N in ((9, 10, 11, 12, 13) if q else (9, 10, 11, 12, 13, 14)) for n in (1, 5)
                        for b in range(0, len(A.large_ops(N)), 3 if q else 1)])
    al = A.tn_ops(3)
    eng.map(unit_seq, [(3, ['g'], None, [i], 2) for i in range(len(al))])
    g3 = al[::7]
    eng.map(unit_long, [{'N': 3, 's': ['g'], 'ops': [a, b] * 20, 't': 'circuit', 'tol': 2e-4}
                        for i, a in enumerate(g3) for b in g3[i + 1:]])
    if not q:
        eng.map(unit_seq, [(4, ['g'], 3, [i], 2) for i in range(len(A.tn_ops(4, 3)))])
        n = len(A.tn_ops(3, 2))
        eng.map(unit_seq, [(3, ['g'], 2, [i, j], 3) for i in range(n) for j in range(n)])
