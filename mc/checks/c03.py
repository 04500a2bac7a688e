"""C03: matrix-product-state evolution against exact evolution: BFS over stabilizer states, then generic states."""
import itertools
import numpy as np
from .. import alpha as A, ref
from ..core import hash_key
from ..impl import (expect, lib, need, to_mps, from_mps, clone_mps, make_state, npy, profile, T, row, regauge)

LEVEL = 'model_checking'
RULE = ('states = (stabilizer state mod phase, bond profile of the real MPS); every state is reached by replaying its '
        'operation history on the real TN_operation; every tensor-network operation on every wire tuple is a transition')
BOUNDS = {
    'quick': 'BFS closure for 2 qubits x all operations and 3 qubits x Clifford operations (all operations up to depth 2); generic/basis/GHZ/product/nearly-product (Schmidt values '
             'down to 1e-5) states on 1..5 qubits x all operations (N=5: <=3 wires); 6..8 qubits x all ordered pairs; '
             'all 2-operation circuits on 3 qubits; periodic circuits of 30 operations; wide layers/rings on 4..6; strided '
             'walks of 10..60 operations on 2..7 qubits; padded and gauge-transformed MPS on 2..4; special angles (zero, full turns, ...) in every slot and nearly equal operations, N<=3; 1 and 5 operations on 9..12 qubits',
    'thorough': 'plus 3 qubits x all operations, BFS closure for 4 qubits x Clifford operations, all operations on 5 (<=4 wires) and 6 (<=3) '
                'qubits, all 2-operation circuits on 4 qubits (<=2 wires), all 3-operation circuits of a 3-qubit alphabet',
}
TOL = 2e-5


def evolve(N, v, ops, how=None):
    m = to_mps(v, N)
    if how:
        m = regauge(m, how)
    for op in ops:
        m = A.build(op, N).TN_operation(m)
    return m


def check_case(c):
    N = c['N']
    v = make_state(N, c['s'])
    ops = c['ops']
    tol = c.get('tol', TOL)
    want = v.reshape((2,) * N)
    for op in ops:
        want = ref.apply(op, want)
    want = want.reshape(-1)
    if c.get('t') == 'circuit':
        cir = A.circuit(ops, N)
        m = to_mps(v, N)
        out = cir.TN_evolution(regauge(m, c['how']) if c.get('how') else m)
    else:
        out = evolve(N, v, ops, c.get('how'))
    need(isinstance(out, list) and len(out) == N, 'TN_operation does not return %d tensors' % N)
    expect(from_mps(out), want, 'MPS evolution of %s' % c['s'][0], tol, shape=(1, 2 ** N))


def expand(states, ctx):
    out = {}
    N, mode = states[0]['N'], states[0]['mode']
    cl = A.clifford_ops(N)
    every = cl + A.tn_ops(N)
    built = [A.build(op, N) for op in every]
    for st in states:
        al = every if len(st['h']) <= mode else cl
        ops = [cl[i] for i in st['h']]
        case0 = {'N': N, 's': ['b', 0], 'ops': ops}
        m0 = ctx.guard(case0, evolve, N, make_state(N, ['b', 0]), ops)
        if m0 is None:
            return []
        v = make_state(N, ['b', 0])
        for op in ops:
            v = ref.apply_vec(op, v, N)
        for j, op in enumerate(al):
            w = ref.apply_vec(op, v, N)
            ctx.count('transitions')

            def step():
                m = built[j].TN_operation(clone_mps(m0))
                expect(from_mps(m), w, '%s on %s of %d after %d operations' % (op[0], op[1], N, len(ops)),
                       TOL, shape=(1, 2 ** N))
                return profile(m)
            k = len(ctx.fails)
            pr = ctx.guard({'N': N, 's': ['b', 0], 'ops': ops + [op]}, step)
            if len(ctx.fails) > k:
                return []
            ctx.count('traces_validated_against_impl')
            if j < len(cl):
                key = hash_key((ref.phase_key(w), pr))
                if key not in out:
                    out[key] = {'N': N, 'mode': mode, 'h': st['h'] + [j]}
        ctx.sample(case0)
    return list(out.items())


def unit_states(u, ctx):
    """Every operation from one given state."""
    N, s, kinds, kmax, tol = u
    for op in A.ops(N, kinds, kmax):
        c = {'N': N, 's': s, 'ops': [op], 'tol': tol}
        if not ctx.case(c):
            return
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        ctx.distinct((N, s, op))
        ctx.sample(c)


def unit_pairs(u, ctx):
    N, s, kmax, i = u
    al = A.tn_ops(N, kmax)
    for op in al:
        if not ctx.case({'N': N, 's': s, 'ops': [al[i], op], 't': 'circuit'}):
            return
        ctx.count('transitions', 2)
        ctx.count('traces_validated_against_impl')
        ctx.distinct((N, s, i, op))


def unit_case(c, ctx):
    if ctx.case(c):
        ctx.count('transitions', len(c['ops']))
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)


def unit_gauge(u, ctx):
    N, s, how, kind = u
    for op in A.ops(N, [kind], 2 if N > 3 else None):
        for k in (1, 2):
            c = {'N': N, 's': s, 'ops': [op] * k, 'how': how, 't': 'circuit'}
            if not ctx.case(c):
                return
            ctx.count('transitions', k)
            ctx.count('traces_validated_against_impl')
            ctx.distinct(c)


def unit_special(u, ctx):
    N, s, kind = u
    for prog in A.special_progs(N, [kind]):
        c = {'N': N, 's': s, 'ops': prog, 't': 'circuit'}
        if not ctx.case(c):
            return
        ctx.count('transitions', len(prog))
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)


def unit_wide(u, ctx):
    N, s, kind = u
    for w in A.wide_choices(kind, N):
        c = {'N': N, 's': s, 'ops': [[kind, w, A.gen(A.nparams(kind, w))]]}
        if not ctx.case(c):
            return
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        ctx.distinct((N, s, c['ops']))


def unit_large(u, ctx):
    """Few operations on a large register (bonds up to 2^(N/2))."""
    N, s, i = u
    al = A.large_ops(N)
    for n, ops in ((1, [al[i]]), (5, A.strided(al, 5, 13, i))):
        c = {'N': N, 's': s, 'ops': ops, 't': 'circuit', 'tol': 4e-5}
        if not ctx.case(c):
            return
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)


def unit_strided(u, ctx):
    N, s, n, a, b = u
    c = {'N': N, 's': s, 'ops': A.strided(A.full(N, True), n, a, b), 't': 'circuit', 'tol': 2e-4}
    if ctx.case(c):
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)


def families(N):
    out = [['g'], ['b', 0], ['b', 2 ** N - 1], ['p'], ['ghz']]
    for e in (1e-2, 1e-3, 1e-4, 1e-5):
        out.append(['eps', e])
    out += [['pair', 1e-4, 0, 2 ** N - 1], ['pair', 3e-5, 2 ** N - 2, 1 % 2 ** N]]
    return out


def tolerance(s):
    return 5e-6 if s[0] in ('eps', 'pair') else TOL


def alpha3():
    g = A.gen
    return [['Hadamard', [1], []], ['rx', [0], [0.7]], ['u3', [2], g(3)], ['rxx', [2, 0], [0.7]],
            ['ryy', [0, 1], [1.3]], ['cnot', [2, 0], []], ['cnot', [0, 2], []], ['cu3', [2, 1], g(3, 2)], ['cz', [2, 0], []],
            ['cphase', [0, 2], [1.9]], ['SWAP', [2, 0], []], ['toffoli', [2, 0, 1], []], ['toffoli', [0, 1, 2], []],
            ['YZYLayer', [2, 0], g(6)], ['HLayer', [0, 1, 2], []], ['ring_of_cnot', [0, 1, 2], []],
            ['ring_of_cnot', [2, 0, 1], []], ['ring_of_cnot_dagger', [1, 0, 2], []]]


def explore(eng):
    q = eng.quick
    kinds = [k for k in A.ALL_KINDS if k not in A.NO_TN]
    units = []
    for N in (1, 2, 3, 4):
        for s in families(N):
            units += [(N, s, [k], None, tolerance(s)) for k in kinds]
    eng.map(unit_states, units)
    root = lambda N, mode: [(hash_key(('root', N)), {'N': N, 'mode': mode, 'h': []})]
    for N in (2, 3):
        mode = 99 if N == 2 or not q else 2      # history length up to which all operations are tried
        eng.bfs(expand, root(N, mode), chunk=2 if N == 2 else 8,
                stage='%d qubits; all operations from states of depth <=%d, Clifford ones from all' % (N, mode))
    units = [(5, s, [k], 3 if q else 4, tolerance(s)) for s in (['g'], ['eps', 1e-3], ['pair', 1e-4, 3, 28]) for k in kinds]
    if not q:
        units += [(6, ['g'], [k], 3, TOL) for k in kinds]
    for N in (6, 7, 8):
        units += [(N, s, [k], 2, tolerance(s)) for s in (['g'], ['pair', 1e-4, 1, 2 ** N - 2])
                  for k in kinds if A.arity(k)[0] == 2 and (not q or A.arity(k)[1] == 2)]
    eng.map(unit_states, units)
    eng.map(unit_wide, [(N, s, k) for N in ((4, 5, 6) if q else (4, 5, 6, 7, 8)) for s in (['g'], ['b', 1]) for k in kinds])
    eng.map(unit_strided, [(N, s, n, a, b) for N, n in ((2, 60), (3, 60), (4, 40), (5, 40), (6, 20), (7, 10))
                           for s in (['g'], ['b', 0]) for a in (1, 7, 31, 101) for b in range(5 if q else 40)])
    eng.map(unit_large, [(N, s, i) for N, st in (((9, 7), (10, 11), (11, 29), (12, 61)) if q else ((9, 1), (10, 1), (11, 3), (12, 7), (13, 31)))
                         for s in (['g'], ['p'], ['b', 5]) for i in range(0, len(A.large_ops(N)), st)])
    eng.map(unit_special, [(N, ['g'], k) for N in (1, 2, 3) for k in kinds])
    # the same states as matrix product states in no canonical form
    eng.map(unit_gauge, [(N, s, how, k) for N in (2, 3, 4) for s in (['g'], ['ghz'], ['p'])
                         for how in ('pad', 'gauge') for k in kinds])
    al = A.tn_ops(3)
    eng.map(unit_pairs, [(3, ['g'], None, i) for i in range(len(al))])
    g3 = alpha3()
    eng.map(unit_case, [{'N': 3, 's': ['b', 0], 'ops': ([a, b] * 15), 't': 'circuit', 'tol': 2e-4}
                        for i, a in enumerate(g3) for b in g3[i + 1:]])
    if not q:
        eng.map(unit_case, [{'N': 3, 's': s, 'ops': list(t), 't': 'circuit'} for s in (['b', 0], ['eps', 1e-3])
                            for t in itertools.product(g3, repeat=3)])
        eng.map(unit_pairs, [(4, ['g'], 2, i) for i in range(len(A.tn_ops(4, 2)))])
        eng.bfs(expand, root(4, 1), chunk=32, stage='4 qubits, Clifford operations, all operations up to depth 1')
