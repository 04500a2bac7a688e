"""C02: Circuit.U against the ordered product, on every program of bounded length and on the 2-qubit Clifford group."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..core import hash_key
from ..impl import expect, lib, need

LEVEL = 'model_checking'
RULE = 'programs over the gate alphabet; states = operators reached (mod phase) and programs; every one runs on a real Circuit'
BOUNDS = {
    'quick': 'all states of the 2-qubit Clifford group (11520) x all operations; all programs of length <=3 over a '
             '3-qubit alphabet, length 2 over all operations with <=2 wires (toffoli included) on 3 qubits, length 4 over a small one; '
             'periodic programs of length 40; strided walks through the full alphabet, N=3..7, length 10..260; special angles (zero, full turns, ...) in every slot and nearly equal operations, N<=3; evaluation after every step; reverse order; prebuilt and method adds',
    'thorough': 'as quick plus evaluation after every step for all length-3 programs, all pairs of all operations on 3 and (<=2 wires) 4 qubits, length 5 over the small alphabet',
}
TOL = 3e-5


def _prod(ops, N, rev=False):
    return ref.U_seq(list(reversed(ops)) if rev else ops, N)


def check_case(c):
    N, ops = c['N'], c['ops']
    qc = lib()[2]
    t = c.get('t', 'plain')
    tol = c.get('tol', TOL)
    if t == 'plain':
        cir = A.circuit(ops, N, how=c.get('how', 'method'))
        expect(cir.U(), _prod(ops, N), 'U() of %d operations' % len(ops), tol)
    elif t == 'rev':
        cir = A.circuit(ops, N)
        expect(cir.U(left_to_right=False), _prod(ops, N, True), 'U(left_to_right=False)', tol)
        expect(cir.U(), _prod(ops, N), 'U() after U(left_to_right=False)', tol)
    elif t == 'steps':                      # evaluate after every step, alternating styles and orders
        cir = qc.Circuit(N)
        expect(cir.U(), np.eye(2 ** N), 'empty circuit')
        for i, op in enumerate(ops):
            A.add(cir, op, how='prebuilt' if (i + c.get('ph', 0)) % 2 else 'method')
            a = cir.U(left_to_right=False)
            b = cir.U()
            expect(b, _prod(ops[:i + 1], N), 'U() after step %d' % (i + 1), tol)
            expect(a, _prod(ops[:i + 1], N, True), 'reverse U after step %d' % (i + 1), tol)
            d = cir.U()
            expect(d, _prod(ops[:i + 1], N), 'U() evaluated again after step %d' % (i + 1), tol)
            d.mul_(0)                       # the result belongs to the caller
    elif t == 'same':                       # one prebuilt object added several times, and to two circuits
        objs = [A.build(op, N) for op in ops]
        c1, c2 = qc.Circuit(N), qc.Circuit(N)
        for i in c['idx']:
            c1.add(objs[i])
            c2.add(objs[i])
            c2.add(objs[i])
        seq = [ops[i] for i in c['idx']]
        expect(c1.U(), _prod(seq, N), 'U() with shared operations', tol)
        expect(c2.U(), _prod([o for o in seq for _ in (0, 1)], N), 'U() with repeated operations', tol)
        expect(c1.U(), _prod(seq, N), 'U() again', tol)
    elif t == 'empty':
        expect(qc.Circuit(N).U(), np.eye(2 ** N), 'empty circuit of %d' % N)
        expect(qc.Circuit(N).U(left_to_right=False), np.eye(2 ** N), 'empty circuit of %d' % N)
    elif t == 'two':                        # two circuits built in lock step do not mix
        c1, c2 = qc.Circuit(N), qc.Circuit(N)
        o2 = c['ops2']
        for a, b in itertools.zip_longest(ops, o2):
            if a:
                A.add(c1, a)
            if b:
                A.add(c2, b)
        expect(c1.U(), _prod(ops, N), 'first of two circuits', tol)
        expect(c2.U(), _prod(o2, N), 'second of two circuits', tol)


def expand(states, ctx):
    """BFS step: every operation from every operator state; the whole program runs on a fresh Circuit."""
    out = []
    N = 2
    ops = A.clifford_ops(N)
    for hist in states:
        prog = [ops[i] for i in hist]
        M = ref.U_seq(prog, N)
        for j, op in enumerate(ops):
            W = ref.U(op, N) @ M
            ctx.count('transitions')

            def step():
                cir = A.circuit(prog + [op], N, how='prebuilt' if (len(hist) + j) % 2 else 'method')
                expect(cir.U(), W, 'U() after %d operations' % (len(hist) + 1), TOL)
            k = len(ctx.fails)
            ctx.guard({'N': N, 'ops': prog + [op], 'how': 'prebuilt' if (len(hist) + j) % 2 else 'method'}, step)
            if len(ctx.fails) > k:
                return out
            ctx.count('traces_validated_against_impl')
            out.append((hash_key(ref.phase_key(W)), hist + [j]))
        ctx.sample({'history': prog})
    # merge duplicates inside the unit already
    d = {}
    for k, h in out:
        d.setdefault(k, h)
    return list(d.items())


def alphabet(name):
    g = A.gen
    if name == 'n3':
        return [['Hadamard', [1], []], ['PauliX', [0], []], ['PauliY', [2], []], ['PauliZ', [1], []],
                ['rx', [0], [0.7]], ['rx', [0], [-1.3]], ['ry', [2], [2.1]], ['rz', [1], [0.45]], ['u1', [2], [1.15]],
                ['u3', [0], g(3)], ['u3', [2], g(3, 4)], ['rxx', [2, 0], [0.7]], ['ryy', [0, 1], [-1.3]],
                ['rzz', [1, 2], [2.1]], ['cnot', [0, 2], []], ['cnot', [2, 0], []], ['cnot', [1, 0], []],
                ['cz', [2, 1], []], ['cphase', [0, 1], [1.9]], ['cu3', [2, 1], g(3, 2)], ['cu3', [1, 2], g(3, 6)],
                ['SWAP', [0, 2], []], ['SWAP', [2, 1], []], ['toffoli', [2, 0, 1], []], ['toffoli', [0, 1, 2], []],
                ['multi_control_cnot', [1, 0], []], ['multi_control_cnot', [1, 2, 0], []],
                ['HLayer', [0, 2], []], ['HLayer', [0, 1, 2], []], ['XYZLayer', [2, 0], g(6)],
                ['ZYXLayer', [1, 2], g(6, 1)], ['YZYLayer', [0, 1, 2], g(9)], ['XZXLayer', [1], g(3)],
                ['XZLayer', [2, 1], g(4)], ['ZXLayer', [0, 1], g(4, 3)], ['ring_of_cnot', [0, 1, 2], []],
                ['ring_of_cnot', [2, 0], []], ['ring_of_cnot2', [0, 1, 2], []], ['ring_of_cnot_dagger', [1, 0, 2], []],
                ['BasicEntangleLayer', [2, 0, 1], g(9, 2)],
                ['BasicEntangleLayer', [0, 1], g(12, 3), {'repeat': 2}]]
    if name == 'small':
        return [['Hadamard', [0], []], ['rx', [1], [0.7]], ['rz', [0], [-1.3]], ['cnot', [1, 0], []],
                ['cu3', [0, 1], g(3)], ['YZYLayer', [1, 0], g(6)], ['rxx', [0, 1], [0.45]],
                ['ring_of_cnot', [1, 0], []], ['u1', [1], [2.1]], ['SWAP', [0, 1], []]]
    raise KeyError(name)


def unit_progs(u, ctx):
    N, ops, pre, depth, ts = u
    for rest in itertools.product(range(len(ops)), repeat=depth - len(pre)):
        seq = [ops[i] for i in list(pre) + list(rest)]
        for i, t in enumerate(ts):
            c = {'t': t, 'N': N, 'ops': seq}
            if t == 'same':
                c['ops'] = ops
                c['idx'] = list(pre) + list(rest)
            if not ctx.case(c):
                return
            ctx.count('traces_validated_against_impl')
        ctx.count('transitions', depth)
        ctx.distinct((N, seq))
    ctx.sample({'N': N, 'ops': seq})


def unit_pairs4(u, ctx):
    N, km, i = u
    al = A.ops(N, kmax=km)
    for op in al:
        if not ctx.case({'t': 'plain', 'N': N, 'ops': [al[i], op]}):
            return
        ctx.count('traces_validated_against_impl')
        ctx.count('transitions', 2)
        ctx.distinct((N, i, op))


def unit_long(u, ctx):
    N, per, n = u
    c = {'t': 'plain', 'N': N, 'ops': (per * n)[:n], 'tol': 2e-4}
    ctx.case(c)
    ctx.case(dict(c, t='steps', ops=c['ops'][:12]))
    ctx.count('traces_validated_against_impl', 2)
    ctx.count('transitions', n)


def unit_misc(u, ctx):
    ctx.case(u)
    ctx.count('traces_validated_against_impl')
    ctx.count('transitions', 1)


def unit_strided(u, ctx):
    """A long program walking the whole alphabet of N qubits (every kind, short and long wire lists)."""
    N, n, a, b, how = u
    seq = A.strided(A.full(N), n, a, b)
    ctx.case({'t': 'plain', 'N': N, 'ops': seq, 'how': how, 'tol': 2e-4})
    ctx.case({'t': 'rev', 'N': N, 'ops': seq[:n // 2], 'tol': 2e-4})
    ctx.case({'t': 'steps', 'N': N, 'ops': seq[:10], 'ph': b, 'tol': 2e-4})
    ctx.count('traces_validated_against_impl', 3)
    ctx.count('transitions', n + n // 2 + 10)
    ctx.distinct((N, seq))


def unit_special(u, ctx):
    """Operations with special angles between two fixed ones."""
    N, kind = u
    a, b = (['HLayer', list(range(N)), []], ['YZYLayer', list(range(N))[::-1], A.gen(3 * N)])
    for prog in A.special_progs(N, [kind]):
        c = {'t': 'plain', 'N': N, 'ops': [a] + prog + [b]}
        if not ctx.case(c):
            return
        ctx.count('traces_validated_against_impl')
        ctx.count('transitions', len(c['ops']))
        ctx.distinct(c)


def explore(eng):
    eng.map(unit_misc, [{'t': 'empty', 'N': n, 'ops': []} for n in range(1, 9)])
    s, n3 = alphabet('small'), alphabet('n3')
    q = eng.quick
    eng.map(unit_progs, [(2, s, [], 1, ['plain', 'rev', 'steps', 'same']), (3, n3, [], 1, ['plain', 'rev', 'steps', 'same'])])
    eng.map(unit_progs, [(2, s, [i], 3, ['plain', 'rev', 'steps', 'same']) for i in range(len(s))])
    eng.map(unit_progs, [(3, n3, [i], 2, ['plain', 'rev', 'steps', 'same']) for i in range(len(n3))])
    eng.bfs(expand, [(hash_key(ref.phase_key(np.eye(4))), [])], chunk=4, stage='2-qubit Clifford operators mod phase')
    eng.map(unit_progs, [(3, n3, [i, j], 3, ['plain'] if q else ['plain', 'rev', 'steps'])
                         for i in range(len(n3)) for j in range(len(n3))])
    eng.map(unit_progs, [(2, s, [i, j], 4 if q else 5, ['plain', 'rev'])
                         for i in range(len(s)) for j in range(len(s))])
    for N, km in ((3, 2),) if q else ((3, 3), (4, 2)):
        al = A.ops(N, kmax=km)
        eng.stage('all ordered pairs of operations', N=N, max_wires=km, alphabet=len(al))
        eng.map(unit_pairs4, [(N, km, i) for i in range(len(al))])
    L = len(n3)
    eng.map(unit_long, [(3, [n3[i], n3[j]], 40) for i in range(L) for j in ([(i + 1) % L] if q else range(L))])
    eng.map(unit_misc, [{'t': 'two', 'N': 3, 'ops': [n3[i], n3[j]], 'ops2': [n3[j], n3[i], n3[(i + j) % len(n3)]]}
                        for i in range(len(n3)) for j in range(i)])
    eng.map(unit_special, [(N, k) for N in ((1, 2, 3) if q else (1, 2, 3, 4)) for k in A.ALL_KINDS])
    plan = [(N, n, a, b, ('method', 'prebuilt')[b % 2])
            for N, n in (((3, 60), (4, 60), (5, 40), (6, 24), (7, 10)) if q else ((3, 60), (3, 300), (4, 60), (5, 60), (6, 40), (7, 20), (8, 8)))
            for a in (1, 7, 31, 101) for b in range(8 if q else 40)]
    eng.stage('long programs walking the whole alphabet', programs=len(plan))
    eng.map(unit_strided, plan)
    eng.map(unit_strided, [(3, 260, a, b, 'method') for a in (7, 31) for b in range(4)])
