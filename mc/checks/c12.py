"""C12: every way of asking for an expectation value, on every stabilizer and generic state, for every qubit selection."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, T, npy, to_mps, from_mps, clone_mps, regauge
from .gradlib import observable, f32vec

LEVEL = 'exploration'
RULE = ('one case = state (pure or mixed, representation) x observable or qubit selection x route; every request is made '
        'twice and the state compared bit for bit; distinct = distinct cases')
BOUNDS = {
    'quick': 'all stabilizer states of 1 and 2 qubits, basis/generic/GHZ/product states to N=5, mixed states to N=4; all '
             'Pauli strings; all ordered qubit selections (N<=4), None and int; all wire subsets x local observables for '
             'MPS (N<=3), also padded and gauge-transformed MPS (N<=5); circuits of length <=2 through cir_expectation; N=5..8 selections (subsets x four orders), Pauli strings, MPS '
             'observables, circuits of 3..30 operations on 2..7 qubits',
    'thorough': 'all stabilizer states of 3 qubits, selections on N=5, MPS local observables N=4, circuits on 3 qubits',
}
TOL = 2e-5


def stab(N, hist):
    v = make_state(N, ['b', 0])
    ops = A.clifford_ops(N)
    for i in hist:
        v = ref.apply_vec(ops[i], v, N)
    return v


def stabilizer_states(N):
    """Histories of every stabilizer state, by breadth-first search on the reference."""
    ops = A.clifford_ops(N)
    seen = {ref.phase_key(stab(N, [])): []}
    level = [([], stab(N, []))]
    while level:
        nxt = []
        for h, v in level:
            for j, op in enumerate(ops):
                w = ref.apply_vec(op, v, N)
                k = ref.phase_key(w)
                if k not in seen:
                    seen[k] = h + [j]
                    nxt.append((h + [j], w))
        level = nxt
    return list(seen.values())


def pure(N, s):
    return f32vec(stab(N, s[1]) if s[0] == 'stab' else make_state(N, s))


def mixed(N, m):
    """Mixture descriptor: list of [weight, state] (or 'max')."""
    if m == 'max':
        return np.eye(2 ** N) / 2 ** N
    r = 0
    for p, s in m:
        v = pure(N, s)
        r = r + p * np.outer(v, v.conj())
    return r / np.trace(r).real


def zvals(rho, N, qs):
    return np.array([np.trace(rho @ ref.embed(ref.Z, [q], N)).real for q in qs])


def twice(fn, arg, what, want, tol=TOL):
    snap = arg.clone() if isinstance(arg, torch.Tensor) else [t.clone() for t in arg]
    for k in range(2):
        got = fn()
        need(isinstance(got, torch.Tensor) and not torch.is_complex(got), '%s: result is not a real tensor' % what)
        expect(got.reshape(-1), np.atleast_1d(want).reshape(-1), '%s%s' % (what, ' asked again' if k else ''), tol)
        same = torch.equal(snap, arg) if isinstance(arg, torch.Tensor) else \
            len(snap) == len(arg) and all(torch.equal(a, b) for a, b in zip(snap, arg))
        need(same, '%s: the state changed' % what)


def check_case(c):
    qo, ql, qc, qt, qm = lib()
    N, t = c['N'], c['t']
    if t in ('measure', 'expval'):
        if 'mix' in c:
            rho = mixed(N, c['mix'])
            st, isrho = T(rho), True
        else:
            v = pure(N, c['s'])
            rho = np.outer(v, v.conj())
            st = {'vec': T(v), 'row': T(v).view(1, -1), 'col': T(v).view(-1, 1), 'rho': T(rho)}[c['form']]
            isrho = c['form'] == 'rho'
        if t == 'measure':
            q = c['q']
            sel = list(range(N)) if q is None else [q] if isinstance(q, int) else list(q)
            arg = tuple(q) if c.get('tuple') else q
            twice(lambda: qm.measure(N, st, arg), st, 'measure(%s) %s' % (q, c.get('form', 'mixed')), zvals(rho, N, sel))
        else:
            M = f32vec(observable(N, c['M']))
            want = np.trace(rho @ M).real
            twice(lambda: qm.expval(st, T(M), rho=isrho), st, 'expval(%s)' % c['M'], want)
    elif t == 'mps':
        v = pure(N, c['s'])
        m = to_mps(v, N)
        for op in c.get('ops', []):
            m = A.build(op, N).TN_operation(m)
            v = ref.apply_vec(op, v, N)
        if c.get('how'):
            m = regauge(m, c['how'])
        w, obs = c['w'], [f32vec(observable(1, o)) for o in c['obs']]
        x = v
        for q, o in zip(w, obs):
            x = ref.apply_m(o, [q], x.reshape((2,) * N)).reshape(-1)
        twice(lambda: qt.MPS_expec(m, list(w), [T(o) for o in obs]), m, 'MPS_expec', np.vdot(v, x).real)
    elif t == 'circuit':
        v = pure(N, c['s'])
        M = f32vec(observable(N, c['M']))
        f = v
        for op in c['ops']:
            f = ref.apply_vec(op, f, N)
        want = np.vdot(f, M @ f).real
        cir = A.circuit(c['ops'], N)
        st = row(v)
        for TN in (True, False):
            twice(lambda: cir.cir_expectation(st, T(M), TN=TN), st, 'cir_expectation(TN=%s)' % TN, want, 5e-5)
        # and the other routes to the same number
        out = cir.U() @ T(v).view(-1, 1)
        twice(lambda: qm.expval(out, T(M)), out, 'expval of the output', want, 5e-5)
        rho = out @ out.conj().T
        twice(lambda: qm.expval(rho, T(M), rho=True), rho, 'expval of the density matrix', want, 5e-5)


def go(ctx, c):
    ctx.count('evaluations')
    ctx.distinct(c)
    ctx.sample(c)
    return ctx.case(c)


def selections(N):
    out = [None] + list(range(N)) + A.subsets(N)
    if N == 2:
        out += [[0, 0], [1, 0, 1]]
    return out


def unit_measure(u, ctx):
    N, states, forms = u
    for s in states:
        key = {'mix': s} if forms == 'mix' else {'s': s}
        for form in ([None] if forms == 'mix' else forms):
            for q in selections(N):
                c = dict({'t': 'measure', 'N': N, 'q': q}, **key)
                if form:
                    c['form'] = form
                if not go(ctx, c):
                    return
            if not go(ctx, dict(c, q=list(range(N))[::-1], tuple=1)):
                return


def unit_expval(u, ctx):
    N, states, forms = u
    Ms = [''.join(p) for p in itertools.product('IXYZ', repeat=N)] + ['H', 'asym']
    for s in states:
        key = {'mix': s} if forms == 'mix' else {'s': s}
        for form in ([None] if forms == 'mix' else forms):
            for M in Ms:
                c = dict({'t': 'expval', 'N': N, 'M': M}, **key)
                if form:
                    c['form'] = form
                if not go(ctx, c):
                    return


def unit_mps(u, ctx):
    N, s, ops, obss = u
    for w in A.subsets(N):
        for obs in itertools.product(obss, repeat=len(w)):
            if not go(ctx, {'t': 'mps', 'N': N, 's': s, 'ops': ops, 'w': w, 'obs': list(obs)}):
                return


def unit_circ(u, ctx):
    N, i, kmax, M, depth = u
    al = A.ops(N, None, kmax)
    for op in (al if depth == 2 else [None]):
        ops = [al[i]] + ([op] if op else [])
        if not go(ctx, {'t': 'circuit', 'N': N, 's': ['g'], 'ops': ops, 'M': M}):
            return


def some_selections(N):
    """None, every single qubit, every subset of size >=2 in four orders (N<=6), the widest ones beyond; repeats."""
    out = [None] + list(range(N))
    for k in range(2, N + 1):
        if N > 6 and k not in (2, N - 1, N):
            continue
        for s in itertools.combinations(range(N), k):
            out += A.orders(s)
    return out + [[0, N - 1, 0], [N // 2] * 3]


def unit_more(u, ctx):
    for c in u:
        if not go(ctx, c):
            return


def more(q):
    out = []
    for N in (5, 6, 7, 8) if q else (5, 6, 7, 8, 9, 10):
        for s in (['g'], ['b', 5]):
            for form in ['vec', 'row', 'col'] + (['rho'] if N < 7 else []):
                for sel in some_selections(N) if form in ('vec', 'rho') else [None, [N - 1, 0], list(range(N))[::-1]]:
                    out.append({'t': 'measure', 'N': N, 's': s, 'form': form, 'q': sel})
        if N < 7:
            out += [{'t': 'measure', 'N': N, 'mix': [[0.3, ['g']], [0.7, ['ghz']]], 'q': sel} for sel in some_selections(N)]
        strings = [('XYZI' * N)[i:i + N] for i in range(4)] + ['I' * i + a + 'I' * (N - 1 - i) for i in range(N) for a in 'XYZ']
        for M in strings + ['asym'] + (['H'] if N < 8 else []):
            out += [{'t': 'expval', 'N': N, 's': ['g'], 'form': f, 'M': M} for f in ['vec', 'row', 'col'] + (['rho'] if N < 8 else [])]
    for M in itertools.product('IXYZ', repeat=4):
        out += [{'t': 'expval', 'N': 4, 's': ['g'], 'form': f, 'M': ''.join(M)} for f in ('col', 'rho')]
    for N in (4, 5, 6, 7, 8) if q else (4, 5, 6, 7, 8, 9, 10, 11):
        ws = [list(p) for p in itertools.permutations(range(N), 2)] + [o for k in (3, N - 1, N) for c in
              itertools.combinations(range(N), k) for o in A.orders(c)]
        for s, ops in ((['g'], []), (['p'], [['cnot', [N - 1, 0], []], ['rxx', [1, N - 2], [0.7]]])):
            for w in ws:
                out.append({'t': 'mps', 'N': N, 's': s, 'ops': ops, 'w': w, 'obs': [('H', 'Y', 'X', 'Z')[(i + w[0]) % 4] for i in range(len(w))]})
    # matrix product states in no canonical form (bonds padded, or an invertible matrix moved across each bond)
    for N in (2, 3, 4, 5):
        for s, ops in ((['g'], []), (['ghz'], []), (['p'], [['cnot', [N - 1, 0], []], ['rxx', [0, N - 1], [0.7]]])):
            for how in ('pad', 'gauge'):
                for w in A.subsets(N) if N < 5 else [[i] for i in range(N)] + [[4, 0], [1, 2, 3]]:
                    for o in ('Z', 'H'):
                        out.append({'t': 'mps', 'N': N, 's': s, 'ops': ops, 'how': how, 'w': w, 'obs': [o] * len(w)})
    for N, n in ((2, 30), (3, 20), (4, 12), (5, 8), (6, 5), (7, 3)):
        for a in (1, 7, 31):
            for b in range(4 if q else 40):
                al = A.full(N, b % 2 == 0)
                out.append({'t': 'circuit', 'N': N, 's': ['g'], 'ops': A.strided(al, n, a, b * 11), 'M': ('H', 'asym')[a % 2]})
    return out


def mixes(N):
    out = ['max']
    st = [['b', 0], ['b', 2 ** N - 1], ['g'], ['p'], ['ghz']]
    for a, b in itertools.combinations(st, 2):
        out.append([[0.3, a], [0.7, b]])
    out.append([[0.2, s] for s in st])
    return out


def explore(eng):
    q = eng.quick
    forms = ['vec', 'row', 'col', 'rho']
    fam = lambda N: [['b', i] for i in range(2 ** N)][:8] + [['g'], ['g', 3], ['p'], ['ghz']]
    units = []
    for N in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        units += [(N, [s], forms) for s in fam(N)]
    eng.map(unit_measure, units)
    eng.map(unit_measure, [(N, [m], 'mix') for N in (1, 2, 3, 4) for m in mixes(N)])
    eng.map(unit_expval, [(N, [s], forms) for N in (1, 2, 3) for s in fam(N)])
    eng.map(unit_expval, [(N, [m], 'mix') for N in (1, 2, 3) for m in mixes(N)])
    for N in (1, 2) if q else (1, 2, 3):
        st = [['stab', h] for h in stabilizer_states(N)]
        eng.stage('stabilizer states', N=N, states=len(st))
        eng.map(unit_measure, [(N, st[i:i + 10], forms) for i in range(0, len(st), 10)])
        eng.map(unit_expval, [(N, st[i:i + 10], ['vec', 'rho']) for i in range(0, len(st), 10)])
    for N in (1, 2, 3):
        for s in (['g'], ['b', 0], ['p'], ['ghz']):
            eng.map(unit_mps, [(N, s, [], ['X', 'Y', 'Z', 'H'])])
    for N in (2, 3) if q else (2, 3, 4):
        ent = [['cnot', [0, N - 1], []], ['u3', [0], A.gen(3)], ['rxx', [N - 1, 0], [0.7]]]
        eng.map(unit_mps, [(N, ['p'], ent[:k], ['Y', 'H']) for k in (1, 2, 3)])
    eng.map(unit_mps, [(4, ['g'], [], ['H', 'Y']), (5, ['p'], [['cnot', [4, 1], []]], ['H'])])
    eng.map(unit_circ, [(2, i, None, M, 2) for i in range(len(A.ops(2))) for M in ('H', 'ZX')])
    eng.map(unit_circ, [(3, i, None, 'H', 1) for i in range(len(A.ops(3)))])
    eng.map(unit_circ, [(4, i, 2, 'H', 1) for i in range(len(A.ops(4, None, 2)))])
    if not q:
        eng.map(unit_circ, [(3, i, 2, 'H', 2) for i in range(len(A.ops(3, None, 2)))])
    cs = more(q)
    eng.map(unit_more, [cs[i:i + 20] for i in range(0, len(cs), 20)])
