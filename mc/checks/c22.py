"""C22: every impossible wire tuple, parameter count and state size in bounds must be refused by an error."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, to_mps, from_mps, T, npy, run_op, ENGINES

LEVEL = 'exploration'
RULE = ('one case = one impossible request, carried through construction and evaluation on one engine: it must raise '
        'before a result exists; valid neighbours of every request are executed too and must not be refused; '
        'distinct = distinct requests')
BOUNDS = {
    'quick': 'every kind x every wire tuple of length 1..4 over -2..N+1 with an invalid entry or the wrong length '
             '(N=2,3; length <=3 for N=4; spoilt long lists for N=5,6) x 4 engines, by class and by circuit method; expansion helpers likewise; every '
             'parameter count 0..3k+3 except the right one, at construction and update; every state size 2^m and off-by-one, '
             'm<=6; operations without tensor-network support in every position of a 3-operation circuit',
    'thorough': 'length 4 for N=4, N=5 with length <=3',
}


class Accepted(Exception):
    pass


def refused(fn, what, case=None):
    try:
        r = fn()
    except Exception:
        return
    if isinstance(r, torch.Tensor):
        r = 'a tensor of shape %s' % (tuple(r.shape),)
    need(False, '%s is accepted and gives %s' % (what, r if isinstance(r, str) else type(r).__name__), case=case)


ONE = A.KINDS0_1 + A.KINDSP_1 + ['u3']
LAYER = list(A.ROT_LAYERS) + ['HLayer', 'BasicEntangleLayer'] + A.RINGS


def wires_arg(kind, w):
    if kind in ONE:
        return w[0] if len(w) == 1 else list(w)
    return list(w)


def make(kind, N, w, p):
    qo, ql, _, _, _ = lib()
    ww = wires_arg(kind, w)
    pp = torch.tensor(p[0]) if kind in A.KINDSP_1 + A.KINDSP_2 else torch.tensor([float(x) for x in p]) if p else None
    if kind in LAYER:
        cls = getattr(ql, kind)
        return cls(N, ww, pp) if p else cls(N, ww)
    cls = getattr(qo, kind)
    return cls(pp, N, ww) if p else cls(N, ww)


def evaluate(o, kind, N, eng):
    v = make_state(N, ['g'])
    if eng == 'circuit':
        qc = lib()[2]
        c = qc.Circuit(N)
        c.add(o)
        return c.U()
    return run_op(o, N, v, eng)


def by_method(kind, N, w, p):
    """The same request through the circuit's gate method."""
    qc = lib()[2]
    c = qc.Circuit(N)
    ww = wires_arg(kind, w)
    if kind == 'HLayer':
        c.Hadamard(ww)
    elif kind in LAYER:
        f = getattr(c, kind)
        f(ww, torch.tensor([float(x) for x in p])) if p else f(ww)
    elif p:
        getattr(c, kind)(torch.tensor(p[0]) if len(p) == 1 else torch.tensor(p), ww)
    else:
        getattr(c, kind)(ww)
    return c.U()


def bad_wires(kind, N, w):
    lo, hi = A.arity(kind)
    if len(w) < lo or (hi is not None and len(w) > hi):
        return True
    return len(set(w)) != len(w) or min(w) < 0 or max(w) > N - 1


def check_case(c):
    qo, ql, qc, qt, qm = lib()
    t = c['t']
    if t == 'wires':
        kind, N, w = c['kind'], c['N'], c['w']
        n = A.nparams(kind, w)
        p = A.gen(n)
        engs = [c['eng']] if 'eng' in c else (ENGINES if A.support_tn([kind]) else ['dense']) + ['circuit', 'method']
        for e in engs:
            cc = dict(c, eng=e)
            if e == 'method':
                if kind == 'ring_of_cnot_dagger' or kind == 'Hadamard' and len(w) > 1:
                    continue
                refused(lambda: by_method(kind, N, w, p), 'Circuit(%d).%s on wires %s' % (N, kind, w), cc)
            else:
                refused(lambda: evaluate(make(kind, N, w, p), kind, N, e), '%s of %d qubits on wires %s (%s)' % (kind, N, w, e), cc)
    elif t == 'valid':
        kind, N, w = c['kind'], c['N'], c['w']
        op = [kind, w, A.gen(A.nparams(kind, w))]
        v = make_state(N, ['g'])
        for e in ENGINES if A.support_tn(op) else ['dense']:
            expect(run_op(make(kind, N, w, op[2]), N, v, e), ref.apply_vec(op, v, N), '%s on %s (%s)' % (kind, w, e), 2e-5)
    elif t == 'helper':
        N, w = c['N'], c['w']
        X = T(ref.X)
        if c['f'] == '1toN':
            refused(lambda: qo.Operator.gate_expand_1toN(X, N, w[0]), 'gate_expand_1toN(N=%d, %s)' % (N, w[0]))
        elif c['f'] == 'ctrl':
            refused(lambda: qo.Operation.two_qubit_control_gate(X, N, *w), 'two_qubit_control_gate(N=%d, %s)' % (N, w))
        else:
            refused(lambda: qo.Operation.multi_control_gate(X, N, list(w[:-1]), w[-1]), 'multi_control_gate(N=%d, %s)' % (N, w))
    elif t == 'helperok':
        N, w = c['N'], c['w']
        X = T(ref.X)
        if len(w) == 1:
            expect(qo.Operator.gate_expand_1toN(X, N, w[0]), ref.embed(ref.X, w, N), 'gate_expand_1toN', 1e-6)
        else:
            expect(qo.Operation.multi_control_gate(X, N, list(w[:-1]), w[-1]), ref.embed(ref.ctrl(ref.X, len(w) - 1), w, N), 'multi_control_gate', 1e-6)
        if len(w) == 2:
            expect(qo.Operation.two_qubit_control_gate(X, N, *w), ref.embed(ref.CNOT, w, N), 'two_qubit_control_gate', 1e-6)
    elif t == 'count':
        kind, N, w, n = c['kind'], c['N'], c['w'], c['n']
        one = kind in A.KINDSP_1 + A.KINDSP_2

        def par(n):
            p = [float(x) for x in A.gen(n)]
            return p if c['pc'] == 'list' else torch.tensor(p)

        def con(p):
            ww = wires_arg(kind, w)
            ex = [c['repeat']] if c.get('repeat') else []
            return getattr(ql, kind)(N, ww, p, *ex) if kind in LAYER else getattr(qo, kind)(p, N, ww)
        refused(lambda: con(par(n)).U_expand(), '%s built with %d parameters' % (kind, n), dict(c, how='ctor'))
        good = torch.tensor(0.3) if one else par(A.nparams(kind, w, {'repeat': c.get('repeat', 1)}))
        o = con(good)
        U0 = o.U_expand().clone()

        def upd():
            o.params_update(par(n))
            return o.U_expand()
        refused(upd, '%s updated with %d parameters' % (kind, n), dict(c, how='update'))
    elif t == 'size':
        N, how, m = c['N'], c['how'], c['m']
        cir = A.circuit(c['ops'], N)
        M = T(np.eye(2 ** N))
        if how == 'mps':
            refused(lambda: cir.TN_evolution(to_mps(make_state(m, ['g']), m)), 'MPS of %d qubits given to a circuit of %d' % (m, N))
        elif how == 'tn':
            refused(lambda: cir.TN_contract_evolution(tens(make_state(m, ['g']), m)), 'tensor of %d qubits given to a circuit of %d' % (m, N))
        elif how == 'batch':
            refused(lambda: cir.TN_contract_evolution(torch.stack([tens(make_state(m, ['g']), m)] * 3), batch_mod=True),
                    'batch of %d-qubit states given to a circuit of %d' % (m, N))
        elif how == 'exp':
            for TN in (True, False):
                refused(lambda: cir.cir_expectation(torch.ones(1, m) / m + 0j, M, TN=TN), 'row of %d amplitudes (TN=%s), %d qubits' % (m, TN, N))
        elif how == 'expcol':
            for TN in (True, False):
                refused(lambda: cir.cir_expectation(torch.ones(m, 1) / m + 0j, M, TN=TN), 'column of %d amplitudes (TN=%s), %d qubits' % (m, TN, N))
        elif how == 'expM':
            for TN in (True, False):
                refused(lambda: cir.cir_expectation(row(make_state(N, ['g'])), torch.ones(*m) + 0j, TN=TN),
                        'observable of shape %s (TN=%s), %d qubits' % (m, TN, N))
        elif how == 'sv':
            refused(lambda: qt.StateVec2MPS(torch.ones(*m) + 0j, N), 'StateVec2MPS of a %s tensor, %d qubits' % (m, N))
        elif how == 'rho':
            refused(lambda: qt.Rho2MPS(torch.ones(*m) + 0j, N), 'Rho2MPS of a %s tensor, %d qubits' % (m, N))
            refused(lambda: qt.MatrixProductDensityOperator(torch.ones(*m) + 0j, N), 'rank-2N view of a %s tensor, %d qubits' % (m, N))
    elif t == 'notn':
        N, ops = c['N'], c['ops']
        cir = A.circuit(ops, N)
        v = make_state(N, ['g'])
        for o, op in zip(cir.gate, ops):
            if not A.support_tn(op):
                for e in ('mps', 'tn', 'batch'):
                    refused(lambda: run_op(o, N, v, e), '%s, which has no tensor-network support, on %s' % (op[0], e))
        refused(lambda: cir.TN_evolution(to_mps(v, N)), 'TN_evolution of %s' % [o[0] for o in ops])
        refused(lambda: cir.TN_contract_evolution(tens(v, N)), 'TN_contract_evolution of %s' % [o[0] for o in ops])
        refused(lambda: cir.TN_contract_evolution(torch.stack([tens(v, N)] * 2), batch_mod=True), 'batched evolution of %s' % [o[0] for o in ops])
        ps = qc.parameter_shift(cir, row(v), qo.PauliZ(N, 0).U_expand())
        refused(lambda: ps.save_mid_MPS(qo.PauliZ(N, 0)), 'save_mid_MPS of %s' % [o[0] for o in ops])


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def wire_cases(N, kmax):
    cs = []
    for kind in A.ALL_KINDS:
        for k in range(1, kmax + 1):
            for w in itertools.product(range(-2, N + 2), repeat=k):
                w = list(w)
                if kind == 'Hadamard' and k > 1:
                    continue
                if bad_wires(kind, N, w):
                    cs.append({'t': 'wires', 'kind': kind, 'N': N, 'w': w})
                else:
                    cs.append({'t': 'valid', 'kind': kind, 'N': N, 'w': w})
    return cs


def long_cases(N):
    """Long wire lists with one entry spoilt (every position; a repeat of every other entry, or out of range)."""
    cs = []
    for kind in A.VARIABLE:
        if N > 5 and kind not in ('multi_control_cnot', 'HLayer', 'ring_of_cnot', 'ring_of_cnot2', 'XZLayer', 'BasicEntangleLayer'):
            continue
        for k in sorted({4, N - 1, N}):
            for base in (list(range(k)), list(range(N - 1, N - 1 - k, -1))):
                for i in range(k):
                    for x in [-1, -N, N, N + 2] + [q for q in base if q != base[i]]:
                        w = list(base)
                        w[i] = x
                        cs.append({'t': 'wires', 'kind': kind, 'N': N, 'w': w})
        cs.append({'t': 'wires', 'kind': kind, 'N': N, 'w': list(range(N)) + [N]})
        cs.append({'t': 'wires', 'kind': kind, 'N': N, 'w': list(range(N)) + [0]})
    for kind in A.ALL_KINDS:        # small gates on larger registers
        if A.arity(kind)[1] is not None:
            k = A.arity(kind)[0]
            for w in itertools.product((-N, -1, 0, 1, N - 1, N, N + 1, 2 * N), repeat=k):
                if bad_wires(kind, N, list(w)):
                    cs.append({'t': 'wires', 'kind': kind, 'N': N, 'w': list(w)})
    return cs


def helper_cases(N, kmax):
    cs = []
    for k in range(1, kmax + 1):
        for w in itertools.product(range(-2, N + 2), repeat=k):
            w = list(w)
            if len(set(w)) == k and min(w) >= 0 and max(w) < N:
                cs.append({'t': 'helperok', 'N': N, 'w': w})
                continue
            for f in (['1toN'] if k == 1 else ['ctrl', 'multi'] if k == 2 else ['multi']):
                cs.append({'t': 'helper', 'f': f, 'N': N, 'w': w})
    return cs


def explore(eng):
    q = eng.quick
    for N, k in ((1, 3), (2, 4), (3, 4), (4, 3)) if q else ((1, 4), (2, 4), (3, 4), (4, 4), (5, 3)):
        cs = wire_cases(N, k)
        eng.map(unit, chunks(cs, 60))
        eng.map(unit, chunks(helper_cases(N, k), 60))
    for N in (5, 6) if q else (5, 6, 7):
        eng.map(unit, chunks(long_cases(N), 40))
        cs = []
        for k in range(3, N + 1):
            base = list(range(k))
            for i in range(k):
                for x in [-1, N] + [z for z in base if z != i]:
                    w = list(base)
                    w[i] = x
                    cs.append({'t': 'helper', 'f': 'multi', 'N': N, 'w': w})
        eng.map(unit, chunks(cs, 40))
    cs = []
    for kind in [k for k in A.ALL_KINDS if A.nparams(k, [0, 1])]:
        lo, hi = A.arity(kind)
        for w in ([[1]] if hi == 1 else [[2, 0]] if hi == 2 else [[2, 0], [0, 1, 2]]):
            for rep in ([None, 2, 3] if kind == 'BasicEntangleLayer' else [None]):
                good = A.nparams(kind, w, {'repeat': rep or 1})
                for n in range(0, 3 * good + 4):
                    if n != good:
                        for pc in ('list', 'tensor'):
                            c = {'t': 'count', 'kind': kind, 'N': 3, 'w': w, 'n': n, 'pc': pc}
                            if rep:
                                c['repeat'] = rep
                            cs.append(c)
    eng.map(unit, chunks(cs, 20))
    cs = []
    progs = {1: [[], [['rx', [0], [0.7]]]],
             2: [[], [['cnot', [1, 0], []]], [['Hadamard', [0], []], ['rxx', [0, 1], [0.7]]], [['XZLayer', [0, 1], A.gen(4)]]],
             3: [[], [['toffoli', [0, 2, 1], []]], [['ring_of_cnot', [0, 1, 2], []]], [['rx', [1], [0.7]]], [['SWAP', [0, 1], []]]]}
    for N in (1, 2, 3):
        for ops in progs[N]:
            for m in range(1, 7):
                if m != N:
                    cs += [{'t': 'size', 'N': N, 'ops': ops, 'how': h, 'm': m} for h in ('mps', 'tn', 'batch')]
            for m in sorted({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 64} - {2 ** N}):
                cs.append({'t': 'size', 'N': N, 'ops': ops, 'how': 'exp', 'm': m})
                if m != 1:
                    cs.append({'t': 'size', 'N': N, 'ops': ops, 'how': 'expcol', 'm': m})
            for m in ([2 ** N, 1], [1, 2 ** N], [2 ** N + 1, 2 ** N], [2 ** (N + 1)] * 2, [2 ** N + 1] * 2, [2 ** N - 1] * 2):
                cs.append({'t': 'size', 'N': N, 'ops': ops, 'how': 'expM', 'm': m})
    for N in (4, 5, 6):
        ops = [['rx', [1], [0.7]], ['cnot', [N - 1, 0], []]]
        for m in sorted({N - 2, N - 1, N + 1, N + 2}):
            cs += [{'t': 'size', 'N': N, 'ops': ops, 'how': h, 'm': m} for h in ('mps', 'tn', 'batch')]
            cs += [{'t': 'size', 'N': N, 'ops': ops, 'how': h, 'm': 2 ** m + e} for h in ('exp', 'expcol') for e in (-1, 0, 1)]
    for N in (1, 2, 3, 4, 5, 6):
        d = 2 ** N
        cs += [{'t': 'size', 'N': N, 'ops': [], 'how': 'sv', 'm': m} for m in
               ([d], [d, 1], [1, d + 1], [1, d - 1], [1, 2 * d], [1, d // 2], [2, d], [2, d // 2], [1, 1, d], [d, d])]
        cs += [{'t': 'size', 'N': N, 'ops': [], 'how': 'rho', 'm': m} for m in
               ([d * d], [d, d + 1], [d + 1, d], [d, 1], [1, d], [1, d * d], [2 * d, 2 * d], [d // 2, d // 2], [d, d, 1], [2 * d, d // 2])]
    eng.map(unit, chunks(cs, 20))
    cs = []
    for bad in (['multi_control_cnot', [2, 0], []], ['multi_control_cnot', [0, 2, 1], []], ['ring_of_cnot2', [0, 1, 2], []],
                ['BasicEntangleLayer', [1, 2], A.gen(6)]):
        for others in itertools.product([['Hadamard', [0], []], ['rx', [1], [0.7]], ['cnot', [1, 2], []], ['toffoli', [0, 1, 2], []]], repeat=2):
            for pos in range(3):
                ops = list(others)
                ops.insert(pos, bad)
                cs.append({'t': 'notn', 'N': 3, 'ops': ops})
        cs.append({'t': 'notn', 'N': 3, 'ops': [bad]})
    eng.map(unit, chunks(cs, 10))
