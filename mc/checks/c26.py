"""C26: impossible measurement, tracing, conversion and overlap requests must be refused by an error."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import run_op, expect, lib, need, make_state, row, tens, T, npy, to_mps, from_mps
from .gradlib import observable, f32vec
from . import c13

LEVEL = 'exploration'
RULE = ('one case = public function x impossible request (wire list / size / trace / register mismatch); the oracle is that an error '
        'is raised; every list of the same shape that is possible is run too and must be accepted; distinct = distinct cases')
BOUNDS = {
    'quick': 'partial traces, measurement (pure, mixed), local expectations: every list of length 1..3 over -2..N+1 (N=1..3; length <=2 for '
             'N=4,5), each on three states; conversions, traces, expectations, gradients: every size 2^m and off by one for m<=5 against every N<=4; '
             'basis states and rectangular matrices too; traces over {0,0.5,0.9,1.1,2,-1,i,1+i/2}; inner products of every pair of registers <=4; observable lists of every wrong length <=3; every operation '
             'on every wire tuple built for another register (1..3 against 1..4), dense and contraction; every gate without register or '
             'without wires on 4 engines; repeat counts -2..2; kernels 2,3 against 1..8 qubits',
    'thorough': 'lists of length 4 for N<=4, length 3 for N=5',
}


def rho_of(c):
    N = c['N']
    if c['s'] == 'mixed':
        return c13.rho_of({'N': N, 'mix': [[0.7, ['g']], [0.3, ['g', 2]]]})
    v = f32vec(make_state(N, c['s']))
    return np.outer(v, v.conj())


def lists(N, n):
    return [list(x) for k in range(1, n + 1) for x in itertools.product(range(-2, N + 2), repeat=k)]


def valid(f, N, w):
    return all(0 <= q < N for q in w) and (f in ('measure', 'measure_rho', 'measure_int') or len(set(w)) == len(w))


def bad_size(d, k, b=None):
    """A state of d amplitudes; b: a basis state."""
    if b is not None:
        return np.eye(d)[b % d] + 0j
    v = np.cos(1.1 * np.arange(d) + k) + 1j * np.sin(0.7 * np.arange(d) ** 2)
    return v / np.linalg.norm(v)


def bad_rho(d, b=None, cols=None):
    """A rank-1 density matrix of d rows; cols: padded or cut to that many columns."""
    v = bad_size(d, 1, b)
    if cols and cols != d:
        r = np.zeros((d, cols), dtype=complex)
        m = min(d, cols)
        v = bad_size(m, 1, b)
        r[:m, :m] = np.outer(v, v.conj())
        return r
    return np.outer(v, v.conj())


def request(c):
    qo, ql, qc, qt, qm = lib()
    N, f = c['N'], c['f']
    if f == 'measure':
        return qm.measure(N, T(make_state(N, ['g'] if c['s'] == 'mixed' else c['s'])), list(c['w']))
    if f == 'measure_int':
        return qm.measure(N, T(make_state(N, ['g'] if c['s'] == 'mixed' else c['s'])), c['w'][0])
    if f == 'measure_rho':
        return qm.measure(N, T(rho_of(c)), list(c['w']))
    if f in ('partial_trace', 'partial_trace_old'):
        return getattr(qm, f)(T(rho_of(c)), N, list(c['w']))
    if f == 'mps_expec':
        return qt.MPS_expec(to_mps(make_state(N, ['g'] if c['s'] == 'mixed' else c['s']), N), list(c['w']),
                            [T(ref.PAULI['XYZ'[i % 3]]) for i in range(c.get('n', len(c['w'])))])
    d = c.get('d')
    if f == 'size_sv2mps':
        return qt.StateVec2MPS(row(bad_size(d, 0, c.get('b'))), N)
    if f == 'size_view':
        return qt.MatrixProductState(row(bad_size(d, 0, c.get('b'))), N)
    if f == 'col_sv2mps':
        return qt.StateVec2MPS(T(bad_size(d, 0, c.get('b'))).view(-1, 1), N)
    if f == 'size_measure':
        return qm.measure(N, T(bad_size(d, 0, c.get('b'))))
    if f == 'size_measure_rho':
        return qm.measure(N, T(bad_rho(d, c.get('b'), c.get('cols'))))
    if f in ('size_partial_trace', 'size_partial_trace_old'):
        return getattr(qm, f[5:])(T(bad_rho(d, c.get('b'), c.get('cols'))), N, list(c['w']))
    if f == 'size_ptrace':
        return qm.ptrace(T(bad_rho(d, c.get('b'), c.get('cols'))), c['a'], N - c['a'])
    if f == 'size_rho2mps':
        return qt.Rho2MPS(T(bad_rho(d, c.get('b'), c.get('cols'))), N)
    if f == 'size_mpdo':
        return qt.MatrixProductDensityOperator(T(bad_rho(d, c.get('b'), c.get('cols'))), N)
    if f == 'flat_rho2mps':
        return qt.Rho2MPS(T(bad_rho(2 ** N)).view(-1), N)
    if f == 'flat_mpdo':
        return qt.MatrixProductDensityOperator(T(bad_rho(2 ** N)).view(-1), N)
    if f == 'size_expval':
        return qm.expval(T(bad_size(d, 0, c.get('b'))), T(observable(N, 'H')))
    if f == 'size_expval_rho':
        return qm.expval(T(bad_rho(d, c.get('b'), c.get('cols'))), T(observable(N, 'H')), rho=True)
    cir = lambda: A.circuit([['rx', [0], [0.7]]] + ([['multi_control_cnot', [0, 1], []]] if c.get('dense') else []), N)
    if f == 'size_cir_state':
        return cir().cir_expectation(row(bad_size(d, 0, c.get('b'))), T(observable(N, 'H')), TN=c['TN'])
    if f == 'size_cir_M':
        return cir().cir_expectation(row(make_state(N, ['g'])), T(bad_rho(d, c.get('b'), c.get('cols'))), TN=c['TN'])
    if f == 'size_grad_state':
        return qc.parameter_shift(cir(), row(bad_size(d, 0, c.get('b'))), T(observable(N, 'H'))).cal_params_grad()
    if f == 'size_grad_M':
        return qc.parameter_shift(cir(), row(make_state(N, ['g'])), T(bad_rho(d, c.get('b'), c.get('cols')))).cal_params_grad()
    if f == 'inner':
        return qt.MPS_inner_product(to_mps(make_state(N, ['g']), N), to_mps(make_state(c['N2'], ['g', 1]), c['N2']))
    if f == 'other_register':
        cir2 = qc.Circuit(N)
        cir2.add(A.build(c['op'], c['N2']))
        if c['path'] == 'dense':
            cir2.add(qo.rx(0.3, N, 0))
            return cir2.U()
        if c['path'] == 'apply':
            return cir2.cir_expectation(row(make_state(N, ['g'])), T(observable(N, 'H')), TN=False)
        if c['path'] == 'tn':
            return cir2.TN_contract_evolution(tens(make_state(N, ['g']), N))
        return cir2.TN_contract_evolution(torch.stack([tens(make_state(N, ['g']), N)] * 3), batch_mod=True)
    if f == 'unset':
        k, n = c['kind'], A.nparams(c['kind'], list(range(max(A.arity(c['kind'])[0], 1))))
        args = ([A.gen(1)[0]] if n == 1 else [A.gen(n)]) if n else []
        w = list(range(A.arity(k)[0]))
        kw = {} if c['given'] == 'none' else {'N': N} if c['given'] == 'N' else {'wires': w[0] if len(w) == 1 else w}
        return T(run_op(getattr(qo, k)(*args, **kw), N, make_state(N, ['g']), c['path']))
    if f == 'repeat':
        w = c['w']
        return ql.BasicEntangleLayer(N, w, A.gen(3 * len(w) * max(c['n'], 0)), repeat=c['n']).U_expand()
    if f == 'kernel':
        from deepquantum.nn.modules.quanv import QuanConv2D
        return QuanConv2D(N, 1, c['n'])(torch.full((1, 1, 3, 3), 0.3))
    x = {'i': 1j, '1+i/2': 1 + 0.5j}.get(c.get('x'), c.get('x'))
    if f in ('tr_partial_trace', 'tr_partial_trace_old'):
        return getattr(qm, f[3:])(T(rho_of(c) * x), N, list(c['w']))
    if f == 'tr_expval':
        return qm.expval(T(rho_of(c) * x), T(observable(N, 'H')), rho=True)
    if f == 'tr_measure':
        return qm.measure(N, T(rho_of(c) * x))
    raise KeyError(f)


def check_case(c):
    if c.get('ok'):
        r = request(c)
        need(isinstance(r, (torch.Tensor, list)), '%s refuses nothing but returns %r' % (c['f'], r))
        return
    try:
        r = request(c)
    except Exception:
        return
    need(False, '%s accepts %s' % (c['f'], {k: v for k, v in c.items() if k != 'f'}))


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def cases(q):
    out = []
    for N in (1, 2, 3, 4, 5):
        n = (3 if N < 4 else 2) if q else (4 if N < 5 else 3)
        for f in ('partial_trace', 'partial_trace_old', 'measure', 'measure_rho', 'measure_int', 'mps_expec'):
            for w in lists(N, 1 if f == 'measure_int' else n):
                ok = valid(f, N, w)
                if f == 'mps_expec' and not ok and all(0 <= x < N for x in w):
                    continue                 # several observables on one qubit: neither refused nor claimed
                for s in (['g'], ['b', 0], 'mixed') if N < 4 else ('mixed',):
                    out.append({'f': f, 'N': N, 'w': w, 's': s, 'ok': ok})
        for k in range(0, 4):
            for w in A.subsets(N, 1, 2):
                if k != len(w):
                    out.append({'f': 'mps_expec', 'N': N, 'w': w, 'n': k, 's': ['g'], 'ok': False})
    for N in (1, 2, 3, 4):
        for d in sorted({2 ** m + e for m in range(0, 6) for e in (-1, 0, 1)} - {0}):
            ok = d == 2 ** N
            for f in ('size_sv2mps', 'size_view', 'size_measure', 'size_measure_rho', 'size_rho2mps', 'size_mpdo', 'size_expval', 'size_expval_rho'):
                if d == 1 and f in ('size_measure', 'size_measure_rho'):
                    continue                 # a single number squeezes to no vector at all: not claimed
                out.append({'f': f, 'N': N, 'd': d, 'ok': ok})
            if d > 1:
                out.append({'f': 'col_sv2mps', 'N': N, 'd': d, 'ok': False})
            for a in range(0, N + 1):
                out.append({'f': 'size_ptrace', 'N': N, 'd': d, 'a': a, 'ok': ok})
            for f in ('size_partial_trace', 'size_partial_trace_old'):
                for w in [[i] for i in range(N)] + [list(range(N))]:
                    out.append({'f': f, 'N': N, 'd': d, 'w': w, 'ok': ok})
            for dense in (0, 1) if N > 1 else (0,):
                for TN in (True, False):
                    for f in ('size_cir_state', 'size_cir_M'):
                        out.append({'f': f, 'N': N, 'd': d, 'TN': TN, 'dense': dense, 'ok': ok})
                for f in ('size_grad_state', 'size_grad_M'):
                    out.append({'f': f, 'N': N, 'd': d, 'dense': dense, 'ok': ok})
        # states and matrices that fit no better but look harmless: basis states, zero rows or columns added or cut off
        for d in [2 ** m for m in range(1, 6)]:
            for b in (0, -1):
                c = {'N': N, 'd': d, 'b': b, 'ok': d == 2 ** N}
                out += [dict(c, f=f) for f in ('size_sv2mps', 'size_view', 'size_measure', 'size_measure_rho', 'size_rho2mps',
                                               'size_mpdo', 'size_expval', 'size_expval_rho')]
                out += [dict(c, f='size_ptrace', a=a) for a in range(N + 1)]
                out += [dict(c, f=f, w=w) for f in ('size_partial_trace', 'size_partial_trace_old')
                        for w in [[]] + [[i] for i in range(N)] + [list(range(N))]]
                out += [dict(c, f=f, TN=TN, dense=0) for f in ('size_cir_state', 'size_cir_M') for TN in (True, False)]
            for cols in sorted({2 ** m for m in range(0, 6)} | {d - 1, d + 1}):
                if cols == d:
                    continue
                for b in (None, 0):
                    c = {'N': N, 'd': d, 'cols': cols, 'ok': False}
                    if b is not None:
                        c['b'] = b
                    # a single row or column is a vector to measure: not a density matrix
                    out += [dict(c, f=f) for f in ('size_measure_rho', 'size_rho2mps', 'size_mpdo', 'size_expval_rho')
                            if f != 'size_measure_rho' or 1 not in (d, cols)]
                    out += [dict(c, f='size_ptrace', a=a) for a in range(N + 1)]
                    out += [dict(c, f=f, w=w) for f in ('size_partial_trace', 'size_partial_trace_old')
                            for w in [[]] + [[i] for i in range(N)] + [list(range(N))]]
        out += [{'f': 'flat_rho2mps', 'N': N, 'ok': False}, {'f': 'flat_mpdo', 'N': N, 'ok': False}]
        for m in (1, 2, 3, 4):
            out.append({'f': 'inner', 'N': N, 'N2': m, 'ok': m == N})
        for x in (0, 0.5, 0.9, 1.1, 2, -1, 'i', '1+i/2', 1):
            for s in (['g'], ['b', 0], 'mixed'):
                for f in ('tr_partial_trace', 'tr_partial_trace_old'):
                    for w in [[]] + [[i] for i in range(N)] + [list(range(N))]:
                        out.append({'f': f, 'N': N, 'w': w, 's': s, 'x': x, 'ok': x == 1})
                if not (N == 1 and s == ['b', 0] and 0):
                    out.append({'f': 'tr_expval', 'N': N, 's': s, 'x': x, 'ok': x == 1})
                    out.append({'f': 'tr_measure', 'N': N, 's': s, 'x': x, 'ok': x == 1})
    for N2 in (1, 2, 3):
        for op in A.ops(N2):
            for N in (1, 2, 3, 4):
                for p in ('dense', 'apply') + (('tn', 'batch') if A.support_tn(op) else ()):
                    out.append({'f': 'other_register', 'N': N, 'N2': N2, 'op': op, 'path': p, 'ok': N == N2})
    for kind in A.ALL_KINDS:
        if kind in A.VARIABLE:
            continue
        for given in ('none', 'N', 'wires'):
            for p in ('dense', 'tn', 'batch', 'mps'):
                out.append({'f': 'unset', 'kind': kind, 'N': 3, 'given': given, 'path': p, 'ok': False})
    for N in (2, 3):
        for w in A.subsets(N, 2, N):
            out += [{'f': 'repeat', 'N': N, 'w': w, 'n': n, 'ok': n > 0} for n in (-2, -1, 0, 1, 2)]
    out += [{'f': 'kernel', 'N': N, 'n': n, 'ok': N == n * n} for N in (1, 2, 3, 4, 5, 6, 8) for n in (2, 3)]
    return out


def explore(eng):
    cs = cases(eng.quick)
    eng.map(unit, [cs[i:i + 40] for i in range(0, len(cs), 40)])
