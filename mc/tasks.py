"""Self-contained calls of the public API ("tasks"): each builds its own objects, makes one request and returns the numbers.

Used by the checks about independence (C28: any order of calls and any ambient setting, C29: any interleaving of threads).
A task is a JSON list; run(task) -> list of numpy arrays.
"""
import contextlib
import io
import json
import numpy as np
import torch

from . import alpha as A
from .impl import lib, row, tens, T, npy, to_mps, from_mps, run_op, engines_for
from . import impl
from .checks import gradlib

SHIFT = [0]             # ['w', k, task]: the same task with other states, matrices and observables


def make_state(N, s):
    if SHIFT[0] and s[0] in 'gp':
        s = [s[0], (s[1] if len(s) > 1 else 0) + SHIFT[0]]
    return impl.make_state(N, s)


def observable(N, name):
    m = gradlib.observable(N, name)
    if SHIFT[0]:
        m = m + np.diag(np.cos((1 + SHIFT[0]) * np.arange(2 ** N)))
    return m


def _rho(N):
    v, w = make_state(N, ['g', 2]), make_state(N, ['p', 1])
    r = 0.6 * np.outer(v, v.conj()) + 0.4 * np.outer(w, w.conj())
    return r / np.trace(r).real


def _col(N, s):
    return T(make_state(N, s)).view(-1, 1)


def circuit_route(cir, ops, N, route):
    """One evaluation of an existing circuit."""
    qo, ql, qc, qt, qm = lib()
    v = make_state(N, ['g', 1])
    if route == 'U':
        return [cir.U()]
    if route == 'rev':
        return [cir.U(left_to_right=False)]
    if route in ('exp', 'expD'):
        return [cir.cir_expectation(row(v), T(observable(N, 'H')), TN=route == 'exp')]
    if route == 'mps':
        return [from_mps(cir.TN_evolution(to_mps(v, N)))]
    if route == 'tn':
        return [cir.TN_contract_evolution(tens(v, N))]
    if route == 'batch':
        return [cir.TN_contract_evolution(torch.stack([tens(v, N), tens(make_state(N, ['p']), N)]), batch_mod=True)]
    if route == 'ps':
        return [qc.parameter_shift(cir, row(v), T(observable(N, 'H'))).cal_params_grad()]
    if route == 'saved':
        z = qo.PauliZ(N, 0)
        ps = qc.parameter_shift(cir, row(v), z.U_expand())
        d, sv = ps.save_mid_MPS(z)
        return [ps.cal_params_grad2(d)]
    if route == 'count':
        return [torch.tensor([float(cir.cir_num_params), float(bool(cir.TN_check()))]), cir.state_init()]
    raise KeyError(route)


def _grad(t):
    op, N, eng = t[1:4]
    p = torch.tensor([float(x) for x in op[2]]) if A.arity(op[0])[1] is None or len(op[2]) > 1 else torch.tensor(float(op[2][0]))
    p.requires_grad_(True)
    with torch.enable_grad():
        o = A.build(op, N, params=p)
        out = o.U_expand() @ _col(N, ['g']) if eng == 'dense' else o.TN_contract(tens(make_state(N, ['g']), N))
        w = T(make_state(N, ['g', 4])).reshape(out.shape)
        (w.conj() * out).sum().real.backward()
    return [out, p.grad]


def _run(t):
    qo, ql, qc, qt, qm = lib()
    k = t[0]
    if k == 'w':
        SHIFT[0] = t[1]
        try:
            return _run(t[2])
        finally:
            SHIFT[0] = 0
    if k == 'op':
        op, N, eng = t[1:4]
        return [run_op(A.build(op, N), N, make_state(N, ['g']), eng)]
    if k == 'dag':
        op, N, eng = t[1:4]
        return [run_op(A.build(op, N).operation_dagger(), N, make_state(N, ['g']), eng)]
    if k == 'upd':
        op, N, eng, off = t[1:5]
        o = A.build(op, N)
        v = make_state(N, ['g'])
        a = run_op(o, N, v, eng)
        o.params_update(A.mk_params(op[0], A.gen(len(op[2]), off)))
        return [a, run_op(o, N, v, eng), o.params]
    if k == 'cir':
        ops, N, route = t[1:4]
        return circuit_route(A.circuit(ops, N), ops, N, route)
    if k == 'grad':
        return _grad(t)
    if k == 'list':
        from .checks import c19
        N, calls = t[1:3]
        cir = c19.qg().Circuit(N)
        for c in calls:
            c19.do(cir, c)
        return [cir.U(), cir.gate_sequence_product(left_to_right=False), torch.tensor([float(len(cir.gate_list))])]
    if k == 'listmeas':
        from .checks import c19
        N = t[1]
        cir = c19.qg().Circuit(N)
        with contextlib.redirect_stdout(io.StringIO()) if len(t) < 3 else contextlib.nullcontext():
            return [cir.measure(T(_rho(N)), N), cir.expecval_ZI(T(_rho(N)), N, N - 1)]
    if k == 'layer':
        from .checks import c20
        return [c20.call(t[1])]
    if k == 'conv':
        from .checks import c18
        m = c18.layer(t[1])
        return [m(torch.tensor(c18.image(t[1])))]
    if k == 'convgrad':
        from .checks import c18
        with torch.enable_grad():
            m = c18.layer(t[1])
            m(torch.tensor(c18.image(t[1]))).sum().backward()
        return [m.weight.grad]
    N = t[1]
    v = make_state(N, ['g'])
    if k == 'meas':
        st = {'col': _col(N, ['g']), 'rho': T(_rho(N))}[t[2]]
        return [qm.measure(N, st, *t[3:])]
    if k == 'expval':
        st, isrho = (T(_rho(N)), True) if t[2] == 'rho' else (_col(N, ['g']), False)
        return [qm.expval(st, T(observable(N, 'H')), rho=isrho)]
    if k in ('partial_trace', 'partial_trace_old'):
        return [getattr(qm, k)(T(_rho(N)), N, list(t[2]))]
    if k == 'ptrace':
        return [qm.ptrace(T(_rho(N)), t[2], N - t[2])]
    if k == 'inner':
        return [qt.MPS_inner_product(to_mps(v, N), to_mps(make_state(N, ['p', 1]), N))]
    if k == 'mexp':
        obs = [T(np.array([[0.3 + i, 0.2 - 0.5j], [0.2 + 0.5j, -1.1]])) for i in range(len(t[2]))]
        return [qt.MPS_expec(to_mps(v, N), list(t[2]), obs)]
    if k == 'mps':
        return [from_mps(to_mps(v, N)), qt.MatrixProductState(row(v), N)]
    if k == 'rho':
        return [qt.MPS2Rho(qt.Rho2MPS(T(_rho(N)), N)), qt.MatrixProductDensityOperator(T(_rho(N)), N)]
    if k == 'pauli':
        from deepquantum.embeddings import qembedding as qe
        o = qe.PauliEncoding(N, torch.tensor(A.gen(len(t[2]))), list(t[2]), t[3])
        return [run_op(o, N, v, e) for e in ('dense', 'tn')]
    if k == 'amp':
        from deepquantum.embeddings import qembedding as qe
        return [qe.AmplitudeEncoding(N, torch.tensor([0.3 + 0.1j, -0.7 + SHIFT[0], 1.2j][:2 ** N])).encoded_state()]
    if k == 'gram':
        from deepquantum.embeddings import qembedding as qe
        return [qe.gram_encoding(torch.tensor([[0.3, 0.7, 0.1 + SHIFT[0], 0.5]]))]
    if k == 'prep':
        from deepquantum.embeddings import qstate as qs
        a = [0.6, 0.8j] if not SHIFT[0] else [0.8, -0.6]
        return [qs.PrepareState(a), qs.PrepareRho(a)]
    if k == 'pred':
        h = T(observable(N, 'H'))
        u = A.build(['YZYLayer', list(range(N)), A.gen(3 * N)], N).U_expand()
        return [torch.tensor([float(bool(qm.IsHermitian(h))), float(bool(qm.IsUnitary(u))), float(bool(qm.IsUnitary(h))),
                              float(bool(qm.IsHermitian(u))), float(bool(qm.IsNormalized(2 * _col(N, ['g']).reshape(-1)))),
                              float(bool(qm.IsNormalized(_col(N, ['g']).reshape(-1))))])]
    if k == 'kron':
        return [qm.multi_kron([T(np.array([[1 + i, 0.5j], [0.2 + SHIFT[0], -1.0 * i]])) for i in range(N)]), qm.dag(T(_rho(N)) * 1j)]
    raise KeyError(k)


def build_only(t):
    """The part of a convolution call that draws random numbers."""
    from deepquantum.nn.modules.quanv import QuanConv2D
    return QuanConv2D(4, t[1]['stride'], 2)


def out(xs):
    return [npy(x) if isinstance(x, torch.Tensor) else np.asarray(x, dtype=np.complex128) for x in xs]


def run(t):
    return out(_run(t))


def differs(a, b, tol):
    """None, or what is different between two results."""
    if len(a) != len(b):
        return 'number of results'
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return 'result %d has shape %s instead of %s' % (i, x.shape, y.shape)
        d = np.abs(x - y)
        if d.size and not float(d.max()) <= tol * (1 + np.abs(y).max()):
            return 'result %d differs by %.3g' % (i, float(np.nanmax(d)) if not np.all(np.isnan(d)) else float('nan'))
    return None


def mk(kind, w, off=0):
    return [kind, w, A.gen(A.nparams(kind, w), off)]


SHORT3 = [mk('u3', [1]), mk('cnot', [2, 0]), mk('XZLayer', [1, 0], 2), mk('rzz', [0, 2], 7)]
SHORT2 = [mk('rx', [0]), mk('cphase', [1, 0], 3), mk('ry', [1], 5), mk('cnot', [0, 1])]
DENSE2 = [mk('ry', [1]), mk('multi_control_cnot', [1, 0]), mk('BasicEntangleLayer', [0, 1], 3)]


def wires(kind, i=0):
    lo, hi = A.arity(kind)
    if hi == 1:
        return [[1], [2]][i]
    if lo == 3:
        return [[2, 0, 1], [0, 1, 2]][i]
    if hi is None and kind not in ('ring_of_cnot2', 'BasicEntangleLayer'):
        return [[2, 0, 1], [1, 2]][i]
    return [[2, 0], [0, 1]][i]


def library(engines=None, light=False):
    """Every kind of call.  light: smaller requests, for the interleaving search."""
    ts = []
    for kind in A.ALL_KINDS:
        op = mk(kind, wires(kind))
        for e in engines_for(op):
            if engines is None or e in engines:
                ts.append(['op', op, 3, e])
        if kind not in ('BasicEntangleLayer', 'ring_of_cnot2'):
            ts.append(['dag', op, 3, 'dense'])
        if op[2]:
            ts.append(['upd', op, 3, 'dense', 9])
            ts.append(['grad', op, 3, 'dense'])
    for r in ('U', 'rev', 'exp', 'expD', 'mps', 'tn', 'batch', 'ps', 'saved', 'count'):
        ts.append(['cir', SHORT2 if light else SHORT3, 2 if light else 3, r])
        if r not in ('mps', 'tn', 'batch', 'exp', 'saved'):
            ts.append(['cir', DENSE2, 2, r])
    ts += [['list', 2, [['rx', [0], 0.7], ['cnot', [1, 0], None], ['rzz', [0, 1], 0.9], ['Hadamard', [1], None]]],
           ['list', 3, [['y_gate', [2], None], ['multi_control_cnot', [2, 0, 1], None], ['ryy', [2, 0], -1.3]]],
           ['listmeas', 2]]
    for f, n in (('XYZLayer', 9), ('YZYLayer', 9), ('XZXLayer', 9), ('XZLayer', 6), ('RxxLayer', 2), ('RyyLayer', 2), ('RzzLayer', 2)):
        ts.append(['layer', {'f': f, 'N': 3, 'p': A.gen(n, 2)}])
    for f in ('ring_of_cnot', 'ring_of_cnot2', 'ring_of_cz', 'nearest_neighbor_cnot', 'nearest_neighbor_cz', 'all2all_cnot'):
        ts += [['layer', {'f': f, 'N': 3, 'down': d}] for d in (True, False)]
    ts.append(['layer', {'f': 'HLayer', 'N': 3}])
    for f, n in (('basic_entangle_layer', 6), ('basic_entangle_layer2', 12), ('strong_entangle_layer', 12)):
        ts += [['layer', {'f': f, 'N': 2, 'inner': s, 'p': A.gen(n, 1)}] for s in (('YZY', 'XYZ') if not light else ('XZX',))]
    ts += [['conv', {'stride': 1, 'shape': [1, 1, 2, 2]}], ['convgrad', {'stride': 1, 'shape': [1, 1, 2, 2]}]]
    if not light:
        ts.append(['conv', {'stride': 2, 'shape': [2, 1, 4, 3], 'wo': 2}])
    for f in ('col', 'rho'):
        ts += [['meas', 2, f], ['meas', 3, f, [2, 0]], ['meas', 3, f, 1], ['expval', 2, f]]
    ts += [['partial_trace', 3, [0, 2]], ['partial_trace', 2, [1]], ['partial_trace_old', 3, [1]], ['ptrace', 3, 1],
           ['inner', 3], ['mexp', 3, [2, 0]], ['mps', 3], ['rho', 2],
           *[['pauli', 3, [2, 0], a] for a in 'XYZ'], ['amp', 2], ['gram', 2], ['prep', 2], ['pred', 2], ['kron', 3]]
    return ts


def walks():
    """Families of calls that differ in one ingredient only (wires, register, angles, state, order, ...), each a list of calls:
    an answer remembered under too small a key shows when a family is run forwards and backwards."""
    fam = []
    for kind in A.ALL_KINDS:
        ts = []
        lo, hi = A.arity(kind)
        for N in (1, 2, 3, 4):
            for i, w in enumerate(A.wire_choices(kind, N, 3)):
                if N == 4 and len(w) > 2 and i % 3:
                    continue
                n = A.nparams(kind, w)
                for p in [A.gen(n)] + ([A.gen(n, 6), [x + 2 * A.PI for x in A.gen(n)], [-x for x in A.gen(n)],
                                        [x + 0.01 for x in A.gen(n)]] if n and N < 4 and (N < 3 or w[0] != 1) else []):
                    op = [kind, w, [float(x) for x in p]]
                    es = engines_for(op)
                    ts += [['op', op, N, e] for e in (es if p[:1] == A.gen(n)[:1] else es[:1])]
                if kind not in ('BasicEntangleLayer', 'ring_of_cnot2') and N < 4:
                    ts.append(['dag', [kind, w, A.gen(n)], N, 'dense'])
                if n and N in (2, 3):
                    ts += [['upd', [kind, w, A.gen(n)], N, 'dense', 9], ['grad', [kind, w, A.gen(n, 4)], N, 'dense']]
        if lo <= 2:
            w = wires(kind)
            ts += [['w', k, ['op', mk(kind, w), 3, e]] for k in (1, 2) for e in engines_for(mk(kind, w))]
        if kind == 'BasicEntangleLayer':
            ts += [['op', [kind, [2, 0], A.gen(6 * r), {'repeat': r}], 3, 'dense'] for r in (1, 2, 3)]
        fam.append(ts)
    ts = []
    for N in (1, 2, 3, 4):          # the same wires and angles under every kind
        for kind in A.ALL_KINDS:
            ws = A.wire_choices(kind, N, 3)
            for w in {json.dumps(w): w for w in (ws[:1] + ws[-1:] + ws[len(ws) // 2:][:1])}.values():
                for off in (0, 3):
                    op = mk(kind, w, off)
                    ts += [['op', op, N, e] for e in engines_for(op)]
                    if kind not in ('BasicEntangleLayer', 'ring_of_cnot2'):
                        ts.append(['dag', op, N, 'dense'])
    fam.append(ts)
    progs = [(SHORT2[:k], 2) for k in (1, 2, 3, 4)] + [(SHORT2[::-1], 2), ([mk('rx', [1]), mk('cphase', [0, 1], 3)], 2),
             ([mk('rx', [0], 4), mk('cphase', [1, 0], 1)], 2), ([mk('rx', [0])], 3), ([mk('XZLayer', [1, 0], 2), mk('cnot', [0, 1])], 2),
             ([mk('XZLayer', [0, 1], 2), mk('cnot', [1, 0])], 2), (SHORT3, 3), (SHORT3[1:], 3)]
    dense = [(DENSE2[:k], 2) for k in (1, 2, 3)] + [(DENSE2[::-1], 2), ([mk('multi_control_cnot', [0, 1])], 2), ([mk('BasicEntangleLayer', [1, 0], 3)], 2)]
    for routes in (('U', 'rev', 'count'), ('exp', 'expD'), ('mps', 'tn', 'batch'), ('ps',), ('saved', 'ps')):
        ts = []
        for r in routes:
            for ops, N in progs + (dense if r not in ('mps', 'tn', 'batch', 'exp', 'saved') else []):
                t = ['cir', ops, N, r]
                ts += [t, ['w', 1, t], ['w', 2, t]] if r not in ('U', 'rev', 'count') else [t]
        fam.append(ts)
    from .checks import c19
    for N in (1, 2, 3):
        al = c19.calls(N)
        fam.append([['list', N, [c]] for c in al] + [['list', N, [c, al[(5 * i + 1) % len(al)]]] for i, c in enumerate(al)]
                   + [['list', N, [c[:2] + [c[2] + 2 * A.PI]]] for c in al if c[2] is not None] + [['listmeas', N], ['w', 1, ['listmeas', N]]])
    ts = []
    for f, k in (('XYZLayer', 3), ('YZYLayer', 3), ('XZXLayer', 3), ('XZLayer', 2), ('RxxLayer', None), ('RyyLayer', None), ('RzzLayer', None)):
        for N in (2, 3, 4):
            for off in (0, 2):
                ts.append(['layer', {'f': f, 'N': N, 'p': A.gen(N - 1 if k is None else k * N, off)}])
    for f in ('ring_of_cnot', 'ring_of_cnot2', 'ring_of_cz', 'nearest_neighbor_cnot', 'nearest_neighbor_cz', 'all2all_cnot'):
        ts += [['layer', {'f': f, 'N': N, 'down': d}] for d in (True, False) for N in (2, 3, 4)]
    ts += [['layer', {'f': 'HLayer', 'N': N}] for N in (1, 2, 3, 4)]
    for f, n in (('basic_entangle_layer', 3), ('basic_entangle_layer2', 6), ('strong_entangle_layer', 6)):
        ts += [['layer', {'f': f, 'N': N, 'inner': s, 'p': A.gen(n * N, o)}] for N in (2, 3) for s in ('XYZ', 'YZY', 'XZX') for o in (0, 1)]
    fam.append(ts)
    shapes = [[1, 1, 2, 2], [1, 1, 3, 2], [2, 1, 2, 2], [1, 2, 2, 3]]
    fam.append([[k, {'stride': s, 'shape': sh, 'wo': w, 'xo': x}] for k in ('conv', 'convgrad') for sh in shapes for s in (1, 2)
                for w, x in ((0, 0), (2, 0), (0, 1.5))])
    ts = []
    for N in (1, 2, 3, 4):
        ith = [None] + list(range(N)) + [list(w) for w in A.tuples(N, 2)] + [list(range(N))[::-1]]
        for f in ('col', 'rho'):
            b = [['meas', N, f] + ([] if i is None else [i]) for i in ith] + [['expval', N, f]]
            ts += b + [['w', 1, t] for t in b]
    fam.append(ts)
    ts = []
    for N in (1, 2, 3, 4):
        for w in A.subsets(N, 0, N):
            if N < 4 or len(w) < 3:
                b = [['partial_trace', N, w]] + ([['partial_trace_old', N, w]] if w and w == sorted(w) and N < 4 else [])
                ts += b + ([['w', 1, t] for t in b] if N < 4 else [])
        ts += [['ptrace', N, k] for k in range(1, N)] + [['w', 1, ['ptrace', N, k]] for k in range(1, N)]
    fam.append(ts)
    ts = []
    for N in (1, 2, 3, 4, 5):
        for k in (0, 1, 2):
            b = [['mps', N], ['inner', N]] + ([['rho', N], ['pred', N]] if N < 4 else []) + [['kron', N]]
            b += [['mexp', N, w] for w in A.subsets(N, 1, 2)] if N < 5 else []
            b += [['pauli', N, w, ax] for ax in 'XYZ' for w in A.subsets(N, 1, 2)] if N < 4 else []
            b += [['amp', N], ['prep', N], ['gram', N]] if 1 < N < 4 else []
            ts += [['w', k, t] if k else t for t in b]
    fam.append(ts)
    return fam
