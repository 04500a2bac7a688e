"""C23: arguments are fingerprinted around every public call, alone and in every short sequence sharing the same arguments."""
import contextlib
import io
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, to_mps, from_mps, T, npy
from .gradlib import observable, f32vec

LEVEL = 'exploration'
RULE = ('one case = a sequence of public calls sharing one set of caller-owned arguments; every argument (tensor values, '
        'shape, gradient flag and the memory it is a view of; list identity, length and entries) is compared bit for bit '
        'after every call, and every call repeated later must give the same result; distinct = distinct sequences')
BOUNDS = {
    'quick': 'every kind x every wire tuple (N<=3) x every parameter container x all 9 calls on it in sequence; all ordered '
             'pairs of 50 library calls on shared states/matrices (N=2,3); every circuit of 2 operations of a 16-letter alphabet under every '
             'circuit call incl. gradients; views of larger tensors as arguments; all builders and encodings',
    'thorough': 'all ordered triples of library calls, circuits of all pairs of operations on 3 qubits (<=2 wires), N=4 operations',
}


# ---- fingerprints ------------------------------------------------------------------------------------

def mem(t):
    """Everything stored in the memory the tensor is a view of."""
    s = t.detach().untyped_storage()
    if s.nbytes() >= 1 << 22:
        return s.nbytes()
    return torch.empty(0, dtype=torch.uint8).set_(s).numpy().tobytes()


class Watch:
    """The caller's arguments."""

    def __init__(self, **args):
        self.args = args
        self.snap = {k: self._fp(v) for k, v in args.items()}
        self.soft = {}

    def _fp(self, v):
        if isinstance(v, torch.Tensor):
            return ('t', tuple(v.shape), tuple(v.stride()), str(v.dtype), v.requires_grad, v.data_ptr(), mem(v))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [(id(x) if isinstance(x, (torch.Tensor, list)) else x, self._fp(x)) for x in v])
        if isinstance(v, dict):
            return ('d', [(k, self._fp(x)) for k, x in v.items()])
        return v

    def add(self, **args):
        for k, v in args.items():
            self.args[k] = v
            self.snap[k] = self._fp(v)

    def mps(self, key, m):
        """A list handed to matrix-product evolution: its tensors are watched, its entries may be replaced."""
        self.soft[key] = [(t, self._fp(t)) for t in m]
        return m

    def check(self, after):
        for k, v in self.args.items():
            need(self._fp(v) == self.snap[k], '%s changed the caller\'s %s' % (after, k))
        for k, l in self.soft.items():
            for i, (t, f) in enumerate(l):
                need(self._fp(t) == f, '%s changed tensor %d of the caller\'s %s' % (after, i, k))


def view_of(t):
    """The same values as a view into a larger tensor the caller also owns."""
    big = torch.full((2,) + tuple(t.shape), 0.123, dtype=t.dtype)
    big[1] = t
    return big[1]


def same(a, b, what):
    """Two results of the same request."""
    if isinstance(a, torch.Tensor):
        need(isinstance(b, torch.Tensor) and a.shape == b.shape and np.allclose(npy(a), npy(b), rtol=0, atol=3e-6, equal_nan=True),
             '%s asked again gives something else' % what)
    elif isinstance(a, (list, tuple)):
        need(len(a) == len(b), '%s asked again gives something else' % what)
        for x, y in zip(a, b):
            same(x, y, what)


# ---- single operations -------------------------------------------------------------------------------

def op_session(c):
    kind, N, w, pc = c['kind'], c['N'], c['w'], c['pc']
    n = A.nparams(kind, w)
    wires = A.mk_wires(kind, w)
    op = [kind, w, A.gen(n)]
    v = f32vec(make_state(N, ['g']))
    W = Watch(wires=wires)
    p = None
    if n:
        p = A.mk_params(kind, op[2], pc)
        if c.get('view') and isinstance(p, torch.Tensor) and not p.requires_grad:
            p = view_of(p)
        W.add(params=p)
    qo, ql, qc, _, _ = lib()
    if kind in A.ROT_LAYERS or kind == 'BasicEntangleLayer':
        o = getattr(ql, kind)(N, wires, p)
    elif kind == 'HLayer' or kind in A.RINGS:
        o = getattr(ql, kind)(N, wires)
    else:
        o = getattr(qo, kind)(p, N, wires) if n else getattr(qo, kind)(N, wires)
    W.check('%s()' % kind)
    vec = T(v).view(-1, 1)
    t = view_of(tens(v, N)) if c.get('view') else tens(v, N)
    b = torch.stack([t, tens(make_state(N, ['p']), N)])
    W.add(tensor=t, batch=b)
    tn = A.support_tn([kind])
    dag = kind not in ('BasicEntangleLayer', 'ring_of_cnot2')

    def run_mps(x, name):
        m = to_mps(v, N)
        W.mps('MPS given to %s' % name, list(m))
        return from_mps(x.TN_operation(m))
    calls = [('U_expand', lambda: o.U_expand()), ('info', lambda: o.info() and None)]
    if tn:
        calls += [('TN_operation', lambda: run_mps(o, 'TN_operation')), ('TN_contract', lambda: o.TN_contract(t)),
                  ('TN_contract batched', lambda: o.TN_contract(b, batch_mod=True))]
    if dag:
        calls.append(('operation_dagger', lambda: o.operation_dagger().U_expand()))
        if tn:
            calls += [('inverse TN_operation', lambda: run_mps(o.operation_dagger(), 'inverse')),
                      ('inverse TN_contract', lambda: o.operation_dagger().TN_contract(t))]
    first = {}
    order = calls + calls[::-1]
    for name, f in order:
        r = f()
        W.check('%s.%s' % (kind, name))
        if name in first:
            same(first[name], r, '%s.%s' % (kind, name))
        first[name] = r.clone() if isinstance(r, torch.Tensor) else r
    if n:
        p2 = A.mk_params(kind, A.gen(n, 7), pc)
        W.add(new_params=p2)
        o.params_update(p2)
        W.check('%s.params_update' % kind)
        for name, f in calls:
            f()
            W.check('%s.%s after params_update' % (kind, name))
        if isinstance(p2, torch.Tensor) and p2.requires_grad:
            (o.U_expand().abs() ** 3).sum().backward()
            W.check('%s backward' % kind)
        if dag:
            d = o.operation_dagger()
            d.params_update(A.mk_params(kind, A.gen(n, 9)))
            W.check('%s.operation_dagger().params_update' % kind)
        o.params_update(p if p is not None else 0)
        W.check('%s.params_update back' % kind)


# ---- library calls on shared arguments ---------------------------------------------------------------

def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def library(N, view):
    """Caller-owned arguments and the calls that take them."""
    qo, ql, qc, qt, qm = lib()
    from deepquantum.embeddings import qembedding as qe, qstate as qs
    from deepquantum.gates import qgate
    vv = view_of if view else (lambda x: x)
    v, u = f32vec(make_state(N, ['g'])), f32vec(make_state(N, ['p', 1]))
    rho = 0.6 * np.outer(v, v.conj()) + 0.4 * np.outer(u, u.conj())
    a = {
        'state row': vv(T(v).view(1, -1)), 'state column': vv(T(v).view(-1, 1)), 'state vector': vv(T(v)), 'rho': vv(T(rho)),
        'observable': vv(T(observable(N, 'H'))), 'unitary': vv(T(ref.U(['cnot', [0, N - 1], []], N))),
        'trace list': [N - 1, 0] if N > 2 else [1], 'qubit list': list(range(N))[::-1], 'MPS': to_mps(v, N), 'other MPS': to_mps(u, N),
        'wires': [N - 1, 0], 'local observables': [vv(T(observable(1, 'H'))), vv(T(ref.Y))], 'factors': [vv(T(ref.X)), vv(T(ref.H)), vv(T(ref.Y))],
        'MPDO': qt.Rho2MPS(T(rho), N), 'inputs': torch.tensor(A.gen(N)), 'complex inputs': vv(T(v)), 'enc wires': list(range(N))[::-1],
        'gram input': vv(T(v).view(1, -1)), 'builder params': torch.tensor(A.gen(3 * N)), 'builder list': A.gen(2 * N),
        'list state': [0.6, 0.8j], 'real inputs': vv(torch.tensor(A.gen(2 ** N))), 'whole inputs': vv(torch.arange(1, 2 ** N + 1)),
        'wide inputs': vv(T(v).to(torch.complex128)), 'long inputs': vv(torch.tensor(A.gen(2 ** N), dtype=torch.float64)),
        'short inputs': vv(torch.tensor(A.gen(3))), 'real gram input': vv(torch.tensor(A.gen(3)).view(1, -1)), 'encode list': A.gen(N),
        'real list state': [0.6, -0.8], 'real factors': [torch.tensor(A.gen(4)).view(2, 2), torch.eye(2)],
        'real rho': vv(torch.eye(2 ** N) / 2 ** N), 'qubit tuple': tuple(range(N)), 'list params': A.gen(3 * N),
        'entangle params': torch.tensor(A.gen(6 * N)), 'grad inputs': torch.tensor(A.gen(N), requires_grad=True),
        'angle': torch.tensor(0.7), 'controls': [0], 'pair angles': torch.tensor(A.gen(N - 1)),
    }
    g = a.__getitem__

    def qg():
        c = qgate.Circuit(N)
        c.rx(0, g('angle'))
        c.rxx(0, N - 1, g('angle'))
        c.multi_control_cnot(g('controls'), N - 1)
        c.measure(g('rho'), N)
        c.gate_list[-1]['which_qubit'].append(99)      # the log belongs to the circuit, not to the caller's list
        return c.U()
    from deepquantum.layers import qlayer as qd
    calls = {
        'StateVec2MPS': lambda: qt.MPS2StateVec(qt.StateVec2MPS(g('state row'), N)),
        'MatrixProductState': lambda: qt.MatrixProductState(g('state row'), N),
        'MPS2StateVec': lambda: qt.MPS2StateVec(g('MPS')),
        'MPS2StateVec tensor': lambda: qt.MPS2StateVec(g('MPS'), return_sv=False),
        'MPS_inner_product': lambda: qt.MPS_inner_product(g('MPS'), g('other MPS')),
        'MPS_expec': lambda: qt.MPS_expec(g('MPS'), g('wires'), g('local observables')),
        'Rho2MPS': lambda: qt.MPS2Rho(qt.Rho2MPS(g('rho'), N)),
        'MPS2Rho': lambda: qt.MPS2Rho(g('MPDO')),
        'MatrixProductDensityOperator': lambda: qt.MatrixProductDensityOperator(g('rho'), N),
        'multi_kron': lambda: qm.multi_kron(g('factors')),
        'dag': lambda: qm.dag(g('unitary')),
        'IsUnitary': lambda: torch.tensor(bool(qm.IsUnitary(g('unitary')))),
        'IsHermitian': lambda: torch.tensor(bool(qm.IsHermitian(g('observable')))),
        'IsNormalized': lambda: torch.tensor(bool(qm.IsNormalized(g('state vector')))),
        'ptrace': lambda: qm.ptrace(g('rho'), N - 1, 1),
        'partial_trace': lambda: qm.partial_trace(g('rho'), N, g('trace list')),
        'partial_trace_old': lambda: qm.partial_trace_old(g('rho'), N, g('trace list')),
        'expval': lambda: qm.expval(g('state column'), g('observable')),
        'expval rho': lambda: qm.expval(g('rho'), g('observable'), rho=True),
        'measure': lambda: qm.measure(N, g('state vector'), g('qubit list')),
        'measure rho': lambda: qm.measure(N, g('rho'), g('qubit list')),
        'PauliEncoding': lambda: qe.PauliEncoding(N, g('inputs'), g('enc wires'), 'Y').U_expand(),
        'PauliEncoding MPS': lambda: qt.MPS2StateVec(qe.PauliEncoding(N, g('inputs'), g('enc wires'), 'X').TN_operation(list(g('MPS')))),
        'AmplitudeEncoding': lambda: qe.AmplitudeEncoding(N, g('complex inputs')).encoded_state(),
        'AmplitudeEncoding real': lambda: qe.AmplitudeEncoding(N, g('real inputs')).encoded_state(),
        'AmplitudeEncoding whole': lambda: qe.AmplitudeEncoding(N, g('whole inputs')).encoded_state(),
        'AmplitudeEncoding wide': lambda: qe.AmplitudeEncoding(N, g('wide inputs')).encoded_state(),
        'AmplitudeEncoding long': lambda: qe.AmplitudeEncoding(N, g('long inputs')).encoded_state(),
        'AmplitudeEncoding short': lambda: qe.AmplitudeEncoding(N, g('short inputs')).encoded_state(),
        'gram_encoding real': lambda: qe.gram_encoding(g('real gram input')),
        'PrepareState real': lambda: qs.PrepareState(g('real inputs')),
        'PrepareState list': lambda: qs.PrepareState(g('real list state')),
        'PrepareRho real': lambda: qs.PrepareRho(g('real list state')),
        'PauliEncoding list': lambda: qe.PauliEncoding(N, g('encode list'), g('enc wires'), 'Z').U_expand(),
        'PauliEncoding grad': lambda: qe.PauliEncoding(N, g('grad inputs'), g('enc wires'), 'Y').U_expand(),
        'PauliEncoding TN': lambda: qe.PauliEncoding(N, g('short inputs')[:N], g('enc wires'), 'Y').TN_contract(g('state vector').view([2] * N)),
        'multi_kron real': lambda: qm.multi_kron(g('real factors')),
        'dag real': lambda: qm.dag(g('real rho')),
        'measure tuple': lambda: qm.measure(N, g('state row'), g('qubit tuple')),
        'measure column': lambda: qm.measure(N, g('state column'), g('qubit list')),
        'IsNormalized row': lambda: torch.tensor(bool(qm.IsNormalized(g('real inputs')))),
        'qlayer.XYZLayer list': lambda: qd.XYZLayer(N, g('list params')),
        'qlayer.strong_entangle_layer': lambda: qd.strong_entangle_layer(N, g('entangle params'), 'YZY'),
        'gram_encoding': lambda: qe.gram_encoding(g('gram input')),
        'PrepareRho': lambda: qs.PrepareRho(g('list state')),
        'PrepareState': lambda: qs.PrepareState(g('complex inputs')),
        'qlayer.YZYLayer': lambda: qd.YZYLayer(N, g('builder params')),
        'qlayer.basic_entangle_layer': lambda: qd.basic_entangle_layer(N, g('builder list'), 'XZ'),
        'qlayer.RxxLayer': lambda: qd.RxxLayer(N, g('pair angles')),
        'qgate.Circuit': lambda: quiet(qg),
    }
    return a, calls


def lib_session(c):
    a, calls = library(c['N'], c.get('view'))
    W = Watch(**a)
    first = {}
    for name in c['seq']:
        r = calls[name]()
        W.check(name)
        if name in first:
            same(first[name], r, name)
        else:
            first[name] = r.detach().clone() if isinstance(r, torch.Tensor) else r
    for name in dict.fromkeys(c['seq']):       # and once more at the end
        same(first[name], calls[name](), name)
        W.check(name + ' again')


# ---- circuits ----------------------------------------------------------------------------------------

def cir_session(c):
    qo, ql, qc, qt, qm = lib()
    N, ops = c['N'], c['ops']
    v = f32vec(make_state(N, ['g']))
    W = Watch()
    cir = qc.Circuit(N)
    for i, op in enumerate(ops):
        p = A.mk_params(op[0], op[2], c['pc']) if op[2] else None
        w = A.mk_wires(op[0], op[1])
        W.add(**{'wires of operation %d' % i: w})
        if p is not None:
            if c.get('view') and not p.requires_grad:
                p = view_of(p)
            W.add(**{'parameters of operation %d' % i: p})
        kind = op[0]
        if kind == 'HLayer':
            cir.Hadamard(w)
        elif kind in A.ROT_LAYERS or kind == 'BasicEntangleLayer':
            getattr(cir, kind)(w, p)
        elif p is not None:
            getattr(cir, kind)(p, w)
        else:
            getattr(cir, kind)(w)
    W.check('building the circuit')
    st, M = T(v).view(1, -1), T(observable(N, 'H'))
    t = tens(v, N)
    b = torch.stack([t, tens(make_state(N, ['p']), N)])
    Z = qo.PauliZ(N, N - 1)
    W.add(**{'state': st, 'observable': M, 'tensor': t, 'batch': b, 'Z matrix': Z.matrix})
    tn = all(A.support_tn(o) for o in ops)
    ps = qc.parameter_shift(cir, st, M)
    psz = qc.parameter_shift(cir, st, Z.U_expand())

    def mps():
        m = to_mps(v, N)
        W.mps('MPS given to TN_evolution', list(m))
        return from_mps(cir.TN_evolution(m))

    def grad2():
        d, sv = psz.save_mid_MPS(Z)
        W.add(**{'saved states': d, 'final state': sv})
        return psz.cal_params_grad2(d)
    calls = [('U', lambda: cir.U()), ('reverse U', lambda: cir.U(left_to_right=False)),
             ('cir_expectation', lambda: cir.cir_expectation(st, M)), ('dense cir_expectation', lambda: cir.cir_expectation(st, M, TN=False)),
             ('cal_params_grad', lambda: ps.cal_params_grad()), ('measure', lambda: qm.measure(N, cir.U() @ st.view(-1, 1))),
             ('cir_params', lambda: cir.cir_params and None)]
    if tn:
        calls += [('TN_evolution', mps), ('TN_contract_evolution', lambda: cir.TN_contract_evolution(t)),
                  ('batched evolution', lambda: cir.TN_contract_evolution(b, batch_mod=True))]
        if c['pc'] != 'grad':
            calls.append(('save_mid_MPS and cal_params_grad2', grad2))
    first = {}
    for name, f in calls + calls[::-1]:
        r = f()
        W.check(name)
        if name in first:
            same(first[name], r, name)
        first[name] = r.detach().clone() if isinstance(r, torch.Tensor) else r
    if c['pc'] == 'grad' and any(o[2] for o in ops):
        cir.cir_expectation(st, M).backward()
        W.check('backward')
    for i, g in enumerate(cir.gate):
        if ops[i][2]:
            p = A.mk_params(ops[i][0], A.gen(len(ops[i][2]), 5))
            W.add(**{'new parameters of operation %d' % i: p})
            g.params_update(p)
            W.check('params_update of operation %d' % i)
    ps.cal_params_grad()
    W.check('cal_params_grad after the updates')
    cir.clear()
    W.check('clear')


def conv_session(c):
    from deepquantum.nn.modules.quanv import QuanConv2D
    torch.manual_seed(0)
    m = QuanConv2D(4, 1, 2)
    x = torch.linspace(0, 1, 9).view(1, 1, 3, 3)
    if c.get('view'):
        x = view_of(x)
    W = Watch(image=x, weight=m.weight)
    y = m(x)
    W.check('QuanConv2D')
    same(y, m(x), 'QuanConv2D')
    y.sum().backward()
    W.check('QuanConv2D backward')


def check_case(c):
    {'op': op_session, 'lib': lib_session, 'cir': cir_session, 'conv': conv_session}[c['t']](c)


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    from .gradlib import alphabet3
    q = eng.quick
    cs = []
    for N in (1, 2, 3) if q else (1, 2, 3, 4):
        for kind in A.ALL_KINDS:
            for w in A.wire_choices(kind, N):
                pcs = ['auto', 't1', 'grad', 'list', 'float'] if A.nparams(kind, w) == 1 else ['auto', 'grad', 'list'] if A.nparams(kind, w) else ['auto']
                for pc in pcs:
                    cs.append({'t': 'op', 'kind': kind, 'N': N, 'w': w, 'pc': pc})
                cs.append({'t': 'op', 'kind': kind, 'N': N, 'w': w, 'pc': 'auto', 'view': 1})
    eng.map(unit, chunks(cs, 10))
    names = list(library(2, False)[1])
    cs = [{'t': 'lib', 'N': N, 'seq': [x, y], 'view': vw} for N in (2, 3) for vw in (0, 1) for x in names for y in names]
    cs += [{'t': 'lib', 'N': N, 'seq': names + names[::-1]} for N in (2, 3, 4)]
    if not q:
        cs += [{'t': 'lib', 'N': 2, 'seq': list(s)} for s in itertools.product(names, repeat=3)]
    eng.map(unit, chunks(cs, 30))
    al = alphabet3() + [['BasicEntangleLayer', [2, 0], A.gen(6)], ['multi_control_cnot', [2, 0], []], ['HLayer', [2, 1], []]]
    cs = [{'t': 'cir', 'N': 3, 'ops': [a], 'pc': pc, 'view': vw} for a in al for pc in ('auto', 'grad') for vw in (0, 1)]
    cs += [{'t': 'cir', 'N': 3, 'ops': [a], 'pc': 't1'} for a in al if len(a[2]) == 1]
    cs += [{'t': 'cir', 'N': 3, 'ops': [a, b], 'pc': 'auto', 'view': 1} for a in al for b in al]
    cs += [{'t': 'cir', 'N': 3, 'ops': [a, b], 'pc': 'grad'} for a in al for b in al[:8]]
    if not q:
        full = A.ops(3, None, 2)
        cs += [{'t': 'cir', 'N': 3, 'ops': [a, b], 'pc': 'auto'} for a in full for b in full]
    eng.map(unit, chunks(cs, 6))
    eng.map(unit, [[{'t': 'conv', 'view': x}] for x in (0, 1)])
