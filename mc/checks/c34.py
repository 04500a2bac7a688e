"""C34: an answer depends on the values handed in, not on how they are held in memory or in which container they come."""
import contextlib
import io
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, to_mps, from_mps, T, npy
from ..core import Violation
from .gradlib import observable, f32vec, alphabet3
from . import c23

LEVEL = 'exploration'
RULE = ('one case = a call x one of its arguments (or all of them together) x one way of holding the same values; the result is compared '
        'with the one for the plainly held values, and for operations and circuits with the reference; distinct = distinct cases')
BOUNDS = {
    'quick': 'states, batches, chains and parameter tensors of every kind x every wire tuple (N<=3; 4 and 5: <=2 wires) on every engine, with inverse and update, '
             'in 12 layouts (reversed, rotated and swapped axes, strided and offset slices, lazy conjugates and negatives, stride-0 expansions of batch, qubit and parameter axes, '
             'views that require gradients, Parameters); every argument of 60 library calls (N=2..4), alone and all together, in every layout; every single operation and '
             'pair of an 18-letter alphabet under every circuit call; images and weights of the convolution; wires, index lists and parameters in 8 other containers (same answer or refused)',
    'thorough': 'N=4: all wire tuples, N=5 <=3 wires; every ordered pair of layouts for two-argument calls; all pairs of operations on 3 qubits',
}
TOL = 2e-5


# ---- ways of holding the same values -------------------------------------------------------------------

def _perm(t, p):
    if not p:
        return None
    inv = [p.index(i) for i in range(len(p))]
    return t.permute(p).contiguous().permute(inv)


def _strided(t):
    big = torch.full([2 * n + 1 for n in t.shape], 7.5, dtype=t.dtype)
    s = tuple(slice(1, 2 * n, 2) for n in t.shape)
    big[s] = t
    return big[s]


def _grad(t):
    return t.detach().clone().requires_grad_()


def _slice_of_grad(t):
    big = torch.zeros(t.numel() + 5, dtype=t.dtype)
    big[2:-3] = t.detach().reshape(-1)
    return big.requires_grad_()[2:-3].view(t.shape)


def _neg(t):
    return torch.complex(torch.zeros_like(t), -t).conj().imag


LAYOUTS = {
    'axes stored in reverse': lambda t: _perm(t, list(range(t.dim()))[::-1]),
    'first axis stored last': lambda t: _perm(t, list(range(1, t.dim())) + [0]) if t.dim() else None,
    'last axis stored first': lambda t: _perm(t, [t.dim() - 1] + list(range(t.dim() - 1))) if t.dim() else None,
    'last two axes swapped in memory': lambda t: _perm(t, list(range(t.dim() - 2)) + [t.dim() - 1, t.dim() - 2]) if t.dim() > 1 else None,
    'a strided slice': lambda t: _strided(t) if t.dim() else None,
    'a part of a larger block': lambda t: torch.stack([torch.full_like(t, 0.3), t, torch.full_like(t, 0.4)])[1],
    'a lazy conjugate': lambda t: t.conj().resolve_conj().conj() if t.is_complex() else None,
    'an adjoint of an adjoint': lambda t: t.conj().resolve_conj().transpose(-1, -2).contiguous().transpose(-1, -2).conj() if t.is_complex() and t.dim() > 1 else None,
    'a lazy negative': lambda t: _neg(t) if t.dtype == torch.float32 else None,
    'a tensor that requires gradients': lambda t: _grad(t) if t.is_floating_point() or t.is_complex() else None,
    'a slice of a tensor that requires gradients': lambda t: _slice_of_grad(t) if t.is_floating_point() or t.is_complex() else None,
    'a Parameter': lambda t: torch.nn.Parameter(t.detach().clone()) if t.is_floating_point() or t.is_complex() else None,
}
NAMES = list(LAYOUTS)


def hold(x, how):
    """The same values held another way (None: this way does not apply)."""
    if isinstance(x, torch.Tensor):
        r = LAYOUTS[how](x.detach())
        if r is not None:
            need(r.shape == x.shape and np.array_equal(npy(r), npy(x)), 'harness: layout %s' % how)
        return r
    if isinstance(x, (list, tuple)) and x and all(isinstance(t, torch.Tensor) for t in x):
        r = [hold(t, how) for t in x]
        return None if any(t is None for t in r) else type(x)(r)
    return None


def close(got, want, what):
    if isinstance(want, torch.Tensor):
        expect(got, npy(want), what, TOL)
    elif isinstance(want, (list, tuple)):
        need(isinstance(got, (list, tuple)) and len(got) == len(want), '%s: another number of results' % what)
        for i, (a, b) in enumerate(zip(got, want)):
            close(a, b, '%s, entry %d' % (what, i))


# ---- operations ----------------------------------------------------------------------------------------

def op_case(c):
    N, op, how = c['N'], c['op'], c['how']
    v, u = f32vec(make_state(N, ['g'])), f32vec(make_state(N, ['p', 1]))
    n = len(op[2])
    tn = A.support_tn(op)
    dag = op[0] not in ('BasicEntangleLayer', 'ring_of_cnot2')
    U = ref.U(op, N)
    want = {0: ref.apply_vec(op, v, N), 1: ref.apply_vec(op, u, N)}
    back = {0: U.conj().T @ v, 1: U.conj().T @ u}

    def engines(o, w, who):
        if tn:
            t = hold(tens(v, N), how)
            b = hold(torch.stack([tens(v, N), tens(u, N)]), how)
            if t is not None:
                expect(o.TN_contract(t), w[0], '%s.TN_contract of %s' % (who, how), TOL, shape=(2,) * N)
                expect(o.TN_contract(o.TN_contract(t)), (U if w is want else U.conj().T) @ w[0],
                       '%s.TN_contract of its own result' % who, 2 * TOL, shape=(2,) * N)
            if b is not None:
                r = o.TN_contract(b, batch_mod=True)
                need(tuple(r.shape) == (2,) * (N + 1), '%s batched: shape %s' % (who, tuple(r.shape)))
                for i in (0, 1):
                    expect(r[i], w[i], '%s.TN_contract of a batch held as %s, entry %d' % (who, how, i), TOL, shape=(2,) * N)
            e = tens(v, N).expand([3] + [2] * N)
            r = o.TN_contract(e, batch_mod=True)
            for i in range(3):
                expect(r[i], w[0], '%s.TN_contract of one state expanded to a batch, entry %d' % (who, i), TOL, shape=(2,) * N)
            m0 = to_mps(v, N)
            for only in [None] + ([0, N - 1] if N > 1 else []):
                m = [hold(x, how) if only in (None, i) else x for i, x in enumerate(m0)]
                if all(x is not None for x in m):
                    expect(from_mps(o.TN_operation(m)), w[0], '%s.TN_operation of a chain with %s held as %s'
                           % (who, 'every tensor' if only is None else 'tensor %d' % only, how), TOL, shape=(1, 2 ** N))

    o = A.build(op, N)
    engines(o, want, op[0])
    if tn and c.get('slices'):              # states that do not depend on one qubit, held with stride 0 along its axis
        for q in range(N):
            x = f32vec(make_state(N - 1, ['g', q]) if N > 1 else np.ones(1))
            y = f32vec(make_state(N - 1, ['g', q + 3]) if N > 1 else np.ones(1) * 1j)
            e = T(x).view([2] * (N - 1)).unsqueeze(q).expand([2] * N)
            b = T(np.stack([x, y, x])).view([3] + [2] * (N - 1)).unsqueeze(q + 1).expand([3] + [2] * N)
            expect(o.TN_contract(e), U @ npy(e).reshape(-1), '%s.TN_contract of a state expanded along qubit %d' % (op[0], q), TOL, shape=(2,) * N)
            r = o.TN_contract(b, batch_mod=True)
            for i in range(3):
                expect(r[i], U @ npy(b[i]).reshape(-1), '%s.TN_contract of a batch expanded along qubit %d, entry %d' % (op[0], q, i), TOL, shape=(2,) * N)
            ch = [T(make_state(1, ['g', k])).view(2, 1, 1) for k in range(N)]
            ch[q] = torch.full((1, 1, 1), 0.6 + 0.2j, dtype=torch.complex64).expand(2, 1, 1)
            w0 = np.ones(1)
            for t in ch:
                w0 = np.kron(w0, npy(t).reshape(-1))
            expect(from_mps(o.TN_operation(list(ch))), U @ w0, '%s.TN_operation of a chain with tensor %d expanded' % (op[0], q), TOL, shape=(1, 2 ** N))
    if dag:
        engines(o.operation_dagger(), back, 'inverse of ' + op[0])
    if n:
        p = hold(A.mk_params(op[0], op[2]), how)
        lists = [p] if p is not None else []
        if n == 1:
            one = hold(torch.tensor([op[2][0]]), how)
            lists += [one] if one is not None else []
        same = torch.tensor(op[2][0]).expand(n)
        for p in lists + ([same] if n > 1 else []):
            q = [op[0], op[1], [op[2][0]] * n] if p is same else op
            Uq = ref.U(q, N)
            other = A.build([op[0], op[1], A.gen(n, 5)], N)
            other.params_update(p)
            for o, who in ((A.build(q, N, params=p), op[0]), (other, 'updated ' + op[0])):
                who += ' with parameters held as ' + (how if p is not same else 'a stride-0 expansion')
                expect(o.U_expand(), Uq, who, TOL)
                if tn:
                    expect(o.TN_contract(tens(v, N)), Uq @ v, who + ' (contraction)', TOL, shape=(2,) * N)
                    expect(from_mps(o.TN_operation(to_mps(v, N))), Uq @ v, who + ' (chain)', TOL, shape=(1, 2 ** N))
                if dag:
                    expect(o.operation_dagger().U_expand(), Uq.conj().T, 'inverse of ' + who, TOL)
            if p.requires_grad and not isinstance(p, torch.nn.Parameter):
                break
        # a whole weight vector, every operation reading its own slice of it
        if c.get('slices'):
            W = torch.tensor(A.gen(3) + list(op[2]) + A.gen(2, 5), requires_grad=True)
            p = W[3:3 + n] if n > 1 else W[3]
            expect(A.build(op, N, params=p).U_expand(), U, op[0] + ' with a slice of the weights', TOL)


# ---- library calls -------------------------------------------------------------------------------------

def library(N):
    a, calls = c23.library(N, False)
    qo, ql, qc, qt, qm = lib()
    from deepquantum.embeddings import qembedding as qe
    g = a.__getitem__
    v = f32vec(make_state(N, ['g']))
    a['tensor state'] = tens(v, N)
    a['batch'] = torch.stack([tens(v, N), tens(make_state(N, ['p']), N)])
    al = [['ry', [0], [0.4]], ['rxx', [N - 1, 0], [0.7]], ['u3', [N - 1], A.gen(3)]]
    cir = A.circuit(al, N)
    Z = qo.PauliZ(N, N - 1)

    def grad2():
        ps = qc.parameter_shift(cir, g('state row'), Z.U_expand())
        d, sv = ps.save_mid_MPS(Z)
        return [ps.cal_params_grad2(d), sv]
    calls.update({
        'Rho2MPS': lambda: qt.MPS2Rho(qt.Rho2MPS(g('rho'), N)),
        'IsHermitian of the state': lambda: torch.tensor(bool(qm.IsHermitian(g('rho')))),
        'expval row': lambda: qm.expval(g('state row').view(-1, 1) if g('state row').is_contiguous() else g('state row').reshape(-1, 1), g('observable')),
        'circuit TN_evolution': lambda: from_mps(cir.TN_evolution(list(g('MPS')))),
        'circuit TN_contract_evolution': lambda: cir.TN_contract_evolution(g('tensor state')),
        'circuit batched': lambda: cir.TN_contract_evolution(g('batch'), batch_mod=True),
        'circuit expectation': lambda: cir.cir_expectation(g('state row'), g('observable')),
        'circuit dense expectation': lambda: cir.cir_expectation(g('state row'), g('observable'), TN=False),
        'parameter shift': lambda: qc.parameter_shift(cir, g('state row'), g('observable')).cal_params_grad(),
        'saved-state gradient': grad2,
        'PauliEncoding contraction': lambda: qe.PauliEncoding(N, g('inputs'), g('enc wires'), 'Z').TN_contract(g('tensor state')),
        'PauliEncoding batched': lambda: qe.PauliEncoding(N, g('inputs'), g('enc wires'), 'Z').TN_contract(g('batch'), batch_mod=True),
    })
    return a, calls


_USES = {}


def uses(N):
    """Which arguments each call reads (those it cannot do without)."""
    if N not in _USES:
        a, calls = library(N)
        full = dict(a)
        out = {}
        for name, f in calls.items():
            got = []
            for k in full:
                if hold(full[k], NAMES[5]) is None:
                    continue
                del a[k]
                try:
                    f()
                except KeyError:
                    got.append(k)
                finally:
                    a[k] = full[k]
            out[name] = got
        _USES[N] = out
    return _USES[N]


def lib_case(c):
    a, calls = library(c['N'])
    f = calls[c['call']]
    want = f()
    want = want.detach().clone() if isinstance(want, torch.Tensor) else want
    what = c['call']
    for k, how in c['set']:
        x = hold(a[k], how)
        if x is None:
            return
        a[k] = x
        what += ', %s held as %s' % (k, how)
    close(f(), want, what)


# ---- circuits ------------------------------------------------------------------------------------------

def cir_case(c):
    qo, ql, qc, qt, qm = lib()
    N, ops, how = c['N'], c['ops'], c['how']
    v, u = f32vec(make_state(N, ['g'])), f32vec(make_state(N, ['p', 1]))
    M = f32vec(observable(N, 'H'))
    cir = qc.Circuit(N)
    for op in ops:
        p = None
        if op[2]:
            p = hold(A.mk_params(op[0], op[2]), how)
            p = A.mk_params(op[0], op[2]) if p is None else p
        A.add(cir, op, params=p)
    w, w2 = v, u
    for op in ops:
        w, w2 = ref.apply_vec(op, w, N), ref.apply_vec(op, w2, N)
    e = np.vdot(w, M @ w).real
    tn = all(A.support_tn(o) for o in ops)
    s, m = hold(row(v), how), hold(T(M), how)
    s, m = row(v) if s is None else s, T(M) if m is None else m
    t, b = hold(tens(v, N), how), hold(torch.stack([tens(v, N), tens(u, N)]), how)
    tag = ' (held as %s)' % how
    U = np.eye(2 ** N)
    for op in ops:
        U = ref.U(op, N) @ U
    expect(cir.U(), U, 'circuit operator' + tag, TOL)
    expect(cir.cir_expectation(s, m, TN=False).reshape(-1), np.array([e]), 'dense expectation' + tag, TOL)
    if tn:
        expect(cir.cir_expectation(s, m).reshape(-1), np.array([e]), 'expectation' + tag, TOL)
        if t is not None:
            expect(cir.TN_contract_evolution(t), w, 'contraction' + tag, TOL, shape=(2,) * N)
        if b is not None:
            r = cir.TN_contract_evolution(b, batch_mod=True)
            expect(r[0], w, 'batch, entry 0' + tag, TOL, shape=(2,) * N)
            expect(r[1], w2, 'batch, entry 1' + tag, TOL, shape=(2,) * N)
        ch = [hold(x, how) for x in qt.StateVec2MPS(s, N)]
        if all(x is not None for x in ch):
            r = cir.TN_evolution(ch)
            expect(from_mps(r), w, 'chain' + tag, TOL, shape=(1, 2 ** N))
            expect(qt.MPS_inner_product(r, [hold(x, how) for x in to_mps(u, N)]).reshape(-1), np.array([np.vdot(u, w)]), 'overlap' + tag, TOL)
    g = qc.parameter_shift(cir, s, m).cal_params_grad() if any(o[2] for o in ops) else None
    if g is not None:
        expect(g.detach().reshape(-1), ref.grad_expectation(ops, N, v, M), 'parameter-shift gradient' + tag, 1e-4)


def conv_case(c):
    from deepquantum.nn.modules.quanv import QuanConv2D
    torch.manual_seed(0)
    m = QuanConv2D(4, 1, 2)
    with torch.no_grad():
        m.weight.copy_(torch.tensor(A.gen(12)))
    x = torch.tensor(np.random.RandomState(3).rand(*c['shape']).astype(np.float32))
    want = m(x).detach().clone()
    y = {'channels last': lambda t: t.contiguous(memory_format=torch.channels_last), 'expanded': lambda t: t[:1].expand(t.shape)}
    xx = y[c['how']](x) if c['how'] in y else hold(x, c['how'])
    if xx is None:
        return
    if c['how'] == 'expanded':
        want = m(x[:1]).detach().expand(want.shape)
    close(m(xx), want, 'convolution of images held as %s' % c['how'])
    wt = hold(m.weight, c['how']) if c['how'] not in y else None
    if isinstance(wt, torch.Tensor):
        m.weight = torch.nn.Parameter(wt.detach())
        close(m(xx), want, 'convolution with weights held as %s' % c['how'])


# ---- other containers: the same answer or a refusal --------------------------------------------------------

def containers(x):
    """Wires and index lists."""
    if isinstance(x, int):
        return {'numpy int': np.int64(x), 'tensor': torch.tensor(x), 'one-element list': [x], 'one-element tuple': (x,),
                'one-element array': np.array([x]), 'float': float(x), 'bool': bool(x) if x < 2 else x}
    r = {'tuple': tuple(x), 'array': np.array(x), 'tensor': torch.tensor(x), 'list of numpy ints': [np.int64(i) for i in x],
         'list of tensors': [torch.tensor(i) for i in x], 'floats': [float(i) for i in x], 'dict keys': {i: 0 for i in x}.keys()}
    if x == list(range(x[0], x[0] + len(x))):
        r['range'] = range(x[0], x[0] + len(x))
    if x == list(range(x[0], x[0] - len(x), -1)):
        r['falling range'] = range(x[0], x[0] - len(x), -1)
    return r


def par_containers(p):
    if len(p) == 1:
        x = p[0]
        return {'numpy float': np.float64(x), 'short numpy float': np.float32(x), 'array': np.array(x), 'one-element array': np.array([x]),
                'long tensor': torch.tensor(x, dtype=torch.float64), 'column': torch.tensor([[x]]), 'tuple': (x,), 'list': [x]}
    return {'tuple': tuple(p), 'array': np.array(p), 'short array': np.array(p, dtype=np.float32), 'list of tensors': [torch.tensor(x) for x in p],
            'long tensor': torch.tensor(p, dtype=torch.float64), 'row': torch.tensor([p]), 'column': torch.tensor(p).view(-1, 1),
            'list of numpy floats': [np.float64(x) for x in p]}


def cont_case(c):
    qo, ql, qc, qt, qm = lib()
    N, op = c['N'], c['op']
    kind, w, p = op[0], op[1], op[2]
    v = f32vec(make_state(N, ['g']))
    U = ref.U(op, N)
    ww, pp = A.mk_wires(kind, w), A.mk_params(kind, p) if p else None
    if c['c'][0] == 'w':
        ww = containers(ww)[c['c'][1]]
    else:
        pp = par_containers(p)[c['c'][1]]
    what = '%s with %s as %s' % (kind, {'w': 'wires', 'p': 'parameters'}[c['c'][0]], c['c'][1])

    def make():
        if kind in A.ROT_LAYERS or kind == 'BasicEntangleLayer':
            return getattr(ql, kind)(N, ww, pp)
        if kind == 'HLayer' or kind in A.RINGS:
            return getattr(ql, kind)(N, ww)
        return getattr(qo, kind)(pp, N, ww) if p else getattr(qo, kind)(N, ww)

    def updated():
        o = A.build([kind, w, A.gen(len(p), 5)], N)
        o.params_update(pp)
        return o
    got = [(f, how) for how, f in (('built', make),) + ((('updated', updated),) if c['c'][0] == 'p' else ())]
    for f, how in got:
        def attempt(g):
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    return g(f())
                except Exception:
                    return None             # refused
        r = attempt(lambda o: o.U_expand())
        if r is not None:
            expect(r, U, '%s, %s' % (what, how), TOL)
        if A.support_tn(op):
            r = attempt(lambda o: o.TN_contract(tens(v, N)))
            if r is not None:
                expect(r, U @ v, '%s, %s (contraction)' % (what, how), TOL, shape=(2,) * N)
            r = attempt(lambda o: o.TN_contract(torch.stack([tens(v, N)] * 2), batch_mod=True))
            if r is not None:
                expect(r[1], U @ v, '%s, %s (batched)' % (what, how), TOL, shape=(2,) * N)
            r = attempt(lambda o: from_mps(o.TN_operation(to_mps(v, N))))
            if r is not None:
                expect(r, U @ v, '%s, %s (chain)' % (what, how), TOL, shape=(1, 2 ** N))
        if kind not in ('BasicEntangleLayer', 'ring_of_cnot2'):
            r = attempt(lambda o: o.operation_dagger().U_expand())
            if r is not None:
                expect(r, U.conj().T, 'inverse of %s, %s' % (what, how), TOL)


def list_case(c):
    """Index lists of measuring, tracing, local expectations and encodings."""
    qo, ql, qc, qt, qm = lib()
    from deepquantum.embeddings import qembedding as qe
    N, l = c['N'], c['l']
    v, u = f32vec(make_state(N, ['g'])), f32vec(make_state(N, ['p', 1]))
    rho = f32vec(0.6 * np.outer(v, v.conj()) + 0.4 * np.outer(u, u.conj()))
    obs = [T(f32vec(observable(1, 'H'))) for _ in l]
    calls = {
        'measure': lambda x: qm.measure(N, T(v), x), 'measure rho': lambda x: qm.measure(N, T(rho), x),
        'MPS_expec': lambda x: qt.MPS_expec(to_mps(v, N), x, obs),
        'PauliEncoding': lambda x: qe.PauliEncoding(N, torch.tensor(A.gen(len(l))), x, 'Y').U_expand(),
        'PauliEncoding contraction': lambda x: qe.PauliEncoding(N, torch.tensor(A.gen(len(l))), x, 'Y').TN_contract(tens(v, N)),
    }
    if len(l) < N:
        calls['partial_trace'] = lambda x: qm.partial_trace(T(rho), N, x)
        calls['partial_trace_old'] = lambda x: qm.partial_trace_old(T(rho), N, x)
    f = calls.get(c['call'])
    if f is None:
        return
    want = f(list(l))
    try:
        r = f(containers(list(l))[c['c']])
    except Exception:
        return
    close(r, want, '%s with %s as %s' % (c['call'], l, c['c']))


def check_case(c):
    {'op': op_case, 'lib': lib_case, 'cir': cir_case, 'conv': conv_case, 'cont': cont_case, 'list': list_case}[c['t']](c)


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def unit_lib(u, ctx):
    """Every argument of one library call, alone and together, in every layout."""
    N, call, pairs = u
    keys = uses(N)[call]
    sets = [[[k, h]] for k in keys for h in NAMES]
    if len(keys) > 1:
        sets += [[[k, h] for k in keys] for h in NAMES]
        if pairs:
            sets += [[[keys[0], a], [keys[1], b]] for a in NAMES for b in NAMES]
    unit([{'t': 'lib', 'N': N, 'call': call, 'set': s} for s in sets], ctx)


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    for N, km in ((1, None), (2, None), (3, None), (4, 2 if q else None), (5, 2 if q else 3)):
        ops = [o for o in A.ops(N, None, km) if N < 4 or not q or N == 4 or (o[1][0] + len(o[1])) % 2]
        eng.map(unit, chunks([{'t': 'op', 'N': N, 'op': op, 'how': h, 'slices': i == 0} for op in ops for i, h in enumerate(NAMES)
                              if N < 4 or not q or (i + op[1][0]) % 3 == 0], 24))
    eng.map(unit_lib, [(N, call, not q or N == 2) for N in (2, 3, 4) for call in library(N)[1]])
    al = alphabet3() + [['BasicEntangleLayer', [2, 0], A.gen(6)], ['HLayer', [2, 1], []]]
    cs = [{'t': 'cir', 'N': 3, 'ops': [a], 'how': h} for a in al for h in NAMES]
    cs += [{'t': 'cir', 'N': 3, 'ops': [a, b], 'how': h} for i, a in enumerate(al) for j, b in enumerate(al) for k, h in enumerate(NAMES)
           if not q or (i + j + k) % 4 == 0]
    eng.map(unit, chunks(cs, 12))
    eng.map(unit, [[{'t': 'conv', 'shape': s, 'how': h} for h in NAMES + ['channels last', 'expanded']] for s in ([1, 1, 2, 2], [2, 1, 3, 4], [3, 1, 4, 3])])
    cs = []
    for N, km in ((1, None), (2, None), (3, None), (4, 2)):
        for op in A.ops(N, None, km):
            ww = A.mk_wires(op[0], op[1])
            cs += [{'t': 'cont', 'N': N, 'op': op, 'c': ['w', k]} for k in containers(ww)]
            if op[2] and (N < 3 or op[1] == sorted(op[1])):
                cs += [{'t': 'cont', 'N': N, 'op': op, 'c': ['p', k]} for k in par_containers(op[2])]
    eng.map(unit, chunks(cs, 24))
    cs = [{'t': 'list', 'N': N, 'l': l, 'call': f, 'c': k} for N in (1, 2, 3, 4) for l in A.subsets(N) for k in containers(l)
          for f in ('measure', 'measure rho', 'MPS_expec', 'PauliEncoding', 'PauliEncoding contraction', 'partial_trace', 'partial_trace_old')]
    eng.map(unit, chunks(cs, 60))
