"""C33: training sessions: every sequence of gradient routes gives the exact optimiser trajectory."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, row, tens, T, npy, to_mps, from_mps
from .gradlib import f32vec

LEVEL = 'model_checking'
RULE = ('one execution = circuit x way of feeding the weights x optimiser x sequence of gradient routes, one route per training '
        'step; every sequence up to the depth bound is run on the real code; the gradient and the weights are compared '
        'with a double-precision trajectory after every step, and the circuit is evaluated without gradients at the new weights')
BOUNDS = {
    'quick': '9 routes (autograd through the operator, contraction, batch, matrix product states, both expectations and measure; parameter shift; saved states); every '
             'sequence of 2 routes x 8 circuits x 3 ways of feeding x 3 optimisers, every sequence of 3 for 2 circuits, one route (and '
             'pairs of routes alternating) for 12 steps',
    'thorough': 'every sequence of 3 routes for every circuit, of 4 for 2 circuits, alternating routes for 40 steps',
}
ROUTES = ['U', 'tn', 'batch', 'mps', 'expTN', 'expU', 'meas', 'shift', 'fb']
FEEDS = ['rebuild', 'update', 'updlist']
OPTS = ['sgd', 'momentum', 'adam']
Y = 0.35                    # the target of the loss (E - Y)^2


def circuits():
    g = A.gen
    return [
        (2, [['ry', [0], g(1)], ['cnot', [0, 1], []], ['rx', [1], g(1, 2)]], 1),
        (2, [['u3', [1], g(3)], ['rxx', [1, 0], g(1, 4)], ['cphase', [1, 0], g(1, 2)], ['ry', [0], g(1, 7)]], 0),
        (3, [['YZYLayer', [0, 1, 2], g(9)], ['ring_of_cnot', [0, 1, 2], []], ['ry', [2], g(1, 3)]], 2),
        (3, [['Hadamard', [1], []], ['ryy', [2, 0], g(1)], ['cu3', [0, 1], g(3, 5)], ['XZLayer', [2, 0], g(4, 3)]], 1),
        (3, [['rzz', [0, 1], g(1, 2)], ['ry', [0], g(1)], ['ry', [0], g(1, 5)], ['toffoli', [2, 0, 1], []], ['rx', [1], g(1, 3)]], 1),
        (2, [['XYZLayer', [1, 0], g(6)], ['SWAP', [0, 1], []], ['u1', [1], g(1, 8)], ['ry', [1], g(1, 2)]], 1),
        (1, [['rz', [0], g(1)], ['ry', [0], g(1, 3)], ['u3', [0], g(3, 5)]], 0),
        (4, [['HLayer', [0, 1, 2, 3], []], ['ZXLayer', [3, 1], g(4)], ['ring_of_cnot', [3, 0, 2], []], ['ry', [2], g(1, 6)]], 2),
    ]


def sizes(ops):
    return [len(o[2]) for o in ops]


def with_params(ops, w):
    out, i = [], 0
    for o in ops:
        n = len(o[2])
        out.append([o[0], o[1], [float(x) for x in w[i:i + n]]] + list(o[3:]))
        i += n
    return out


def pieces(ops, w):
    out, i = [], 0
    for o in ops:
        n = len(o[2])
        out.append(None if not n else w[i] if o[0] in A.KINDSP_1 + A.KINDSP_2 else w[i:i + n])
        i += n
    return out


def make(ops, N, w):
    cir = lib()[2].Circuit(N)
    for o, p in zip(ops, pieces(ops, w)):
        A.add(cir, o, params=p)
    return cir


class Session:
    def __init__(self, N, ops, q, feed):
        self.N, self.ops, self.q, self.feed = N, ops, q, feed
        self.v = f32vec(make_state(N, ['g']))
        self.M = ref.embed(ref.Z, [q], N)
        self.cir = None

    def circuit(self, w):
        if self.cir is None or self.feed == 'rebuild':
            self.cir = make(self.ops, self.N, w)
            self.ps = lib()[2].parameter_shift(self.cir, row(self.v), T(self.M))
        else:
            for g, p, o in zip(self.cir.gate, pieces(self.ops, w), self.ops):
                if p is not None:
                    if self.feed == 'updlist' and not p.requires_grad and p.dim():
                        p = [float(x) for x in p]
                    g.params_update(p)
        return self.cir

    def loss(self, route, w):
        """Value of the loss, with its gradient left in w.grad."""
        qo, _, _, qt, qm = lib()
        N, v = self.N, self.v
        if route in ('shift', 'fb'):
            cir = self.circuit(w if route == 'fb' and self.feed != 'updlist' else w.detach().clone())
            e = cir.cir_expectation(row(v), T(self.M)).detach()
            if route == 'shift':
                g = self.ps.cal_params_grad()
            else:
                saved, _ = self.ps.save_mid_MPS(qo.PauliZ(N, self.q))
                g = self.ps.cal_params_grad2(saved)
            w.grad = (2 * (e - Y) * g.detach()).to(w.dtype).reshape(-1)
            return float((e - Y) ** 2)
        cir = self.circuit(w)
        if route in ('expTN', 'expU'):
            e = cir.cir_expectation(row(v), T(self.M), TN=route == 'expTN')
        else:
            if route in ('U', 'meas'):
                out = (cir.U() @ T(v).view(-1, 1)).reshape(-1)
            elif route == 'tn':
                out = cir.TN_contract_evolution(tens(v, N)).reshape(-1)
            elif route == 'batch':
                out = cir.TN_contract_evolution(torch.stack([tens(make_state(N, ['p']), N), tens(v, N)]), batch_mod=True)[1].reshape(-1)
            else:
                out = from_mps(cir.TN_evolution(to_mps(v, N))).reshape(-1)
            if route == 'meas':
                e = qm.measure(N, out, self.q).reshape(())
            else:
                e = qm.expval(out, T(self.M))
        loss = (e - Y) ** 2
        loss.sum().backward()
        return float(loss)


    def evaluate(self, w, what):
        """Validation between two training steps: both evolutions without gradients, at the weights as they are now."""
        with torch.no_grad():
            cir = self.circuit(w)
            want = state_of(with_params(self.ops, npy(w).real), self.N, self.v)
            expect((cir.U() @ T(self.v).view(-1, 1)).reshape(-1), want, what + ': evaluation by the operator', 2e-5)
            expect(cir.TN_contract_evolution(tens(self.v, self.N)).reshape(-1), want, what + ': evaluation by contraction', 2e-5)


class RefOpt:
    """Textbook optimisers in double precision."""

    def __init__(self, name, n):
        self.name, self.m, self.s, self.k = name, np.zeros(n), np.zeros(n), 0

    def step(self, w, g):
        self.k += 1
        if self.name == 'sgd':
            return w - 0.3 * g
        if self.name == 'momentum':
            self.m = g if self.k == 1 else 0.8 * self.m + g
            return w - 0.2 * self.m
        self.m = 0.9 * self.m + 0.1 * g
        self.s = 0.99 * self.s + 0.01 * g * g
        mh, sh = self.m / (1 - 0.9 ** self.k), self.s / (1 - 0.99 ** self.k)
        return w - 0.1 * mh / (np.sqrt(sh) + 0.05)


def real_opt(name, w):
    if name == 'sgd':
        return torch.optim.SGD([w], lr=0.3)
    if name == 'momentum':
        return torch.optim.SGD([w], lr=0.2, momentum=0.8)
    return torch.optim.Adam([w], lr=0.1, betas=(0.9, 0.99), eps=0.05)


def check_case(c):
    N, ops, q = circuits()[c['c']]
    w = torch.tensor([float(x) for o in ops for x in o[2]], requires_grad=True)
    s = Session(N, ops, q, c['feed'])
    opt, ro = real_opt(c['opt'], w), RefOpt(c['opt'], w.numel())
    ww = npy(w).real
    for k, r in enumerate(c['routes']):
        cur = with_params(ops, ww)
        e = (lambda x: float(np.real(np.vdot(x, s.M @ x))))(state_of(cur, N, s.v))
        g = 2 * (e - Y) * np.asarray(ref.grad_expectation(cur, N, s.v, s.M))
        opt.zero_grad()
        what = 'step %d (%s) of %s, weights %s, %s' % (k + 1, r, '>'.join(c['routes'][:k + 1]), c['feed'], c['opt'])
        val = s.loss(r, w)
        need(abs(val - (e - Y) ** 2) <= 2e-4 * (1 + k / 4), '%s: loss %s instead of %s' % (what, val, (e - Y) ** 2))
        need(w.grad is not None, what + ': no gradient')
        tol = 3e-3 if r in ('mps', 'expTN') else 1e-3
        expect(w.grad, g, what + ': gradient', tol * (1 + k / 4))
        opt.step()
        ww = ro.step(ww, g)
        expect(w.detach(), ww, what + ': weights', 1.5e-3 * (1 + k / 4))
        s.evaluate(w, what)


def state_of(ops, N, v):
    for o in ops:
        v = ref.apply_vec(o, v, N)
    return v


def unit(u, ctx):
    for c in u:
        if not ctx.case(c):
            return
        ctx.count('transitions', len(c['routes']))
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)
        ctx.sample(c)


def explore(eng):
    q = eng.quick
    cases = []
    n = len(circuits())
    for ci in range(n):
        for k in (1, 2) if q else (1, 2, 3):
            for f, o in itertools.product(FEEDS, OPTS):
                cases += [{'c': ci, 'feed': f, 'opt': o, 'routes': list(r)} for r in itertools.product(ROUTES, repeat=k)]
    for ci in (1, 3):
        for f in FEEDS[1:]:
            cases += [{'c': ci, 'feed': f, 'opt': 'sgd', 'routes': list(r)} for r in itertools.product(ROUTES, repeat=3 if q else 4)]
    for ci in range(n):
        for a, b in itertools.product(ROUTES, repeat=2):
            if q and (ci + ROUTES.index(a) + 2 * ROUTES.index(b)) % 4:
                continue
            for f in FEEDS:
                cases.append({'c': ci, 'feed': f, 'opt': OPTS[(ci + ROUTES.index(a)) % 3], 'routes': [a, b] * (6 if q else 20)})
    # differentiating a matrix product decomposition of 4 qubits is ill-conditioned (see C11)
    cases = [c for c in cases if circuits()[c['c']][0] < 4 or not {'mps', 'expTN'} & set(c['routes'])]
    eng.map(unit, [cases[i:i + 20] for i in range(0, len(cases), 20)])
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
