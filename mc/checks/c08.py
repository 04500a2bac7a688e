"""C08: every history of updates and evaluations of coexisting operations leaves each one like a freshly built one."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, to_mps, from_mps, tens, T, npy

LEVEL = 'model_checking'
RULE = ('states = (kind, wires of two coexisting operations, action history); every history is replayed on freshly built '
        'real objects and both are then compared with the reference and a newly built operation on all observables')
BOUNDS = {
    'quick': 'every parameterised kind (and HLayer/ring for evaluations) x 2 wire choices x all action histories of '
             'length <=3 (3 for the first wire choice only) over 14 actions (updates in 4 containers, one-slot updates, evaluation on each engine, '
             'inverse taken and updated, update of the second operation); 36 fixed histories (length 0..25) for every wire list of <=3 wires (N<=3), <=2 (N=4,5) and wide '
             'lists (N<=7), BasicEntangleLayer repeat 1..6',
    'thorough': 'length <=4',
}
TOL = 2e-5


def wires_for(kind):
    lo = A.arity(kind)[0]
    if lo == 1 and A.arity(kind)[1] == 1:
        return [[[1], [1]], [[2], [0]]]
    if kind in A.ROT_LAYERS:
        return [[[2, 0], [2, 0]], [[0, 1, 2], [1]]]
    if kind == 'BasicEntangleLayer':
        return [[[2, 0], [2, 0]], [[0, 1, 2], [1, 2]]]
    return [[[2, 0], [2, 0]], [[0, 1], [1, 2]]]


def values(n, k):
    """Parameter vectors used in updates."""
    if k == 'first':
        p = A.gen(n)
        p[0] += 1.5707
        return p
    if k == 'last':
        p = A.gen(n)
        p[-1] -= 1.5707
        return p
    if k in ('zero', 'turn', 'pi'):
        return [{'zero': 0.0, 'turn': 2 * A.PI, 'pi': A.PI}[k]] * n
    if k in ('near', 'neg', 'plus'):                   # almost the parameters every operation starts with
        f = {'near': lambda x: x + 3e-4, 'neg': lambda x: -x, 'plus': lambda x: x + 2 * A.PI}[k]
        return [f(x) for x in A.gen(n)]
    if k == 'rev':                                     # the same numbers in another order
        return A.gen(n)[::-1]
    return A.gen(n, k)


ACTIONS = [['uA', 6, 'auto'], ['uA', 0, 'auto'], ['uA', 11, 'list'], ['uA', 3, 'grad'], ['uA', 'last', 'auto'],
           ['uA', 'first', 't1'], ['uB', 8, 'auto'], ['eA', 'dense'], ['eA', 'mps'], ['eA', 'tn'], ['eA', 'batch'],
           ['dA'], ['eB', 'dense'], ['sAB', 5]]


def evaluate(o, engine, N):
    v = make_state(N, ['p', 1])
    if engine == 'dense':
        r = o.U_expand()
        r.detach().mul_(0)                 # the returned matrix belongs to the caller
    elif engine == 'mps':
        m = o.TN_operation(to_mps(v, N))
        for t in m:
            t.detach().mul_(0)
    elif engine == 'tn':
        o.TN_contract(tens(v, N))
    else:
        o.TN_contract(torch.stack([tens(v, N)] * 2), batch_mod=True)


def norm(x):
    if isinstance(x, torch.Tensor):
        return np.round(npy(x).reshape(-1), 5).tolist()
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, range)):
        return [norm(v) for v in x]
    return x


def observe(o, op, who, deep, N):
    expect(o.U_expand(), ref.U(op, N), '%s: dense operator' % who, TOL)
    k = len(op[1])
    m = getattr(o, 'matrix', None)
    if isinstance(m, torch.Tensor) and A.arity(op[0])[1] is not None:
        expect(m, ref.U([op[0], list(range(k)), op[2]], k), '%s: matrix' % who, TOL)
    fresh = A.build(op, N)
    need(norm(o.info()) == norm(fresh.info()), '%s: info() is %s, a new operation says %s'
         % (who, norm(o.info()), norm(fresh.info())))
    need(o.num_params == fresh.num_params and o.nqubits == fresh.nqubits and o.supportTN == fresh.supportTN,
         '%s: declared counts changed' % who)
    if op[2]:
        expect(o.params.reshape(-1), np.array([ref.f32(x) for x in op[2]]), '%s: params' % who, 1e-6)
    v = make_state(N, ['g'])
    w = ref.apply_vec(op, v, N)
    if A.support_tn(op):
        expect(from_mps(o.TN_operation(to_mps(v, N))), w, '%s: MPS' % who, TOL, shape=(1, 2 ** N))
        expect(o.TN_contract(tens(v, N)), w, '%s: contraction' % who, TOL, shape=(2,) * N)
        if deep:
            b = torch.stack([tens(v, N), tens(make_state(N, ['p']), N)])
            expect(o.TN_contract(b, batch_mod=True)[0], w, '%s: batched' % who, TOL, shape=(2,) * N)
    if op[0] not in ('BasicEntangleLayer', 'ring_of_cnot2'):
        d = o.operation_dagger()
        expect(d.U_expand(), ref.U(op, N).conj().T, '%s: inverse' % who, TOL)
        if A.support_tn(op) and deep:
            back = d.TN_contract(tens(w, N))
            expect(back, v, '%s: inverse (contraction)' % who, TOL, shape=(2,) * N)
            expect(from_mps(d.TN_operation(to_mps(w, N))), v, '%s: inverse (MPS)' % who, TOL, shape=(1, 2 ** N))


def check_case(c):
    kind, wa, wb, hist = c['kind'], c['wa'], c['wb'], c['hist']
    N = c.get('N', 3)
    ex = [c['extra']] if c.get('extra') else []
    na, nb = A.nparams(kind, wa, c.get('extra')), A.nparams(kind, wb, c.get('extra'))
    pa, pb = A.gen(na), A.gen(nb, 2)
    a, b = A.build([kind, wa, pa] + ex, N), A.build([kind, wb, pb] + ex, N)
    for act in hist:
        t = act[0]
        if t == 'uA' and na:
            pa = values(na, act[1])
            a.params_update(A.mk_params(kind, pa, act[2]))
        elif t == 'uB' and nb:
            pb = values(nb, act[1])
            b.params_update(A.mk_params(kind, pb, 'auto'))
        elif t == 'sAB' and na and na == nb:            # both handed the very same tensor
            pa = pb = values(na, act[1])
            s = A.mk_params(kind, pa, 'auto')
            a.params_update(s)
            b.params_update(s)
        elif t == 'eA' and (act[1] == 'dense' or A.support_tn([kind])):
            evaluate(a, act[1], N)
        elif t == 'eB':
            evaluate(b, act[1], N)
        elif t == 'dA' and kind not in ('BasicEntangleLayer', 'ring_of_cnot2'):
            d = a.operation_dagger()                    # the inverse is its own operation
            evaluate(d, 'dense', N)
            if na:
                d.params_update(A.mk_params(kind, A.gen(na, 9), 'auto'))
    observe(a, [kind, wa, pa] + ex, 'first operation', c.get('deep', True), N)
    observe(b, [kind, wb, pb] + ex, 'second operation', False, N)


def unit(u, ctx):
    kind, wa, wb, pre, depth, extra, deep = u
    for rest in itertools.product(ACTIONS, repeat=depth - len(pre)):
        hist = pre + list(rest)
        c = {'kind': kind, 'wa': wa, 'wb': wb, 'hist': hist, 'deep': deep}
        if extra:
            c['extra'] = extra
        ctx.count('transitions', len(hist))
        ctx.distinct((kind, wa, wb, hist, extra))
        ctx.sample(c)
        if not ctx.case(c):
            return
        ctx.count('traces_validated_against_impl')


SHORT = [[], [['uA', 6, 'auto']], [['uA', 'last', 'list']], [['uA', 'first', 'grad']], [['uB', 8, 'auto']], [['eA', 'dense']],
         [['eA', 'dense'], ['uA', 6, 'auto']], [['uA', 6, 'auto'], ['eA', 'mps']], [['eA', 'tn'], ['uA', 3, 'auto']],
         [['uA', 6, 'auto'], ['uA', 0, 'auto']], [['uA', 11, 'list'], ['dA']], [['dA'], ['uA', 6, 'auto']],
         *[[['uA', k, 'auto']] for k in ('zero', 'turn', 'pi', 'near', 'neg', 'plus', 'rev')],
         *[[['eA', 'dense'], ['uA', k, 'auto'], ['eA', 'tn'], ['uB', k, 'auto']] for k in ('near', 'neg', 'plus', 'rev')],
         [['uA', 'zero', 'list'], ['uA', 6, 'auto']], [['uA', 'near', 'auto'], ['uA', 0, 'auto']],
         [['sAB', 5]], [['eA', 'batch'], ['uA', 'last', 'auto'], ['eA', 'batch']]]


def unit_shapes(u, ctx):
    """Short histories over many register sizes, wire lists and repeat counts."""
    N, kind, wa, extra = u
    wb = wa if A.arity(kind)[1] == 1 else wa[::-1]
    hs = list(SHORT)
    for n in (6, 12, 25):                       # long histories: walks over the actions
        hs += [[ACTIONS[(i * a + n) % len(ACTIONS)] for i in range(n)] for a in (1, 5, 11)]
    for hist in hs:
        c = {'N': N, 'kind': kind, 'wa': wa, 'wb': wb, 'hist': hist, 'deep': True}
        if extra:
            c['extra'] = extra
        ctx.count('transitions', len(hist))
        ctx.distinct((N, kind, wa, wb, hist, extra))
        if not ctx.case(c):
            return
        ctx.count('traces_validated_against_impl')


def explore(eng):
    kinds = [k for k in A.ALL_KINDS if A.nparams(k, [0, 1, 2])]
    plain = [k for k in A.ALL_KINDS if not A.nparams(k, [0, 1, 2]) and k not in ('toffoli', 'multi_control_cnot', 'ring_of_cnot2')]
    for depth in range(0, 4 if eng.quick else 5):
        units = []
        for i in range(2):
            for k in kinds:
                wa, wb = wires_for(k)[i]
                ext = [None] + ([{'repeat': 2}] if k == 'BasicEntangleLayer' else [])
                for e in ext:
                    if e and depth > 2:
                        continue
                    if depth == 0:
                        units.append((k, wa, wb, [], 0, e, True))
                    else:
                        if depth == 3 and eng.quick and i == 1:
                            continue
                        units += [(k, wa, wb, [x], depth, e, depth < 3) for x in ACTIONS]
        eng.map(unit, units)
    units = []
    for k in plain:
        w = [[1], [0]] if A.arity(k)[1] == 1 else [[2, 0], [0, 1, 2]] if k in A.RINGS + ['HLayer'] else [[2, 0], [0, 1]]
        units.append((k, w[0], w[1], [], 2, None, True))
        units.append((k, w[1], w[0], [], 2, None, True))
    eng.map(unit, units)
    shapes = []
    for k in kinds:
        for N in (1, 2, 3, 4, 5):
            for w in A.wire_choices(k, N, 2 if N > 3 else None):
                if A.arity(k)[1] == 1 or N <= 3 or not eng.quick or (w[0] + len(w)) % 2 == 0:
                    shapes.append((N, k, w, None))
            shapes += [(N, k, w, None) for w in A.wide_choices(k, N)]
        for N in (6, 7):
            shapes += [(N, k, w, None) for w in A.wide_choices(k, N, N)[1::2][:2]]
    for N, w in ((2, [0, 1]), (3, [2, 0]), (3, [1, 2, 0]), (4, [3, 0, 1, 2])):
        shapes += [(N, 'BasicEntangleLayer', w, {'repeat': r}) for r in (1, 2, 3, 4, 5, 6)]
    eng.map(unit_shapes, shapes)
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
