"""C27: copies and reloaded objects behave like the original and live their own lives, in every bounded history."""
import copy
import io
import itertools
import pickle
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, npy, T
from . import c08, c18, c19, c21
from .gradlib import f32vec

LEVEL = 'model_checking'
RULE = ('states = histories: actions on an object, a copy taken in one of the ways, actions on the original and on the copy; every '
        'history runs on real objects, and then original and copy are compared on every observable with what their own '
        'actions imply; transitions = actions')
BOUNDS = {
    'quick': 'ways: deepcopy, pickle protocols 2 and 5, torch.save/load, copy of a copy; every operation kind (two wire choices, its '
             'inverse, BasicEntangleLayer repeats): all histories with <=1 action before and <=2 after the copy over 7 actions (<=1 after for the ways other than deepcopy); circuits: '
             '12 starts and <=2 after over 22 actions (12 actions or <=1 after for the other ways), walks to 20; gate-list circuits, encodings and the convolution layer '
             '(deepcopy, pickle, state_dict): <=2 after',
    'thorough': '<=2 before and <=3 after for operations, <=2 after over 22 actions and <=3 after over 12 for circuits, every way',
}
TOL = 2e-5
WAYS = ['deepcopy', 'pickle2', 'pickle5', 'torch', 'twice']


def clone(x, way):
    if way == 'deepcopy':
        return copy.deepcopy(x)
    if way.startswith('pickle'):
        return pickle.loads(pickle.dumps(x, protocol=int(way[6:])))
    if way == 'torch':
        b = io.BytesIO()
        torch.save(x, b)
        b.seek(0)
        return torch.load(b, weights_only=False)
    if way == 'twice':
        return pickle.loads(pickle.dumps(copy.deepcopy(x)))
    raise KeyError(way)


# ---- operations -------------------------------------------------------------------------------------
# letters: who (0 original, 1 copy), what
OP_ACTS = [[0, 'u', 6], [1, 'u', 8], [0, 'e', 'dense'], [1, 'e', 'tn'], [0, 'e', 'mps'], [1, 'd'], [1, 'u', 'list']]


def inverse(op):
    return ['DAG', op]


def op_case(c):
    kind, w, N = c['kind'], c['w'], c.get('N', 3)
    ex = [c['extra']] if c.get('extra') else []
    n = A.nparams(kind, w, c.get('extra'))
    p = [A.gen(n), None]
    objs = [A.build([kind, w, p[0]] + ex, N, pc=c.get('pc', 'auto')), None]
    if c.get('dag'):
        objs[0] = objs[0].operation_dagger()

    def act(a):
        o = objs[a[0]]
        if a[1] == 'u' and n:
            q = A.gen(n, 3 if a[2] == 'list' else a[2])
            o.params_update(A.mk_params(kind, q, 'list' if a[2] == 'list' else 'auto'))
            p[a[0]] = q
        elif a[1] == 'e' and (a[2] == 'dense' or A.support_tn([kind])):
            c08.evaluate(o, a[2], N)
        elif a[1] == 'd' and kind not in ('BasicEntangleLayer', 'ring_of_cnot2'):
            c08.evaluate(o.operation_dagger(), 'dense', N)
    for a in c['pre']:
        act(a)
    objs[1] = clone(objs[0], c['way'])
    p[1] = list(p[0])
    for a in c['post']:
        act(a)
    for i, who in ((0, 'original'), (1, 'copy')):
        if c.get('dag'):
            if c['pre'] or c['post']:
                continue
            need(type(objs[i]) is type(objs[0]), '%s has another type' % who)
            W = ref.U([kind, w, p[i]] + ex, N).conj().T
            expect(objs[i].U_expand(), W, '%s of the inverse' % who, TOL)
            v = f32vec(make_state(N, ['g']))
            if A.support_tn([kind]):
                from ..impl import tens, to_mps, from_mps
                expect(objs[i].TN_contract(tens(v, N)), W @ v, '%s of the inverse: contraction' % who, TOL, shape=(2,) * N)
                expect(from_mps(objs[i].TN_operation(to_mps(v, N))), W @ v, '%s of the inverse: MPS' % who, TOL, shape=(1, 2 ** N))
        else:
            need(type(objs[i]) is type(objs[1 - i]), '%s has another type' % who)
            c08.observe(objs[i], [kind, w, p[i]] + ex, who, True, N)
    need(objs[0] is not objs[1], 'the copy is the original')


# ---- circuits ---------------------------------------------------------------------------------------

C_ADD = [['add', ['rx', [0], [0.7]]], ['pre', ['cphase', [0, 1], [1.9]]], ['add', ['multi_control_cnot', [0, 1], []]],
         ['add', ['XZLayer', [1, 0], A.GEN[2:6]]]]
C_ACTS = [[k] + a for a in C_ADD[:3] + [['clear'], ['U'], ['grad'], ['upd', 0, 7], ['upd', -1, 12], ['tn'], ['exp'], ['rev']] for k in (0, 1)]
C_SMALL = [[k] + a for a in (C_ADD[0], C_ADD[2], ['clear'], ['grad'], ['upd', 0, 7], ['upd', -1, 12]) for k in (0, 1)]
STARTS = [[], [C_ADD[0]], [C_ADD[3]], [C_ADD[2]], [C_ADD[0], C_ADD[1]], [C_ADD[3], ['add', ['cnot', [1, 0], []]]],
          [C_ADD[0], ['add', ['u3', [1], A.GEN[:3]]], ['add', ['BasicEntangleLayer', [1, 0], A.GEN[4:10]]]],
          [C_ADD[0], ['upd', 0, 5]], [C_ADD[0], ['clear']], [C_ADD[1], ['grad']], [C_ADD[3], ['U'], C_ADD[0]],
          [['add', ['ring_of_cnot', [0, 1], []]], ['add', ['HLayer', [1, 0], []]], ['add', ['ryy', [1, 0], [0.45]]]]]


def cir_case(c):
    qc = lib()[2]
    N = c.get('N', 2)
    cirs, ops = [qc.Circuit(N), None], [[], None]
    for a in c['start']:
        c21.act([0] + a, cirs, ops, [N, N])
    cirs[1] = clone(cirs[0], c['way'])
    ops[1] = copy.deepcopy(ops[0])
    for a in c['post']:
        c21.act(a, cirs, ops, [N, N])
    for i, who in ((0, 'original'), (1, 'copy')):
        c21.observe(cirs[i], ops[i], N, who)


# ---- gate-list circuits, encodings, convolution -----------------------------------------------------

def list_case(c):
    N = c['N']
    cirs = [c19.qg().Circuit(N), None]
    seqs = [list(c['pre']), None]
    for s in c['pre']:
        c19.do(cirs[0], s)
    if c.get('peek'):
        cirs[0].U()
    cirs[1] = clone(cirs[0], c['way'])
    seqs[1] = list(seqs[0])
    for k, s in c['post']:
        c19.do(cirs[k], s)
        seqs[k].append(s)
    for i, who in ((0, 'original'), (1, 'copy')):
        expect(cirs[i].U(), ref.U_seq([c19.rop(s) for s in seqs[i]], N), '%s: U()' % who, 4e-5)
        c19.check_log(cirs[i], seqs[i])


def enc_case(c):
    from deepquantum.embeddings import qembedding as qe
    N = c['N']
    if c['enc'] == 'amp':
        x = torch.tensor(np.array([0.3 + 0.1j, -0.7, 1.2j, 0.5])[:c['n']].astype(np.complex64))
        o = qe.AmplitudeEncoding(N, x)
        for k in range(c.get('before', 0)):
            o.encoded_state().mul_(0)
        d = clone(o, c['way'])
        v = npy(x)
        want = np.zeros(2 ** N, dtype=complex)
        want[:len(v)] = v / np.linalg.norm(v)
        for who in (d, o):
            got = who.encoded_state()
            expect(got.reshape(-1), want, 'encoded state', 3e-6)
            got.mul_(0)
        expect(d.encoded_state().reshape(-1), want, 'encoded state of the copy', 3e-6)
        return
    w, ax = c['w'], c['enc']
    p = A.gen(len(w))
    o = qe.PauliEncoding(N, torch.tensor(p), list(w), ax)
    if c.get('before'):
        o.U_expand().mul_(0)
    d = clone(o, c['way'])
    from ..impl import run_op, ENGINES
    for who, x in (('copy', d), ('original', o)):
        op = ['PauliEncoding', w, p, {'pauli': ax}]
        for e in ENGINES:
            v = f32vec(make_state(N, ['g']))
            expect(run_op(x, N, v, e), ref.apply_vec(op, v, N), '%s: %s' % (who, e), TOL)


def conv_case(c):
    b = {'stride': c['stride'], 'shape': c['shape'], 'kw': c.get('kw', {})}
    m = c18.layer(b)
    ws = [np.array(c18.weights(b), dtype=np.float32), None]
    if c.get('ran'):
        m(torch.tensor(c18.image(b)))
    if c['way'] == 'state_dict':
        d = c18.layer(dict(b, wo=5))
        d.load_state_dict(clone(m.state_dict(), 'torch'))
    else:
        d = clone(m, c['way'])
    ms = [m, d]
    ws[1] = ws[0].copy()
    for k, a in c['post']:
        if a == 'set':
            ws[k] = np.array(A.gen(len(ws[k]), 3 + k), dtype=np.float32)
            with torch.no_grad():
                ms[k].weight.copy_(torch.tensor(ws[k]))
        elif a == 'step':
            opt = torch.optim.SGD(ms[k].parameters(), lr=0.3)
            opt.zero_grad()
            ms[k](torch.tensor(c18.image(b))).sum().backward()
            opt.step()
            ws[k] = ms[k].weight.detach().numpy().copy()
    mul = float(getattr(m, 'w_mul', 1.0))
    x = c18.image(dict(b, xo=1))
    for i, who in ((0, 'original'), (1, 'copy')):
        expect(ms[i].weight, ws[i], '%s: weights' % who, 1e-6)
        expect(ms[i](torch.tensor(x)), c18.expected(x, ws[i].astype(float) * mul, 2, c['stride']), '%s: output' % who, 5e-5)
        need(ms[i].weight.requires_grad, '%s: the weights cannot be trained' % who)


def check_case(c):
    {'op': op_case, 'cir': cir_case, 'list': list_case, 'enc': enc_case, 'conv': conv_case}[c['t']](c)


def run(c, ctx):
    ctx.count('transitions', len(c.get('pre', [])) + len(c.get('start', [])) + len(c.get('post', [])) + 1)
    ctx.count('traces_validated_against_impl')
    ctx.distinct(c)
    ctx.sample(c)
    return ctx.case(c)


def unit(cs, ctx):
    for c in cs:
        if not run(c, ctx):
            return


def unit_op(u, ctx):
    base, npre, npost = u
    for way in WAYS:
        for i in range(npre + 1):
            for pre in itertools.product([a for a in OP_ACTS if a[0] == 0], repeat=i):
                for j in range(npost + 1 if npre > 1 or way == 'deepcopy' else 2):
                    for post in itertools.product(OP_ACTS, repeat=j):
                        if not run(dict(base, way=way, pre=list(pre), post=list(post)), ctx):
                            return


def unit_cir(u, ctx):
    way, start, first, depth, letters = u
    for rest in itertools.product(letters, repeat=max(0, depth - 1)):
        if not run({'t': 'cir', 'way': way, 'start': start, 'post': ([first] if depth else []) + list(rest)}, ctx):
            return


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    import deepquantum.nn.modules.quanv    # noqa: F401
    units = []
    cs = []
    for kind in A.ALL_KINDS:
        ws = c08.wires_for(kind)[0:1] if A.nparams(kind, [0, 1, 2]) else [[[2, 0, 1]]] if kind == 'toffoli' else [[[2, 0]]] if \
            A.arity(kind)[0] == 2 else [[[1]]]
        w = ws[0][0]
        for e in [None] + ([{'repeat': 2}] if kind == 'BasicEntangleLayer' else []):
            b = {'t': 'op', 'kind': kind, 'w': w}
            if e:
                b['extra'] = e
            units.append((b, 1 if q else 2, 2 if A.nparams(kind, w) else 1) if q else (b, 2, 3 if A.nparams(kind, w) and not e else 2))
        for N in (1, 2, 3, 4):
            for w in A.wire_choices(kind, N, 3):
                if N < 4 or w[0] > 1:
                    for way in WAYS:
                        cs.append({'t': 'op', 'kind': kind, 'w': w, 'N': N, 'way': way, 'pre': [], 'post': [[1, 'u', 8]]})
                        cs.append({'t': 'op', 'kind': kind, 'w': w, 'N': N, 'way': way, 'pre': [[0, 'u', 4]], 'post': [], 'pc': 'list'})
                        if kind not in ('BasicEntangleLayer', 'ring_of_cnot2'):
                            cs.append({'t': 'op', 'kind': kind, 'w': w, 'N': N, 'way': way, 'pre': [], 'post': [], 'dag': 1})
    eng.map(unit_op, units)
    eng.map(unit, chunks(cs, 40))
    units = [(way, s, None, 0, []) for way in WAYS for s in STARTS]
    units += [(way, s, a, 1, C_ACTS) for way in WAYS for s in STARTS for a in C_ACTS]
    units += [(way, s, a, 2, C_ACTS if way == 'deepcopy' or not q else C_SMALL) for way in (WAYS[::2] if q else WAYS) for s in STARTS
              for a in (C_ACTS if way == 'deepcopy' or not q else C_SMALL)]
    if not q:
        units += [(way, s, a, 3, C_SMALL) for way in ('deepcopy', 'pickle5') for s in STARTS for a in C_SMALL]
    eng.map(unit_cir, units)
    cs = []
    for i, way in enumerate(WAYS):
        for a in (1, 5, 7):
            for n in (8, 20):
                for N in (2, 3):
                    cs.append({'t': 'cir', 'N': N, 'way': way, 'start': STARTS[6], 'post': [C_ACTS[(k * a + i * 3) % len(C_ACTS)] for k in range(n)]})
    al = c19.calls(2)
    for way in WAYS:
        for pre in ([], [al[0]], [al[5], al[-1]], [al[9], al[3], al[-2]]):
            for k in (0, 1):
                for s in al:
                    cs.append({'t': 'list', 'N': 2, 'way': way, 'pre': pre, 'post': [[k, s]], 'peek': k})
                    cs.append({'t': 'list', 'N': 2, 'way': way, 'pre': pre, 'post': [[k, s], [1 - k, al[4]]]})
        for N in (1, 2, 3):
            for ax in 'XYZ':
                for w in A.subsets(N):
                    cs += [{'t': 'enc', 'enc': ax, 'N': N, 'w': w, 'way': way, 'before': b} for b in (0, 1)]
            cs += [{'t': 'enc', 'enc': 'amp', 'N': N, 'n': n, 'way': way, 'before': b} for n in range(1, min(4, 2 ** N) + 1) for b in (0, 1)]
    eng.map(unit, chunks(cs, 30))
    cs = []
    for way in WAYS + ['state_dict']:
        for ran in (0, 1):
            for post in [[]] + [[[k, a]] for k in (0, 1) for a in ('set', 'step')] + [[[k, a], [j, b]] for k in (0, 1) for j in (0, 1)
                                                                                   for a in ('set', 'step') for b in ('set', 'step')]:
                cs.append({'t': 'conv', 'way': way, 'ran': ran, 'post': post, 'stride': 1, 'shape': [1, 1, 2, 3] if len(post) < 2 else [1, 1, 2, 2]})
    for kw in ({'use_wscale': False}, {'lrmul': 0.5}):
        cs += [{'t': 'conv', 'way': way, 'post': [[1, 'step']], 'stride': 2, 'shape': [1, 1, 2, 2], 'kw': kw} for way in WAYS + ['state_dict']]
    eng.map(unit, chunks(cs, 6))
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
