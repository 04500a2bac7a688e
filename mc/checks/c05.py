"""C05: batched contraction against evolving each state alone, for every operation, wire tuple, batch shape and layout."""
import itertools
import numpy as np
import torch
from .. import alpha as A
from ..impl import expect, lib, need, gstate, basis, product, T, tens, npy

LEVEL = 'exploration'
RULE = ('one case = register size x batch (size, contents, memory layout) x operation sequence; oracle: the same '
        'operations evolving every entry alone; distinct = distinct (N, batch, sequence)')
BOUNDS = {
    'quick': 'N<=4 all operations x {all basis states, B=1,2,3,5, repeated entries, one entry scaled by 1e3} x '
             'batch layouts; N=5 <=3 wires; N=6..7 all ordered pairs; all 2-operation circuits on 3 qubits (<=2 wires); 25 '
             'batch sizes from 1 to 129 for each kind (N<=5); wide layers/rings N=4..6; walks of 3..30 operations N=2..10; special angles and nearly equal operations, N<=3',
    'thorough': 'N=5 all, N=6 <=4 wires; all 2-operation circuits on 3 qubits and (<=2 wires) 4; length 3 over <=2 wires',
}
TOL = 2e-5


def batch(N, b):
    """Batch descriptor -> list of states (first item of b names it)."""
    kind = b[0]
    if kind == 'basis':
        return [basis(N, i) for i in range(2 ** N)]
    if kind == 'gen':
        return [gstate(N, k) for k in range(b[1])]
    if kind == 'mix':
        x = [gstate(N), basis(N, 2 ** N - 1), product(N), gstate(N), gstate(N, 3), basis(N, 0), product(N, 2)]
        x += [gstate(N, 5 + k) for k in range(b[1] - 7)]
        return x[:b[1]]
    if kind == 'scaled':                    # an entry of very different size must not leak
        x = [gstate(N, k) for k in range(3)]
        x[1] = 1e3 * x[1]
        return x
    raise KeyError(b)


def lay_out(vs, N, lay):
    t = T(np.array(vs)).view([len(vs)] + [2] * N)
    if lay == 'last':                       # batch axis fastest in memory
        return t.permute(list(range(1, N + 1)) + [0]).contiguous().permute([N] + list(range(N)))
    if lay == 'rev':
        p = list(range(N + 1))[::-1]
        return t.permute(p).contiguous().permute(p)
    if lay == 'slice':
        big = torch.zeros([2 * len(vs)] + [2] * N, dtype=t.dtype)
        big[::2] = t
        return big[::2]
    if lay == 'expand':
        return t[:1].expand(len(vs), *([2] * N))
    return t


def check_case(c):
    N, ops = c['N'], c['ops']
    vs = batch(N, c['b'])
    if c.get('lay') == 'expand':
        vs = [vs[0]] * len(vs)
    t = lay_out(vs, N, c.get('lay'))
    if c.get('t') == 'circuit':
        out = A.circuit(ops, N).TN_contract_evolution(t, batch_mod=True)
    else:
        out = t
        for op in ops:
            out = A.build(op, N).TN_contract(out, batch_mod=True)
    need(isinstance(out, torch.Tensor) and tuple(out.shape) == (len(vs),) + (2,) * N,
         'batched result has shape %s for %d states of %d qubits' % (tuple(getattr(out, 'shape', ())), len(vs), N))
    single = [A.build(op, N) for op in ops]
    got = npy(out)
    for i, v in enumerate(vs):
        s = tens(v, N)
        for o in single:
            s = o.TN_contract(s)
        sc = max(1.0, float(np.abs(v).max()))
        expect(got[i] / sc, npy(s) / sc, 'batch entry %d of %d' % (i, len(vs)), c.get('tol', TOL))


def go(ctx, c):
    ctx.count('evaluations')
    ctx.distinct(c)
    ctx.sample(c)
    return ctx.case(c)


def unit_ops(u, ctx):
    N, kind, kmax, bs, lays = u
    for op in A.ops(N, [kind], kmax):
        for b in bs:
            if not go(ctx, {'N': N, 'ops': [op], 'b': b}):
                return
        for lay in lays:
            if not go(ctx, {'N': N, 'ops': [op], 'b': ['mix', 3], 'lay': lay}):
                return


def unit_seq(u, ctx):
    N, kmax, pre, depth, b = u
    al = A.tn_ops(N, kmax)
    for rest in itertools.product(al, repeat=depth - len(pre)):
        if not go(ctx, {'N': N, 'ops': [al[i] for i in pre] + list(rest), 'b': b, 't': 'circuit'}):
            return


def unit_sizes(u, ctx):
    """Every batch size for a few operations of each kind."""
    N, kind = u
    al = A.ops(N, [kind], 3)
    for op in al[::max(1, len(al) // 3)]:
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 129):
            if not go(ctx, {'N': N, 'ops': [op], 'b': ['mix', n]}):
                return


def unit_special(u, ctx):
    N, kind = u
    for prog in A.special_progs(N, [kind]):
        if not go(ctx, {'N': N, 'ops': prog, 'b': ['mix', 2], 't': 'circuit'}):
            return


def unit_wide(u, ctx):
    N, kind = u
    for w in A.wide_choices(kind, N):
        for n in (2, 3, N):
            if not go(ctx, {'N': N, 'ops': [[kind, w, A.gen(A.nparams(kind, w))]], 'b': ['mix', n]}):
                return


def unit_walk(u, ctx):
    N, n, a, b, size = u
    al = A.full(N, True) if N <= 8 else A.large_ops(N)
    go(ctx, {'N': N, 'ops': A.strided(al, n, a, b), 'b': ['mix', size], 't': 'circuit', 'tol': 1e-4})


def unit_long(c, ctx):
    go(ctx, c)


def explore(eng):
    q = eng.quick
    kinds = [k for k in A.ALL_KINDS if k not in A.NO_TN]
    bs = [['gen', 1], ['mix', 2], ['mix', 3], ['mix', 5], ['basis'], ['scaled']]
    lays = ['last', 'rev', 'slice', 'expand']
    for N in (1, 2, 3):
        eng.map(unit_ops, [(N, k, None, bs + [['mix', 4], ['mix', 7]], lays) for k in kinds])
    eng.map(unit_ops, [(4, k, None, [['mix', 3], ['mix', 4], ['mix', 5], ['mix', 2]], lays[:2]) for k in kinds])
    eng.map(unit_ops, [(5, k, 3 if q else None, [['mix', 2], ['mix', 3]], []) for k in kinds])
    if not q:
        eng.map(unit_ops, [(4, k, None, bs, lays) for k in kinds])
        eng.map(unit_ops, [(6, k, 4, [['mix', 3]], []) for k in kinds])
    eng.map(unit_ops, [(N, k, 2, [['mix', 3], ['mix', 1]], []) for N in (6, 7) for k in kinds])
    eng.map(unit_sizes, [(N, k) for N in (1, 2, 3, 4, 5) for k in kinds])
    eng.map(unit_special, [(N, k) for N in (1, 2, 3) for k in kinds])
    eng.map(unit_wide, [(N, k) for N in ((4, 5, 6) if q else (4, 5, 6, 7)) for k in kinds])
    eng.map(unit_walk, [(N, n, a, b, z) for N, n in ((2, 30), (3, 30), (4, 30), (5, 20), (6, 10), (7, 6)) for z in (2, 3, 6, 9)
                        for a in (1, 7, 31) for b in range(3 if q else 30)])
    eng.map(unit_walk, [(N, 3, 13, b, z) for N in (8, 9, 10) for z in (1, 2, 5) for b in range(0, 60, 6 if q else 1)])
    n = len(A.tn_ops(3, 2))
    eng.map(unit_seq, [(3, 2, [i], 2, ['mix', 3]) for i in range(n)])
    al = A.tn_ops(3)
    eng.map(unit_long, [{'N': 3, 'ops': [a, b] * 10, 'b': ['mix', 2], 't': 'circuit', 'tol': 1e-4}
                        for a, b in zip(al, al[5:] + al[:5])])
    if not q:
        eng.map(unit_seq, [(3, None, [i], 2, ['mix', 2]) for i in range(len(al))])
        m = len(A.tn_ops(4, 2))
        eng.map(unit_seq, [(4, 2, [i], 2, ['mix', 2]) for i in range(m)])
        eng.map(unit_seq, [(3, 2, [i, j], 3, ['mix', 2]) for i in range(n) for j in range(n)])
