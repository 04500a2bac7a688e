"""C01: every gate/layer operator against its textbook definition, over the whole bounded input space."""
import itertools
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need

LEVEL = 'exploration'
RULE = ('one case = kind x register size x ordered distinct wire tuple x parameter vector x container; '
        'non-trivial = distinct (kind, N, wires, params) with some parameter not 0')
BOUNDS = {
    'quick': 'N<=4 all kinds and all ordered wire tuples; N=5 tuples up to length 3; N=6..8 up to length 2; every '
             'listed angle in every parameter slot (N<=3, <=3 wires); wire lists of size >=4 (all subsets, four orders) for N=4..7; '
             'all toffoli triples N<=7; BasicEntangleLayer repeat 1..8; {0,pi/2,-pi,0.7}^3 for u3/cu3; all containers',
    'thorough': 'N<=5 all tuples; N=6 up to length 4; N=7..9 up to length 2; angle grid on N<=4; wide wire lists N<=9; all toffoli triples N<=8',
}
TOL = 2e-5


def check_case(c):
    op, N = c['op'], c['N']
    if c.get('bare'):                       # gate without register: only its own small matrix
        qo = lib()[0]
        cls = getattr(qo, op[0])
        o = cls(A.mk_params(op[0], op[2], c['pc'])) if op[2] else cls()
        small = [op[0], list(range(A.arity(op[0])[0])), op[2]]
        expect(o.matrix, ref.U(small, len(small[1])), '%s().matrix' % op[0], TOL)
        return
    o = A.build(op, N, c.get('pc', 'auto'), c.get('wc', 'list'))
    want = ref.U(op, N)
    expect(o.U_expand(), want, '%s on %s of %d' % (op[0], op[1], N), TOL)
    need(torch.is_complex(o.U_expand()), '%s: operator is not complex' % op[0])
    m = getattr(o, 'matrix', None)
    if isinstance(m, torch.Tensor) and A.arity(op[0])[1] is not None:
        k = len(op[1])
        expect(m, ref.U([op[0], list(range(k)), op[2]], k), '%s.matrix' % op[0], TOL)
    expect(o.U_expand(), want, '%s on %s of %d, second evaluation' % (op[0], op[1], N), TOL)


def _do(ctx, c):
    op, N = c['op'], c['N']
    ctx.count('evaluations')
    if not op[2] or any(op[2]):
        ctx.distinct((N, op))
    ctx.sample(c)
    return ctx.case(c)


def unit_wires(u, ctx):
    N, kind, kmax = u
    for off in (0, 5):
        for w in A.wire_choices(kind, N, kmax):
            n = A.nparams(kind, w)
            if off and not n:
                continue
            for wc in ('list', 'tuple'):
                if not _do(ctx, {'N': N, 'op': [kind, w, A.gen(n, off)], 'wc': wc}):
                    return
                if len(w) == 1 or kind == 'multi_control_cnot':
                    break
        if kind == 'BasicEntangleLayer' and N <= 3:
            for w in A.wire_choices(kind, N, kmax):
                for r in (2, 3):
                    ex = {'repeat': r}
                    if not _do(ctx, {'N': N, 'op': [kind, w, A.gen(A.nparams(kind, w, ex), off), ex]}):
                        return


def unit_wide(u, ctx):
    N, kind = u
    for w in A.wide_choices(kind, N):
        exs = [None]
        if kind == 'BasicEntangleLayer' and (len(w) <= 4 or w == sorted(w)):
            exs = [None, {'repeat': 2}, {'repeat': 3}, {'repeat': 4}, {'repeat': 5}]
        for ex in exs:
            op = [kind, w, A.gen(A.nparams(kind, w, ex))] + ([ex] if ex else [])
            if not _do(ctx, {'N': N, 'op': op}):
                return


def unit_repeat(u, ctx):
    N, w = u
    for r in range(1, 9):
        ex = {'repeat': r}
        if not _do(ctx, {'N': N, 'op': ['BasicEntangleLayer', w, A.gen(A.nparams('BasicEntangleLayer', w, ex)), ex]}):
            return


def unit_angles(u, ctx):
    N, kind, kmax = u
    for w in A.wire_choices(kind, N, kmax):
        n = A.nparams(kind, w)
        for slot in range(n):
            for a in A.ANGLES:
                p = A.gen(n)
                p[slot] = a
                if not _do(ctx, {'N': N, 'op': [kind, w, p]}):
                    return
        for p in ([0.0] * n, [A.PI] * n, [-A.PI / 2] * n, [2 * A.PI] * n):
            if not _do(ctx, {'N': N, 'op': [kind, w, p]}):
                return
        if n == 3 and kind in ('u3', 'cu3'):
            for p in itertools.product([0.0, A.PI / 2, -A.PI, 0.7], repeat=3):
                if not _do(ctx, {'N': N, 'op': [kind, w, list(p)]}):
                    return


def unit_containers(u, ctx):
    kind = u
    lo = A.arity(kind)[0]
    for N in range(lo, 4):
        for w in A.wire_choices(kind, N, 3):
            n = A.nparams(kind, w)
            for pc in ('float', 't0', 't1', 'grad', 'list', 'tensor'):
                if not _do(ctx, {'N': N, 'op': [kind, w, A.gen(n)], 'pc': pc}):
                    return
            if n == 1:
                for v in (0, 1, 2, -3, 7):          # Python ints
                    if not _do(ctx, {'N': N, 'op': [kind, w, [v]], 'pc': 'float'}):
                        return
    if A.arity(kind)[1] is not None and kind not in ('multi_control_cnot',):
        n = A.nparams(kind, list(range(lo)))
        for off in range(3):
            for pc in ('float', 't0', 'grad', 'list', 'tensor'):
                if not _do(ctx, {'N': lo, 'op': [kind, list(range(lo)), A.gen(n, off)], 'pc': pc, 'bare': 1}):
                    return


def explore(eng):
    q = eng.quick
    plan = []
    for N in range(1, 5):
        plan += [(N, k, None) for k in A.ALL_KINDS]
    plan += [(5, k, 3 if q else None) for k in A.ALL_KINDS]
    if not q:
        plan += [(6, k, 4) for k in A.ALL_KINDS]
    for N in ((6, 7, 8) if q else (7, 8, 9)):
        plan += [(N, k, 2) for k in A.ALL_KINDS]
    eng.map(unit_wires, plan)
    eng.map(unit_wide, [(N, k) for N in ((4, 5, 6, 7) if q else (4, 5, 6, 7, 8, 9)) for k in A.VARIABLE])
    eng.map(unit_wires, [(N, 'toffoli', 3) for N in ((6, 7) if q else (6, 7, 8))])
    eng.map(unit_repeat, [(N, w) for N in (2, 3, 4) for w in A.subsets(N, 2, 3)])
    par = [k for k in A.ALL_KINDS if A.nparams(k, [0, 1, 2])]
    eng.map(unit_angles, [(N, k, 3) for N in ((1, 2, 3) if q else (1, 2, 3, 4)) for k in par])
    eng.map(unit_containers, A.ALL_KINDS)
