"""C13: every partial-trace routine on a complete basis of density matrices and every ordered choice of traced qubits."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, T, npy
from .gradlib import f32vec

LEVEL = 'model_checking'
RULE = ('states = distinct density matrices (a complete Hermitian basis around the maximally mixed state, so a linear '
        'routine is decided, plus pure and mixed families); transitions = trace requests executed (routine x ordered '
        'qubit list, at once and in every step order)')
BOUNDS = {
    'quick': 'N=1..4: full Hermitian basis x every ordered list x routine; stepwise chains mixing the routines; N=4,5: pure/mixed '
             'families x every ordered list (N=5..7: every subset in two orders)',
    'thorough': 'N=5 full Hermitian basis (every subset in two orders); N=5 families x every ordered list, N=6 two orders',
}
TOL = 1e-5


def basis_rho(N, k):
    """k-th element of the Hermitian basis, as a density matrix (rank full, trace 1)."""
    d = 2 ** N
    i, j = divmod(k, d)
    if k == d * d:
        return np.eye(d) / d
    M = np.zeros((d, d), dtype=complex)
    if i == j:
        M[i, i] = 1
        return M
    if i < j:
        M[i, j] = M[j, i] = 1
    else:
        M[i, j], M[j, i] = 1j, -1j
    return (np.eye(d) + 0.8 * M) / d


def rho_of(c):
    N = c['N']
    if 'k' in c:
        r = basis_rho(N, c['k'])
    else:
        r = 0
        for p, s in c['mix']:
            v = make_state(N, s)
            r = r + p * np.outer(v, v.conj())
        r = r / np.trace(r)
    return f32vec(r)


def reduced(rho, N, out):
    """Definition: sum over the traced indices of the tensor, kept qubits in order."""
    t = rho.reshape((2,) * (2 * N))
    keep = [q for q in range(N) if q not in out]
    t = np.transpose(t, keep + list(out) + [N + q for q in keep] + [N + q for q in out])
    a, b = 2 ** len(keep), 2 ** len(out)
    return np.einsum('ibjb->ij', t.reshape(a, b, a, b))


def check_case(c):
    _, _, _, _, qm = lib()
    N, lst = c['N'], c['lst']
    rho = rho_of(c)
    x = T(rho)
    fns = {'partial_trace': qm.partial_trace, 'partial_trace_old': qm.partial_trace_old}
    how = c['how']
    if how == 'step':
        left, y = list(range(N)), x
        for i, q in enumerate(lst):
            f = fns[['partial_trace', 'partial_trace_old'][(i + c.get('first', 0)) % 2]]
            y = f(y, len(left), [left.index(q)])
            left.remove(q)
        expect(y, reduced(rho, N, lst), 'tracing %s one at a time' % lst, TOL)
        return
    want = reduced(rho, N, lst)
    if how == 'ptrace':
        got = qm.ptrace(x, N - len(lst), len(lst))
    else:
        got = fns[how](x, N, list(lst))
    need(isinstance(got, torch.Tensor), '%s gives no tensor' % how)
    expect(got, want, '%s of %s' % (how, lst), TOL)
    tr = npy(got).trace()
    need(abs(tr - 1) < TOL, '%s of %s: trace is %s' % (how, lst, tr))


def go(ctx, c):
    ctx.count('transitions', len(c['lst']) if c['how'] == 'step' else 1)
    ctx.count('traces_validated_against_impl')
    ctx.sample(c)
    return ctx.case(c)


def lists(N, hard=False):
    if hard:
        out = [[]]
        for k in range(1, N + 1):
            for s in itertools.combinations(range(N), k):
                out += [list(s)] + ([list(s)[::-1]] if k > 1 else [])
        return out
    return [[]] + A.subsets(N)


def unit(u, ctx):
    N, mats, hard, step = u
    for m in mats:
        ctx.distinct((N, m))
        key = {'k': m} if isinstance(m, int) else {'mix': m}
        for lst in lists(N, hard):
            for how in ('partial_trace', 'partial_trace_old'):
                if not go(ctx, dict(key, N=N, lst=lst, how=how)):
                    return
            if len(lst) > 1 and step:
                for first in (0, 1):
                    if not go(ctx, dict(key, N=N, lst=lst, how='step', first=first)):
                        return
        for n in range(N + 1):
            if not go(ctx, dict(key, N=N, lst=list(range(N - n, N)), how='ptrace')):
                return


def fam(N):
    st = [['g'], ['g', 2], ['ghz'], ['p'], ['b', 2 ** N - 1]]
    out = [[[1.0, s]] for s in st]
    out += [[[0.3, a], [0.7, b]] for a, b in itertools.combinations(st, 2)]
    out.append([[0.1 + 0.2 * i, s] for i, s in enumerate(st)])
    return out


def explore(eng):
    q = eng.quick
    for N in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        ks = list(range(4 ** N + 1))
        n = {1: 5, 2: 4, 3: 3, 4: 2, 5: 4}[N]
        eng.map(unit, [(N, ks[i:i + n], N == 5, True) for i in range(0, len(ks), n)])
    for N in (6, 7):
        eng.map(unit, [(N, [m], True, N == 6 and not q) for m in fam(N)[:3 if N == 6 else 1] + fam(N)[-1:]])
    for N in (1, 2, 3, 4, 5) if q else (4, 5, 6):
        hard = N == 5 if q else N == 6
        fs = fam(N) if N < 5 or not q else fam(N)[:8]
        eng.map(unit, [(N, [m], hard, N < 5 or not q) for m in fs])
    eng.n['states'] = len(eng.keys)
    eng.keys = set()
