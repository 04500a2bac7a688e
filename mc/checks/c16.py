"""C16: predicates, adjoint and Kronecker product on every small matrix over an entry alphabet and every single-entry change."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, T, npy

LEVEL = 'exploration'
RULE = ('one case = matrix (or vector, or factor list) x question; the expected answer is computed in double precision; '
        'inputs whose deviation lies between 3e-7 and 1e-5 (the numerical tolerance zone) are counted as skipped; '
        'distinct = distinct cases')
BOUNDS = {
    'quick': 'predicates: all 2x2 over {0,1,-1,i,-i} and over those/sqrt2, all 3x3 over {0,1,i} (19683), all 2-vectors '
             'and 4-vectors over {0,1,-1,i,-i}, unitaries/Hermitians to 16x16 with every single entry changed in 4 '
             'directions by 0.1 and 1e-2 (8x8; scattered to 64x64), all wrong shapes to 5x5; adjoint: all shapes to 5x5; Kronecker: all lists '
             'of 1..4 factors over 5 shapes, vectors and squares to 11 factors, lists of 1..3 also in transposed, lazily conjugated and strided memory; one non-orthogonal pair of rows at every place (2x2 to 16x16)',
    'thorough': 'all 3x3 over {0,1,-1,i} (262144), entry changes on 16x16, lists of 5 factors',
}
SYM = {'0': 0, '1': 1, '-': -1, 'i': 1j, 'j': -1j}
LO, HI = 3e-7, 1e-5


def pat(p, shape, scale=1.0):
    return (np.array([SYM[x] for x in p], dtype=complex) * scale).reshape(shape)


def unitary_dev(M):
    return np.abs(M @ M.conj().T - np.eye(len(M))).max()


def herm_dev(M):
    return np.abs(M - M.conj().T).max()


def norm_dev(v):
    return abs((np.abs(v) ** 2).sum() - 1)


BASES = {}


def base(name, n):
    """Named exact matrices of size 2^n."""
    if name == 'I':
        return np.eye(2 ** n, dtype=complex)
    if name == 'F':             # Fourier matrix
        d = 2 ** n
        k = np.arange(d)
        return np.exp(2j * np.pi * np.outer(k, k) / d) / np.sqrt(d)
    if name == 'Fd':            # Fourier matrix of any dimension
        k = np.arange(n)
        return np.exp(2j * np.pi * np.outer(k, k) / n) / np.sqrt(n)
    if name == 'HZ':            # Hadamard on all
        return ref.kron([ref.H] * n)
    if name == 'perm':
        return np.roll(np.eye(2 ** n, dtype=complex), 1, axis=0)
    if name == 'phase':
        return np.diag(np.exp(1j * np.arange(2 ** n) * 0.77))
    if name == 'Y':
        return ref.kron([ref.Y] * n)
    if name == 'gen':           # generic unitary from gates
        ops = [['u3', [q], A.gen(3, 2 * q)] for q in range(n)]
        for q in range(n - 1):
            ops += [['rxx', [q, q + 1], [0.9 + q]], ['cnot', [q + 1, q], []], ['ry', [q], [1.1]]]
        return ref.U_seq(ops, n)
    if name == 'herm':          # generic Hermitian
        U = base('gen', n)
        return U @ np.diag(np.linspace(-1, 1.5, 2 ** n)) @ U.conj().T
    if name == 'low':           # triangular: rows normalised, not orthogonal
        L = np.tril(np.ones((2 ** n, 2 ** n), dtype=complex))
        return L / np.linalg.norm(L, axis=1, keepdims=True)
    if name == 'same':          # same normalised row everywhere
        return np.ones((2 ** n, 2 ** n), dtype=complex) / np.sqrt(2 ** n)
    raise KeyError(name)


def matrix(c):
    if 'pat' in c:
        n = int(round(len(c['pat']) ** 0.5))
        return pat(c['pat'], (n, n), c.get('scale', 1.0))
    M = base(c['base'], c['n']).copy()
    for i, j, re, im in c.get('chg', []):
        M[i, j] += complex(re, im)
    if c.get('mix'):            # rows stay normalised; only this one pair is no longer orthogonal
        i, k = c['mix']
        M[k] = 0.8 * M[k] + 0.6 * M[i]
    if c.get('mul'):
        M = M * complex(*c['mul'])
    return M


def ans(x, what):
    need(isinstance(x, (bool, np.bool_)) or (isinstance(x, torch.Tensor) and x.dtype == torch.bool and x.numel() == 1),
         '%s answers %r' % (what, x))
    return bool(x)


def check_case(c):
    qo, _, _, _, qm = lib()
    t = c['t']
    if t == 'pred':
        M = matrix(c)
        real = c.get('real')
        for dt, x in ((np.complex64, torch.float32), (np.complex128, torch.float64)):
            if dt == np.complex128 and 'pat' in c:
                continue
            Mx = M.astype(dt)
            t1 = torch.tensor(Mx.real if real else Mx)
            Md = Mx.real.astype(complex) if real else Mx.astype(complex)
            fns = [(qm.IsUnitary, unitary_dev, 'IsUnitary'), (qm.IsHermitian, herm_dev, 'IsHermitian')]
            if 'pat' not in c:
                fns += [(qo.Operation.IsUnitary, unitary_dev, 'Operation.IsUnitary'),
                        (qo.Observable.IsHermitian, herm_dev, 'Observable.IsHermitian')]
            for fn, dev, name in fns:
                d = dev(Md)
                if LO < d < HI:
                    continue
                got = ans(fn(t1), name)
                need(got == (d <= LO), '%s says %s, deviation is %.3g' % (name, got, d))
    elif t == 'norm':
        v = pat(c['pat'], (-1,), c.get('scale', 1.0)) if 'pat' in c else np.array([complex(*x) for x in c['v']])
        vs = [torch.tensor(v.astype(np.complex64)), torch.tensor(v)]
        if np.all(v.imag == 0):
            vs.append(torch.tensor(v.real.astype(np.float32)))
        for x in vs:
            d = norm_dev(npy(x))
            if LO < d < HI:
                continue
            got = ans(qm.IsNormalized(x), 'IsNormalized')
            need(got == (d <= LO), 'IsNormalized says %s, deviation is %.3g' % (got, d))
    elif t == 'refuse':
        x = torch.ones(*c['shape']) + 0j if c['shape'] else torch.tensor(1.0 + 0j)
        try:
            r = getattr(qm, c['fn'])(x)
        except Exception:
            return
        need(False, '%s of a %s input answers %r instead of an error' % (c['fn'], tuple(c['shape']), r))
    elif t == 'dag':
        a, b = c['shape']
        M = np.arange(a * b).reshape(a, b) * (1 + 0j) + 1j * (1 + np.arange(a * b).reshape(a, b) ** 2)
        if c['dt'] == 'real':
            M = M.real
            x = torch.tensor(M.astype(np.float32))
        else:
            x = torch.tensor(M.astype(np.complex64 if c['dt'] == 'c64' else np.complex128))
        y = qm.dag(x)
        expect(y, M.conj().T, 'dag', 0)
        expect(qm.dag(y), M, 'dag of dag', 0)
    elif t == 'kron':
        fs = [factor(i, s, c.get('real', False) and i == 0) for i, s in enumerate(c['shapes'])]
        want = fs[0]
        for f in fs[1:]:
            want = np.kron(want, f)
        xs = [torch.tensor(f.astype(np.float32) if not np.iscomplexobj(f) else f.astype(np.complex64)) for f in fs]
        if c.get('lay'):            # the same numbers in another memory layout
            xs = [relaid(x, (c['lay'] + i) % 4) for i, x in enumerate(xs)]
        snap = [x.clone() for x in xs]
        got = qm.multi_kron(xs)
        expect(got, want, 'multi_kron of %s' % c['shapes'], 1e-6 * max(1, np.abs(want).max()))
        need(len(xs) == len(snap) and all(torch.equal(a, b) for a, b in zip(xs, snap)), 'multi_kron changed its factors')


def relaid(x, k):
    if k == 1:
        return x.T.contiguous().T
    if k == 2:                  # the adjoint of the adjoint: lazily conjugated
        return lib()[4].dag(x.conj().resolve_conj().T.contiguous()) if x.is_complex() else x.T.contiguous().T
    if k == 3:                  # a window of a larger matrix
        y = torch.zeros(x.shape[0] + 2, 2 * x.shape[1] + 1, dtype=x.dtype)
        y[1:-1, 1::2] = x
        return y[1:-1, 1::2]
    return x


def factor(i, s, real):
    a, b = s
    k = np.arange(a * b).reshape(a, b)
    M = 1 + 0.31 * k + 0.17 * i + (0 if real else 1j * (0.5 - 0.23 * k + 0.4 * i))
    return M


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def unit_pat(u, ctx):
    t, syms, n, pre, scale = u
    for rest in itertools.product(syms, repeat=n - len(pre)):
        c = {'t': t, 'pat': pre + ''.join(rest)}
        if scale != 1.0:
            c['scale'] = scale
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return
        if scale == 1.0 and t == 'pred' and not set(c['pat']) & set('ij') and not ctx.case(dict(c, real=1)):
            return


def unit_chg(u, ctx):
    name, n, i, eps = u
    d = 2 ** n
    for j in range(d):
        for e in eps:
            for re, im in ((e, 0), (-e, 0), (0, e), (0, -e)):
                # alone, and together with the change that would keep it Hermitian
                for chg in ([[i, j, re, im]], [[i, j, re, im], [j, i, re, -im]]):
                    c = {'t': 'pred', 'base': name, 'n': n, 'chg': chg}
                    ctx.count('evaluations')
                    ctx.distinct(c)
                    ctx.sample(c)
                    if not ctx.case(c):
                        return


NAMES = ['I', 'F', 'HZ', 'perm', 'phase', 'Y', 'gen', 'herm', 'low', 'same']


def explore(eng):
    q = eng.quick
    r2 = float(1 / np.sqrt(2))
    eng.map(unit_pat, [('pred', '01-ij', 1, '', 1.0)] + [('pred', '01-ij', 4, a, s) for a in '01-ij' for s in (1.0, r2, 0.5)])
    if q:
        eng.map(unit_pat, [('pred', '01i', 9, a + b + c, 1.0) for a in '01i' for b in '01i' for c in '01i'])
    else:
        eng.map(unit_pat, [('pred', '01-i', 9, a + b + c, 1.0) for a in '01-i' for b in '01-i' for c in '01-i'])
    for n, s in ((1, 1.0), (2, 1.0), (2, r2), (4, 1.0), (4, 0.5), (4, r2), (3, 1.0)):
        eng.map(unit_pat, [('norm', '01-ij', n, a, s) for a in '01-ij'])
    cs = []
    for name in NAMES:
        for n in (0, 1, 2, 3, 4):
            if n == 0 and name in ('gen', 'herm'):
                continue
            cs.append({'t': 'pred', 'base': name, 'n': n})
            cs += [{'t': 'pred', 'base': name, 'n': n, 'mul': m} for m in ([0, 1], [-1, 0], [1.01, 0], [0.6, 0.8], [0.9, 0])]
    eng.map(unit, [cs[i:i + 12] for i in range(0, len(cs), 12)])
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for name in NAMES if n < 4 else ['F', 'gen', 'herm', 'I']:
            eng.map(unit_chg, [(name, n, i, [0.1, 1e-2, 1e-3] if n < 3 else [1e-2]) for i in range(2 ** n)])
    # larger matrices, changed at scattered places only
    cs = []
    for name in NAMES:
        for n in (4, 5, 6):
            d = 2 ** n
            cs.append({'t': 'pred', 'base': name, 'n': n})
            for i in range(d):
                j = (i * 5 + 3) % d
                for chg in ([[i, j, 0.01, 0]], [[i, j, 0, 0.01]], [[i, j, 0.01, 0.02], [j, i, 0.01, -0.02]], [[i, i, 0, 0.01]]):
                    if n < 6 or i % 7 == 0:
                        cs.append({'t': 'pred', 'base': name, 'n': n, 'chg': chg})
    eng.map(unit, [cs[i:i + 12] for i in range(0, len(cs), 12)])
    # one pair of rows that is not orthogonal, at every place
    cs = []
    for d in (2, 3, 5, 8, 9, 12, 16) if q else (2, 3, 5, 8, 9, 12, 16, 17, 24, 32):
        cs += [{'t': 'pred', 'base': 'Fd', 'n': d, 'mix': [i, k]} for i in range(d) for k in range(d) if i != k and (d < 16 or i < k)]
    cs += [{'t': 'pred', 'base': 'Fd', 'n': d, 'mix': m} for d in (24, 32, 40) for m in ([0, d - 1], [d - 1, 0], [0, 1], [d - 2, d - 1], [d // 2, d // 2 + 8], [1, d - 2])]
    cs += [{'t': 'pred', 'base': 'Fd', 'n': d} for d in range(1, 41 if q else 65)]
    eng.map(unit, [cs[i:i + 12] for i in range(0, len(cs), 12)])
    cs = []
    for d in (1, 2, 5, 8, 16, 32, 33, 64, 257, 1024):
        for i in range(d) if d < 20 else sorted({0, 1, d // 2, d - 2, d - 1}):
            for e in (0.0, 1e-2, -1e-2) + ((1e-4,) if d < 20 else ()):
                v = [[1 / np.sqrt(d), 0]] * d
                v[i] = [0, 1 / np.sqrt(d) + e]
                cs.append({'t': 'norm', 'v': v})
    cs += [{'t': 'refuse', 'fn': f, 'shape': [a, b]} for f in ('IsUnitary', 'IsHermitian') for a in range(1, 6)
           for b in range(1, 6) if a != b]
    cs += [{'t': 'refuse', 'fn': f, 'shape': [a]} for f in ('IsUnitary', 'IsHermitian', 'dag') for a in range(1, 6)]
    cs += [{'t': 'refuse', 'fn': f, 'shape': s} for f in ('IsNormalized',) for s in ([1, 4], [4, 1], [2, 2], [1, 1], [2, 2, 2], [])]
    cs += [{'t': 'refuse', 'fn': 'dag', 'shape': s} for s in ([2, 2, 2], [1, 2, 2], [])]
    cs += [{'t': 'dag', 'shape': [a, b], 'dt': dt} for a in list(range(1, 6)) + [8, 16, 17, 32] for b in list(range(1, 6)) + [8, 16, 17, 32] for dt in ('real', 'c64', 'c128')]
    eng.map(unit, [cs[i:i + 20] for i in range(0, len(cs), 20)])
    shapes = [[1, 1], [2, 2], [1, 2], [2, 1], [3, 2]]
    cs = []
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for s in itertools.product(shapes, repeat=n):
            cs.append({'t': 'kron', 'shapes': list(s)})
            if n < 4:
                cs.append({'t': 'kron', 'shapes': list(s), 'real': True})
                cs += [{'t': 'kron', 'shapes': list(s), 'lay': k} for k in (1, 2, 3, 4)]
                cs.append({'t': 'kron', 'shapes': list(s), 'real': True, 'lay': 1})
    for n in range(1, 12):
        if n > 4:
            cs += [{'t': 'kron', 'shapes': [[1, 2] if (m >> i) & 1 else [2, 1] for i in range(n)]} for m in (0, 1, 2 ** n - 1, 5, 2 ** (n - 1))]
        if n > 10:
            continue
        cs.append({'t': 'kron', 'shapes': [[2, 2]] * n})
    eng.map(unit, [cs[i:i + 50] for i in range(0, len(cs), 50)])
