"""C17: every encoding over every axis, wire list, input length and register size within bounds, on every engine."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, make_state, T, npy, run_op, ENGINES
from .gradlib import f32vec

LEVEL = 'exploration'
RULE = ('one case = encoding x register size x wire list x input vector (values, length, container) x engine or refusal; '
        'distinct = distinct cases')
BOUNDS = {
    'quick': 'rotation encoding: every axis, ordered wire list and input length 1..N, N<=4 (subsets in four orders N=5..7), 4 engines, list/tensor/gradient-'
             'carrying inputs, inputs beyond a turn; amplitude encoding and state preparation: every vector over {0,1,-2,i,'
             '0.5-0.5i} of every length to 4 (N<=2), families to N=8, every length to 2^5 (scattered lengths to 2^9); Gram encoding: every vector over {0,1,-1,i,0.6,-0.8i} '
             'of length <=4; refusals: oversize inputs to N=4, all axis names of length <=2 over XYZxyI and blank',
    'thorough': 'rotation encoding to N=5, amplitude patterns of length <=6, Gram patterns of length 6',
}
TOL = 2e-5
SYM = {'0': 0, '1': 1, '2': -2, 'i': 1j, 'c': 0.5 - 0.5j, '-': -1, '6': 0.6, '8': -0.8j}


def vals(p):
    return np.array([SYM[x] for x in p], dtype=complex)


def ramp(c):
    """A vector of the requested length, all entries different (non-negative in its real form)."""
    i = np.arange(c['len'])
    v = (0.3 + 0.11 * i % 0.9) * np.exp(0.7j * i if c.get('dt', 'c64') != 'real' and c.get('as') != 'real' else 0)
    return v.astype(complex)


def mods():
    from deepquantum.embeddings import qembedding as qe
    from deepquantum.embeddings import qstate as qs
    return qe, qs


def inputs(c):
    p = c['p']
    if c.get('pc') == 'list':
        return list(p)
    if c.get('pc') == 'grad':
        return torch.tensor(p, requires_grad=True)
    return torch.tensor(p)


def as_torch(v, dt):
    if dt == 'real':
        return torch.tensor(v.real.astype(np.float32))
    if dt == 'c128':
        return torch.tensor(v)
    return torch.tensor(v.astype(np.complex64))


def check_case(c):
    qe, qs = mods()
    t = c['t']
    if t == 'pauli':
        N, w = c['N'], c['w']
        o = qe.PauliEncoding(N, inputs(c), list(w), c['axis']) if c['axis'] else qe.PauliEncoding(N, inputs(c), list(w))
        op = ['PauliEncoding', w, c['p'], {'pauli': c['axis'] or 'X'}]
        for eng in ENGINES:
            if eng == 'dense':
                expect(o.U_expand(), ref.U(op, N), 'U_expand', TOL)
            v = f32vec(make_state(N, c.get('s', ['g'])))
            expect(run_op(o, N, v, eng), ref.apply_vec(op, v, N), eng, TOL)
    elif t == 'amp':
        N = c['N']
        v = ramp(c) if 'len' in c else vals(c['pat']) if 'pat' in c else make_state(c['n'], c['s']) * c.get('scale', 1.0)
        x = as_torch(v, c['dt'])
        o = qe.AmplitudeEncoding(N, x)
        want = np.zeros(2 ** N, dtype=complex)
        v = npy(x)
        want[:len(v)] = v / np.linalg.norm(v)
        for k in range(2):
            got = o.encoded_state()
            expect(got.reshape(-1), want, 'encoded_state', 3e-6)
            need(got.numel() == 2 ** N, 'encoded state has %d entries' % got.numel())
    elif t == 'prep':
        v = ramp(c) if 'len' in c else vals(c['pat'])
        if c['as'] == 'real':
            v = v.real.astype(complex)
        lst = [complex(x) for x in v]
        if c['as'] == 'real':
            lst = [x.real for x in lst]
        if c['as'] == 'tensor':
            lst = torch.tensor(v.astype(np.complex64))
        got = qs.PrepareState(lst)
        expect(got, v, 'PrepareState', 1e-6)
        rho = qs.PrepareRho(lst)
        expect(rho, np.outer(v, v.conj()), 'PrepareRho', 2e-6 * max(1, np.abs(v).max() ** 2))
    elif t == 'gram':
        v = ramp(c) if 'len' in c else vals(c['pat']) * c.get('scale', 1.0)
        x = as_torch(v, c['dt']).view(1, -1)
        v = npy(x).reshape(-1)
        r = npy(qe.gram_encoding(x))
        n = len(v)
        need(r.shape == (n, n), 'gram_encoding: shape %s' % (r.shape,))
        need(np.abs(r - r.conj().T).max() < 1e-5, 'gram_encoding is not Hermitian')
        need(abs(r.trace() - 1) < 1e-5, 'gram_encoding has trace %s' % r.trace())
        e = np.linalg.eigvalsh((r + r.conj().T) / 2)
        need(e.min() > -1e-5, 'gram_encoding has eigenvalue %s' % e.min())
        want = np.outer(np.abs(v), np.abs(v)) / (np.abs(v) ** 2).sum()
        need(np.abs(np.abs(r) - want).max() < 1e-5, 'gram_encoding has the wrong moduli')
        if np.all(v.imag == 0) and np.all(v.real >= 0):
            expect(r, want, 'gram_encoding of a non-negative vector', 1e-5)
    elif t == 'refuse':
        N = c['N']
        try:
            if c['what'] == 'amp':
                r = qe.AmplitudeEncoding(N, torch.ones(c['n']) + 0j).encoded_state()
            else:
                ax = c.get('axis', 'X')
                o = qe.PauliEncoding(N, torch.ones(c['n']) * 0.7, c['w'], ax)
                r = run_op(o, N, make_state(N, ['g']), c['eng'])
        except Exception:
            return
        need(False, 'a request that must be refused gives %r' % (r,))


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    for N in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        cs = []
        for w in A.subsets(N):
            for ax in 'XYZ':
                for n in range(1, N + 1):
                    cs.append({'t': 'pauli', 'N': N, 'w': w, 'axis': ax, 'p': A.gen(n, n)})
                    if N < 4:
                        cs.append({'t': 'pauli', 'N': N, 'w': w, 'axis': ax, 'p': A.gen(n), 'pc': 'list', 's': ['b', 0]})
                        cs.append({'t': 'pauli', 'N': N, 'w': w, 'axis': ax, 'p': A.gen(n, 3), 'pc': 'grad'})
                        cs.append({'t': 'pauli', 'N': N, 'w': w, 'axis': ax, 'p': [9.0 * (-1) ** k + k for k in range(n)]})
            cs.append({'t': 'pauli', 'N': N, 'w': w, 'axis': None, 'p': A.gen(N, 1)})
        eng.map(unit, chunks(cs, 30))
    for N in (5, 6, 7) if q else (5, 6, 7, 8):
        cs = []
        for k in range(1, N + 1):
            for s in itertools.combinations(range(N), k):
                if N > 5 and k not in (1, N // 2, N - 1, N) or N > 6 and k not in (1, N):
                    continue
                for i, w in enumerate(A.orders(s)):
                    for n in sorted({1, 2, k, max(1, k - 1), N - 1, N}):
                        cs.append({'t': 'pauli', 'N': N, 'w': w, 'axis': 'XYZ'[(i + n + k) % 3], 'p': A.gen(n, n), 'pc': (None, 'list', 'grad')[i % 3]})
        eng.map(unit, chunks(cs, 30))
    for ang in A.ANGLES:
        eng.map(unit, [[{'t': 'pauli', 'N': 2, 'w': [1, 0], 'axis': ax, 'p': [float(ang), 0.3]} for ax in 'XYZ']])
    cs = []
    for N in (1, 2, 3):
        for n in range(1, (2 ** N if N < 3 else (5 if q else 6)) + 1):
            if N == 3 and n < 5:
                continue
            for p in itertools.product('012ic' if n < 5 else '01i', repeat=n):
                p = ''.join(p)
                if set(p) != {'0'}:
                    cs.append({'t': 'amp', 'N': N, 'pat': p, 'dt': 'c64'})
                    if not set(p) & set('ic'):
                        cs.append({'t': 'amp', 'N': N, 'pat': p, 'dt': 'real'})
                cs += [{'t': 'prep', 'pat': p, 'as': a} for a in ('complex', 'tensor')]
                if not set(p) & set('ic'):
                    cs.append({'t': 'prep', 'pat': p, 'as': 'real'})
    for N in (2, 3, 4, 5, 7, 9):            # every input length, also lengths that are no power of two
        for n in range(1, 2 ** N + 1):
            if N < 6 or n in (1, 2, 3, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 500, 511, 512):
                for dt in ('c64', 'real', 'c128'):
                    cs.append({'t': 'amp', 'N': N, 'len': n, 'dt': dt})
    for n in (5, 6, 7, 8, 9, 16, 17, 32):
        cs += [{'t': 'gram', 'len': n, 'dt': dt} for dt in ('c64', 'real')]
        cs += [{'t': 'prep', 'len': n, 'as': a} for a in ('complex', 'tensor', 'real')]
    for N in range(1, 9):
        for n in range(1, N + 1):
            for s in (['g'], ['ghz'], ['p'], ['b', 2 ** n - 1]):
                for sc in (1.0, 0.01, 250.0):
                    cs.append({'t': 'amp', 'N': N, 'n': n, 's': s, 'scale': sc, 'dt': 'c64'})
    eng.map(unit, chunks(cs, 40))
    cs = []
    for n in range(1, 5 if q else 7):
        for p in itertools.product('01-i68' if n < 5 else '01i8', repeat=n):
            p = ''.join(p)
            if set(p) == {'0'}:
                continue
            cs.append({'t': 'gram', 'pat': p, 'dt': 'c64'})
            if not set(p) & set('i8'):
                cs.append({'t': 'gram', 'pat': p, 'dt': 'real'})
                cs.append({'t': 'gram', 'pat': p, 'dt': 'real', 'scale': 3.5})
    eng.map(unit, chunks(cs, 60))
    cs = []
    for N in (1, 2, 3, 4):
        for n in (N + 1, N + 2, 2 ** N + 1):
            for e in ENGINES:
                cs.append({'t': 'refuse', 'what': 'pauli', 'N': N, 'n': n, 'w': list(range(N)), 'eng': e})
        for n in (2 ** N + 1, 2 ** N + 2, 2 ** (N + 1)):
            cs.append({'t': 'refuse', 'what': 'amp', 'N': N, 'n': n})
        names = [''.join(s) for k in (0, 1, 2) for s in itertools.product('XYZxyI', repeat=k)]
        for ax in names:
            if ax not in ('X', 'Y', 'Z'):
                for e in ENGINES:
                    cs.append({'t': 'refuse', 'what': 'pauli', 'N': N, 'n': 1, 'w': list(range(N)), 'axis': ax, 'eng': e})
    eng.map(unit, chunks(cs, 60))
