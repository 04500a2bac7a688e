"""C20: every dense layer-builder function over all register sizes, directions, parameter slots and wrong requests."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, T, npy

LEVEL = 'exploration'
RULE = ('one case = builder x register size x direction/inner layer x parameters (generic, each slot alone, special angles, '
        'container) compared entry by entry with the ordered product of textbook gates, or a request that must be refused; '
        'distinct = distinct cases')
BOUNDS = {
    'quick': 'N=1..8 (slot probes to 5), sequences of requests, every builder, both directions, every inner layer, generic parameters in two '
             'arrangements, every parameter slot alone, 23 special angles in every slot (N<=3), list/tensor/gradient-carrying '
             'parameters; register sizes 0 and 1 where two are needed, every parameter count 0..12N except the right one, wrong names',
    'thorough': 'N to 7',
}
TOL = 3e-5


def ql():
    from deepquantum.layers import qlayer
    return qlayer


def rot_factors(s, N, p):
    return [(ref.ROT[a](p[len(s) * i + j]), [i]) for i in range(N) for j, a in enumerate(s)]


def ent(name, N, down):
    """Ordered (control, target) pairs of an entangler in direction `down` (up2down)."""
    if N == 2:
        return [(0, 1)] if down else [(1, 0)]
    if name in ('ring_of_cnot', 'ring_of_cz', 'ring_of_cnot2'):
        h = 2 if name.endswith('2') else 1
        return [(i, (i + h) % N) for i in range(N)] if down else [(i, (i - h) % N) for i in reversed(range(N))]
    if name.startswith('nearest'):
        if down:
            return [(i, i + 1) for i in list(range(0, N - 1, 2)) + list(range(1, N - 1, 2))]
        return [(i, i - 1) for i in list(range(N - 1, 0, -2)) + list(range(N - 2, 0, -2))]
    if name == 'all2all_cnot':
        r = list(range(N)) if down else list(reversed(range(N)))
        return [(i, j) for i in r for j in r if i != j]
    raise KeyError(name)


def ent_factors(name, N, down):
    g = ref.ctrl(ref.Z) if name.endswith('cz') else ref.CNOT
    return [(g, list(p)) for p in ent(name, N, down)]


ENTS = ['ring_of_cnot', 'ring_of_cnot2', 'ring_of_cz', 'nearest_neighbor_cnot', 'nearest_neighbor_cz', 'all2all_cnot']
ROTS = {'XYZLayer': 'XYZ', 'YZYLayer': 'YZY', 'XZXLayer': 'XZX', 'XZLayer': 'XZ'}
TWOS = {'RxxLayer': ref.X, 'RyyLayer': ref.Y, 'RzzLayer': ref.Z}
COMB = ['basic_entangle_layer', 'basic_entangle_layer2', 'strong_entangle_layer']
INNER = ['YZY', 'XZX', 'XYZ', 'XZ']


def count(name, N, inner='YZY'):
    if name in ROTS:
        return len(ROTS[name]) * N
    if name in TWOS:
        return N - 1
    if name == 'basic_entangle_layer':
        return len(inner) * N
    if name in COMB:
        return 2 * len(inner) * N
    return None


def factors(name, N, p, down, inner, exact=False):
    p = list(p) if exact else [ref.f32(x) for x in p]
    if name in ROTS:
        return rot_factors(ROTS[name], N, p)
    if name == 'HLayer':
        return [(ref.H, [q]) for q in range(N)]
    if name in ENTS:
        return ent_factors(name, N, down)
    if name in TWOS:
        G = np.kron(TWOS[name], TWOS[name])
        pairs = [(i, i + 1) for i in list(range(0, N - 1, 2)) + list(range(1, N - 1, 2))]
        return [(ref.rot(G, p[i]), list(w)) for i, w in enumerate(pairs)]
    h = len(inner) * N
    out = rot_factors(inner, N, p[:h]) + ent_factors('ring_of_cnot', N, True)
    if name == 'basic_entangle_layer':
        return out
    out += rot_factors(inner, N, p[h:])
    return out + ent_factors('ring_of_cnot' if name.endswith('2') else 'ring_of_cnot2', N, True)


def call(c):
    f = getattr(ql(), c['f'])
    N = c['N']
    if c['f'] == 'HLayer':
        return f(N)
    if c['f'] in ENTS:
        return f(N) if c.get('dflt') else f(N, up2down=c['down'])
    p = c['p']
    if c.get('pc') == 'tensor':
        p = torch.tensor([float(x) for x in p])
    elif c.get('pc') == 'grad':
        p = torch.tensor([float(x) for x in p], requires_grad=True)
    else:
        p = list(p)
    if c['f'] in COMB and not c.get('dflt'):
        return f(N, p, single_gate=c['inner'])
    return f(N, p)


def check_case(c):
    if c['t'] == 'refuse':
        try:
            r = call(c)
        except Exception:
            return
        need(False, '%s with %s is accepted' % (c['f'], {k: v for k, v in c.items() if k not in ('t', 'f', 'p')}))
    if c['t'] == 'seq':
        for x in c['seq']:
            check_case(x)
            if c.get('own'):
                call(x).mul_(0)             # the result belongs to the caller
        return
    N = c['N']
    t = np.eye(2 ** N, dtype=complex).reshape((2,) * N + (2 ** N,))
    for m, w in factors(c['f'], N, c.get('p', []), c.get('down', True), c.get('inner', 'YZY')):
        t = ref.apply_m(m, w, t)
    got = call(c)
    expect(got, t.reshape(2 ** N, 2 ** N), c['f'], TOL)


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    top = 5 if q else 7
    cs = [{'t': 'op', 'f': 'HLayer', 'N': N} for N in range(1, top + 2)]
    for f in ENTS:
        for N in range(2, top + 2):
            cs += [{'t': 'op', 'f': f, 'N': N, 'down': d} for d in (True, False)]
            cs.append({'t': 'op', 'f': f, 'N': N, 'dflt': 1})
    for f in list(ROTS) + list(TWOS) + COMB:
        for N in range(1 if f in ROTS else 2, top + 1):
            for inner in INNER if f in COMB else ['YZY']:
                n = count(f, N, inner)
                b = {'t': 'op', 'f': f, 'N': N, 'inner': inner}
                for pc in ('list', 'tensor', 'grad'):
                    cs.append(dict(b, p=A.gen(n), pc=pc))
                    cs.append(dict(b, p=A.gen(n, 11), pc=pc))
                if inner == 'YZY' and f in COMB:
                    cs.append(dict(b, p=A.gen(n, 5), dflt=1))
                for i in range(n):
                    p = [0.0] * n
                    p[i] = 0.9
                    cs.append(dict(b, p=p))
                    if N <= 3:
                        for a in A.ANGLES:
                            p = A.gen(n, 3)
                            p[i] = float(a)
                            cs.append(dict(b, p=p, pc='tensor'))
    eng.map(unit, chunks(cs, 24))
    cs = []
    for N in (6, 7, 8) if q else (8, 9):
        for f in ENTS:
            cs += [{'t': 'op', 'f': f, 'N': N, 'down': d} for d in (True, False)] if N > top + 1 else []
        cs += [{'t': 'op', 'f': 'HLayer', 'N': N}]
        for f in list(ROTS) + list(TWOS) + COMB:
            for inner in INNER if f in COMB else ['YZY']:
                n = count(f, N, inner)
                for pc in ('list', 'tensor'):
                    cs.append({'t': 'op', 'f': f, 'N': N, 'inner': inner, 'p': A.gen(n, N), 'pc': pc})
    eng.map(unit, chunks(cs, 4))
    # the same builder asked again and again, with other sizes and parameters in between
    cs = []
    for f in list(ROTS) + list(TWOS) + COMB + ENTS + ['HLayer']:
        seq = []
        for N, off in ((2, 0), (3, 4), (2, 4), (4, 1), (3, 0), (2, 0)):
            for inner in (INNER if f in COMB else ['YZY']):
                c = {'t': 'op', 'f': f, 'N': N, 'inner': inner, 'down': off != 4}
                n = count(f, N, inner)
                if n is not None:
                    c['p'] = A.gen(n, off)
                seq.append(c)
        cs.append({'t': 'seq', 'seq': seq})
        cs.append({'t': 'seq', 'seq': seq[::-1], 'own': 1})
    eng.map(unit, chunks(cs, 2))
    cs = []
    for f in ENTS:
        cs += [{'t': 'refuse', 'f': f, 'N': N, 'down': d} for N in (1, 0, -1) for d in (True, False)]
    cs += [{'t': 'refuse', 'f': 'HLayer', 'N': N} for N in (0, -1)]
    for f in list(ROTS) + list(TWOS) + COMB:
        for N in range(1, 5):
            for inner in INNER if f in COMB else ['YZY']:
                if N == 1 and f not in ROTS:
                    cs.append({'t': 'refuse', 'f': f, 'N': 1, 'inner': inner, 'p': A.gen(count(f, 1, inner))})
                for n in range(0, 12 * N + 1):
                    if n != count(f, N, inner):
                        for pc in ('list', 'tensor'):
                            cs.append({'t': 'refuse', 'f': f, 'N': N, 'inner': inner, 'p': A.gen(n), 'pc': pc})
        for N in (0, -1):
            cs.append({'t': 'refuse', 'f': f, 'N': N, 'inner': 'YZY', 'p': []})
    for f in COMB:
        for N in (2, 3):
            for k in (0, 1, 2, 3, 4):
                for s in itertools.product('XYZ', repeat=k):
                    s = ''.join(s)
                    if s not in INNER:
                        for n in sorted({k * N, 2 * k * N, 3 * N, 6 * N, 2 * N, 4 * N}):
                            cs.append({'t': 'refuse', 'f': f, 'N': N, 'inner': s, 'p': A.gen(n)})
    eng.map(unit, chunks(cs, 40))
