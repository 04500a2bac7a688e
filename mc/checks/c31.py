"""C31: matrix product evolution on registers far too large for a vector, against exact matrix product evolution."""
import itertools
import numpy as np
import resource
from .. import alpha as A, ref, refmps as R
from ..core import Violation
from ..impl import lib, need, npy, T

LEVEL = 'model_checking'
RULE = ('every operation / circuit / update history is run on the real TN_operation, TN_evolution and MPS_inner_product in a process '
        'whose memory is limited to 3 GB more than it starts with (a vector of the smallest register with a doubled bond would '
        'fit, one of the others by no means), and the '
        'resulting chain compared with the exact chain of the reference by transfer matrices')
BOUNDS = {
    'quick': '26 qubits: every tensor-network operation on every ordered pair of wires (3-wire operations on every unordered '
             'triple of 9 positions in every order; layers and rings on whole, reversed, strided, 1..4-wire lists) from a product and an entangled chain; 40 and '
             '100 qubits: the same on 7 positions; every ordered pair of a 24-operation long-range alphabet on 40 qubits; strided circuits '
             'of 3..5 operations on 26, 40 and 100; deep nearest-neighbour circuits, GHZ ladders, echoes; parameter updates between evolutions; the inner products of all of 12 chains of 100',
    'thorough': 'plus every ordered triple on 26, every ordered pair on 40, 3-operation circuits of the long-range alphabet',
}
TOL = 1e-4
N0 = 26
EXTRA = 3 << 30
_limited = []


def limit():
    if not _limited:
        with open('/proc/self/statm') as f:
            now = int(f.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (now + EXTRA, resource.getrlimit(resource.RLIMIT_AS)[1]))
        _limited.append(1)


D0 = {'p': 1, 'p1': 1, 'b': 1, 'z': 1, 'e': 2, 'e3': 3}
DMAX = 128          # cost bound: rounding makes the bond grow by up to four per gate that crosses a cut


def cost(s, ops, N):
    """Upper estimate of the largest bond the implementation builds."""
    cross = [0] * N
    for o in ops:
        for _, w in ref.factors(o):
            for q in range(min(w), max(w)):
                cross[q] += 1
    return D0[s] * 4 ** max(cross)


def start(s, N):
    return {'p': R.product, 'e': lambda N: R.entangled(N, 2), 'e3': lambda N: R.entangled(N, 3), 'p1': lambda N: R.product(N, 1),
            'b': lambda N: R.basis(N, [0, 1, 1]), 'z': lambda N: R.basis(N, [0])}[s](N)


def real(mps):
    return [T(x) for x in mps]


def shape_ok(out, N):
    need(isinstance(out, list) and len(out) == N, 'the result is not a list of %d tensors' % N)
    last = 1
    for q, t in enumerate(out):
        need(t.dim() == 3 and t.shape[0] == 2 and t.shape[1] == last,
             'tensor %d has shape %s after a bond of %d' % (q, tuple(t.shape), last))
        last = t.shape[2]
    need(last == 1, 'the last bond is %d' % last)
    return [npy(t) for t in out]


def near(out, want, N, what):
    got = shape_ok(out, N)
    d = R.distance(got, want)
    need(d <= TOL, '%s: off by %.3g in norm' % (what, d))


def run(c):
    N, ops = c['N'], c['ops']
    want = start(c['s'], N)
    m = real(want)
    t = c.get('t')
    what = '%s on %d qubits' % (' '.join('%s%s' % (o[0], o[1] if len(o[1]) < 4 else '[%d wires]' % len(o[1])) for o in ops), N)
    if t == 'inner':
        a, b = start(c['s'], N), start(c['s2'], N)
        for op in ops:
            a = R.apply(op, a)
        for op in c['ops2']:
            b = R.apply(op, b)
        want = R.inner(b, a)
        ma, mb = real(start(c['s'], N)), real(start(c['s2'], N))
        ma = A.circuit(ops, N).TN_evolution(ma) if ops else ma
        mb = A.circuit(c['ops2'], N).TN_evolution(mb) if c['ops2'] else mb
        got = complex(npy(lib()[3].MPS_inner_product(ma, mb)).reshape(-1)[0])
        need(abs(got - want) <= TOL, 'inner product of %s and %s: %s instead of %s' % (what, c['ops2'], got, want))
        return
    if t == 'update':
        cir = A.circuit(ops, N)
        cir.TN_evolution(real(want))
        npar = len(cir.gate)
        need(npar == len(ops), '%d operations in the circuit instead of %d' % (npar, len(ops)))
        new = [[o[0], o[1], A.gen(len(o[2]), 11 + i)] + o[3:] for i, o in enumerate(ops)]
        for g, o in zip(cir.gate, new):
            if o[2]:
                g.params_update(A.mk_params(o[0], o[2], 'auto'))
        out, ops = cir.TN_evolution(m), new
    elif t == 'one':
        out = A.build(ops[0], N).TN_operation(m)
    else:
        out = A.circuit(ops, N).TN_evolution(m)
    for op in ops:
        want = R.apply(op, want)
    near(out, want, N, what)


def check_case(c):
    limit()
    try:
        run(c)
    except MemoryError:
        raise Violation('out of memory: %s on %d qubits' % (c['ops'], c['N']))


def tn_kinds(lo=None):
    return [k for k in A.ALL_KINDS if k not in A.NO_TN and (lo is None or A.arity(k)[0] == lo)]


def op(kind, w, off=0):
    return [kind, list(w), A.gen(A.nparams(kind, w), off)]


def unit_ops(u, ctx):
    N, s, kind, wires = u
    for w in wires:
        go({'N': N, 's': s, 'ops': [op(kind, w)], 't': 'one'}, ctx)
        if ctx.fails:
            return


def go(c, ctx):
    if cost(c['s'], c['ops'], c['N']) > DMAX or cost(c.get('s2', 'p'), c.get('ops2', []), c['N']) > DMAX:
        ctx.count('outside_the_bond_bound')
        return
    if ctx.case(c):
        n = len(c['ops']) + len(c.get('ops2', []))
        ctx.count('transitions', n)
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)
        ctx.sample(c)


def positions(N):
    return [0, 1, N // 3, N // 2, N // 2 + 1, N - 2, N - 1]


def lists(N):
    """Wire lists for the kinds taking any number of wires."""
    p = positions(N)
    out = [list(range(N)), list(range(N))[::-1], list(range(0, N, 2)), list(range(1, N, 2))[::-1], list(range(N))[N // 2:] + list(range(N // 2)),
           [0, N - 1, 1, N - 2], [N - 1, N // 2, 0], [3, 1, 2, 0], list(range(5, N - 5))]
    return out + [list(t) for t in itertools.permutations(p, 2)] + [[q] for q in p]


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def long_range(N):
    h, e = N // 2, N - 1
    return [op('Hadamard', [h]), op('ry', [0]), op('u3', [e]), op('rx', [h + 1]), op('cnot', [0, e]), op('cnot', [h, 2]), op('cz', [e - 1, 1]),
            op('cu3', [e, h]), op('cphase', [1, h + 1]), op('SWAP', [e - 1, h]), op('SWAP', [0, 1]), op('rxx', [1, e]),
            op('ryy', [h, h + 1]), op('rzz', [e, 0]), op('toffoli', [e, 0, h]), op('toffoli', [h - 1, e - 1, 1]),
            op('toffoli', [0, h, e]), op('XYZLayer', range(N)), op('HLayer', range(0, N, 2)), op('YZYLayer', [e, 0, h]),
            op('ring_of_cnot', [h, e, 0]), op('ring_of_cnot_dagger', [0, h, e]), op('ring_of_cnot', range(h, h + 4)),
            op('ring_of_cnot', [e, 0])]


def ladder(N):
    return [op('Hadamard', [0])] + [op('cnot', [q, q + 1]) for q in range(N - 1)]


def brick(N, depth):
    out = []
    for d in range(depth):
        out += [op('ry', [q], d + q) for q in range(N)]
        out += [op(['cnot', 'rxx', 'cphase'][(d + q) % 3], [q, q + 1] if (q + d) % 2 else [q + 1, q], d) for q in range(d % 2, N - 1, 2)]
    return out


def unit_case(c, ctx):
    go(c, ctx)


def unit_after(u, ctx):
    N, s, i, n = u
    al = long_range(N)
    for t in itertools.product(al, repeat=n - 1):
        go({'N': N, 's': s, 'ops': [al[i]] + list(t)}, ctx)
        if ctx.fails:
            return


def unit_self(kind, ctx):
    """The reference for large registers against the reference for small ones (no code under test)."""
    for N in (2, 3, 4):
        for o in A.ops(N, [kind]):
            got = R.vector(R.apply(o, R.entangled(N)))
            assert np.allclose(got, ref.apply_vec(o, R.vector(R.entangled(N)), N)), o
            ctx.count('reference_self_checks')


def explore(eng):
    q = eng.quick
    eng.map(unit_self, tn_kinds())
    units = []
    pairs = [list(t) for t in itertools.permutations(range(N0), 2)]
    nine = [0, 1, 2, 8, 12, 13, 20, N0 - 2, N0 - 1]
    triples = [list(t) for t in itertools.permutations(nine if q else range(N0), 3)]
    for s in ('p', 'e'):
        for k in tn_kinds():
            lo, hi = A.arity(k)
            if hi is None:
                ws = lists(N0)
            elif hi == 1:
                ws = [[i] for i in range(N0)]
            elif hi == 2:
                ws = pairs
            else:
                ws = triples
            ws = [w for w in ws if len(w) >= lo]
            units += [(N0, s, k, c) for c in chunks(ws, 100)]
    for N in (40, 100):
        for s in ('p', 'e', 'b'):
            for k in tn_kinds():
                lo, hi = A.arity(k)
                p = positions(N)
                ws = lists(N) if hi is None else [list(t) for t in itertools.permutations(p if hi < 3 else p[::2] if q else p, hi)]
                if N == 40 and hi == 2 and not q and s == 'e':
                    ws = [list(t) for t in itertools.permutations(range(N), 2)]
                if N == 100 and hi is None:
                    ws = [w for w in ws if len(w) != 2]
                units += [(N, s, k, c) for c in chunks([w for w in ws if len(w) >= lo], 60)]
    eng.map(unit_ops, units)
    eng.map(unit_after, [(40, s, i, 2) for s in ('p', 'e') for i in range(24)])
    cases = []
    for N in (N0, 40, 100):
        al = long_range(N)
        for s in ('p', 'e', 'b'):
            for n, cnt in ((3, 24), (4, 12), (5, 6)):
                cases += [{'N': N, 's': s, 'ops': A.strided(al, n, a, b)} for a in (5, 7, 11) for b in range(0, 24, 24 // cnt)]
        for i in range(0, 24, 1 if not q else 2):
            cases.append({'N': N, 's': 'p', 'ops': [al[i], al[(i * 5 + 3) % 24]], 't': 'update'})
        cases.append({'N': N, 's': 'z', 'ops': ladder(N)})
        cases.append({'N': N, 's': 'p', 'ops': ladder(N)})
        cases += [{'N': N, 's': s, 'ops': brick(N, d)} for s in ('p', 'z', 'e') for d in (1, 2)]
        cases.append({'N': N, 's': 'b', 'ops': brick(N, 3)})
    chains = [('p', []), ('p1', []), ('e', []), ('e3', []), ('b', []), ('z', [])]
    al = long_range(100)
    chains += [(s, [al[i], al[(i + 7) % 24]]) for i, s in ((4, 'p'), (7, 'p'), (14, 'e'), (19, 'p1'))]
    chains += [('z', [op('ry', [i], i) for i in range(0, 100, 9)]), ('z', ladder(100))]
    for a, b in itertools.product(chains, repeat=2):
        cases.append({'N': 100, 's': a[0], 'ops': a[1], 's2': b[0], 'ops2': b[1], 't': 'inner'})
    eng.map(unit_case, cases)
    if not q:
        eng.map(unit_after, [(40, s, i, 3) for s in ('p', 'e') for i in range(24)])
