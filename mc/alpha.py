"""The action alphabet: operation descriptors [kind, wires, params, extra?] and how to make them real.

`build` goes through the public class constructors, `add` through the Circuit methods.
"""
import itertools
import math

KINDS0_1 = ['Hadamard', 'PauliX', 'PauliY', 'PauliZ']
KINDSP_1 = ['rx', 'ry', 'rz', 'u1']
KINDS0_2 = ['cnot', 'cz', 'SWAP']
KINDSP_2 = ['rxx', 'ryy', 'rzz', 'cphase']
ROT_LAYERS = {'XYZLayer': 3, 'ZYXLayer': 3, 'YZYLayer': 3, 'XZXLayer': 3, 'XZLayer': 2, 'ZXLayer': 2}
RINGS = ['ring_of_cnot', 'ring_of_cnot_dagger', 'ring_of_cnot2']
ALL_KINDS = (KINDS0_1 + KINDSP_1 + ['u3'] + KINDS0_2 + KINDSP_2 + ['cu3', 'toffoli', 'multi_control_cnot']
             + list(ROT_LAYERS) + ['HLayer'] + RINGS + ['BasicEntangleLayer'])
NO_TN = {'multi_control_cnot', 'ring_of_cnot2', 'BasicEntangleLayer'}
SYMMETRIC = {'rxx', 'ryy', 'rzz', 'cz', 'SWAP', 'cphase'}

PI = math.pi
ANGLES = [0.0, 0.7, -1.3, PI / 2, -PI / 2, PI, -PI, 2 * PI, -2 * PI, 3 * PI, 4 * PI, 5.0, -5.0, 7.5, -7.5, 12.0,
          25.0, -25.0, 1e-3, 1, 3, -2, 100.0]
# generic, pairwise distinct: a swapped or reused parameter always shows
GEN = [0.7, -1.3, 2.1, 0.45, -2.6, 1.15, 3.3, -0.85, 1.9, -3.7, 0.33, 2.75, -0.6, 4.4, -1.75, 5.3, -4.9, 0.95,
       6.6, -2.2, 1.45, -7.1, 3.9, -0.15]


def gen(n, off=0):
    return [GEN[(off + i) % len(GEN)] + 0.01 * ((off + i) // len(GEN)) for i in range(n)]


def tuples(N, k):
    return [list(t) for t in itertools.permutations(range(N), k)]


def subsets(N, kmin=1, kmax=None):
    """Every ordered choice of distinct wires of every size."""
    out = []
    for k in range(kmin, (kmax or N) + 1):
        out += tuples(N, k)
    return out


def nparams(kind, w, extra=None):
    if kind in KINDSP_1 + KINDSP_2:
        return 1
    if kind in ('u3', 'cu3'):
        return 3
    if kind in ROT_LAYERS:
        return ROT_LAYERS[kind] * len(w)
    if kind == 'BasicEntangleLayer':
        return 3 * len(w) * (extra or {}).get('repeat', 1)
    return 0


def arity(kind):
    if kind in KINDS0_1 + KINDSP_1 + ['u3']:
        return (1, 1)
    if kind in KINDS0_2 + KINDSP_2 + ['cu3']:
        return (2, 2)
    if kind == 'toffoli':
        return (3, 3)
    if kind in RINGS + ['BasicEntangleLayer']:
        return (2, None)
    if kind == 'multi_control_cnot':
        return (2, None)
    return (1, None)


def wire_choices(kind, N, kmax=None):
    lo, hi = arity(kind)
    hi = min(hi or N, N)
    if kmax:
        hi = min(hi, max(kmax, lo))
    if kind in ('ring_of_cnot2',):
        lo = 2
    return subsets(N, lo, hi) if hi >= lo else []


def ops(N, kinds=None, kmax=None, off=0):
    """One operation per kind and ordered wire choice, with generic parameters."""
    out = []
    for kind in kinds or ALL_KINDS:
        for w in wire_choices(kind, N, kmax):
            out.append([kind, w, gen(nparams(kind, w), off)])
    return out


VARIABLE = [k for k in ALL_KINDS if k == 'multi_control_cnot' or k in ROT_LAYERS or k in RINGS
            or k in ('HLayer', 'BasicEntangleLayer')]


def orders(w):
    """A few structurally different orders of one set of wires (sorted, reversed, odd/even, outside-in)."""
    w = sorted(w)
    zig = []
    lo, hi = 0, len(w) - 1
    while lo <= hi:
        zig += [w[hi]] if hi == lo else [w[hi], w[lo]]
        lo, hi = lo + 1, hi - 1
    out = []
    for o in (w, w[::-1], w[1::2] + w[::2], zig):
        if o not in out:
            out.append(o)
    return out


def wide_choices(kind, N, kmin=4, kmax=None):
    """Long wire lists (every subset of size >= kmin, four orders each) for the kinds taking any number."""
    if kind not in VARIABLE:
        return []
    if N >= 7:
        kmin = max(kmin, N - 1)
    return [o for k in range(kmin, (kmax or N) + 1) for s in itertools.combinations(range(N), k) for o in orders(s)]


def wide_ops(N, kinds=None, kmin=4, off=0):
    return [[kind, w, gen(nparams(kind, w), off)] for kind in kinds or VARIABLE for w in wide_choices(kind, N, kmin)]


def strided(al, n, a, b=0):
    """Deterministic long program: every a-th operation of an alphabet, starting at b, with fresh parameters."""
    out = []
    for i in range(n):
        op = al[(i * a + b) % len(al)]
        if op[2]:
            op = [op[0], op[1], gen(len(op[2]), (3 * i + b) % 97)] + list(op[3:])
        out.append(op)
    return out


_FULL = {}


def full(N, tn=False):
    """The whole alphabet on N qubits for long programs: every kind, short and long wire lists."""
    if (N, tn) not in _FULL:
        km = 3 if N <= 5 else 2
        al = ops(N, kmax=km) + (tuples3(N) if N > 5 else []) + wide_ops(N)
        _FULL[N, tn] = [o for o in al if not tn or o[0] not in NO_TN]
    return _FULL[N, tn]


def tuples3(N):
    """Some toffolis on large registers: every ordered triple out of the ends and the middle."""
    pts = sorted({0, 1, N // 2, N - 2, N - 1})
    return [['toffoli', list(t), []] for t in itertools.permutations(pts, 3)]


def large_ops(N):
    """Operations for registers of 9 and more qubits: pairs and triples from the ends and the middle, wide layers."""
    pts = sorted({0, 1, N // 2, N - 2, N - 1})
    out = []
    for k in KINDS0_1 + KINDSP_1 + ['u3']:
        out += [[k, [q], gen(nparams(k, [q]), q)] for q in pts]
    for k in KINDS0_2 + KINDSP_2 + ['cu3']:
        out += [[k, list(w), gen(nparams(k, w), w[0])] for w in itertools.permutations(pts, 2)]
    out += tuples3(N)
    for k in VARIABLE:
        if k != 'multi_control_cnot':
            for w in orders(range(N)) + [[N - 1, 0], [0, N - 1, N // 2], [N // 2, 1, N - 2]]:
                out.append([k, list(w), gen(nparams(k, w), len(w))])
    return [o for o in out if o[0] not in NO_TN]


def special_params(n):
    """Parameter vectors made of special angles: all equal, one slot special, one slot alone not zero."""
    out = [[a] * n for a in (0.0, 2 * PI, -2 * PI, PI, 4 * PI, PI / 2, 1e-3, 1e-5, -25.0, 100.0)]
    if n > 1:
        for i in range(n):
            for bg, x in ((0.0, 0.7), (2 * PI, 0.7), (None, 0.0), (None, 2 * PI), (None, PI), (None, -PI / 2)):
                v = gen(n) if bg is None else [bg] * n
                v[i] = x
                out.append(v)
        out += [[(0.0, 0.7, 2 * PI)[(i + k) % 3] for i in range(n)] for k in range(3)]
        out += [[(PI, 0.0)[(i + k) % 2] for i in range(n)] for k in range(2)]
        out += [[0.7] * n, [GEN[i % 3] for i in range(n)]]
    return out


def special_progs(N, kinds=None, kmax=2):
    """Every parameterised operation with special angles alone, then twice among neighbours that are almost the same
    operation (an angle moved by 3e-4, by a full turn, or with its sign changed)."""
    out = []
    for op in ops(N, kinds, kmax):
        n = len(op[2])
        if not n:
            continue
        out += [[[op[0], op[1], p]] for p in special_params(n)]
        for i in range(n):
            for f in (lambda x: x + 3e-4, lambda x: x + 2 * PI, lambda x: -x):
                q = list(op[2])
                q[i] = f(q[i])
                out.append([op, [op[0], op[1], q], op])
    return out


def tn_ops(N, kmax=None, off=0):
    return ops(N, [k for k in ALL_KINDS if k not in NO_TN], kmax, off)


def clifford_ops(N):
    """Operations under which the stabilizer states are closed (exact multiples of pi/2)."""
    h = PI / 2
    out = []
    for k in KINDS0_1:
        out += [[k, [q], []] for q in range(N)]
    for k in KINDSP_1:
        out += [[k, [q], [h]] for q in range(N)]
    out += [['u3', [q], [h, h, -h]] for q in range(N)]
    for k in KINDS0_2:
        out += [[k, w, []] for w in tuples(N, 2)]
    for k in ['rxx', 'ryy', 'rzz']:
        out += [[k, w, [h]] for w in tuples(N, 2)]
    out += [['HLayer', w, []] for w in subsets(N)]
    for r in ['ring_of_cnot', 'ring_of_cnot_dagger']:
        out += [[r, w, []] for w in subsets(N, 2)]
    return out


# ------------------------------------------------------------------ making operations real

def _lib():
    from deepquantum.gates import qoperator, qcircuit
    from deepquantum.layers import qlayers
    return qoperator, qlayers, qcircuit


def mk_params(kind, p, pc='auto'):
    """Parameter container.  pc: auto | float | t0 | t1 | grad | list | tensor"""
    import torch
    one = kind in KINDSP_1 + KINDSP_2
    if one:
        v = p[0]
        if pc in ('auto', 't0', 'tensor'):
            return torch.tensor(float(v))
        if pc in ('float', 'list'):
            return v
        if pc == 't1':
            return torch.tensor([float(v)])
        if pc == 'grad':
            return torch.tensor(float(v), requires_grad=True)
    else:
        if pc in ('auto', 'tensor', 't0', 't1'):
            return torch.tensor([float(x) for x in p])
        if pc in ('list', 'float'):
            return list(p)
        if pc == 'grad':
            return torch.tensor([float(x) for x in p], requires_grad=True)
    raise KeyError(pc)


def mk_wires(kind, w, wc='list'):
    if kind in KINDS0_1 + KINDSP_1 + ['u3']:
        return int(w[0])
    return tuple(w) if wc == 'tuple' else list(w)


def build(op, N, pc='auto', wc='list', params=None):
    if op[0] == 'DAG':
        return build(op[1], N, pc, wc).operation_dagger()
    qo, ql, _ = _lib()
    kind, w, p = op[0], op[1], op[2]
    extra = op[3] if len(op) > 3 else {}
    ww = mk_wires(kind, w, wc)
    n = len(p)
    pp = None
    if n:
        pp = params if params is not None else mk_params(kind, p, pc)
    if kind in ROT_LAYERS:
        return getattr(ql, kind)(N, ww, pp)
    if kind == 'BasicEntangleLayer':
        return ql.BasicEntangleLayer(N, ww, pp, **extra)
    if kind == 'HLayer' or kind in RINGS:
        return getattr(ql, kind)(N, ww)
    cls = getattr(qo, kind)
    return cls(pp, N, ww) if n else cls(N, ww)


def add(cir, op, pc='auto', wc='list', how='method', params=None):
    """Add op to a Circuit, by its gate method (when there is one) or prebuilt."""
    kind, w = op[0], op[1]
    if how == 'prebuilt' or kind in ('ring_of_cnot_dagger', 'DAG'):
        cir.add(build(op, cir.nqubits, pc, wc, params))
        return
    extra = op[3] if len(op) > 3 else {}
    ww = mk_wires(kind, w, wc)
    pp = (params if params is not None else mk_params(kind, op[2], pc)) if op[2] else None
    if kind == 'HLayer':
        cir.Hadamard(ww)
    elif kind in ROT_LAYERS:
        getattr(cir, kind)(ww, pp)
    elif kind == 'BasicEntangleLayer':
        cir.BasicEntangleLayer(ww, pp, **extra)
    elif op[2]:
        getattr(cir, kind)(pp, ww)
    else:
        getattr(cir, kind)(ww)


def circuit(seq, N, pc='auto', wc='list', how='method'):
    _, _, qc = _lib()
    c = qc.Circuit(N)
    for op in seq:
        add(c, op, pc, wc, how)
    return c


def support_tn(op):
    if op[0] == 'DAG':
        return support_tn(op[1])
    return op[0] not in NO_TN
