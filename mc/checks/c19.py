"""C19: the legacy gate-list circuit: all call sequences in bounds, its product, its log and its expectation helpers."""
import contextlib
import io
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..core import hash_key
from ..impl import expect, lib, need, make_state, T, npy
from .gradlib import f32vec
from .c12 import mixed, mixes

LEVEL = 'model_checking'
RULE = ('states = distinct (operator, gate log) reached, keyed by the operator modulo global phase for the Clifford search '
        'and by the call history for the generic one; transitions = calls executed; every history runs on the real class '
        'and is compared with the reference product and with the product rebuilt from the log')
BOUNDS = {
    'quick': '2-qubit Clifford group to closure (11520 operators mod phase), 1-qubit group to closure; all generic call '
             'sequences of length <=2 on 2 and 3 qubits (all calls x all wires), length 1 on 4..6; multi-control with every number of controls to N=7; walks of 8..60 calls on 2..6; every angle form (float, int, '
             'tensor); invalid calls at every point of a length-2 session; expectation helpers for every qubit, pure and '
             'mixed states N<=4, some to N=7',
    'thorough': 'length 3 on 2 qubits, length 2 on 4 qubits',
}
TOL = 4e-5


def qg():
    from deepquantum.gates import qgate
    return qgate


ONE0 = {'x_gate': ('X', 'PauliX'), 'y_gate': ('Y', 'PauliY'), 'z_gate': ('Z', 'PauliZ'), 'Hadamard': ('H', 'Hadamard')}
ONEP = {'rx': 'rx', 'ry': 'ry', 'rz': 'rz'}
TWO0 = {'cnot': 'cnot', 'cz': 'cz'}
TWOP = {'rxx': 'rxx', 'ryy': 'ryy', 'rzz': 'rzz'}


def calls(N, off=0, ang=None, mcc=True):
    """Every call [method, wires, angle|None]."""
    out = [[m, [q], None] for m in ONE0 for q in range(N)]
    out += [[m, [q], ang if ang is not None else A.GEN[(off + i) % 20]] for i, m in enumerate(ONEP) for q in range(N)]
    out += [[m, w, None] for m in TWO0 for w in A.tuples(N, 2)]
    out += [[m, w, ang if ang is not None else A.GEN[(off + 3 + i) % 20]] for i, m in enumerate(TWOP) for w in A.tuples(N, 2)]
    if mcc:
        for k in range(2, min(N, 4) + 1):
            out += [['multi_control_cnot', w, None] for w in A.tuples(N, k)]
    return out


def rop(c):
    m, w, a = c[:3]
    kind = ONE0[m][1] if m in ONE0 else m
    return [kind, w, [] if a is None else [a]]


def angle(a, form):
    return {'float': float(a), 'int': int(a), 'tensor': torch.tensor(float(a)),
            'grad': torch.tensor(float(a), requires_grad=True)}[form]


def do(cir, c):
    m, w, a = c[:3]
    f = getattr(cir, m)
    if m == 'multi_control_cnot':
        return f(list(w[:-1]), w[-1])
    if m in ONEP or m in TWOP:
        return f(*w, angle(a, c[3] if len(c) > 3 else 'float'))
    return f(*w)


LOGNAME = dict({m: v[0] for m, v in ONE0.items()}, **{m: m for m in list(ONEP) + list(TWO0) + list(TWOP) + ['multi_control_cnot']})
FROMLOG = {v: k for k, v in LOGNAME.items()}


def wires_of(x):
    return [int(x)] if isinstance(x, (int, np.integer)) else [int(q) for q in x]


def check_log(cir, seq):
    log = cir.gate_list
    need(len(log) == len(seq), 'the log has %d entries after %d calls' % (len(log), len(seq)))
    for i, (e, c) in enumerate(zip(log, seq)):
        need(e['gate'] == LOGNAME[c[0]], 'entry %d is called %r, requested %s' % (i, e['gate'], c[0]))
        need(wires_of(e['which_qubit']) == list(c[1]), 'entry %d names wires %r, requested %s' % (i, e['which_qubit'], c[1]))
        if c[2] is None:
            need(e['theta'] is None, 'entry %d has an angle' % i)
        else:
            need(e['theta'] is not None and abs(float(e['theta']) - c[2]) < 1e-5, 'entry %d has angle %r, requested %s' % (i, e['theta'], c[2]))


def from_log(cir, N):
    ops = []
    for e in cir.gate_list:
        m = FROMLOG[e['gate']]
        ops.append(rop([m, wires_of(e['which_qubit']), None if e['theta'] is None else float(e['theta'])]))
    return ref.U_seq(ops, N)


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


def check_case(c):
    t, N = c['t'], c['N']
    cls = qg().Circuit
    if t == 'seq':
        cir = cls(N)
        seq = c['seq']
        for i, s in enumerate(seq):
            if c.get('peek') and i:
                cir.U()
            do(cir, s)
        want = ref.U_seq([rop(s) for s in seq], N)
        for k in range(2):
            expect(cir.U(), want, 'U()', TOL)
        expect(cir.gate_sequence_product(), want, 'gate_sequence_product()', TOL)
        expect(cir.gate_sequence_product(left_to_right=False), ref.U_seq([rop(s) for s in reversed(seq)], N),
               'gate_sequence_product(left_to_right=False)', TOL)
        expect(cir.U(), want, 'U() afterwards', TOL)
        check_log(cir, seq)
        expect(from_log(cir, N), want, 'operator rebuilt from the log', TOL)
    elif t == 'two':            # two circuits side by side
        a, b = cls(N), cls(N)
        for i, s in enumerate(c['seq']):
            do((a, b)[i % 2], s)
        for cir, seq in ((a, c['seq'][0::2]), (b, c['seq'][1::2])):
            expect(cir.U(), ref.U_seq([rop(s) for s in seq], N), 'U() of one of two circuits', TOL)
            check_log(cir, seq)
    elif t == 'refuse':
        cir = cls(N)
        done = []
        for i, s in enumerate(c['seq']):
            if i == c['at']:
                try:
                    do(cir, c['bad'])
                except Exception:
                    pass
                else:
                    need(False, 'the invalid call %s is accepted' % (c['bad'],))
            do(cir, s)
            done.append(s)
        check_log(cir, done)
        expect(cir.U(), ref.U_seq([rop(s) for s in done], N), 'U() after a refused call', TOL)
    elif t == 'measure':
        rho = f32vec(mixed(N, c['mix']))
        cir = cls(c.get('M', N))
        x = T(rho)
        want = np.array([np.trace(rho @ ref.embed(ref.Z, [q], N)).real for q in range(N)])
        got = quiet(cir.measure, x, N)
        expect(got, want.reshape(N, 1), 'measure', TOL)
        for q in range(N):
            e = quiet(cir.expecval_ZI, x, N, q)
            expect(e.reshape(()), np.array(want[q]), 'expecval_ZI(%d)' % q, TOL)
        expect(x, rho, 'the density matrix afterwards', 0)
    elif t == 'clifford':
        cir = cls(N)
        for s in c['seq']:
            do(cir, s)
        expect(cir.U(), ref.U_seq([rop(s) for s in c['seq']], N), 'U()', TOL)
        check_log(cir, c['seq'])


def unit(cs, ctx):
    for c in cs:
        ctx.count('transitions', len(c.get('seq', [])) or c['N'])
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def unit_seq(u, ctx):
    N, pre, depth, mcc = u
    al = calls(N, mcc=mcc)
    al2 = calls(N, off=7, mcc=mcc)
    for rest in itertools.product(*([al2] + [al] * (depth - 2))[:depth - 1]):
        c = {'t': 'seq', 'N': N, 'seq': [al[pre]] + [list(r) for r in rest]}
        if depth == 2 and pre % 2:
            c['peek'] = 1
        ctx.count('transitions', depth)
        ctx.count('traces_validated_against_impl')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def unit_clifford(states, ctx):
    """Expand states (histories) of the Clifford search: every call from every reached operator."""
    out = []
    for st in states:
        N, seq = st
        base = ref.U_seq([rop(s) for s in seq], N)
        for c in calls(N, ang=A.PI / 2):
            case = {'t': 'clifford', 'N': N, 'seq': seq + [c]}
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
            if not ctx.case(case):
                return out
            U = ref.apply(rop(c), base.reshape((2,) * N + (2 ** N,))).reshape(2 ** N, 2 ** N)
            out.append((hash_key(ref.phase_key(U)), [N, seq + [c]]))
    return out


def bads(N):
    out = []
    for m in list(ONE0) + list(ONEP):
        for w in ([-1], [N], [N + 3]):
            out.append([m, w, 0.3 if m in ONEP else None])
    for m in list(TWO0) + list(TWOP):
        for w in ([0, 0], [1, 1], [-1, 0], [0, -1], [N, 0], [0, N], [-1, -2], [N, N + 1]):
            out.append([m, w, 0.3 if m in TWOP else None])
    for w in ([0, 0], [0, 1, 0], [0, 1, 1], [0, -1], [-1, 0], [0, N], [N, 0], [0, 1, N], [0, -1, 1]):
        out.append(['multi_control_cnot', w, None])
    return out


def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]


def explore(eng):
    q = eng.quick
    forms = []
    for N in (1, 2, 3):
        for c in calls(N):
            if c[2] is not None:
                for a in A.ANGLES:
                    for f in ('float', 'tensor', 'grad') + (('int',) if float(a).is_integer() else ()):
                        forms.append({'t': 'seq', 'N': N, 'seq': [c[:2] + [a, f]]})
    eng.map(unit, chunks(forms, 60))
    eng.map(unit, [[{'t': 'seq', 'N': N, 'seq': []}] for N in (1, 2, 3)])
    for N in (1, 2, 3, 4, 5):
        eng.map(unit, chunks(({'t': 'seq', 'N': N, 'seq': [c]} for c in calls(N)), 20))
    for N in (1, 2, 3) if q else (1, 2, 3, 4):
        eng.map(unit_seq, [(N, i, 2, N < 4) for i in range(len(calls(N, mcc=N < 4)))])
    if not q:
        eng.map(unit_seq, [(2, i, 3, True) for i in range(len(calls(2)))])
    al = calls(2)
    eng.map(unit, chunks(({'t': 'two', 'N': 2, 'seq': [a, b, al[(i + j) % len(al)]]} for i, a in enumerate(al)
                          for j, b in enumerate(calls(2, off=5))), 40))
    for N in (2, 3):
        al = calls(N)
        good = [al[0], al[-1], al[len(al) // 2]]
        eng.map(unit, chunks(({'t': 'refuse', 'N': N, 'seq': good, 'at': at, 'bad': b} for b in bads(N) for at in (0, 1, 2)), 20))
    cs = []
    for N in (4, 5, 6, 7):          # many controls, far wires
        if N < 7:
            cs += [{'t': 'seq', 'N': N, 'seq': [c]} for c in calls(N, mcc=False)] if N > 5 else []
        for k in range(5 if N < 6 else N - 1, N + 1):
            for s in itertools.combinations(range(N), k):
                cs += [{'t': 'seq', 'N': N, 'seq': [['multi_control_cnot', list(o), None]]} for o in A.orders(s)]
                cs += [{'t': 'seq', 'N': N, 'seq': [['multi_control_cnot', [q for q in s if q != t] + [t], None]]} for t in s]
    for N, n in ((2, 60), (3, 60), (4, 40), (5, 20), (6, 8)):
        for a in (1, 7, 31):
            for b in range(4 if q else 40):
                al = calls(N, off=b)
                cs.append({'t': 'seq', 'N': N, 'seq': [al[(i * a + b * 3) % len(al)] for i in range(n)], 'peek': b % 2})
                cs.append({'t': 'two', 'N': N, 'seq': [al[(i * a + b * 3) % len(al)] for i in range(n)]})
    eng.map(unit, chunks(cs, 8))
    cs = [{'t': 'measure', 'N': N, 'mix': m, 'M': N} for N in (5, 6, 7) for m in mixes(N)[:4] + [[[1.0, ['g']]]]]
    eng.map(unit, chunks(cs, 2))
    cs = [{'t': 'measure', 'N': N, 'mix': m, 'M': M} for N in (1, 2, 3, 4) for M in (N, 10) for m in
          mixes(N) + [[[1.0, s]] for s in [['g'], ['p'], ['ghz']] + [['b', i] for i in range(2 ** N)]]]
    eng.map(unit, chunks(cs, 12))
    n = len(eng.keys)
    eng.keys = set()
    eng.n.setdefault('states', 0)
    eng.n['states'] += n
    for N in (1, 2):
        root = hash_key(ref.phase_key(np.eye(2 ** N)))
        eng.bfs(unit_clifford, [(root, [N, []])], chunk=16, stage='Clifford group, %d qubits, modulo phase' % N)
