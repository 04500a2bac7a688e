"""C18: the quantum convolution layer against the circuit value of every window, over all image geometries in bounds."""
import itertools
import numpy as np
import torch
from .. import alpha as A, ref
from ..impl import expect, lib, need, npy

LEVEL = 'exploration'
RULE = ('one case = image size x stride x batch x channels x pixel/weight setting; every output entry is compared with the '
        'reference circuit; gradients of every weight compared with differences of the reference in double precision; '
        'distinct = distinct cases')
BOUNDS = {
    'quick': '2x2 kernel: every image to 6x6, strides 1..5, batch 1..9, channels 1..3 on every geometry; larger images to 16x3; scale settings; training steps and reloaded weights; every single pixel and single '
             'weight probed alone; windows that are equal, nearly equal or rearrangements of each other; weight gradients on 6 geometries; '
             '3x3 kernel (9 qubits): one window',
    'thorough': 'images to 8x8, strides 1..7, 3x3 kernel on 4x4 and 5x3 images, gradients on 16 geometries',
}
TOL = 5e-5


def layer(c):
    from deepquantum.nn.modules.quanv import QuanConv2D
    torch.manual_seed(0)
    k = c.get('k', 2)
    m = QuanConv2D(k * k, c['stride'], k, **c.get('kw', {}))
    w = weights(c)
    with torch.no_grad():
        m.weight.copy_(torch.tensor(w))
    return m


def weights(c):
    n = 3 * c.get('k', 2) ** 2
    if 'w1' in c:               # a single non-zero weight
        w = [0.0] * n
        w[c['w1']] = 0.9
        return w
    if c.get('w0'):
        return [0.0] * n
    return A.gen(n, c.get('wo', 0))


def image(c):
    b, ch, h, w = c['shape']
    if 'px' in c:               # one pixel set
        x = np.zeros((b, ch, h, w))
        x[tuple(c['px'])] = 0.37
        return x.astype(np.float32)
    if 'near' in c:             # every window the same four pixels, moved by a little or rearranged
        x = np.zeros((b, ch, h, w))
        i = 0
        for n in range(b):
            for j in range(0, h - 1, 2):
                for l in range(0, w - 1, 2):
                    px = np.array([0.5, 0.25, 0.75, 0.125]) + c['near'] * i * np.array([1, 0.7, -0.4, 0.9])
                    if c.get('turn'):
                        px = px[list(list(itertools.permutations(range(4)))[i % 24])]
                    x[n, 0, j:j + 2, l:l + 2] = px.reshape(2, 2)
                    i += 1
        return x.astype(np.float32)
    i = np.arange(b * ch * h * w)
    x = (np.sin(1.7 * i + 0.3 * i * i % 2.9 + c.get('xo', 0)) * c.get('amp', 0.5) + 0.5 * c.get('amp', 0.5))
    return x.reshape(b, ch, h, w).astype(np.float32)


def circuit_value(px, w, n):
    """Z expectations of the window circuit; px pixels row by row, w already multiplied."""
    t = np.zeros((2,) * n, dtype=complex)
    t[(0,) * n] = 1
    for q in range(n):
        t = ref.apply_m(ref.ry(np.pi * px[q]), [q], t)
    for q in range(n):
        t = ref.apply_m(ref.rx(w[3 * q + 2]) @ ref.rz(w[3 * q + 1]) @ ref.rx(w[3 * q]), [q], t)
    for q in range(n):
        t = ref.apply_m(ref.CNOT, [q, (q + 1) % n], t)
    p = np.abs(t) ** 2
    out = []
    for q in range(n):
        s = p.sum(axis=tuple(i for i in range(n) if i != q))
        out.append(s[0] - s[1])
    return np.array(out)


def expected(x, w, k, stride):
    b, _, h, wd = x.shape
    nx, ny = max(0, (h - k) // stride + 1) if h >= k else 0, max(0, (wd - k) // stride + 1) if wd >= k else 0
    out = np.zeros((b, k * k, nx, ny))
    for i in range(b):
        for j in range(nx):
            for l in range(ny):
                win = x[i, 0, j * stride:j * stride + k, l * stride:l * stride + k].reshape(-1).astype(float)
                out[i, :, j, l] = circuit_value(win, w, k * k)
    return out


def check_case(c):
    k = c.get('k', 2)
    m = layer(c)
    x = torch.tensor(image(c))
    mul = float(m.w_mul)
    w = npy(m.weight).real * mul
    want = expected(x.numpy(), w, k, c['stride'])
    snap = x.clone()
    if c['t'] == 'train':       # forward, backward, weight step, forward again: never a stale answer
        x2 = torch.tensor(image(dict(c, xo=2)))
        opt = torch.optim.SGD(m.parameters(), lr=0.3)
        for step in range(c['steps']):
            xx = (x, x2)[step % 2]
            opt.zero_grad()
            y = m(xx)
            w = npy(m.weight).real * mul
            expect(y, expected(xx.numpy(), w, k, c['stride']), 'output at step %d' % step, TOL)
            y.sum().backward()
            opt.step()
        with torch.no_grad():
            expect(m(x), expected(x.numpy(), npy(m.weight).real * mul, k, c['stride']), 'output afterwards', TOL)
        m.load_state_dict({'weight': torch.tensor(A.gen(len(w), 7))})
        expect(m(x), expected(x.numpy(), npy(m.weight).real * mul, k, c['stride']), 'output after loading weights', TOL)
        return
    if c['t'] == 'grad':
        y = m(x)
        coef = np.cos(np.arange(want.size) * 1.3 + 0.2).reshape(want.shape)
        (y * torch.tensor(coef, dtype=y.dtype)).sum().backward()
        need(m.weight.grad is not None, 'no gradient reaches the weights')
        g = []
        for i in range(len(w)):
            d = []
            for s in (1e-4, -1e-4):
                w2 = w.copy()
                w2[i] += s * mul
                d.append((expected(x.numpy(), w2, k, c['stride']) * coef).sum())
            g.append((d[0] - d[1]) / 2e-4)
        g = np.array(g)
        expect(m.weight.grad, g, 'weight gradient', 3e-4 * max(1, np.abs(g).max()))
        return
    y = m(x)
    expect(y, want, 'output', TOL)
    need(torch.equal(x, snap), 'the image changed')
    if c.get('alone'):          # each sample by itself gives the same numbers
        for i in range(x.shape[0]):
            expect(m(x[i:i + 1]), npy(y)[i:i + 1], 'sample %d alone' % i, 1e-6)


def unit(cs, ctx):
    for c in cs:
        ctx.count('evaluations')
        ctx.distinct(c)
        ctx.sample(c)
        if not ctx.case(c):
            return


def explore(eng):
    q = eng.quick
    import deepquantum.nn.modules.quanv    # noqa: F401  (slow import: once, before the workers fork)
    top, smax = (6, 5) if q else (8, 7)
    cs = []
    for h in range(2, top + 1):
        for w in range(2, top + 1):
            for s in range(1, smax + 1):
                n = ((h - 2) // s + 1) * ((w - 2) // s + 1)
                bs = (1, 2) if n <= 6 else (1,)
                for b in bs:
                    cs.append({'t': 'out', 'stride': s, 'shape': [b, 1, h, w], 'wo': h + w})
                if n <= 9:      # further channels are not looked at
                    cs.append({'t': 'out', 'stride': s, 'shape': [1, 2 + (h + w) % 2, h, w], 'wo': h + w})
    for b in (3, 4, 5, 8, 9):
        cs.append({'t': 'out', 'stride': 2, 'shape': [b, 1, 4, 3], 'alone': 1})
        cs.append({'t': 'out', 'stride': 1, 'shape': [b, 2, 3, 4], 'wo': 1})
    for h, w, s in ((8, 2, 1), (2, 9, 1), (10, 4, 3), (4, 12, 4), (9, 9, 5), (16, 3, 7)):
        cs.append({'t': 'out', 'stride': s, 'shape': [1, 1, h, w], 'wo': 2})
        cs.append({'t': 'out', 'stride': s, 'shape': [2, 3, h, w], 'wo': 5})
    for kw in ({'gain': 1.0}, {'use_wscale': False}, {'lrmul': 0.01}, {'use_wscale': False, 'lrmul': 0.5}):
        cs.append({'t': 'out', 'stride': 1, 'shape': [1, 1, 2, 3], 'kw': kw})
        cs.append({'t': 'train', 'stride': 1, 'shape': [1, 1, 3, 2], 'kw': kw, 'steps': 2})
    for n in (1, 2, 4):
        cs += [{'t': 'train', 'stride': s, 'shape': sh, 'steps': n} for s, sh in ((1, [1, 1, 2, 2]), (2, [2, 1, 4, 4]), (1, [2, 2, 3, 3]))]
    for eps in (0, 3e-4, 1e-3, 4e-3, 0.02):
        for sh in ([1, 1, 2, 8], [1, 1, 4, 4], [3, 1, 2, 2], [2, 1, 4, 2]):
            cs += [{'t': 'out', 'stride': 2, 'shape': sh, 'near': eps, 'turn': t, 'wo': 1} for t in (0, 1)]
    cs.append({'t': 'out', 'stride': 2, 'shape': [6, 1, 4, 2], 'near': 0, 'turn': 1})
    for h, w, s in ((2, 2, 1), (3, 2, 1), (2, 3, 1), (4, 4, 2), (3, 3, 2)):
        cs.append({'t': 'out', 'stride': s, 'shape': [2, 1, h, w], 'alone': 1})
        cs.append({'t': 'out', 'stride': s, 'shape': [3, 2, h, w], 'wo': 2})
        cs.append({'t': 'out', 'stride': s, 'shape': [1, 3, h, w], 'amp': 3.0})
        cs.append({'t': 'out', 'stride': s, 'shape': [1, 1, h, w], 'w0': 1})
    for i in range(12):
        cs.append({'t': 'out', 'stride': 1, 'shape': [1, 1, 2, 2], 'w1': i})
        cs.append({'t': 'out', 'stride': 1, 'shape': [1, 1, 2, 2], 'w1': i, 'px': [0, 0, 1, 0]})
    for h, w, s in ((2, 2, 1), (3, 3, 1), (4, 4, 2), (5, 5, 2), (5, 4, 3)):
        for i in range(h):
            for j in range(w):
                cs.append({'t': 'out', 'stride': s, 'shape': [1, 1, h, w], 'px': [0, 0, i, j], 'wo': 1})
    eng.map(unit, [[c] for c in cs])
    gs = [(2, 2, 1), (3, 2, 1), (2, 4, 1), (4, 4, 2), (3, 3, 2), (5, 4, 3)]
    if not q:
        gs = [(h, w, s) for h in (2, 3, 4, 5) for w in (2, 4) for s in (1, 2)]
    eng.map(unit, [[{'t': 'grad', 'stride': s, 'shape': [b, 1, h, w], 'wo': 3}] for h, w, s in gs for b in (1, 2)])
    eng.map(unit, [[{'t': 'out', 'k': 3, 'stride': 1, 'shape': [1, 1, 3, 3]}]])
    if not q:
        eng.map(unit, [[{'t': 'out', 'k': 3, 'stride': s, 'shape': [1, 1, h, w]}] for h, w, s in
                       ((4, 4, 1), (5, 3, 2), (5, 5, 2))])
