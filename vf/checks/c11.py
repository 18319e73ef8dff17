"""C11: decomposing hyper-indices keeps the value of the network."""

from collections import Counter

from vf import gen, ref
from vf.harness import Family

RULE = ('Random networks whose tensors have random diagonal, constant, '
        'permutation-like and nearly diagonal structure; the dense value '
        'before and after is compared over all open indices, merged indices '
        'included. Non-trivial: a network/structure in which something was '
        'merged, not seen before.')
NEEDED = ('networks', 'merged', 'dropped', 'open_merged', 'contracted')


def structured(rng, t, noise=0.):
    import numpy as np
    out = []
    for xs in t.ts_inds:
        sh = [t.dims[x] for x in xs]
        k = rng.random()
        if k < .3:
            a = np.ones(sh) * rng.choice([1, 2, -.5])
        elif k < .45:
            a = rng.np.normal(size=sh) + 1j * rng.np.normal(size=sh)
        elif k < .5:
            a = np.zeros(sh)
        else:
            a = rng.np.normal(size=sh)
        p = rng.choice([.2, .5, .9])
        for i in range(len(xs)):
            for j in range(i):
                if sh[i] == sh[j] and rng.coin(p):
                    m = np.eye(sh[i]).reshape(
                        [sh[k] if k in (i, j) else 1 for k in range(len(sh))])
                    a = a * m
        if a.size and rng.coin(.35):
            # Almost that: a few other elements, of every kind
            a = np.array(a, complex)
            step = rng.choice([1, -1, 1j, -1j, 1e-3, -1e-3j, 1 + 1j])
            for s in range(rng.randint(1, 3)):
                at = tuple(rng.randrange(d) for d in sh)
                a[at] += step * (-1)**s
        if noise:
            a = a + noise * rng.np.uniform(-1, 1, size=sh)
        out.append(a)
    return out


def expand(got, outs, rep, output, dims):
    """Value over the original open indices, from that over the merged ones."""
    import numpy as np
    shape = tuple(dims[x] for x in output)
    if not shape:
        return got
    g = np.indices(shape)
    mask, pos = np.ones(shape, bool), {}
    for k, x in enumerate(output):
        if rep[x] in pos:
            mask &= g[k] == g[pos[rep[x]]]
        else:
            pos[rep[x]] = k
    return got[tuple(g[pos[y]] for y in outs)] * mask


def compare(rng, mon, t, arrays, atol=None, tol=1e-9):
    import numpy as np
    from tnco.utils.tn import contract, decompose_hyper_inds
    mon.note(ts_inds=t.ts_inds, dims=t.dims, output=t.output_inds,
             arrays=[a.tolist() if a.dtype != complex else repr(a.tolist())
                     for a in arrays])
    before = [a.copy() for a in arrays]
    kw = {} if atol is None else {'atol': atol}
    na, ni, rep = decompose_hyper_inds(arrays, t.ts_inds, **kw)
    na, ni = list(na), [tuple(x) for x in ni]
    mon.check(all(np.array_equal(a, b) for a, b in zip(arrays, before)),
              'the arrays are modified', key='mutated')
    inds = t.inds
    mon.check(set(rep) == set(inds), 'the map does not cover the indices',
              key='map', got=rep)
    mon.check(set(rep.values()) <= set(inds) and
              all(rep[rep[x]] == rep[x] for x in inds) and
              all(t.dims[rep[x]] == t.dims[x] for x in inds),
              'not a map to representatives', key='map', got=rep)
    mon.check(len(na) == len(ni) == len(t.ts_inds), 'number of tensors',
              key='number')
    for a, xs, ys in zip(na, ni, t.ts_inds):
        mon.check(len(set(xs)) == len(xs), 'an index is repeated', key='inds',
                  got=xs)
        mon.check(set(xs) <= {rep[y] for y in ys}, 'indices of a tensor',
                  key='inds', got=xs, was=ys)
        mon.check(np.shape(a) == tuple(t.dims[x] for x in xs),
                  'shape of a tensor', key='shape', got=np.shape(a), inds=xs)
        if len(xs) < len({rep[y] for y in ys}):
            mon.event('dropped')
    out = list(t.output_inds)
    want = ref.einsum(arrays, t.ts_inds, out)
    outs = list(dict.fromkeys(rep[x] for x in out))
    got = ref.einsum(na, ni, outs)
    scale = 1 + np.prod([1 + np.abs(a).sum() for a in arrays])
    mon.check(np.allclose(expand(got, outs, rep, out, t.dims), want, rtol=0,
                          atol=tol * scale), 'the value changes', key='value',
              got=got, want=want)
    # What is open (closed) still looks open (closed)
    c0 = Counter(x for xs in t.ts_inds for x in xs)
    c1 = Counter(x for xs in ni for x in xs)
    for x in set(rep.values()):
        o = any(c0[y] == 1 for y in inds if rep[y] == x)
        mon.check(c1[x] >= (1 if o else 2), 'a contracted index looks open',
                  key='open', got=ni)
    # and through contract(), with the indices which are really open
    n = len(ni)
    open1 = [x for x in outs]
    path = []
    for _ in range(n - 1):
        path.append(tuple(rng.sample(range(n - len(path)), 2)))
    ts, o, (a,) = contract(path, ni, open1, na)
    mon.check(set(ts[0]) == set(open1), 'open indices after contracting',
              key='open', got=ts)
    a = np.transpose(a, [ts[0].index(x) for x in outs])
    mon.check(np.allclose(a, got, rtol=0, atol=1e-9 * scale),
              'contract gives another value', key='contract')
    mon.event('contracted')
    mon.event('networks')
    if len(set(rep.values())) < len(inds):
        mon.event('merged')
        mon.distinct(t.signature(), tuple(t.inds.index(rep[x]) for x in inds),
                     tuple(len(x) for x in ni))
    if len(outs) < len(out):
        mon.event('open_merged')
    mon.sample(ts_inds=t.ts_inds, new=ni, map=list(rep.items()))
    return rep


def network(rng):
    while True:
        t = gen.tn(rng, n_min=1, n_max=6, dims=rng.choice(
            [(2,), (2, 3), (1, 2), (3,)]), hyper=rng.choice([0, .4]),
                   open_=rng.random() * .5, hyper_open=rng.choice([0, .3]),
                   connected=rng.coin(.8), scalars=.3)
        if ref.prod(t.dims[x] for x in t.output_inds) < 3000 and max(
                (ref.prod(t.dims[x] for x in xs) for xs in t.ts_inds),
                default=1) < 600:
            return t


def exact(rng, mon):
    t = network(rng)
    compare(rng, mon, t, structured(rng, t))


def noisy(rng, mon):
    """Elements below the tolerance do not count; above it they do."""
    t = network(rng)
    atol = rng.choice([1e-8, 1e-6, 1e-4])
    compare(rng, mon, t, structured(rng, t, rng.choice([.3, 50]) * atol), atol,
            tol=20 * atol)


def gates(rng, mon):
    """Circuit-like: chains of diagonal, permutation and dense gates."""
    import numpy as np
    nq, depth = rng.randint(1, 3), rng.randint(1, 7)
    k = 0
    names = gen.index_names(rng, 4 * depth + nq + 2)
    cur = []
    for q in range(nq):
        cur.append(names[k])
        k += 1
    ts, arrays = [], []
    out = []
    if rng.coin():
        for q in range(nq):
            ts.append((cur[q],))
            arrays.append(np.array(rng.choice([[1., 0], [0, 1.], [1, 1]])))
    else:
        out += cur
    X = np.array([[0, 1.], [1, 0]])
    H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    T = np.diag([1, np.exp(.25j * np.pi)])
    RX = np.array([[np.cos(.3), -1j * np.sin(.3)], [-1j * np.sin(.3),
                                                   np.cos(.3)]])
    Y = np.array([[0, -1j], [1j, 0]])
    CZ = np.diag([1., 1, 1, -1]).reshape(2, 2, 2, 2)
    CX = np.eye(4)[[0, 1, 3, 2]].reshape(2, 2, 2, 2)
    SW = np.eye(4)[[0, 2, 1, 3]].reshape(2, 2, 2, 2)
    I4 = np.eye(4).reshape(2, 2, 2, 2)
    for _ in range(depth):
        if nq > 1 and rng.coin():
            a, b = rng.sample(range(nq), 2)
            na, nb = names[k], names[k + 1]
            k += 2
            ts.append((na, nb, cur[a], cur[b]))
            arrays.append(rng.choice([CZ, CX, SW, I4]))
            cur[a], cur[b] = na, nb
        else:
            a = rng.randrange(nq)
            na = names[k]
            k += 1
            ts.append((na, cur[a]))
            arrays.append(rng.choice([X, H, T, np.eye(2), np.zeros((2, 2)), RX, RX, Y]))
            cur[a] = na
    for q in range(nq):
        if rng.coin():
            ts.append((cur[q],))
            arrays.append(np.array(rng.choice([[1., 0], [0, 1.], [1, 1]])))
        else:
            out.append(cur[q])
    out = [x for x in dict.fromkeys(out) if any(x in xs for xs in ts)]
    t = gen.TN(ts, {x: 2 for xs in ts for x in xs}, tuple(out))
    if not ts:
        return
    compare(rng, mon, t, arrays)


FAMILIES = [Family(exact, 2000), Family(noisy, 500), Family(gates, 1000)]
