"""C12: pairwise contraction, SVD and the diagonal structure of one tensor."""

import itertools

from vf import gen, ref
from vf.harness import Family

RULE = ('Random tensors of up to 6 indices (integer, real, complex, low rank, '
        'diagonal, permutation-like, empty index lists) compared with a dense '
        'einsum. Non-trivial: shapes and structure not seen before.')
NEEDED = ('tensordot', 'hyper', 'svd', 'truncated', 'diagonal', 'not_diagonal',
          'decomposed', 'subscripts', 'refused', 'names')
HANG_IS_VIOLATION = True


def tensordot(rng, mon):
    import numpy as np
    from tnco.utils.tensor import get_einsum_subscripts
    from tnco.utils.tensor import tensordot as f
    a, b, s = rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3)
    names = gen.index_names(rng, a + b + s)
    dims = {x: rng.choice((1, 2, 3)) for x in names}
    A, B, S = names[:a], names[a:a + b], names[a + b:]
    xs, ys = rng.sample(A + S, a + s), rng.sample(B + S, b + s)
    h = rng.sample(S, rng.randint(0, s))
    exact = rng.coin()

    def arr(zs):
        sh = [dims[z] for z in zs]
        if exact:
            return rng.np.integers(-5, 6, size=sh)
        return rng.np.normal(size=sh) + 1j * rng.np.normal(size=sh)

    X, Y = arr(xs), arr(ys)
    mon.note(xs=xs, ys=ys, dims=dims, hyper=h)
    hy = {} if not h and rng.coin() else {
        'hyper_inds': rng.choice([list, tuple, frozenset])(h)
    }
    Z, zs = f((X, xs), (Y, ys), **hy)
    mon.check(len(set(zs)) == len(zs) and set(zs) == set(A) | set(B) | set(h),
              'indices of the result', key='tensordot-inds', got=zs)
    e = ref.einsum([X, Y], [xs, ys], zs)
    mon.check(Z.shape == e.shape, 'shape of the result', key='tensordot-shape')
    mon.check(np.array_equal(Z, e) if exact else np.allclose(Z, e, atol=1e-9),
              'value of the result', key='tensordot-value')
    mon.check(tuple(f((None, xs), (None, ys), return_inds_only=True,
                      **hy)) == tuple(zs), 'indices only', key='tensordot-only')
    sub = get_einsum_subscripts(xs, ys, zs)
    mon.check(np.array_equal(np.einsum(sub, X, Y), e) if exact else np.allclose(
        np.einsum(sub, X, Y), e, atol=1e-9), 'subscripts do not describe it',
              key='subscripts', got=sub)
    mon.event('subscripts')
    mon.event('tensordot')
    if h:
        mon.event('hyper')
    if rng.coin(.2):
        bad = (A + B + [('no', 'such')])
        mon.raises(ValueError, lambda: f((X, xs), (Y, ys), hyper_inds=[
            rng.choice(bad)
        ]), 'hyper-index not shared', key='refuse')
        mon.event('refused')
    mon.distinct('td', a, b, s, tuple(dims[x] for x in xs),
                 tuple(dims[x] for x in ys), len(h))


def svd(rng, mon):
    import numpy as np
    from tnco.utils.tensor import svd as f
    n = rng.randint(1, 5)
    inds = gen.index_names(rng, n)
    sh = [rng.choice((1, 2, 3)) for _ in inds]
    dims = dict(zip(inds, sh))
    k = rng.randint(0, n)
    left = rng.sample(inds, k)
    right = [x for x in inds if x not in left]
    l, r = ref.prod(dims[x] for x in left), ref.prod(dims[x] for x in right)
    rank = rng.randint(0, min(l, r))
    cplx = rng.coin()

    def rand(*s):
        a = rng.np.normal(size=s)
        return a + 1j * rng.np.normal(size=s) if cplx else a

    m = rand(l, rank) @ rand(rank, r) if rng.coin() else rand(l, r)
    if rng.coin(.1):
        m = np.zeros((l, r))
    arr = m.reshape([dims[x] for x in left + right]).transpose(
        [(left + right).index(x) for x in inds])
    atol = rng.choice([None, 1e-8, 1e-4, .5])
    kw = {} if atol is None else {'atol': atol}
    eff = 1e-8 if atol is None else atol
    name = rng.choice([None, ('svd', 0), 'new'])
    if name is not None:
        kw['svd_index_name'] = name
    elif rng.coin():
        kw['seed'] = rng.seed32()
    mon.note(inds=inds, shape=sh, left=left, kw=kw)
    res = f(arr, inds, rng.choice([list, tuple])(left), **kw)
    if k in (0, n):
        mon.check(len(res) == 1 and set(res[0][1]) == set(inds) and np.allclose(
            ref.einsum([res[0][0]], [res[0][1]], inds), arr),
                  'nothing to split: another tensor', key='svd-trivial')
        mon.event('svd')
        return
    (U, us), (s, ss), (V, vs) = res
    mon.check(len(ss) == 1 and ss[0] not in inds and
              (name is None or ss[0] == name), 'index of the SVD', key='names',
              got=ss)
    mon.check(tuple(us) == (*left, ss[0]) and tuple(vs) == (ss[0], *right),
              'indices of the factors', key='svd-inds', got=(us, vs))
    sv = np.linalg.svd(m, compute_uv=False)
    keep = sv[sv >= eff]
    if np.all(np.abs(sv - eff) > 1e-12):
        mon.check(len(s) == len(keep) and np.allclose(s, keep, atol=1e-9),
                  'singular values', key='svd-values', got=s, want=keep)
    if len(keep) < len(sv):
        mon.event('truncated')
    rec = ref.einsum([U, s, V], [us, ss, vs], inds)
    mon.check(np.linalg.norm(rec - arr) <=
              np.sqrt(np.sum(sv[sv < eff]**2)) + 1e-9,
              'the factors do not give the tensor', key='svd-value')
    u, v = U.reshape(l, len(s)), V.reshape(len(s), r)
    mon.check(np.allclose(u.conj().T @ u, np.eye(len(s)), atol=1e-9) and
              np.allclose(v @ v.conj().T, np.eye(len(s)), atol=1e-9),
              'factors are not isometries', key='svd-isometry')
    mon.event('svd')
    mon.distinct('svd', tuple(sh), tuple(inds.index(x) for x in left), len(s))
    if rng.coin(.3):
        bad = rng.choice([
            lambda: f(arr, inds[1:], left[:0]),
            lambda: f(arr, inds, [*left, ('no', 1)]),
            lambda: f(arr, inds, left, svd_index_name=rng.choice(inds)),
        ])
        mon.raises(ValueError, bad, 'inconsistent arguments', key='refuse')
        mon.event('refused')


def again(rng, mon):
    """Splitting repeatedly with the same seed: names are always new."""
    import numpy as np
    from tnco.utils.tensor import svd as f
    inds = [f'i{k}' for k in range(5)]
    arr = rng.np.normal(size=(2,) * 5)
    seed = rng.seed32()
    (U, us), (s, ss), (V, vs) = f(arr, inds, inds[:3], seed=seed)
    for _ in range(2):
        x, xs = rng.choice([(U, us), (V, vs)])
        res = f(x, xs, xs[:1], seed=seed)
        new = res[1][1][0]
        mon.check(new not in xs, 'the name of the new index is taken',
                  key='names', got=new)
        rec = ref.einsum([a for a, _ in res], [b for _, b in res], xs)
        mon.check(np.allclose(rec, x), 'the factors do not give the tensor',
                  key='svd-value')
        mon.event('names')
    mon.distinct('again', seed)


def diagonal(rng, mon):
    import numpy as np
    from tnco.utils.tensor import is_diagonal as f
    n = rng.randint(2, 4)
    sh = [rng.choice((1, 2, 3)) for _ in range(n)]
    if rng.coin(.8):
        sh[1] = sh[0]
    atol = rng.choice([None, 1e-8, 1e-3])
    eff = 1e-8 if atol is None else atol
    a = rng.np.normal(size=sh)
    if rng.coin():
        a = a + 1j * rng.np.normal(size=sh)
    d = sh[0] == sh[1]
    off = 0.
    if d:
        m = np.eye(sh[0]).reshape([sh[0], sh[0]] + [1] * (n - 2))
        a = a * m
        off = rng.choice([0., 0., eff * .5, eff * 3, 1.])
        if off:
            # one element off the diagonal
            i, j = rng.randrange(sh[0]), rng.randrange(sh[0])
            if i != j:
                a[(i, j) + tuple(rng.randrange(x) for x in sh[2:])] = off
            else:
                off = 0.
    before = a.copy()
    got = f(a) if atol is None else f(a, atol=atol)
    mon.check(bool(got) == (d and off <= eff), 'is_diagonal is wrong',
              key='diagonal', got=got, shape=sh, off=off, atol=eff)
    mon.check(np.array_equal(a, before), 'the array is modified', key='mutated')
    mon.event('diagonal' if got else 'not_diagonal')
    mon.distinct('diag', tuple(sh), off, eff)
    if rng.coin(.1):
        mon.raises(ValueError, lambda: f(rng.np.normal(size=rng.choice(
            [(), (3,)]))), 'less than two dimensions', key='refuse')
        mon.event('refused')


def decompose(rng, mon):
    """array = reduced array times deltas, by definition."""
    import numpy as np
    from tnco.utils.tensor import decompose_hyper_inds as f
    n = rng.randint(1, 5)
    inds = gen.index_names(rng, n)
    d = rng.choice((1, 2, 3))
    sh = [d if rng.coin(.8) else rng.choice((1, 2, 3)) for _ in inds]
    kind = rng.choice(['normal', 'ones', 'int', 'complex'])
    a = {
        'normal': lambda: rng.np.normal(size=sh),
        'ones': lambda: np.ones(sh) * rng.choice([1, 2.5]),
        'int': lambda: rng.np.integers(-2, 3, size=sh),
        'complex': lambda: rng.np.normal(size=sh) * np.exp(1j)
    }[kind]()
    p = rng.choice([.2, .6, 1.])
    for i, j in itertools.combinations(range(n), 2):
        if sh[i] == sh[j] and rng.coin(p):
            a = a * np.eye(sh[i], dtype=int).reshape(
                [sh[k] if k in (i, j) else 1 for k in range(n)])
    mon.note(inds=inds, array=repr(a.tolist())[:1500])
    (b, xs), merged = f(a, inds)
    xs = tuple(xs)
    # groups: key merged with its values
    groups = [{k, *v} for k, v in merged.items()]
    seen = [x for g in groups for x in g]
    mon.check(len(seen) == len(set(seen)) and set(seen) <= set(inds),
              'groups of merged indices overlap', key='groups', got=merged)
    rep = {x: x for x in inds}
    for k, v in merged.items():
        for x in v:
            rep[x] = k
    mon.check(set(xs) <= set(rep.values()), 'indices of the reduced tensor',
              key='groups', got=(xs, merged))
    mon.check(np.shape(b) == tuple(dict(zip(inds, sh))[x] for x in xs),
              'shape of the reduced tensor', key='shape')
    g = np.indices(sh) if n else None
    mask, pos = np.ones(sh, bool), {}
    for k, x in enumerate(inds):
        if rep[x] in pos:
            mask &= g[k] == g[pos[rep[x]]]
        else:
            pos[rep[x]] = k
    full = (b[tuple(g[pos[x]] for x in xs)] if xs else
            np.broadcast_to(b, sh)) * mask
    mon.check(np.allclose(full, a, rtol=0, atol=1e-7),
              'reduced tensor and deltas do not give the tensor', key='value',
              got=repr(b), merged=merged)
    # Nothing diagonal is left
    for i, j in itertools.combinations(range(len(xs)), 2):
        if np.shape(b)[i] == np.shape(b)[j]:
            m = np.moveaxis(np.asarray(b), (i, j), (0, 1))
            off = m[~np.eye(m.shape[0], dtype=bool)]
            mon.check(off.size and np.abs(off).max() > 1e-8,
                      'a diagonal pair of indices is left', key='left', got=xs)
    mon.event('decomposed')
    mon.distinct('dec', kind, tuple(sh), len(xs),
                 tuple(sorted(len(v) for v in merged.values())))
    if rng.coin(.1):
        bad = rng.choice([
            lambda: f(a, inds[:-1]), lambda: f(a, [inds[0]] * (n + 1)),
            lambda: f(np.ones((2, 2)), ['a', 'a'])
        ])
        mon.raises(ValueError, bad, 'inconsistent arguments', key='refuse')
        mon.event('refused')


FAMILIES = [
    Family(tensordot, 1500),
    Family(svd, 1000),
    Family(again, 40, cpu_s=20),
    Family(diagonal, 800),
    Family(decompose, 1500),
]
