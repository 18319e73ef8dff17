"""C09: contracting along any path gives the value of the network."""

from vf import gen, ref
from vf.harness import Family

RULE = ('Random networks with hyper-, open, size-1 and shared-open indices and '
        'random complete or partial paths over all pairs (also of tensors that '
        'share nothing); arrays of integers are compared exactly with a dense '
        'einsum, floating ones to 1e-9. Non-trivial: a network and path not '
        'seen before.')
NEEDED = ('contractions', 'hyper', 'partial', 'outer', 'refused', 'dry', 'exact')


def network(rng, n_max=7):
    while True:
        t = gen.tn(rng, n_min=1, n_max=n_max, dims=rng.choice(
            [(2,), (1, 2, 3), (2, 3)]), hyper=rng.choice([0, .3, .6]),
                   open_=rng.random() * .5, hyper_open=rng.choice([0, .5]),
                   connected=rng.coin(.7), scalars=.5)
        if ref.prod(t.dims.values()) < 40000:
            return t


def arrays_of(rng, t):
    k = rng.choice(['int', 'float', 'complex', 'single', 'mixed', 'fortran'])
    out = []
    for xs in t.ts_inds:
        sh = [t.dims[x] for x in xs]
        kk = rng.choice(['int', 'float', 'complex']) if k == 'mixed' else k
        if kk == 'int':
            a = rng.np.integers(-4, 5, size=sh)
        elif kk == 'complex':
            a = rng.np.normal(size=sh) + 1j * rng.np.normal(size=sh)
        elif kk == 'single':
            a = rng.np.normal(size=sh).astype('float32')
        else:
            a = rng.np.normal(size=sh)
        if k == 'fortran' and sh:
            import numpy as np
            a = np.asfortranarray(a).reshape(sh)
        out.append(a)
    return k, out


def kept(t, groups):
    """Indices of each group by definition."""
    from collections import Counter
    total = Counter(x for xs in t.ts_inds for x in xs)
    out = []
    for g in groups:
        c = Counter(x for i in g for x in t.ts_inds[i])
        out.append({
            x for x in c
            if c[x] < total[x] or x in t.output_inds or total[x] == 1
        })
    return out


def run(rng, mon, t, path, n):
    import numpy as np
    from tnco.utils.tn import contract
    kind, arrays = arrays_of(rng, t)
    mon.note(ts_inds=t.ts_inds, dims=t.dims, output=t.output_inds, path=path,
             kind=kind)
    out = None if not t.hyper() and rng.coin() else rng.choice(
        [list, frozenset, tuple])(t.output_inds)
    kw = {}
    if rng.coin(.3):
        kw['dims'] = dict(t.dims)
    if rng.coin(.3):
        kw['backend'] = 'numpy'
    give = [a.tolist() if rng.coin(.1) else a for a in arrays]
    give = [np.asarray(a).reshape(b.shape) if isinstance(a, list) and
            np.asarray(a).shape != b.shape else a for a, b in zip(give, arrays)]
    before = [a.copy() for a in arrays]
    ts, o, res = contract(rng.choice([list, tuple])(path),
                          [rng.choice([list, tuple])(x) for x in t.ts_inds],
                          out, give, **kw)
    pairs, groups = ref.replay_path(path, n)
    want = kept(t, groups)
    mon.check(len(ts) == len(groups) == len(res), 'number of tensors left',
              key='number', got=ts)
    for g, xs, a, w in zip(groups, ts, res, want):
        mon.check(len(set(xs)) == len(xs) and set(xs) == w,
                  'indices of a contracted tensor', key='inds', got=xs, want=w)
        mon.check(tuple(a.shape) == tuple(t.dims[x] for x in xs),
                  'shape of a contracted tensor', key='shape', got=a.shape)
        e = ref.einsum([arrays[i] for i in sorted(g)],
                       [t.ts_inds[i] for i in sorted(g)], xs)
        if kind == 'int':
            mon.check(np.array_equal(a, e), 'value of a contracted tensor',
                      key='value', inds=xs)
            mon.event('exact')
        else:
            tol = (1e-3 if kind == 'single' else 1e-9) * (1 + np.max(
                np.abs(e), initial=0.))
            mon.check(np.allclose(a, e, rtol=0, atol=tol),
                      'value of a contracted tensor', key='value', inds=xs)
    mon.check(frozenset(o) == frozenset(t.output_inds),
              'output indices', key='output', got=o)
    mon.check(all(np.array_equal(a, b) for a, b in zip(arrays, before)),
              'the arrays are modified', key='mutated')
    # Without arrays: the same indices
    d = contract(path, t.ts_inds, out, dims=t.dims)
    mon.check(list(map(tuple, d[0])) == list(map(tuple, ts)) and d[1] == o,
              'without arrays: other indices', key='dry', got=d)
    if len(set(t.dims.values())) == 1:
        d = contract(path, t.ts_inds, out, dims=next(iter(t.dims.values())))
        mon.check(list(map(tuple, d[0])) == list(map(tuple, ts)),
                  'with a common dimension: other indices', key='dry')
    mon.event('dry')
    mon.event('contractions', len(path))
    if t.hyper():
        mon.event('hyper')
    if len(groups) > 1:
        mon.event('partial')
    for a, b in pairs:
        if not {x for i in a for x in t.ts_inds[i]} & {
                x for i in b for x in t.ts_inds[i]
        }:
            mon.event('outer')
    mon.distinct(t.signature(), path, kind)
    mon.sample(ts_inds=t.ts_inds, dims=t.dims, path=path, left=ts)


def complete(rng, mon):
    t = network(rng)
    p = gen.path(rng, t, rng.coin(.4)) or gen.path(rng, t, False) if len(
        t.ts_inds) > 1 else []
    run(rng, mon, t, p, len(t.ts_inds))


def partial(rng, mon):
    t = network(rng)
    p = gen.path(rng, t, False) if len(t.ts_inds) > 1 else []
    run(rng, mon, t, p[:rng.randint(0, len(p))], len(t.ts_inds))


def independent(rng, mon):
    """The value does not depend on the path; also sliced."""
    import numpy as np
    from tnco.utils.tn import contract
    t = network(rng)
    n = len(t.ts_inds)
    arrays = t.arrays(rng)
    vals = []
    for _ in range(3):
        p = gen.path(rng, t, False) if n > 1 else []
        ts, o, (a,) = contract(p, t.ts_inds, t.output_inds, arrays)
        mon.check(set(ts[0]) == set(t.output_inds), 'final indices',
                  key='inds')
        vals.append(np.transpose(a, [ts[0].index(x) for x in t.output_inds]))
        mon.distinct(t.signature(), p)
    for v in vals[1:]:
        mon.check(np.allclose(v, vals[0], rtol=0,
                              atol=1e-9 * (1 + np.abs(vals[0]).max())),
                  'the value depends on the path', key='value')
    # Slicing: fix an index to each value, and sum or stack
    inds = t.inds
    if inds:
        x = rng.choice(inds)
        parts = []
        for k in range(t.dims[x]):
            ar = [
                np.take(a, k, axis=xs.index(x)) if x in xs else a
                for a, xs in zip(arrays, t.ts_inds)
            ]
            ts = [tuple(y for y in xs if y != x) for xs in t.ts_inds]
            out = [y for y in t.output_inds if y != x]
            r, _, (a,) = contract(p, ts, out, ar)
            parts.append(np.transpose(a, [r[0].index(y) for y in out]))
        if x in t.output_inds:
            v = np.stack(parts, axis=t.output_inds.index(x))
        else:
            v = sum(parts)
        mon.check(np.allclose(v, vals[0], rtol=0,
                              atol=1e-9 * (1 + np.abs(vals[0]).max())),
                  'the sum over slices is not the value', key='slices')
    mon.event('contractions', 3 * n)


def refused(rng, mon):
    import numpy as np
    from tnco.utils.tn import contract
    t = gen.tn(rng, n_min=2, n_max=5, dims=(2, 3))
    p = gen.path(rng, t, False)
    arrays = t.arrays(rng, False)
    T, O = t.ts_inds, t.output_inds
    k = rng.randrange(7)
    if k == 0:
        bad = lambda: contract(p, T, O)
    elif k == 1:
        bad = lambda: contract(p, T, O, arrays[:-1])
    elif k == 2:
        i = next(i for i, xs in enumerate(T) if xs)
        a = list(arrays)
        a[i] = np.concatenate([a[i], a[i]], axis=0)
        d = dict(t.dims)
        bad = lambda: contract(p, T, O, a, d)
    elif k == 3:
        bad = lambda: contract(p, T, (*O, ('no', 'such')), arrays)
    elif k == 4:
        x = rng.choice(t.inds)
        d = {y: v for y, v in t.dims.items() if y != x}
        bad = lambda: contract(p, T, O, dims=d)
    elif k == 5:
        bad = lambda: contract([(0, 0)] + p[1:], T, O, arrays)
    else:
        T3 = [*T, (t.inds[0],), (t.inds[0],)]
        bad = lambda: contract([(0, 1)], T3, None, dims=t.dims)
    mon.raises(ValueError, bad, f'inconsistent arguments ({k})', key='refuse')
    mon.event('refused')
    mon.distinct('refused', k, t.signature())


FAMILIES = [
    Family(complete, 1200),
    Family(partial, 600),
    Family(independent, 500),
    Family(refused, 300),
]
