"""C10: fusing only makes tensors that fit."""

import math
from collections import Counter

from vf import gen, ref
from vf.harness import Family

RULE = ('Random networks, maximum widths (around actual widths too) and '
        'excluded indices; the path is replayed and the indices of each fused '
        'tensor are recomputed. Non-trivial: a network/limit/path not seen '
        'before.')
NEEDED = ('fused', 'at_limit', 'excluded', 'refused', 'stopped')


def kept(t, g, total):
    c = Counter(x for i in g for x in t.ts_inds[i])
    return {
        x for x in c
        if c[x] < total[x] or x in t.output_inds or total[x] == 1
    }


def network(rng, n_max=12):
    return gen.tn(rng, n_min=2, n_max=n_max,
                  dims=rng.choice([(2,), (2, 3), (1, 2, 4), (3, 5, 7)]),
                  hyper=rng.choice([0, .3, .6]), open_=rng.random() * .5,
                  hyper_open=rng.choice([0, .4]), connected=rng.coin(.8),
                  scalars=.5)


def widths(rng, mon):
    from tnco.utils.tn import contract, fuse
    t = network(rng)
    n = len(t.ts_inds)
    total = Counter(x for xs in t.ts_inds for x in xs)

    def width(xs):
        return sum(math.log2(t.dims[x]) for x in xs)

    w0 = [width(xs) for xs in t.ts_inds]
    lim = rng.choice([
        rng.choice(w0), rng.choice([0, 1, 2, 3, 4, 6, 8]), max(w0), 1e9,
        rng.random() * 8, -1
    ])
    inds = t.inds
    ex = rng.sample(inds, rng.randint(0, min(3, len(inds)))) if rng.coin(
        .5) else []
    out = None if not t.hyper() and rng.coin() else rng.choice(
        [list, frozenset, tuple])(t.output_inds)
    seed = rng.seed32()
    mon.note(ts_inds=t.ts_inds, dims=t.dims, output=t.output_inds, limit=lim,
             exclude=ex, seed=seed)
    dims = t.dims
    if len(set(t.dims.values())) == 1 and rng.coin():
        dims = next(iter(t.dims.values()))
    args = dict(exclude_inds=rng.choice([list, frozenset, tuple])(ex), seed=seed)
    path, fused = fuse(t.ts_inds, dims, lim, out, return_fused_inds=True, **args)
    mon.check(fuse(t.ts_inds, dims, lim, out, **args) == path,
              'return_fused_inds changes the path', key='options')
    try:
        pairs, groups = ref.replay_path(path, n)
    except ValueError as e:
        mon.fail(f'invalid path: {e}', key='invalid', got=path)
    mon.check(len(fused) == len(path), 'number of fused tensors', key='fused')
    for (a, b), xs in zip(pairs, fused):
        ka, kb = kept(t, a, total), kept(t, b, total)
        mon.check(ka & kb, 'fuses tensors that share no index', key='shared',
                  got=(a, b))
        k = kept(t, a | b, total)
        mon.check(len(set(xs)) == len(xs) and set(xs) == k,
                  'indices of a fused tensor', key='fused', got=xs, want=k)
        w = width(k)
        mon.check(w <= lim + 1e-9, 'a fused tensor is too large', key='width',
                  got=w, limit=lim)
        if abs(w - lim) < 1e-9:
            mon.event('at_limit')
        mon.check(not (ka | kb) & set(ex), 'an excluded index was touched',
                  key='excluded', got=(ka, kb))
        mon.event('fused')
    # Nothing was left that could still be fused (each skipped index may have
    # been refused earlier for another pair only when it is a hyper-index)
    if ex:
        mon.event('excluded')
    if len(groups) > 1:
        mon.event('stopped')
    if lim == 1e9 and not ex:
        comps = Counter(frozenset(c) for c in ref.components(t.ts_inds))
        mon.check(Counter(groups) == comps, 'without a limit, not all is fused',
                  key='complete', got=groups)
    # The path is the one to be used with contract
    ts, o = contract(path, t.ts_inds, t.output_inds, dims=t.dims)
    mon.check([set(x) for x in ts] == [kept(t, g, total) for g in groups],
              'contract gives other tensors', key='contract')
    mon.distinct(t.signature(), lim, path)
    mon.sample(ts_inds=t.ts_inds, limit=lim, path=path, fused=fused)


def two(rng, mon):
    """With two tensors, they are fused exactly when the result fits."""
    from tnco.utils.tn import fuse
    a, b, s = rng.randint(0, 4), rng.randint(0, 4), rng.randint(1, 4)
    names = gen.index_names(rng, a + b + s)
    dims = {x: rng.choice((2, 3, 4)) for x in names}
    A, B, S = names[:a], names[a:a + b], names[a + b:]
    ts = [rng.sample(A + S, a + s), rng.sample(B + S, b + s)]
    w = sum(math.log2(dims[x]) for x in A + B)
    lim = rng.choice([w + 1e-6, w - 1e-6, w + 1, w - 1, 0., 3.])
    if abs(w - lim) < 1e-7:
        lim = w + 1e-6
    out = None if rng.coin() else A + B
    p = fuse(ts, dims, lim, out, seed=rng.seed32())
    mon.check(p == ([(0, 1)] if w <= lim else []),
              'fused exactly when it fits', key='iff', got=p, width=w,
              limit=lim)
    ex = rng.sample(names, 1)
    p = fuse(ts, dims, 1e9, out, exclude_inds=ex, seed=rng.seed32())
    mon.check(p == [], 'an excluded index was touched', key='excluded', got=p)
    mon.event('excluded')
    mon.event('fused')
    mon.distinct('two', a, b, s, w <= lim)


def refused(rng, mon):
    from tnco.utils.tn import fuse
    t = network(rng, 6)
    k = rng.randrange(4)
    if not t.inds:
        return
    if k == 0:
        bad = lambda: fuse(t.ts_inds, t.dims, 4, t.output_inds,
                           exclude_inds=[('no', 'such')])
    elif k == 1:
        d = dict(t.dims)
        d.pop(rng.choice(t.inds))
        bad = lambda: fuse(t.ts_inds, d, 4, t.output_inds)
    elif k == 2:
        bad = lambda: fuse(t.ts_inds, t.dims, 4, [*t.output_inds, ('no', 1)])
    else:
        x = rng.choice(t.inds)
        T = [*t.ts_inds, (x,), (x,)]
        bad = lambda: fuse(T, t.dims, 4)
    mon.raises(ValueError, bad, f'inconsistent arguments ({k})', key='refuse')
    mon.event('refused')
    mon.distinct('refused', k, t.signature())


FAMILIES = [Family(widths, 2000), Family(two, 600), Family(refused, 200)]
