"""C07: random contraction paths contract everything, and only neighbours."""

import itertools
import warnings
from collections import Counter

from vf import gen, ref
from vf.harness import Family

RULE = ('Random networks (connected or not, hyper-indices, scalars, repeated '
        'shapes); every returned path is replayed on the groups of original '
        'tensors. Non-trivial: a network/path pair not seen before.')
NEEDED = ('paths', 'merged', 'components', 'scalars', 'first_steps')


def group_inds(ts, g):
    return {x for i in g for x in ts[i]}


def network(rng, n_max=14):
    t = gen.tn(rng, n_min=1, n_max=n_max, hyper=rng.choice([0, .3, .7]),
               open_=rng.random() * .5, hyper_open=rng.choice([0, .4]),
               connected=rng.coin(.6), scalars=.7)
    if rng.coin(.15):
        t.ts_inds.insert(rng.randrange(len(t.ts_inds) + 1), ())
    return t


def give(rng, t):
    k = rng.randrange(3)
    if k == 0:
        return [list(xs) for xs in t.ts_inds]
    if k == 1:
        return tuple(t.ts_inds)
    return (xs for xs in list(t.ts_inds))


def replay(mon, path, n, what):
    mon.check(all(len(p) == 2 and p[0] < p[1] for p in path),
              f'{what}: pairs are not ordered', key='order', path=path)
    try:
        return ref.replay_path(path, n)
    except ValueError as e:
        mon.fail(f'{what}: invalid path: {e}', key='invalid', path=path)


def separate(rng, mon):
    from tnco.utils.tn import get_random_contraction_path
    t = network(rng)
    n = len(t.ts_inds)
    seed = rng.seed32()
    mon.note(ts_inds=t.ts_inds, seed=seed)
    comps = [frozenset(c) for c in ref.components(t.ts_inds)]
    want = {c for c in comps if group_inds(t.ts_inds, c)}
    paths = get_random_contraction_path(give(rng, t), merge_paths=False,
                                        seed=seed)
    got = []
    for p in paths:
        pairs, groups = replay(mon, p, n, 'component')
        for a, b in pairs:
            mon.check(
                group_inds(t.ts_inds, a) & group_inds(t.ts_inds, b),
                'contracts tensors without a shared index', key='shared',
                path=p)
        big = [g for g in groups if len(g) > 1]
        mon.check(len(big) == (1 if p else 0), 'a path is not one component',
                  key='component', path=p)
        got += big
        mon.event('components')
    mon.check(len(paths) == len(want), 'number of components', key='component',
              got=len(paths), want=len(want))
    mon.check(Counter(got) == Counter(c for c in want if len(c) > 1),
              'a component is not fully contracted', key='component', got=got,
              want=comps)
    if any(not xs for xs in t.ts_inds):
        mon.event('scalars')
    mon.event('paths')
    mon.distinct(t.signature(), tuple(map(tuple, paths)))
    mon.sample(ts_inds=t.ts_inds, paths=paths)


def merged(rng, mon):
    from tnco.utils.tn import get_random_contraction_path
    t = network(rng)
    n = len(t.ts_inds)
    seed = rng.seed32()
    mon.note(ts_inds=t.ts_inds, seed=seed)
    comps = [frozenset(c) for c in ref.components(t.ts_inds)]
    p0 = get_random_contraction_path(give(rng, t), autocomplete=False, seed=seed)
    pairs, groups = replay(mon, p0, n, 'merged')
    for a, b in pairs:
        mon.check(group_inds(t.ts_inds, a) & group_inds(t.ts_inds, b),
                  'contracts tensors without a shared index', key='shared')
    mon.check(Counter(groups) == Counter(comps),
              'without autocomplete: other tensors left than the components',
              key='left', got=groups, want=comps)
    kw = {'output_inds': t.output_inds} if rng.coin(.3) else {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p1 = get_random_contraction_path(give(rng, t), seed=seed, **kw)
    mon.check(p1[:len(p0)] == p0, 'autocomplete changes the contractions',
              key='autocomplete', got=p1, want=p0)
    pairs1, groups1 = replay(mon, p1, n, 'autocompleted')
    mon.check(len(groups1) == min(1, n), 'tensors are left', key='left',
              got=groups1)
    ps = get_random_contraction_path(give(rng, t), seed=seed, merge_paths=False)
    sets = {a | b for p in ps for a, b in ref.replay_path(p, n)[0]}
    mon.check(sets == {a | b for a, b in pairs},
              'merge_paths changes the contractions', key='merge')
    if any(not xs for xs in t.ts_inds):
        mon.event('scalars')
    mon.event('merged')
    mon.event('paths', 3)
    mon.distinct(t.signature(), tuple(p1))


def reach(rng, mon):
    """Every contraction that is allowed as a first step is chosen."""
    from tnco.utils.tn import get_random_contraction_path
    t = gen.tn(rng, n_min=3, n_max=4, hyper=rng.choice([0, .5]), open_=.2,
               hyper_open=.2)
    n = len(t.ts_inds)
    ok = {
        frozenset(c) for c in itertools.combinations(range(n), 2)
        if set(t.ts_inds[c[0]]) & set(t.ts_inds[c[1]])
    }
    # every allowed pair has probability >= 1 / (number of indices * 6)
    draws = int(25 * 6 * len(t.inds)) + 50
    seen, base = set(), rng.seed32() // 2
    for s in range(draws):
        p = get_random_contraction_path(t.ts_inds, seed=base + s)
        seen.add(frozenset(p[0]))
        mon.distinct(t.signature(), tuple(p))
    mon.check(seen <= ok, 'first step without a shared index', key='shared')
    mon.check(seen == ok, 'a first step is never chosen', key='reach',
              missing=ok - seen)
    mon.event('first_steps', len(seen))
    mon.event('paths', draws)


def big(rng, mon):
    from tnco.utils.tn import get_random_contraction_path
    t = gen.regular_tn(rng, rng.randint(100, 400), open_=.1)
    n = len(t.ts_inds)
    p = get_random_contraction_path(t.ts_inds, seed=rng.seed32())
    pairs, groups = replay(mon, p, n, 'big')
    mon.check(len(groups) == 1, 'tensors are left', key='left')
    for a, b in pairs:
        mon.check(group_inds(t.ts_inds, a) & group_inds(t.ts_inds, b),
                  'contracts tensors without a shared index', key='shared')
    mon.event('paths')
    mon.distinct(t.signature(), tuple(p))


FAMILIES = [
    Family(separate, 1500),
    Family(merged, 1500),
    Family(reach, 30),
    Family(big, 16),
]
