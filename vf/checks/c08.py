"""C08: merging and splitting contraction paths keeps the contractions."""

from collections import Counter

from vf import gen, ref
from vf.harness import Family

RULE = ('Random partitions of up to 40 tensors, with a random path per part '
        '(also untouched parts); merged, split and merged again, replayed on '
        'sets of original tensors. Non-trivial: a set of paths not seen '
        'before.')
NEEDED = ('merges', 'splits', 'normalized', 'refused', 'roundtrips')


def local_path(rng, n, members, partial=False):
    """A path that contracts 'members' only, over n tensors, as if alone."""
    pos = list(range(n))
    cur = list(members)
    out = []
    k = n
    stop = rng.randint(1, max(1, len(cur) - 1)) if partial else 1
    while len(cur) > stop:
        a, b = rng.sample(cur, 2)
        out.append((pos.index(a), pos.index(b)))
        for z in (a, b):
            pos.remove(z)
            cur.remove(z)
        pos.append(k)
        cur.append(k)
        k += 1
    return out


def partition(rng, n, parts):
    out = [[] for _ in range(parts)]
    for i in range(n):
        out[rng.randrange(parts)].append(i)
    return [p for p in out if p]


def unions(path, n):
    return [a | b for a, b in ref.replay_path(path, n)[0]]


def instance(rng):
    n = rng.choice([1, 2, 3, 4, 6, 9, 15, 40])
    parts = partition(rng, n, rng.randint(1, max(1, n // 2)))
    keep = [p for p in parts if rng.coin(.85)]
    return n, keep, [local_path(rng, n, p, rng.coin(.2)) for p in keep]


def merge(rng, mon):
    from tnco.utils.tn import merge_contraction_paths
    n, parts, paths = instance(rng)
    mon.note(n=n, paths=paths)
    give = rng.choice([lambda: paths, lambda: tuple(paths),
                       lambda: [[list(x) for x in p] for p in paths]])
    m = merge_contraction_paths(n, give(), autocomplete=False)
    try:
        u = unions(m, n)
    except ValueError as e:
        mon.fail(f'the merged path is invalid: {e}', key='invalid', got=m)
    want = [x for p in paths for x in unions(p, n)]
    mon.check(u == want, 'the merged path performs other contractions',
              key='merge', got=m)
    full = merge_contraction_paths(n, give())
    mon.check(full[:len(m)] == m, 'autocomplete changes the path',
              key='autocomplete', got=full, want=m)
    try:
        left = ref.replay_path(full, n)[1]
    except ValueError as e:
        mon.fail(f'the completed path is invalid: {e}', key='invalid', got=full)
    mon.check(len(left) == min(1, n), 'autocomplete leaves tensors',
              key='autocomplete', got=left)
    mon.event('merges')
    mon.distinct(n, m, full)
    mon.sample(n=n, paths=paths, merged=full)


def split(rng, mon):
    from tnco.utils.tn import merge_contraction_paths, split_contraction_path
    n, parts, paths = instance(rng)
    # Interleave the paths at random, independently of the library
    path, pos, k, cur = [], list(range(n)), n, []
    todo = [[tuple(x) for x in ref.replay_path(p, n)[0]] for p in paths]
    name = {frozenset([i]): i for i in range(n)}
    while any(todo):
        q = rng.choice([q for q in todo if q])
        a, b = q.pop(0)
        i, j = pos.index(name[a]), pos.index(name[b])
        path.append((i, j) if rng.coin() else (j, i))
        for z in (name[a], name[b]):
            pos.remove(z)
        name[a | b] = k
        pos.append(k)
        k += 1
    mon.note(n=n, path=path)
    pairs, groups = ref.replay_path(path, n)
    want = Counter(a | b for a, b in pairs)
    big = [g for g in groups if len(g) > 1]
    give = rng.choice([lambda: path, lambda: iter(path),
                       lambda: [list(x) for x in path]])
    out = split_contraction_path(n, give())
    mon.check(len(out) == len(big) and all(out),
              'number of disconnected paths', key='split', got=out)
    seen = Counter()
    for p in out:
        try:
            ps, gs = ref.replay_path(p, n)
        except ValueError as e:
            mon.fail(f'invalid path: {e}', key='invalid', got=p)
        seen.update(a | b for a, b in ps)
        b = [g for g in gs if len(g) > 1]
        mon.check(len(b) == 1 and b[0] in big, 'a path is not one component',
                  key='split', got=p)
        # in the same order as in the original one
        mon.check([a | b for a, b in ps
                   ] == [a | c for a, c in pairs if a | c <= b[0]],
                  'order of the contractions', key='order', got=p)
    mon.check(seen == want, 'other contractions', key='split', got=out)
    mon.event('splits')
    # Components
    ps, cc = split_contraction_path(n, give(), return_connected_components=True)
    mon.check(len(ps) == len(cc), 'paths and components differ in number',
              key='cc')
    mon.check(Counter(cc) == Counter(groups), 'components are wrong', key='cc',
              got=cc, want=groups)
    for p, c in zip(ps, cc):
        g = [g for g in ref.replay_path(p, n)[1] if len(g) > 1]
        mon.check(g == [c] if len(c) > 1 else not p,
                  'a path is not that of its component', key='cc', got=(p, c))
    # Normalized: positions among the sorted tensors of the component
    ps, cc = split_contraction_path(n, give(), return_connected_components=True,
                                    normalize_paths=True)
    tot = Counter()
    for p, c in zip(ps, cc):
        ids = sorted(c)
        try:
            qs, left = ref.replay_path(p, len(ids))
        except ValueError as e:
            mon.fail(f'invalid normalized path: {e}', key='normalized', got=p)
        mon.check(len(left) == 1, 'normalized path is not complete',
                  key='normalized', got=p)
        tot.update(frozenset(ids[i] for i in a | b) for a, b in qs)
    mon.check(tot == want, 'normalized paths perform other contractions',
              key='normalized')
    ps2 = split_contraction_path(n, give(), normalize_paths=True)
    mon.check(ps2 == [p for p in ps if p], 'options change the paths',
              key='normalized')
    mon.event('normalized')
    # Roundtrip
    m = merge_contraction_paths(n, out, autocomplete=False)
    mon.check(Counter(unions(m, n)) == want, 'split and merge loses contractions',
              key='roundtrip', got=m)
    mon.event('roundtrips')
    mon.distinct(n, path)


def refused(rng, mon):
    """Paths that use the same tensor cannot be merged."""
    from tnco.utils.tn import merge_contraction_paths
    n = rng.randint(3, 12)
    a = rng.sample(range(n), rng.randint(2, n))
    b = rng.sample(range(n), rng.randint(2, n))
    p, q = local_path(rng, n, a), local_path(rng, n, b)
    mon.note(n=n, p=p, q=q)
    if set(a) & set(b):
        mon.raises(ValueError, lambda: merge_contraction_paths(
            n, [p, q], autocomplete=rng.coin()), 'overlapping paths',
                   key='overlap')
        mon.event('refused')
    else:
        u = unions(merge_contraction_paths(n, [p, q], autocomplete=False), n)
        mon.check(u == unions(p, n) + unions(q, n), 'other contractions',
                  key='merge')
    mon.distinct(n, p, q)


FAMILIES = [Family(merge, 1500), Family(split, 1500), Family(refused, 400)]
