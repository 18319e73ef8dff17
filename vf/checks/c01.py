"""C01: trees stay valid contraction trees of the same network."""

from vf import gen, optwork, ref
from vf.harness import Family

RULE = ('Random networks (hyper-, open, size-1 indices), random starting trees, '
        'both optimizers, all cost types, slicing and sparse options, random '
        'acceptance rules; after every update the current and the best tree '
        'are rebuilt from the leaves by definition. Non-trivial: a tree that '
        'differs (up to child order) from all seen for that network.')
NEEDED = ('trees_checked', 'moved', 'shared_pairs')


def check_tree(mon, w, ct, ls, label):
    t = w.tn
    err = ref.tree_error(ls)
    mon.check(err is None, f'{label} is not a valid tree: {err}', key='shape',
              links=ls)
    n = len(t.ts_inds)
    mon.check(len(ls) == 2 * n - 1, f'{label} lost tensors', key='size')
    mon.check(sum(c is None for c, _ in ls) == n, f'{label}: leaves', key='size')
    got = list(ct.inds[:])
    mon.check(got[:n] == [frozenset(xs) for xs in t.ts_inds],
              f'{label}: leaves are not the input tensors', key='leaves',
              got=got[:n])
    want = ref.node_inds(ls, t.ts_inds, t.output_inds)
    mon.check(got == want, f'{label}: intermediate indices are wrong',
              key='inds', got=got, want=want, links=ls)
    mon.check(dict(ct.dims) == {x: t.dims[x] for x in t.inds},
              f'{label}: dimensions changed', key='dims')
    if w.shared:
        for c, _ in ls:
            if c is not None:
                mon.event('shared_pairs')
                mon.check(want[c[0]] & want[c[1]],
                          f'{label}: contracted tensors share no index',
                          key='shared', links=ls, pair=c)
    mon.event('trees_checked')
    return want


def check_path(mon, w, ct, ls, label):
    """The path of a tree performs the contractions of that tree."""
    n = len(w.tn.ts_inds)
    try:
        pairs, left = ref.replay_path(ct.path(), n)
    except ValueError as e:
        mon.fail(f'{label}: invalid path: {e}', key='path', path=ct.path())
    mon.check(left == [frozenset(range(n))], f'{label}: path does not contract '
              'everything once', key='path')
    mon.check(
        frozenset(a | b for a, b in pairs) == frozenset(
            s for s, (c, _) in zip(ref.leafset(ls), ls) if c is not None),
        f'{label}: path is of another tree', key='path', path=ct.path())


def history(rng, mon, n_max=11, steps=None, **kw):
    w = optwork.Work(rng, mon, n_max=n_max, **kw)
    seen = {ref.shape_signature(w.ls)}
    n_upd = steps or rng.randint(5, 40)
    prev = w.ls
    for i in range(n_upd):
        w.update()
        for best in (False, True):
            ct, ls = w.observe(best)
            if best and i % 5 and i < n_upd - 1:
                continue
            check_tree(mon, w, ct, ls, 'best tree' if best else 'tree')
            if i in (0, n_upd // 2, n_upd - 1):
                check_path(mon, w, ct, ls, 'best tree' if best else 'tree')
            if not best and ls != prev:
                mon.event('moved')
                prev = ls
            s = ref.shape_signature(ls)
            if s not in seen:
                seen.add(s)
                mon.distinct(w.tn.signature(), sorted(map(sorted, s)))
        if i % 4 == 0:
            ok, msg = w.opt.is_valid(return_message=True)
            mon.check(ok, f'is_valid() is False: {msg}', key='is_valid')
    mon.sample(kind=w.kind, tensors=w.tn.ts_inds, path=w.path,
               cost_type=w.cost_type, updates=n_upd, distinct_trees=len(seen))


def infinite(rng, mon):
    history(rng, mon, kind='infinite')


def finite(rng, mon):
    history(rng, mon, kind='finite')


def shared(rng, mon):
    """The guarantee matters most for sparse, tree-like networks."""
    t = gen.regular_tn(rng, rng.randint(4, 14), 2 + rng.randrange(2), (2,),
                       open_=.3)
    history(rng, mon, shared=True, net=t)


def hyper(rng, mon):
    t = gen.tn(rng, n_min=4, n_max=10, hyper=.7, hyper_open=.4, open_=.5)
    history(rng, mon, net=t)


def long(rng, mon):
    """Larger networks: 20 to 70 tensors, more than 64 indices."""
    t = gen.regular_tn(rng, rng.randint(20, 70), 3, (2, 3))
    w = optwork.Work(rng, mon, net=t, shared=rng.coin(), cost_type='float64')
    for i in range(120):
        w.update()
        if i % 20 == 19:
            for best in (False, True):
                ct, ls = w.observe(best)
                check_tree(mon, w, ct, ls, 'tree')
                check_path(mon, w, ct, ls, 'tree')
            mon.event('moved')
            mon.distinct('long', i, sorted(map(sorted, ref.shape_signature(ls))))


FAMILIES = [
    Family(infinite, 320),
    Family(finite, 320),
    Family(shared, 200),
    Family(hyper, 160),
    Family(long, 48),
]
