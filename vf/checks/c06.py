"""C06: a contraction tree is the path it was built from."""

import math
import pickle

from vf import gen, ref
from vf.harness import Family

RULE = ('Random networks and valid random paths (full, partial, with single '
        'tensors left out, pairs in any order); the tree is rebuilt by '
        'definition from the path and compared: shape, indices of every node, '
        'dimensions, path, width. Non-trivial: a network and path not seen '
        'before.')
NEEDED = ('trees', 'partial', 'refused', 'traversals')


def reference(path, ts, out, n):
    """Links and indices by definition from a linear path.

    Nodes: used inputs in order, then the intermediate ones in path order.
    """
    pos = list(range(n))
    pairs = []
    for k, (a, b) in enumerate(path):
        x, y = pos[a], pos[b]
        for i in sorted((a, b), reverse=True):
            pos.pop(i)
        pos.append(n + k)
        pairs.append((x, y, n + k))
    used = sorted({i for p in pairs for i in p if i < n})
    ids = {x: k for k, x in enumerate(used + [p[2] for p in pairs])}
    groups = {i: frozenset([i]) for i in used}
    for x, y, z in pairs:
        groups[z] = groups[x] | groups[y]
    return used, ids, pairs, groups


def subtree_sets(ct):
    ls = ref.links(ct.nodes)
    return ls, ref.leafset(ls)


def check(rng, mon, t, path, out, n, dims=None):
    from tnco.ctree import ContractionTree
    dims = dims if dims is not None else t.dims
    ct = ContractionTree(
        rng.choice([list, tuple])(path),
        [rng.choice([list, tuple])(xs) for xs in t.ts_inds], dims,
        output_inds=out, **({'check_shared_inds': False}
                            if rng.coin() else {}))
    full = t.dims if isinstance(dims, dict) else {x: dims for x in t.inds}
    used, ids, pairs, groups = reference(path, t.ts_inds, out, n)
    ls, sets = subtree_sets(ct)
    err = ref.tree_error(ls)
    mon.check(err is None, f'not a tree: {err}', key='shape', links=ls)
    mon.check(len(ls) == 2 * len(used) - 1, 'wrong number of nodes', key='shape')
    # Leaves are the used inputs, in order
    nl = len(used)
    named = [frozenset(used[i] for i in s) for s in sets]
    want = {groups[x]: x for x in groups}
    mon.check(set(named) == set(want), 'other contractions than the path',
              key='pairs', got=named, want=list(want))
    # Indices
    leaf = [t.ts_inds[i] for i in used]
    inds = ref.node_inds(ls, leaf, out)
    got = list(ct.inds[:])
    mon.check(got == inds, 'indices of the tree are wrong', key='inds', got=got,
              want=inds)
    for k in rng.sample(range(len(ls)), min(4, len(ls))):
        mon.check(ct.inds[k] == inds[k], 'inds[k] is wrong', key='inds')
    mon.check(ct.inds[-1] == inds[-1] and ct.output_inds() == inds[-1],
              'output indices are wrong', key='inds')
    allx = {x for xs in leaf for x in xs}
    mon.check(ct.all_inds() == frozenset(allx) and ct.n_inds == len(allx),
              'all_inds is wrong', key='inds')
    mon.check(dict(ct.dims) == {x: full[x] for x in allx}, 'dims are wrong',
              key='dims', got=dict(ct.dims))
    mon.check(ct.n_leaves == nl and len(ct) == len(ls), 'sizes are wrong',
              key='shape')
    # Path: valid over all the inputs, same contractions
    p = ct.path()
    mon.check(len(p) == len(path), 'length of the path', key='path', got=p)
    try:
        ps, left = ref.replay_path(p, n)
    except ValueError as e:
        mon.fail(f'invalid path: {e}', key='path', got=p)
    mon.check({a | b for a, b in ps} == {groups[z] for *_, z in pairs},
              'path() performs other contractions', key='path', got=p)
    # A second tree from that path is the same one
    ct2 = ContractionTree(p, t.ts_inds, dims, output_inds=out)
    ls2, sets2 = subtree_sets(ct2)
    mon.check(ref.shape_signature(ls2) == ref.shape_signature(ls),
              'path() gives another tree', key='roundtrip')
    mon.check(frozenset(zip(sets2, ct2.inds[:])) == frozenset(
        zip(sets, got)), 'path() gives other indices', key='roundtrip')
    # Width
    w = max(sum(math.log2(full[x]) for x in xs) for xs in inds)
    mon.check(abs(ct.max_width() - w) < 1e-9, 'max_width is wrong', key='width',
              got=ct.max_width(), want=w)
    # Pickle
    ct3 = pickle.loads(pickle.dumps(ct))
    mon.check(ct3 == ct and ref.links(ct3.nodes) == ls and
              list(ct3.inds[:]) == got and ct3.path() == p and
              dict(ct3.dims) == dict(ct.dims), 'pickling changes the tree',
              key='pickle')
    # Validity
    ok = ct.is_valid(return_message=True)
    mon.check(ok[0], f'is_valid: {ok[1]}', key='is_valid')
    # Traversal: every node once, children before parents
    from tnco.ctree import traverse_tree
    order = []
    traverse_tree(ct, order.append)
    mon.check(sorted(order) == list(range(len(ls))), 'traversal misses nodes',
              key='traverse', got=order)
    at = {x: k for k, x in enumerate(order)}
    for k, (c, _) in enumerate(ls):
        if c is not None:
            mon.check(at[c[0]] < at[k] and at[c[1]] < at[k],
                      'a parent is visited before its children', key='traverse')
    mon.event('traversals')
    mon.event('trees')
    if nl < n:
        mon.event('partial')
    mon.distinct(t.signature(), tuple(map(tuple, path)))
    mon.sample(tensors=t.ts_inds, path=path, output=out)
    return ct


def out_of(rng, t, used_inds=None):
    """An output that means the same, or None where it may be left out."""
    if not t.hyper() and rng.coin(.4):
        return None
    out = list(t.output_inds)
    if rng.coin(.3):
        out += [('not', 'there')]  # extra ones are documented to be ignored
    return rng.choice([list, tuple, frozenset])(out)


def full(rng, mon):
    t = gen.tn(rng, n_min=2, n_max=14, dims=rng.choice([(2,), (2, 3), (1, 2, 7)]),
               hyper=rng.choice([0, .3, .6]), open_=rng.random() * .6,
               hyper_open=rng.choice([0, .3]), connected=rng.coin(.8))
    p = gen.path(rng, t, rng.coin(.5)) or gen.path(rng, t, False)
    p = [rng.choice([list, tuple])(x) for x in p]
    check(rng, mon, t, p, out_of(rng, t), len(t.ts_inds))


def uniform_dims(rng, mon):
    d = rng.choice([1, 2, 3, 16])
    t = gen.tn(rng, n_min=2, n_max=9, dims=(d,))
    check(rng, mon, t, gen.path(rng, t, False), out_of(rng, t), len(t.ts_inds),
          dims=d)


def partial(rng, mon):
    """Only some of the tensors are contracted, as for a connected component.

    Indices that are shared with the others have to be in the output.
    """
    t = gen.tn(rng, n_min=3, n_max=12, connected=False, extra=rng.randint(2, 12))
    n = len(t.ts_inds)
    k = rng.randint(2, n)
    use = sorted(rng.sample(range(n), k))
    # A path over those
    sub = gen.TN([t.ts_inds[i] for i in use], t.dims, t.output_inds)
    q = gen.path(rng, sub, False)
    pos = list(range(n))
    cur = list(use)
    path = []
    for s, (a, b) in enumerate(q):
        x, y = cur[a], cur[b]
        path.append((pos.index(x), pos.index(y)))
        for z in (x, y):
            pos.remove(z)
            cur.remove(z)
        pos.append(n + s)
        cur.append(n + s)
    rest = {x for i in range(n) if i not in use for x in t.ts_inds[i]}
    used = {x for i in use for x in t.ts_inds[i]}
    out = [x for x in used if x in rest or x in t.output_inds]
    check(rng, mon, t, path, out, n)


def refused(rng, mon):
    from tnco.ctree import ContractionTree
    t = gen.tn(rng, n_min=3, n_max=8, hyper=.6, connected=True)
    hy = {x for x in t.hyper()}
    p = gen.path(rng, t, False)
    if any(sum(x in xs for xs in t.ts_inds) > 2 for x in hy):
        mon.raises(ValueError, lambda: ContractionTree(p, t.ts_inds, t.dims),
                   'hyper-indices without output', key='refuse-hyper')
        mon.event('refused')
    # Sharing
    pr, _ = ref.replay_path(p, len(t.ts_inds))
    ct = ContractionTree(p, t.ts_inds, t.dims, output_inds=t.output_inds)
    ls, sets = subtree_sets(ct)
    inds = ref.node_inds(ls, t.ts_inds, t.output_inds)
    bad = any(c is not None and not inds[c[0]] & inds[c[1]] for c, _ in ls)

    def make():
        return ContractionTree(p, t.ts_inds, t.dims, output_inds=t.output_inds,
                               check_shared_inds=True)

    if bad:
        mon.raises(ValueError, make, 'unshared contraction', key='refuse-shared')
        mon.event('refused')
    else:
        mon.check(make() == ct, 'check_shared_inds changes the tree',
                  key='shared')
    mon.event('trees')
    mon.distinct('refused', t.signature(), tuple(p))


def deep(rng, mon):
    """Chains of a few hundred tensors, and more than 64 indices."""
    n = rng.randint(80, 300)
    names = gen.index_names(rng, n + 1, 'int')
    ts = [(names[i], names[i + 1]) for i in range(n)]
    t = gen.TN(ts, {x: rng.choice((2, 3)) for x in names},
               (names[0], names[-1]))
    if rng.coin():
        # left to right: a caterpillar
        p = [(0, 1)] + [(0, n - 1 - k) for k in range(1, n - 1)]
    else:
        p = gen.path(rng, t, False)
    check(rng, mon, t, p, None, n)


FAMILIES = [
    Family(full, 1500),
    Family(uniform_dims, 200),
    Family(partial, 500),
    Family(refused, 400),
    Family(deep, 24),
]
