"""C18: nodes, trees and core contraction trees are accepted iff well formed."""

import math
import pickle

from vf import ref
from vf.harness import Family

RULE = ('Random binary trees (1 to 40 leaves) with shuffled node numbers, their '
        'corruptions (links swapped, removed, duplicated, out of range, cut and '
        'glued), random swaps of neighbours, and random indices and dimensions '
        'with corruptions; acceptance is compared with the definition. '
        'Non-trivial: links not seen before.')
NEEDED = ('accepted', 'rejected', 'swaps', 'swaps_ignored', 'nodes_refused',
          'ctrees', 'ctrees_rejected', 'traversals', 'close')


def random_links(rng, n_leaves=None):
    """[(children or None, parent or None)]: leaves first, root last."""
    n = n_leaves or rng.choice([1, 2, 3, 4, 6, 10, 20, 40])
    m = 2 * n - 1
    ch, pa = [None] * m, [None] * m
    inner = list(range(n, m - 1))
    rng.shuffle(inner)
    inner.append(m - 1)
    live = list(range(n))
    for z in inner[:n - 1]:
        if rng.coin(.5):
            rng.shuffle(live)
        a, b = live.pop(), live.pop(rng.randrange(len(live)))
        ch[z] = (a, b)
        pa[a] = pa[b] = z
        live.append(z)
    return list(zip(ch, pa))


def node_ok(c, p):
    """Definition of a valid node; c is a pair, negatives mean nothing."""
    a, b = c
    if (a < 0) != (b < 0):
        return False
    if a >= 0 and (a == b or (p >= 0 and p in (a, b))):
        return False
    return True


def raw(ls):
    return [((-1, -1) if c is None else c, -1 if p is None else p)
            for c, p in ls]


def from_raw(rs):
    return [(None if c[0] < 0 else tuple(c), None if p < 0 else p)
            for c, p in rs]


def nodes_of(rng, rs):
    from tnco_core import Node
    out = []
    for c, p in rs:
        if c[0] < 0 and rng.coin(.3):
            n = Node(p) if rng.coin() else Node(parent=p)
        elif p < 0 and rng.coin(.3):
            n = Node(c)
        else:
            n = Node(list(c), p) if rng.coin() else Node(children=c, parent=p)
        out.append(Node(n) if rng.coin(.1) else n)
    return out


def same_tree(mon, t, ls, what):
    mon.check(ref.links(t.nodes) == ls, f'{what}: nodes', key='nodes',
              got=ref.links(t.nodes), want=ls)
    mon.check(len(t) == len(ls) and t.n_leaves == (len(ls) + 1) // 2,
              f'{what}: sizes', key='sizes')
    v = t.is_valid(return_message=True)
    mon.check(t.is_valid() is True and v[0] is True, f'{what}: is_valid: {v}',
              key='is_valid')


def corrupt(rng, rs):
    rs = [list(x) for x in rs]
    n = len(rs)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(9)
        i, j = rng.randrange(n), rng.randrange(n)
        if k == 0:
            rs[i][1] = rng.randint(-1, n)
        elif k == 1:
            c = list(rs[i][0])
            if c[0] >= 0:
                c[rng.randrange(2)] = rng.randint(0, n)
                rs[i][0] = tuple(c)
        elif k == 2:
            rs[i], rs[j] = rs[j], rs[i]
        elif k == 3:
            # two children are exchanged, parents kept
            c, d = list(rs[i][0]), list(rs[j][0])
            if c[0] >= 0 and d[0] >= 0 and i != j:
                c[0], d[0] = d[0], c[0]
                rs[i][0], rs[j][0] = tuple(c), tuple(d)
                if rng.coin(.3) and c[0] < n and d[0] < n:
                    rs[c[0]][1], rs[d[0]][1] = i, j  # maybe valid again
        elif k == 4:
            rs.pop(i)
            n -= 1
            if not n:
                return rs
        elif k == 5:
            rs.insert(i, [(-1, -1), rng.randint(-1, n)])
            n += 1
        elif k == 6:
            rs[i][1], rs[j][1] = rs[j][1], rs[i][1]
        elif k == 7:
            rs[i][0] = (-1, -1)
        else:
            # a consistent exchange of labels
            if i != j:
                mp = {i: j, j: i}
                f = lambda x: mp.get(x, x)
                rs[i], rs[j] = rs[j], rs[i]
                rs = [[tuple(map(f, c)), f(p)] for c, p in rs]
    return rs


def glued(rng):
    """A tree and a closed loop of nodes, with all the local counts right."""
    t = raw(random_links(rng, rng.choice([2, 3, 5])))
    nl = (len(t) + 1) // 2
    k = rng.randint(1, 3)
    # k new leaves and k new inner nodes, every inner one has one leaf and
    # the next inner one
    n = len(t) + 2 * k

    def f(x):
        return x if x < 0 else x if x < nl else x + (2 * k)

    old = [((f(c[0]), f(c[1])), f(p)) for c, p in t]
    leaves = [nl + i for i in range(k)]
    inner = [nl + k + i for i in range(k)]
    rs = old[:nl]
    rs += [((-1, -1), inner[i]) for i in range(k)]
    rs += [((leaves[i], inner[(i + 1) % k]), inner[(i - 1) % k])
           for i in range(k)]
    rs += old[nl:]
    assert len(rs) == n
    return rs


def trees(rng, mon):
    from tnco_core import Tree
    ls = random_links(rng)
    rs = raw(ls)
    t = Tree(nodes_of(rng, rs))
    same_tree(mon, t, ls, 'tree')
    mon.event('accepted')
    same_tree(mon, pickle.loads(pickle.dumps(t)), ls, 'pickle')
    mon.check(pickle.loads(pickle.dumps(t)) == t, 'pickle differs',
              key='pickle')
    same_tree(mon, Tree(t), ls, 'copy')
    for _ in range(4):
        bad = glued(rng) if rng.coin(.1) else corrupt(rng, rs)
        if any(not node_ok(c, p) for c, p in bad):
            i = next(i for i, (c, p) in enumerate(bad) if not node_ok(c, p))
            mon.note(node=bad[i])
            from tnco_core import Node
            mon.raises(ValueError, lambda: Node(bad[i][0], bad[i][1]),
                       'invalid node', key='node')
            mon.event('nodes_refused')
            continue
        nodes = nodes_of(rng, bad)
        ls2 = from_raw(bad)
        err = ref.tree_error(ls2)
        mon.note(links=ls2, error=err)
        if err is None:
            same_tree(mon, Tree(nodes), ls2, 'corrupted but valid')
            mon.check((Tree(nodes) == t) is (ls2 == ls), 'equality',
                      key='equality')
            mon.event('accepted')
        else:
            mon.raises((ValueError, RuntimeError), lambda: Tree(nodes),
                       f'a tree with {err}', key='tree')
            mon.event('rejected')
        mon.distinct(ls2)
    # traversal: children first, left before right, every node once
    from tnco_core.utils import get_contraction, traverse
    want = []

    def visit(i):
        if ls[i][0] is not None:
            visit(ls[i][0][0])
            visit(ls[i][0][1])
        want.append(i)

    visit(len(ls) - 1)
    seen = []
    traverse(t, seen.append)
    mon.check(seen == want, 'order of the traversal', key='traverse', got=seen,
              want=want)
    mon.check([tuple(x) for x in get_contraction(t)] == [
        (*ls[i][0], i) for i in want if ls[i][0] is not None
    ], 'contraction of the tree', key='traverse')
    mon.event('traversals')
    mon.sample(links=ls)


def swapped(ls, d):
    """By definition: d is exchanged with the sibling of its parent."""
    if not 0 <= d < len(ls):
        return ls
    b = ls[d][1]
    if b is None or ls[b][1] is None:
        return ls
    a = ls[b][1]
    c = [x for x in ls[a][0] if x != b][0]
    ls = list(ls)
    ls[a] = (tuple(d if x == c else x for x in ls[a][0]), ls[a][1])
    ls[b] = (tuple(c if x == d else x for x in ls[b][0]), ls[b][1])
    ls[c] = (ls[c][0], b)
    ls[d] = (ls[d][0], a)
    return ls


def swaps(rng, mon):
    from tnco_core import Tree
    ls = random_links(rng)
    t = Tree(nodes_of(rng, raw(ls)))
    keep = Tree(t)
    first = ls
    for _ in range(rng.randint(1, 60)):
        d = rng.randrange(len(ls)) if rng.coin(.93) else rng.choice(
            [len(ls), len(ls) + 7, 10**6, -1, -5])
        want = swapped(ls, d)
        t.swap_with_nn(d)
        same_tree(mon, t, want, f'swap {d}')
        mon.event('swaps' if want is not ls else 'swaps_ignored')
        if want is not ls and rng.coin(.3):
            # undone by the former sibling
            b = ls[d][1]
            c = [x for x in ls[ls[b][1]][0] if x != b][0]
            t.swap_with_nn(c)
            same_tree(mon, t, swapped(want, c), 'swapped back')
            mon.check(ref.shape_signature(ref.links(t.nodes)) ==
                      ref.shape_signature(ls), 'not undone', key='swap')
            want = swapped(want, c)
        ls = want
    same_tree(mon, keep, first, 'copy of the tree')
    mon.distinct('swaps', first, ls)


def single_nodes(rng, mon):
    from tnco_core import Node
    v = lambda: rng.choice([-7, -1, -1, 0, 1, 2, 3, 2**31 - 1])
    a, b, p = v(), v(), v()
    mon.note(children=(a, b), parent=p)
    if not node_ok((a, b), p):
        mon.raises(ValueError, lambda: Node((a, b), p), 'invalid node',
                   key='node')
        mon.raises((ValueError, RuntimeError),
                   lambda: Node.__new__(Node).__setstate__(((a, b), p)),
                   'state of an invalid node', key='node')
        mon.event('nodes_refused')
        return
    n = Node((a, b), p)
    for x in (n, pickle.loads(pickle.dumps(n)), Node(n)):
        mon.check(x == n and x.is_valid() and x.is_valid(
            return_message=True)[0], 'validity', key='node')
        mon.check(x.children == ((None, None) if a < 0 else (a, b)) and
                  x.parent == (None if p < 0 else p), 'links of a node',
                  key='node', got=repr(x))
        mon.check(x.is_leaf() is (a < 0) and x.is_root() is (p < 0),
                  'leaf or root', key='node')
    c = None if a < 0 else a, None if a < 0 else b
    mon.check(repr(n) == f'Node(parent={None if p < 0 else p}, '
              f'children={c})', 'repr', key='node', got=repr(n))
    m = Node((a, b) if rng.coin() else (-1, -1), p if rng.coin() else -1)
    mon.check((m == n) is (m.children == n.children and m.parent == n.parent),
              'equality', key='node')
    mon.distinct('node', a, b, p)


def ctree_error(ls, inds, n_inds, dims, shared):
    if len(inds) != len(ls):
        return 'number of tensors'
    if any(len(x) != n_inds for x in inds):
        return 'sizes'
    if isinstance(dims, int):
        if dims < 1:
            return 'dims'
    elif len(dims) != n_inds or min(dims, default=1) < 1:
        return 'dims'
    for i, (c, _) in enumerate(ls):
        if c is None:
            continue
        a, b, z = (set(inds[k].positions()) for k in (*c, i))
        if shared and not a & b:
            return 'not shared'
        if not (a ^ b) <= z <= (a | b):
            return 'indices'
    return None


def core_ctrees(rng, mon):
    """The core class, from bitsets."""
    from tnco_core import Bitset, ContractionTree
    ls = random_links(rng, rng.choice([1, 2, 3, 5, 9]))
    n = rng.choice([0, 1, 3, 6, 64, 70])
    nl = (len(ls) + 1) // 2
    leaf = [{i for i in range(n) if rng.random() < rng.choice([.2, .6])}
            for _ in range(nl)]
    if rng.coin(.5) and n:
        # every contraction shares an index
        for s in leaf:
            s.add(0)
    out = {i for i in range(n) if rng.coin(.3)} | ({0} if n else set())
    inds = ref.node_inds(ls, leaf, out)
    dims = rng.choice([1, 2, 3]) if rng.coin() else [
        rng.randint(1, 5) for _ in range(n)]
    if rng.coin(.05):
        dims = 0
    bs = [[sorted(x), n] for x in inds]
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.randrange(5)
        i = rng.randrange(len(bs))
        if k == 0 and n:
            x = rng.randrange(n)
            s = set(bs[i][0]) ^ {x}
            if max(s, default=-1) < bs[i][1]:
                bs[i][0] = sorted(s)
        elif k == 1:
            bs[i][1] += 1
        elif k == 2:
            bs.append([[], n])
        elif k == 3:
            bs.pop()
        elif isinstance(dims, list):
            if rng.coin() or not dims:
                dims = dims + [2]
            else:
                dims[rng.randrange(len(dims))] = rng.choice([0, 2])
        if not bs:
            break
    xs = [Bitset(p, m) for p, m in bs]
    shared = rng.coin(.3)
    nodes = nodes_of(rng, raw(ls))
    err = ctree_error(ls, xs, len(xs[0]) if xs else 0, dims, shared)
    mon.note(links=ls, inds=bs, dims=dims, shared=shared, error=err)
    mk = lambda: ContractionTree(nodes, xs, dims, check_shared_inds=shared)
    if err is not None:
        mon.raises((ValueError, RuntimeError), mk,
                   f'a contraction tree: {err}', key='ctree')
        mon.event('ctrees_rejected')
    else:
        t = mk()
        for w in (t, ContractionTree(t)):
            same_tree(mon, w, ls, 'ctree')
            mon.check([sorted(x.positions()) for x in w.inds] ==
                      [x for x, _ in bs] and w.n_inds == len(xs[0]),
                      'indices', key='ctree')
            mon.check(w.dims == dims, 'dimensions', key='ctree', got=w.dims)
            mon.check(w == t and w.is_valid(check_shared_inds=shared),
                      'equality or validity', key='ctree')
        e2 = ctree_error(ls, xs, len(xs[0]), dims, True)
        mon.check(t.is_valid(check_shared_inds=True) is (e2 is None),
                  'validity with shared indices', key='ctree')
        mon.event('ctrees')
    mon.distinct('ctree', ls, bs, dims)


def close(rng, mon):
    from tnco_core.utils import all_close, all_logclose, is_close, is_logclose
    def num():
        return rng.choice([0., -1., rng.normalvariate(0, 1), 1e-9, 1e300, .5,
                           rng.random() * 1e-7, math.inf])
    k = rng.randint(0, 5)
    xs = [num() for _ in range(k)]
    ys = [x if rng.coin(.5) else x + rng.choice([.3, -.4, 1e-9, 1e-6, 5])
          for x in xs]
    if rng.coin(.1):
        ys.append(1.)
    atol = rng.choice([None, 1e-8, .35, 0., 2.])
    kw = {} if atol is None else {'atol': atol}
    a = 1e-8 if atol is None else atol
    mon.note(x=xs, y=ys, atol=atol)

    def margin(d):
        return abs(d - a) <= 1e-14 * (1 + a) and a > 0

    def one(x, y):
        d = abs(x - y)
        return None if margin(d) else d <= a

    def log(x, y):
        if x < 0 or y < 0:
            return False
        if x == 0 or y == 0:
            return x == y
        if math.isinf(x) or math.isinf(y):
            # inf - inf is not a number
            return False
        d = abs(math.log(x) - math.log(y))
        return None if margin(d) or (a == 0 and x != y and d < 1e-12) else d <= a

    for f, g, h in ((is_close, all_close, one), (is_logclose, all_logclose,
                                                 log)):
        w = [h(x, y) for x, y in zip(xs, ys)]
        if None in w:
            continue
        for x, y, v in zip(xs, ys, w):
            mon.check(f(x, y, **kw) is v, f.__name__, key='close', x=x, y=y)
        mon.check(g(xs, ys, **kw) is (len(xs) == len(ys) and all(w)),
                  g.__name__, key='close')
        mon.event('close')
    mon.distinct('close', xs, ys, atol)


FAMILIES = [
    Family(trees, 2500),
    Family(swaps, 700),
    Family(single_nodes, 600),
    Family(core_ctrees, 2500),
    Family(close, 800),
]
