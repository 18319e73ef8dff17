"""Independent reference semantics of trees, costs, widths and networks.

Nothing here imports tnco: everything is recomputed from the definitions.
"""

import math
from collections import Counter
from fractions import Fraction


# Contraction trees
def links(nodes):
    """[(children or None, parent or None)] from the public node attributes."""
    out = []
    for n in nodes:
        c, p = list(n.children), n.parent
        c = None if c[0] is None or c[0] < 0 else (int(c[0]), int(c[1]))
        out.append((c, None if p is None or p < 0 else int(p)))
    return out


def tree_error(ls):
    """Why (children, parent) links are not one full binary tree, or None."""
    n = len(ls)
    if n == 0:
        return 'empty'
    roots = [i for i, (_, p) in enumerate(ls) if p is None]
    if len(roots) != 1:
        return f'{len(roots)} roots'
    if roots[0] != n - 1:
        return 'the root is not the last node'
    leaves = [i for i, (c, _) in enumerate(ls) if c is None]
    if leaves != list(range(len(leaves))):
        return 'the leaves are not the first nodes'
    seen, stack = set(), [n - 1]
    while stack:
        i = stack.pop()
        if i in seen:
            return f'node {i} is reached twice'
        seen.add(i)
        c = ls[i][0]
        if c is not None:
            for x in c:
                if not 0 <= x < n:
                    return f'child {x} out of range'
                if ls[x][1] != i:
                    return f'parent of {x} is {ls[x][1]}, not {i}'
                stack.append(x)
    if len(seen) != n:
        return 'nodes not reachable from the root'
    return None


def postorder(ls):
    out, stack = [], [len(ls) - 1]
    while stack:
        i = stack.pop()
        out.append(i)
        if ls[i][0] is not None:
            stack.extend(ls[i][0])
    return out[::-1]


def node_inds(ls, leaf_inds, output_inds=None):
    """Indices of every node, from those of the leaves.

    An index is carried by a node if a leaf below has it, and it is still
    needed: by a leaf elsewhere, or because it is open.
    """
    total = Counter(x for xs in leaf_inds for x in set(xs))
    if output_inds is None:
        open_ = {x for x, c in total.items() if c == 1}
    else:
        open_ = set(output_inds) | {x for x, c in total.items() if c == 1}
    cnt = [None] * len(ls)
    out = [None] * len(ls)
    for i in postorder(ls):
        if ls[i][0] is None:
            cnt[i] = Counter(set(leaf_inds[i]))
            out[i] = frozenset(leaf_inds[i])
        else:
            a, b = ls[i][0]
            cnt[i] = cnt[a] + cnt[b]
            out[i] = frozenset(
                x for x, c in cnt[i].items() if c < total[x] or x in open_)
    return out


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def union_cost(inds, dims, sparse=(), n_projs=None, slices=()):
    """Exact cost (an integer) of a contraction over 'inds' and 'slices'."""
    inds = set(inds) | set(slices)
    sparse = set(sparse or ())
    c = prod(dims[x] for x in inds - sparse)
    s = prod(dims[x] for x in inds & sparse)
    return c * (min(s, n_projs) if sparse and n_projs else s)


def tree_cost(ls, inds, dims, sparse=(), n_projs=None, slices=()):
    return sum(
        union_cost(inds[c[0]] | inds[c[1]], dims, sparse, n_projs, slices)
        for c, _ in ls if c is not None)


def width(inds, dims, sparse=(), n_projs=None):
    sparse = set(sparse or ())
    inds = set(inds)
    w = sum(math.log2(dims[x]) for x in inds - sparse)
    s = sum(math.log2(dims[x]) for x in inds & sparse)
    return w + (min(s, math.log2(n_projs)) if sparse and n_projs else s)


def log2_int(n):
    """log2 of a positive integer of any size."""
    n = int(n)
    if n <= 0:
        raise ValueError(n)
    k = max(0, n.bit_length() - 64)
    return math.log2(n >> k) + k


def leafset(ls):
    """For every node the leaves below it."""
    out = [None] * len(ls)
    for i in postorder(ls):
        c = ls[i][0]
        out[i] = frozenset((i,)) if c is None else out[c[0]] | out[c[1]]
    return out


def shape_signature(ls):
    """Tree up to the order of children and the numbering of inner nodes."""
    return frozenset(leafset(ls))


def replay_path(path, n):
    """Checks a linear path over n tensors; list of contracted pairs by id.

    Returns (contraction, groups left) with groups as frozensets of inputs.
    """
    groups = [frozenset((i,)) for i in range(n)]
    out = []
    for xs in path:
        xs = tuple(int(x) for x in xs)
        if len(xs) != 2 or xs[0] == xs[1]:
            raise ValueError(f'not a pair: {xs}')
        x, y = sorted(xs)
        if x < 0 or y >= len(groups):
            raise ValueError(f'position out of range: {xs} of {len(groups)}')
        b = groups.pop(y)
        a = groups.pop(x)
        out.append((a, b))
        groups.append(a | b)
    return out, groups


# Tensor networks
def components(ts_inds):
    """Connected components as lists of tensor positions."""
    n = len(ts_inds)
    par = list(range(n))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    first = {}
    for i, xs in enumerate(ts_inds):
        for x in xs:
            if x in first:
                par[find(i)] = find(first[x])
            else:
                first[x] = i
    out = {}
    for i in range(n):
        out.setdefault(find(i), []).append(i)
    return list(out.values())


def einsum(arrays, ts_inds, output_inds, dims=None):
    """Dense contraction of a small network by one explicit numpy einsum.

    Repeated, hyper and summed indices are all allowed. Pairwise accumulation
    keeps the number of einsum symbols low.
    """
    import numpy as np
    arrays = [np.asarray(a) for a in arrays]
    out = list(output_inds)
    total = Counter(x for xs in ts_inds for x in set(xs))
    acc, acc_inds = np.ones(()), []
    for a, xs in zip(arrays, ts_inds):
        for x in set(xs):
            total[x] -= 1
        keep = [
            x for x in dict.fromkeys(list(acc_inds) + list(xs))
            if total[x] > 0 or x in out
        ]
        sym = {
            x: i for i, x in enumerate(
                dict.fromkeys(list(acc_inds) + list(xs) + keep))
        }
        acc = np.einsum(acc, [sym[x] for x in acc_inds], a,
                        [sym[x] for x in xs], [sym[x] for x in keep])
        acc_inds = keep
    # Output order, with missing ones (never there) refused
    return np.transpose(acc, [acc_inds.index(x) for x in out])


def exact(x):
    return Fraction(x)
