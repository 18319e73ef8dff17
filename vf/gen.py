"""Random networks, paths and trees."""

import string
from collections import Counter

from vf import ref


def index_names(rng, n, kind=None):
    """n distinct hashable index names."""
    kind = kind or rng.choice(['str', 'int', 'mixed', 'word', 'tuple'])
    if kind == 'str':
        base = [a for a in string.ascii_letters]
        while len(base) < n:
            base += [f'x{i}' for i in range(n)]
        names = base[:n]
        rng.shuffle(names)
    elif kind == 'int':
        names = rng.sample(range(-3 * n - 3, 7 * n + 5), n)
    elif kind == 'word':
        names = [f'idx_{i}' for i in range(n)]
        rng.shuffle(names)
    elif kind == 'tuple':
        names = [('q', i, i % 3) for i in range(n)]
        rng.shuffle(names)
    else:
        names = [(f's{i}', i, ('t', i), frozenset([i, 'f']))[i % 4]
                 for i in range(n)]
        rng.shuffle(names)
    return names


class TN:
    """A network as plain data: ts_inds (tuples), dims, output_inds."""

    def __init__(self, ts_inds, dims, output_inds):
        self.ts_inds, self.dims, self.output_inds = ts_inds, dims, output_inds

    @property
    def inds(self):
        return list(dict.fromkeys(x for xs in self.ts_inds for x in xs))

    def hyper(self):
        c = Counter(x for xs in self.ts_inds for x in xs)
        return {x for x, n in c.items() if n > 2 or
                (n > 1 and x in self.output_inds)}

    def sparse_choice(self, rng, k=None):
        inds = self.inds
        return frozenset(rng.sample(inds, min(len(inds), k or rng.randint(1, 4))))

    def arrays(self, rng, cplx=True):
        out = []
        for xs in self.ts_inds:
            a = rng.np.normal(size=[self.dims[x] for x in xs])
            if cplx:
                a = a + 1j * rng.np.normal(size=a.shape)
            out.append(a)
        return out

    def signature(self):
        """Shape of the network up to names."""
        m = {x: i for i, x in enumerate(self.inds)}
        return (tuple(tuple(m[x] for x in xs) for xs in self.ts_inds),
                tuple(self.dims[x] for x in self.inds),
                tuple(sorted(m[x] for x in self.output_inds if x in m)))


def tn(rng,
       n=None,
       *,
       n_min=2,
       n_max=12,
       dims=(2, 3, 4),
       hyper=0.25,
       open_=0.2,
       extra=None,
       connected=True,
       hyper_open=0.1,
       kind=None,
       scalars=0.):
    """A random network without repeated indices inside a tensor.

    Every index is in one (then open) or more tensors. 'hyper' is the chance
    of an index to be in more than two, 'hyper_open' that an index shared by
    several tensors is open as well.
    """
    n = n or rng.randint(n_min, n_max)
    ts = [[] for _ in range(n)]
    k = 0
    out = []
    members = []
    order = list(range(n))
    rng.shuffle(order)
    if connected:
        for i in range(1, n):
            members.append([order[i], order[rng.randrange(i)]])
    for _ in range(rng.randint(0, n) if extra is None else extra):
        if n < 2:
            break
        members.append(rng.sample(range(n), 2))
    for m in members:
        while rng.coin(hyper) and len(m) < n:
            x = rng.randrange(n)
            if x not in m:
                m.append(x)
    for i in range(n):
        if rng.coin(open_) or (not any(i in m for m in members) and
                               not rng.coin(scalars)):
            members.append([i])
    rng.shuffle(members)
    names = index_names(rng, len(members), kind)
    d = {}
    for x, m in zip(names, members):
        d[x] = rng.choice(dims)
        for t in m:
            ts[t].append(x)
        if len(m) == 1 or rng.coin(hyper_open):
            out.append(x)
    for t in ts:
        rng.shuffle(t)
    rng.shuffle(out)
    return TN([tuple(t) for t in ts], d, tuple(out))


def regular_tn(rng, n, degree=3, dims=(2,), open_=0., **kw):
    """A roughly regular random graph: the benchmark-like instances."""
    members = []
    for i in range(1, n):
        members.append([i, rng.randrange(i)])
    deg = Counter(x for m in members for x in m)
    for _ in range(n * degree):
        a, b = rng.sample(range(n), 2)
        if deg[a] < degree and deg[b] < degree and [a, b] not in members and [
                b, a
        ] not in members:
            members.append([a, b])
            deg[a] += 1
            deg[b] += 1
    for i in range(n):
        if rng.coin(open_):
            members.append([i])
    names = index_names(rng, len(members), kw.get('kind', 'word'))
    ts, d, out = [[] for _ in range(n)], {}, []
    for x, m in zip(names, members):
        d[x] = rng.choice(dims)
        for t in m:
            ts[t].append(x)
        if len(m) == 1:
            out.append(x)
    return TN([tuple(t) for t in ts], d, tuple(out))


def path(rng, t, shared=True):
    """A random linear path; with 'shared' every pair shares an index.

    With hyper-indices the pair has to share an index that both still carry.
    """
    n = len(t.ts_inds)
    total = Counter(x for xs in t.ts_inds for x in xs)
    cur = [Counter(xs) for xs in t.ts_inds]
    out = []

    def carried(c):
        return {
            x for x, k in c.items()
            if k < total[x] or x in t.output_inds or total[x] == 1
        }

    cs = [carried(c) for c in cur]
    while len(cur) > 1:
        if shared:
            pairs = [(i, j) for i in range(len(cur)) for j in range(i)
                     if cs[i] & cs[j]]
            if not pairs:
                return None
        else:
            pairs = None
        if pairs is None:
            i, j = rng.sample(range(len(cur)), 2)
        else:
            i, j = rng.choice(pairs)
        if rng.coin():
            i, j = j, i
        out.append((i, j))
        m = cur[i] + cur[j]
        for k in sorted((i, j), reverse=True):
            cur.pop(k)
            cs.pop(k)
        cur.append(m)
        cs.append(carried(m))
    return out
