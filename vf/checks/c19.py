"""C19: the results of the optimizers of the application are true."""

import itertools
import math
import time
from collections import Counter
from decimal import Decimal

from vf import gen, optwork, ref
from vf.harness import Family

RULE = ('Random networks (connected or not, with hyper-, open and sparse '
        'indices, scalars, single tensors) and circuits through both '
        'optimizers with random options; paths, costs, slices and order of all '
        'the results are recomputed by definition, and small networks are '
        'contracted slice by slice along the reported path. Non-trivial: a '
        'network not seen before.')
NEEDED = ('runs', 'results', 'finite', 'infinite', 'sliced', 'disconnected',
          'contracted', 'repeated', 'refused', 'timeouts', 'parallel',
          'sparse', 'circuits', 'empty')


def replay(path, ts_inds, output):
    """Contractions of a linear path: [(carried a, carried b, carried ab)].

    Also the groups left, as sets of inputs.
    """
    total = Counter(x for xs in ts_inds for x in set(xs))
    cur = [(frozenset([i]), Counter(set(xs))) for i, xs in enumerate(ts_inds)]

    def carried(c):
        return frozenset(x for x, k in c.items()
                         if k < total[x] or x in output or total[x] == 1)

    # an input carries all of its indices
    cur = [(g, c, frozenset(c)) for g, c in cur]
    out = []
    for xs in path:
        x, y = sorted(int(v) for v in xs)
        if len(tuple(xs)) != 2 or x == y or x < 0 or y >= len(cur):
            raise ValueError(f'invalid pair {xs}')
        b, a = cur.pop(y), cur.pop(x)
        c = a[1] + b[1]
        z = carried(c)
        out.append((a[2], b[2], z))
        cur.append((a[0] | b[0], c, z))
    return out, [g for g, _, _ in cur]


class Case:

    def __init__(self, rng, mon, n_max=9, arrays=None):
        from tnco.app import Tensor, TensorNetwork
        self.rng, self.mon = rng, mon
        t = self.t = gen.tn(
            rng, n_min=1, n_max=n_max,
            dims=rng.choice([(2,), (2, 3), (1, 2, 3), (2, 4, 8)]),
            hyper=rng.choice([0, .2, .5]), open_=rng.choice([0, .2, .5]),
            hyper_open=rng.choice([0, .2]), connected=rng.coin(.6),
            scalars=.5)
        self.sparse, self.n_projs = frozenset(), None
        if rng.coin(.25) and t.inds:
            self.sparse = t.sparse_choice(rng)
            self.n_projs = rng.choice([1, 2, 3, 7, 100])
        self.arrays = t.arrays(rng) if (rng.coin(.6) if arrays is None else
                                        arrays) else None
        out = t.output_inds
        if not t.hyper() and rng.coin(.3):
            out = None
        self.tn = TensorNetwork(
            [Tensor(xs, dims=None if self.arrays and rng.coin() else
                    [t.dims[x] for x in xs],
                    array=self.arrays[i] if self.arrays else None,
                    tags=rng.choice([None, {'k': i}]))
             for i, xs in enumerate(t.ts_inds)],
            output_inds=out, sparse_inds=self.sparse)
        self.cost_type = rng.choice(('float64', 'float64') + optwork.COST_TYPES)
        self.kw = {'cost_type': self.cost_type, 'n_jobs': 1,
                   'seed': rng.seed32()}
        self.max_width = math.inf
        if rng.coin(.6):
            self.max_width = rng.choice(
                [0, 1, 1.5, 2, 3, 4, 6, rng.uniform(0, 8)])
            self.kw.update(max_width=self.max_width, width_type=rng.choice(
                optwork.WIDTH_TYPES))
            if self.kw['width_type'] == 'float32':
                import numpy as np
                self.max_width = float(np.float32(self.max_width))
                self.kw['max_width'] = self.max_width
        elif rng.coin(.3):
            self.kw['max_width'] = rng.choice([None, math.inf])
        self.run = {'n_runs': rng.choice([1, 1, 2, 4])}
        k = rng.randrange(3)
        if k == 0:
            self.run.update(betas=(0, rng.choice([1, 10, 100])),
                            n_steps=rng.choice([1, 3, 20]))
        elif k == 1:
            self.run.update(betas=[rng.random() * 10 for _ in range(
                rng.randint(1, 12))])
        else:
            self.run.update(betas=(rng.choice([5, 50.]), .1), n_steps=7)
        if self.n_projs:
            self.run['n_projs'] = self.n_projs
        if 'max_width' in self.kw and self.max_width < math.inf and rng.coin():
            self.run['update_slices'] = rng.choice([1, 2, 10, 1000])
        self.load = {'fuse': rng.choice([False, None, 0, 2, 3.5, 4]),
                     'decompose_hyper_inds': False}
        mon.note(tn=(t.ts_inds, t.dims, t.output_inds), sparse=self.sparse,
                 arrays=bool(self.arrays), optimizer=self.kw, run=self.run,
                 load=self.load)

    def optimize(self, **kw):
        import warnings

        from tnco.app import Optimizer
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return Optimizer(**{**self.kw, **kw}).optimize(
                self.tn, **self.run, **self.load)

    def judge(self, tn, res, n_runs=None):
        n_runs = n_runs or self.run['n_runs']
        mon = self.mon
        mon.check(len(res) == n_runs, 'number of results', key='runs',
                  got=len(res))
        costs = [Decimal(r.cost) for r in res]
        mon.check(costs == sorted(costs), 'results are not sorted',
                  key='order', got=[str(c) for c in costs])
        for r in res:
            judge_one(mon, tn, r, self.max_width, self.sparse, self.n_projs,
                      self.cost_type)


def judge_one(mon, tn, r, max_width, sparse, n_projs, cost_type):
    ts = [tuple(xs) for xs in tn.ts_inds]
    dims = dict(tn.dims)
    out = set(tn.output_inds)
    finite = max_width < math.inf
    mon.check(hasattr(r, 'slices') == finite, 'slices of the wrong optimizer',
              key='kind')
    # The whole path
    try:
        steps, left = replay(r.path, ts, out)
    except ValueError as e:
        mon.fail(f'path: {e}', key='path', got=r.path)
    mon.check(len(left) == 1, 'the path leaves several tensors', key='path',
              got=r.path)
    slices = frozenset(r.slices) if finite else frozenset()
    mon.check(slices <= set(dims), 'sliced indices that do not exist',
              key='slices')
    # The components
    comps = sorted(sorted(c) for c in ref.components(ts))
    done, total, union, pairs = [], 0, frozenset(), []
    n = len(r.disconnected_paths)
    # tensors without indices may have no (empty) path of their own
    scalars = sum(not xs for xs in ts)
    mon.check(len(comps) - scalars <= n <= len(comps) and
              (scalars == len(ts) or n == len(r.disconnected_costs)) and
              (not finite or n == len(r.disconnected_slices)),
              'number of components', key='components', got=n,
              want=len(comps))
    for k, (p, c) in enumerate(zip(r.disconnected_paths,
                                   r.disconnected_costs or [0] * n)):
        sl = frozenset(r.disconnected_slices[k]) if finite else frozenset()
        try:
            st, groups = replay(p, ts, out)
        except ValueError as e:
            mon.fail(f'disconnected path: {e}', key='path', got=p)
        if p:
            big = [g for g in groups if len(g) > 1]
            mon.check(len(big) == 1, 'a path that leaves several tensors',
                      key='components', got=p)
            done.append(sorted(big[0]))
        inside = {x for i in (done[-1] if p else ()) for x in ts[i]}
        mon.check(sl <= inside, 'slices of another component', key='slices',
                  got=sl)
        cost = 0
        for a, b, z in st:
            mon.check(a & b, 'contraction of tensors that share nothing',
                      key='shared', path=p)
            cost += ref.union_cost(a | b, dims, sparse, n_projs, sl)
            for xs in (a, b, z):
                w = ref.width(xs - sl, dims, sparse, n_projs)
                mon.check(w <= max_width + 1e-5,
                          'a tensor does not fit', key='width', width=w,
                          slices=sl, inds=xs)
        close_cost(mon, c, cost, cost_type, 'component')
        total += cost
        union |= sl
        # what is contracted with what, as sets of inputs
        pairs.append(ref.replay_path(p, len(ts))[0])
    single = [c for c in comps if len(c) == 1]
    mon.check(sorted(done + single) == comps and
              sum(not p for p in r.disconnected_paths) + len(done) == n,
              'the paths are not those of the components', key='components',
              got=sorted(done), want=comps)
    close_cost(mon, r.cost, total, cost_type, 'total')
    mon.check(slices == union, 'slices are not the union of all', key='slices',
              got=slices, want=union)
    # The whole path makes the same contractions, in the same order for each
    whole = ref.replay_path(r.path, len(ts))[0]
    comp = {i: k for k, c in enumerate(comps) for i in c}
    inner = [(frozenset(a), frozenset(b)) for a, b in whole
             if comp[next(iter(a))] == comp[next(iter(b))] and
             len({comp[i] for i in a | b}) == 1]
    want = [frozenset((frozenset(a), frozenset(b))) for p in pairs
            for a, b in p]
    mon.check(Counter(frozenset(x) for x in inner) == Counter(want),
              'the path makes other contractions', key='merge', got=r.path)
    mon.check(r.runtime_s >= 0, 'negative runtime', key='runtime')
    mon.event('results')
    if union:
        mon.event('sliced')
    if len(comps) > 1:
        mon.event('disconnected')


def close_cost(mon, got, want, cost_type, what):
    tol = Decimal('1e-4') if cost_type == 'float32' else Decimal('2e-5')
    mon.check(abs(Decimal(got) - want) <= tol * want, f'{what} cost',
              key='cost', got=str(got), want=want)


def contract(mon, tn, r, want, want_inds, key='value'):
    """Sum over the slices of the contraction along the path."""
    import numpy as np
    from tnco.utils.tn import contract as run
    sl = sorted(getattr(r, 'slices', ()), key=repr)
    dims = dict(tn.dims)
    if math.prod(dims[x] for x in sl) > 64:
        return
    total = np.zeros([dims[x] for x in want_inds], dtype=complex)
    for v in itertools.product(*(range(dims[x]) for x in sl)):
        at = dict(zip(sl, v))
        arrays = [np.asarray(a)[tuple(at.get(x, slice(None)) for x in xs)]
                  for a, xs in zip(tn.arrays, tn.ts_inds)]
        inds = [[x for x in xs if x not in at] for xs in tn.ts_inds]
        o = [x for x in want_inds if x not in at]
        try:
            xs, _, a = run(list(r.path), inds, o, arrays=arrays)
        except MemoryError:
            # A random path may pass through a huge tensor
            return
        if len(a) != 1:
            mon.fail('contraction leaves several tensors', key=key)
        a, xs = np.asarray(a[0]), list(xs[0])
        mon.check(set(xs) == set(o), 'open indices after contraction',
                  key=key, got=xs, want=o)
        total[tuple(at.get(x, slice(None)) for x in want_inds)] += a.transpose(
            [xs.index(x) for x in o])
    mon.check(np.allclose(total, want, atol=1e-8 * (1 + abs(want).max(
        initial=0))), 'contraction along the path and slices gives another '
        'value', key=key)
    mon.event('contracted')


def same(mon, a, b, what):
    for x, y in zip(a, b):
        mon.check(
            [list(map(tuple, p)) for p in (x.path, *x.disconnected_paths)] ==
            [list(map(tuple, p)) for p in (y.path, *y.disconnected_paths)] and
            x.cost == y.cost and
            list(x.disconnected_costs) == list(y.disconnected_costs) and
            getattr(x, 'slices', 0) == getattr(y, 'slices', 0), what,
            key='repeat', got=repr((x.path, y.path)))
    mon.check(len(a) == len(b), what, key='repeat')


def networks(rng, mon):
    c = Case(rng, mon)
    tn, res = c.optimize()
    c.judge(tn, res)
    mon.event('finite' if c.max_width < math.inf else 'infinite')
    if c.sparse:
        mon.event('sparse')
    mon.event('runs')
    if c.arrays:
        want_inds = sorted(tn.output_inds, key=repr)
        if math.prod(c.t.dims[x] for x in want_inds) <= 4096:
            mon.check(set(want_inds) == set(c.tn.output_inds),
                      'output of the network', key='value')
            try:
                want = ref.einsum(c.arrays, c.t.ts_inds, want_inds)
            except MemoryError:
                want = None
            if want is not None:
                contract(mon, tn, rng.choice(res), want, want_inds)
    if rng.coin(.3):
        tn2, res2 = c.optimize()
        mon.check(tn2.ts_inds == tn.ts_inds, 'networks differ', key='repeat')
        same(mon, res, res2, 'same seed, other results')
        mon.event('repeated')
    mon.distinct(c.t.signature(), sorted(map(repr, c.kw.items())))
    mon.sample(tensors=c.t.ts_inds, options=c.kw, run=c.run,
               costs=[str(r.cost) for r in res])


def larger(rng, mon):
    """Larger ones, where slicing and many steps matter."""
    c = Case(rng, mon, n_max=30, arrays=False)
    c.run.update(betas=(0, 30), n_steps=60)
    tn, res = c.optimize()
    c.judge(tn, res)
    mon.event('runs')
    mon.distinct(c.t.signature(), sorted(map(repr, c.kw.items())))


def circuits(rng, mon):
    import numpy as np
    from tnco.app import Optimizer
    from vf import circ
    c = circ.circuit(rng, rng.randint(1, 5), rng.randint(2, 14))
    used = circ.qubits_of(c)
    ai, ini = circ.state(rng, used)
    af, fin = circ.state(rng, used)
    kw = {'seed': rng.seed32(), 'n_jobs': 1}
    mw = math.inf
    if rng.coin():
        kw['max_width'] = mw = rng.choice([1, 2, 3])
        kw['width_type'] = 'float64'
    mon.note(circuit=[(repr(np.round(g, 4).tolist())[:300], q) for g, q in c],
             initial=ai, final=af, optimizer=kw)
    given = [(np.asarray(g), q) for g, q in c]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tn, res = Optimizer(**kw).optimize(
            given, betas=(0, 10), n_steps=10, initial_state=ai, final_state=af,
            simplify_circuit=False,
            decompose_hyper_inds=False)
    for r in res:
        judge_one(mon, tn, r, mw, (), None, 'float64')
    want, inds = circ.value(c, used, ini, fin)
    out = set(tn.output_inds)
    mon.check(len(out) == len(inds), 'open indices of the circuit',
              key='circuit', got=out, want=inds)
    # compare without the names: the whole network by definition
    o = sorted(out, key=repr)
    dense = ref.einsum(tn.arrays, tn.ts_inds, o)
    mon.check(abs(np.linalg.norm(dense) - np.linalg.norm(want)) < 1e-4,
              'norm of the amplitudes', key='circuit')
    if not inds:
        mon.check(abs(dense - want) < 1e-4, 'amplitude', key='circuit')
    contract(mon, tn, res[0], dense, o)
    mon.event('circuits')
    mon.distinct('circuit', len(c), kw['seed'])


def parallel(rng, mon):
    """Processes do not change the results."""
    c = Case(rng, mon)
    c.run['n_runs'] = 4
    tn, res = c.optimize()
    tn2, res2 = c.optimize(n_jobs=rng.choice([2, 3]))
    c.judge(tn2, res2)
    same(mon, res, res2, 'n_jobs changes the results')
    mon.event('parallel')
    mon.event('repeated')


def timeouts(rng, mon):
    c = Case(rng, mon)
    while len(ref.components(c.t.ts_inds)) == len(c.t.ts_inds):
        c = Case(rng, mon)
    n = 10**8
    c.run.update(betas=(0, 10), n_steps=n, n_runs=rng.choice([1, 2]),
                 timeout=rng.choice([0, .05, .2]))
    start = time.monotonic()
    tn, res = c.optimize()
    took = time.monotonic() - start
    c.judge(tn, res)
    # 1e8 steps would take many minutes
    mon.check(took < 30, 'the timeout is not respected', key='timeout',
              took=took)
    mon.event('timeouts')


def refused(rng, mon):
    from tnco.app import Optimizer
    c = Case(rng, mon)
    tn = c.tn
    o = lambda **kw: Optimizer(**{'n_jobs': 1, **c.kw, **kw})
    for what, kw in (
        ("no n_steps", dict(betas=(0, 1))),
        ("equal betas", dict(betas=(1, 1), n_steps=3)),
        ("n_steps 0", dict(betas=(0, 1), n_steps=0)),
        ("n_steps < 0", dict(betas=(0, 1), n_steps=-2)),
        ("n_steps 1.5", dict(betas=(0, 1), n_steps=1.5))):
        mon.raises(ValueError, lambda: o().optimize(tn, **kw), what,
                   key='refuse')
        mon.event('refused')
    for what, kw in (
        ('format', dict(output_format='xml')),
        ('compression', dict(output_compression='zip')),
        ('compression without a file', dict(output_compression='bz2')),
        ('compression without a file', dict(output_compression='gzip'))):
        mon.raises(ValueError, lambda: o(**kw), what, key='refuse')
        mon.event('refused')
    mon.raises((ModuleNotFoundError, ValueError), lambda: o(method='nothing'),
               'method', key='refuse')
    mon.raises(TypeError, lambda: o().optimize(tn, betas=(0, 1), n_steps=2,
                                               not_an_option=1), 'option',
               key='refuse')
    mon.raises(NotImplementedError, lambda: o(cost_type='int7').optimize(
        tn, betas=(0, 1), n_steps=2), 'cost type', key='refuse')
    mon.event('refused', 3)
    mon.distinct('refused', c.t.signature())


def empty(rng, mon):
    """Networks without any tensor: nothing to contract, no cost."""
    from tnco.app import Optimizer
    from tnco.app.tn import TensorNetwork
    mw = rng.choice([math.inf, 1, 5, 20])
    n = rng.randint(1, 4)
    kw = {'seed': rng.seed32(), 'n_jobs': 1}
    if mw < math.inf:
        kw['max_width'] = mw
    mon.note(max_width=mw, n_runs=n)
    tn, res = Optimizer(**kw).optimize(TensorNetwork([]), betas=(0, 10),
                                       n_steps=3, n_runs=n)
    mon.check(len(res) == n, f'{len(res)} results for {n} runs', key='runs')
    mon.check(len(list(tn.tensors)) == 0, 'tensors from nothing', key='empty')
    for r in res:
        mon.check(list(r.path) == [], f'path {r.path} of nothing', key='path')
        mon.check(float(r.cost) == 0, f'cost {r.cost} of nothing', key='cost')
    mon.event('empty')
    mon.distinct(mw, n)


FAMILIES = [
    Family(networks, 700),
    Family(larger, 120),
    Family(circuits, 120),
    Family(parallel, 8),
    Family(timeouts, 8),
    Family(refused, 40),
    Family(empty, 12),
]
