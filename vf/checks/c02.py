"""C02: reported costs are those of the trees, and the best is the best."""

import math
from decimal import Decimal

from vf import gen, optwork, ref
from vf.harness import Family

RULE = ('Random networks, optimizers (both kinds, all cost types, sparse '
        'indices, slices) and acceptance rules; after every update the exact '
        'integer cost of the current and of the best tree is recomputed and '
        'compared with what the optimizer reports. Non-trivial: an update that '
        'changed the cost.')
NEEDED = ('costs_checked', 'cost_changed', 'best_improved', 'exact_minima')


# Sums of integers below these are exact, and so are their comparisons
EXACT = {
    'float32': 2**24,
    'float64': 2**53,
    'float128': 2**64,
    'float1024': 2**1024
}


def log2(x):
    return ref.log2_int(x)


def history(rng, mon, n_max=11, updates=None, **kw):
    w = optwork.Work(rng, mon, n_max=n_max, **kw)
    tol = w.log_tol()
    o = w.opt
    best, last, top = None, None, 0
    for i in range(1 + (updates or rng.randint(5, 40))):
        if i:
            w.update()
        ct, ls = w.observe()
        inds = ref.node_inds(ls, w.tn.ts_inds, w.tn.output_inds)
        cost = w.cost(ls, inds, w.slices())
        # float32 sums are only accurate to its precision
        got = float(o.log2_total_cost)
        mon.check(abs(got - log2(cost)) <= tol,
                  'total cost is not the cost of the tree', key='total',
                  got=got, want=log2(cost), update=i, links=ls,
                  slices=w.slices())
        dec = o.total_cost
        mon.check(isinstance(dec, Decimal) and
                  abs(dec / Decimal(cost) - 1) < Decimal('1e-4'),
                  'total_cost differs from the cost of the tree', key='total',
                  got=str(dec), want=cost)
        bct, bls = w.observe(True)
        binds = ref.node_inds(bls, w.tn.ts_inds, w.tn.output_inds)
        bcost = w.cost(bls, binds, w.slices(True))
        got = float(o.log2_min_total_cost)
        mon.check(abs(got - log2(bcost)) <= tol,
                  'best cost is not the cost of the best tree', key='best',
                  got=got, want=log2(bcost), update=i, links=bls,
                  slices=w.slices(True))
        dec = o.min_total_cost
        mon.check(abs(dec / Decimal(bcost) - 1) < Decimal('1e-4'),
                  'min_total_cost differs from the best cost', key='best',
                  got=str(dec), want=bcost)
        # The best is the minimum over the history, and never gets worse
        if best is None or cost < best:
            if best is not None:
                mon.event('best_improved')
            best = cost
        top = max(top, cost)
        if top < EXACT[w.cost_type]:
            mon.event('exact_minima')
            mon.check(bcost == best, 'best cost is not the minimum so far',
                      key='minimum', best=bcost, minimum=best, update=i)
        else:
            mon.check(abs(log2(bcost) - log2(best)) <= tol,
                      'best cost is not the minimum so far', key='minimum',
                      best=bcost, minimum=best, update=i)
        mon.event('costs_checked', 2)
        if last is not None and cost != last:
            mon.event('cost_changed')
            mon.distinct(w.tn.signature(), cost, last, w.sparse)
        last = cost
    mon.sample(kind=w.kind, cost_type=w.cost_type, tensors=w.tn.ts_inds,
               sparse=w.sparse, n_projs=w.n_projs, best=best, updates=i)


def infinite(rng, mon):
    history(rng, mon, kind='infinite')


def finite(rng, mon):
    history(rng, mon, kind='finite')


def sparse(rng, mon):
    history(rng, mon, sparse=True)


def hyper(rng, mon):
    t = gen.tn(rng, n_min=4, n_max=9, hyper=.7, hyper_open=.4, open_=.4,
               dims=(2, 3, 5))
    history(rng, mon, net=t)


def huge(rng, mon):
    """Costs beyond double: only the wider types can represent them."""
    t = gen.regular_tn(rng, rng.randint(10, 16), 4, (2**30, 2**61, 3**20),
                       open_=.5)
    history(rng, mon, net=t, cost_type=rng.choice(['float128', 'float1024']),
            updates=15, sparse=False)


def steep(rng, mon):
    """One update may lower the cost by more than the precision of its type."""
    ct = rng.choice(['float32', 'float64'])
    t = gen.regular_tn(rng, rng.randint(8, 11), 3,
                       (2, 2**7) if ct == 'float32' else (2, 2**20, 2**40))
    history(rng, mon, net=t, cost_type=ct, updates=15)


def fine(rng, mon):
    """The cost improves by its last digits only.

    Two tensors share so many indices that their contraction dominates the
    cost, whenever it is performed; the others only change its last digits.
    """
    ct = rng.choice(['float32', 'float64', 'float64', 'float128', 'float1024'])
    k = {'float32': 20, 'float64': 50, 'float128': 61, 'float1024': 900}[ct]
    k -= rng.randint(0, 6)
    t = gen.tn(rng, n_min=5, n_max=8, dims=(2,), open_=.3, kind='word',
               hyper=rng.choice([0, .2]), extra=rng.randint(0, 3))
    big = [f'big{i}' for i in range(rng.randint(1, 4))]
    d = dict(t.dims)
    left = k
    for x in big:
        e = left if x == big[-1] else rng.randint(0, left)
        d[x] = 2**min(e, 60)
        left -= min(e, 60)
    while left > 0:
        big.append(f'big{len(big)}')
        d[big[-1]] = 2**min(left, 60)
        left -= min(left, 60)
    ts = [tuple(xs) for xs in t.ts_inds]
    j = rng.randrange(len(ts))
    ts[j] += tuple(big)
    ts.append(tuple(big))
    history(rng, mon, net=gen.TN(ts, d, t.output_inds), cost_type=ct,
            updates=40, sparse=False, kind='infinite')


def greedy(rng, mon):
    """Greedy histories: the cost decreases monotonically to the best."""
    w = optwork.Work(rng, mon, n_min=5, n_max=12, cost_type='float64')
    p = w.prob('greedy')
    last = None
    for i in range(60):
        if w.kind == 'finite':
            w.opt.update(p, update_slices=rng.coin(.7))
        else:
            w.opt.update(p)
        ct, ls = w.observe()
        inds = ref.node_inds(ls, w.tn.ts_inds, w.tn.output_inds)
        cost = w.cost(ls, inds, w.slices())
        if cost < 2**50:
            mon.check(last is None or cost <= last,
                      'the cost increased under Greedy', key='greedy',
                      before=last, after=cost)
        if last is not None and cost < last:
            mon.event('cost_changed')
        last = cost
        mon.event('costs_checked')
    mon.distinct('greedy', w.tn.signature(), last)
    got = float(w.opt.log2_min_total_cost)
    if last < 2**50:
        mon.check(abs(got - math.log2(last)) < 1e-9,
                  'best cost differs from the last one under Greedy',
                  key='greedy', got=got, want=math.log2(last))


FAMILIES = [
    Family(infinite, 900),
    Family(finite, 1200),
    Family(sparse, 500),
    Family(hyper, 500),
    Family(huge, 100),
    Family(steep, 200),
    Family(greedy, 500),
    Family(fine, 400),
]
