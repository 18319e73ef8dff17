"""C04: moves are accepted with the probability of the chosen rule."""

import math
from collections import Counter, defaultdict
from decimal import Decimal, localcontext

from vf import gen, optwork, ref
from vf.harness import Family

RULE = ('(1) acceptance rules evaluated on random costs of all types against '
        'the formula in 320-digit arithmetic; (2) long histories of optimizers '
        'of 3 to 5 tensors: the observed frequency of every transition between '
        'trees is compared with the one of the reference Markov chain (uniform '
        'leaf, one admissible swap per ancestor, accepted by the rule); (3) '
        'larger greedy, cold and always-accept histories. Non-trivial: a '
        'transition with an acceptance probability strictly between 0 and 1, '
        'or a formula evaluated with a positive cost difference.')
NEEDED = ('formula', 'transitions', 'greedy_updates', 'base_moves')


def make(name, beta, ct):
    from tnco.optimize.prob import (BaseProbability, Greedy,
                                    MetropolisHastings)
    return {
        'base': lambda: BaseProbability(cost_type=ct),
        'greedy': lambda: Greedy(cost_type=ct),
        'mh': lambda: MetropolisHastings(beta, cost_type=ct)
    }[name]()


def want(name, beta, delta, old):
    """Probability by definition (Decimal), for positive old costs."""
    if name == 'base' or delta <= 0:
        return Decimal(1)
    if name == 'greedy':
        return Decimal(0)
    with localcontext() as c:
        c.prec = 330
        return (1 + Decimal(delta) / Decimal(old))**(-Decimal(beta))


def formula(rng, mon):
    import tnco_core
    for _ in range(40):
        ct = rng.choice(optwork.COST_TYPES)
        name = rng.choice(['base', 'greedy', 'mh', 'mh', 'mh'])
        beta = rng.choice([0, .5, 1, 2, 10, 100, rng.uniform(0, 20)])
        old = rng.choice([
            rng.randint(1, 1000), rng.uniform(1e-3, 1e3),
            2.**rng.randint(0, 90)
        ])
        delta = rng.choice([
            rng.uniform(-.99, 0) * old, 0, rng.uniform(0, 3) * old,
            old * 2.**rng.randint(-20, 10), 1, -1 if old >= 1 else 0
        ])
        if ct == 'float32':
            import numpy as np
            old, delta = float(np.float32(old)), float(np.float32(delta))
        p = make(name, beta, ct)
        a = (delta, old)
        if ct == 'float1024':
            a = tuple(tnco_core.float1024(x) for x in a)
        got = p(*a)
        exp = want(name, beta, delta, old)
        g = Decimal(str(got)) if ct == 'float1024' else Decimal(float(got))
        tol = {'float32': 2e-4, 'float64': 1e-12, 'float128': 1e-12,
               'float1024': 1e-280}[ct]
        # Errors are amplified by beta
        tol = Decimal(tol) * (1 + Decimal(beta)) + Decimal('1e-38')
        mon.check(abs(g - exp) <= tol * max(exp, Decimal('1e-30')),
                  f'{name} acceptance probability is wrong', key='formula',
                  cost_type=ct, beta=beta, delta=delta, old=old, got=str(got),
                  want=str(exp)[:40])
        mon.check(0 <= g <= 1, 'not a probability', key='formula', got=str(g))
        mon.event('formula')
        if delta > 0:
            mon.distinct(name, beta, delta, old, ct)
    mon.sample(rule=name, cost_type=ct, beta=beta, delta=delta, old=old,
               got=str(got)[:40])


# Reference Markov chain on nested frozensets of leaves
def children_map(ls):
    lf = ref.leafset(ls)
    return {
        lf[i]: frozenset((lf[c[0]], lf[c[1]]))
        for i, (c, _) in enumerate(ls) if c is not None
    }


def key_of(cm):
    return frozenset((k, v) for k, v in cm.items())


def carried(leaves, t, total):
    c = Counter(x for i in leaves for x in t.ts_inds[i])
    return frozenset(
        x for x, k in c.items()
        if k < total[x] or x in t.output_inds or total[x] == 1)


def kernel(cm, t, w, rule):
    """{next state: probability} of one update."""
    n = len(t.ts_inds)
    total_count = Counter(x for xs in t.ts_inds for x in xs)
    cache = {}

    def inds(s):
        if s not in cache:
            cache[s] = carried(s, t, total_count)
        return cache[s]

    def ccost(kids):
        a, b = kids
        return ref.union_cost(inds(a) | inds(b), t.dims, w.sparse, w.n_projs)

    out = defaultdict(float)

    def walk(cm, B, total, p):
        A = next((k for k, v in cm.items() if B in v), None)
        if A is None:
            out[key_of(cm)] += p
            return
        if len(B) == 1:
            walk(cm, A, total, p)
            return
        (C,) = cm[A] - {B}
        X, Y = sorted(cm[B], key=sorted)
        opts = [(X, Y), (Y, X)]
        if w.shared:
            opts = [(D, E) for D, E in opts if inds(D) & inds(C)]
        for D, E in opts:
            q = p / len(opts)
            nB = D | C
            new = dict(cm)
            del new[B]
            new[nB] = frozenset((D, C))
            new[A] = frozenset((nB, E))
            delta = (ccost(new[nB]) + ccost(new[A]) - ccost(cm[B]) -
                     ccost(cm[A]))
            acc = rule(delta, total)
            if acc > 0:
                walk(new, A, total + delta, q * acc)
            if acc < 1:
                walk(cm, A, total, q * (1 - acc))

    tot = sum(ccost(v) for v in cm.values())
    for i in range(n):
        walk(cm, frozenset((i,)), tot, 1 / n)
    return out


def chain(rng, mon):
    n = rng.choice([3, 3, 4, 4, 5])
    t = gen.tn(rng, n, dims=rng.choice([(2,), (2, 3), (2, 3, 4)]),
               extra=rng.randint(n - 2, 2 * n), hyper=.2, open_=.6)
    kind = rng.choice(['infinite', 'finite'])
    # Costs have to be exact for the sign of their differences
    top = ref.prod(t.dims.values())
    w = optwork.Work(rng, mon, net=t, kind='infinite',
                     cost_type='float64' if top > 2**21 and rng.coin(.7) else
                     rng.choice(optwork.COST_TYPES[top > 2**21:]))
    if kind == 'finite':
        # A limit that never matters: the same chain
        from tnco.optimize.finite_width import Optimizer
        from tnco.optimize.finite_width.cost_model import SimpleCostModel
        w.kind = 'finite'
        w.cmodel = SimpleCostModel(max_width=1000, **w.cm_kw)
        w.opt = Optimizer(w.ct, w.cmodel, **w.opt_kw)
    name, beta = rng.choice([('base', 0), ('mh', 0), ('mh', .5), ('mh', 1),
                             ('mh', 3), ('mh', 10), ('greedy', 0)])
    p = w.prob(name, beta)
    mon.note(rule=name, beta=beta)

    def rule(delta, total):
        if name == 'base' or delta <= 0:
            return 1.
        return 0. if name == 'greedy' else (1 + delta / total)**-beta

    cm = children_map(ref.links(w.opt.ctree.nodes))
    cur = key_of(cm)
    kernels, obs = {}, defaultdict(Counter)
    n_upd = 1500 if mon.tier == 'quick' else 6000
    for _ in range(n_upd):
        w.opt.update(p)
        cm2 = children_map(ref.links(w.opt.ctree.nodes))
        nxt = key_of(cm2)
        if cur not in kernels:
            kernels[cur] = kernel(cm, t, w, rule)
        mon.check(kernels[cur].get(nxt, 0) > 0,
                  'a transition which the rule forbids', key='forbidden',
                  frm=sorted(map(repr, cur)), to=sorted(map(repr, nxt)))
        obs[cur][nxt] += 1
        cur, cm = nxt, cm2
        mon.event('transitions')
    for s, c in obs.items():
        m = sum(c.values())
        for nx, q in kernels[s].items():
            if m * q < 1e-9:
                continue
            sd = math.sqrt(max(0., m * q * (1 - q)))
            mon.check(abs(c[nx] - m * q) <= 6 * sd + 4,
                      'transition frequency differs from the acceptance rule',
                      key='frequency', rule=name, beta=beta, expected=m * q,
                      observed=c[nx], visits=m, frm=sorted(map(repr, s)),
                      to=sorted(map(repr, nx)))
            mon.event('frequencies')
            if 1e-3 < q < .999:
                mon.distinct(t.signature(), name, beta, sorted(map(repr, s)),
                             sorted(map(repr, nx)))
    mon.sample(tensors=t.ts_inds, rule=name, beta=beta, states=len(obs),
               kind=kind, cost_type=w.cost_type)


def pooled(rng, mon):
    """Pooled score of acceptances: smaller deviations, many updates."""
    n = 3
    t = gen.tn(rng, n, dims=(2, 3, 4), extra=4, hyper=.2, open_=.8)
    ct = rng.choice(
        optwork.COST_TYPES[ref.prod(t.dims.values()) > 2**21:])
    w = optwork.Work(rng, mon, net=t, kind='infinite', cost_type=ct)
    beta = rng.choice([.5, 1, 2, 5])
    p = w.prob('mh', beta)

    def rule(delta, total):
        return 1. if delta <= 0 else (1 + delta / total)**-beta

    cm = children_map(ref.links(w.opt.ctree.nodes))
    cur = key_of(cm)
    kernels, stay = {}, 0.
    exp = var = 0.
    for _ in range(8000 if mon.tier == 'quick' else 40000):
        w.opt.update(p)
        cm2 = children_map(ref.links(w.opt.ctree.nodes))
        nxt = key_of(cm2)
        if cur not in kernels:
            kernels[cur] = kernel(cm, t, w, rule)
        q = kernels[cur].get(cur, 0.)
        exp += q
        var += max(0., q * (1 - q))
        stay += nxt == cur
        cur, cm = nxt, cm2
        mon.event('transitions')
    mon.check(abs(stay - exp) <= 6 * math.sqrt(var) + 4,
              'moves are rejected with the wrong frequency', key='frequency',
              beta=beta, expected=exp, observed=stay)
    mon.distinct('pooled', t.signature(), beta, ct)


def monotone(rng, mon):
    """Greedy never accepts an increase, with and without slices."""
    w = optwork.Work(rng, mon, n_min=4, n_max=12,
                     cost_type=rng.choice(['float64', 'float128']))
    cold = rng.coin(.2)
    p = w.prob('mh', 1e9) if cold else w.prob('greedy')
    last = None
    for _ in range(50):
        if w.kind == 'finite':
            w.opt.update(p, update_slices=rng.coin(.6))
        else:
            w.opt.update(p)
        ct, ls = w.observe()
        inds = ref.node_inds(ls, w.tn.ts_inds, w.tn.output_inds)
        c = w.cost(ls, inds, w.slices())
        if c < 2**45 and (last is None or last < 2**45) and not (
                cold and last and last > 2**20):
            mon.check(last is None or c <= last, 'the cost increased',
                      key='greedy', before=last, after=c)
            mon.event('greedy_updates')
        last = c
    mon.distinct('greedy', w.tn.signature(), last)


def mixing(rng, mon):
    """Always accepting visits every tree of a fully connected network."""
    n = rng.choice([4, 4, 5])
    names = gen.index_names(rng, n * (n - 1) // 2)
    ts, d, k = [[] for _ in range(n)], {}, 0
    for i in range(n):
        for j in range(i):
            ts[i].append(names[k])
            ts[j].append(names[k])
            d[names[k]] = rng.choice([2, 3])
            k += 1
    t = gen.TN([tuple(x) for x in ts], d, ())
    w = optwork.Work(rng, mon, net=t, kind='infinite')
    p = w.prob('base')
    seen = set()
    for _ in range(600 if n == 4 else 3500):
        w.opt.update(p)
        s = ref.shape_signature(ref.links(w.opt.ctree.nodes))
        seen.add(s)
        mon.event('base_moves')
    full = {4: 15, 5: 105}[n]
    mon.check(len(seen) == full, 'some contraction trees are never reached',
              key='mixing', reached=len(seen), all=full)
    for s in seen:
        mon.distinct(n, sorted(map(sorted, s)))


FAMILIES = [
    Family(formula, 400),
    Family(chain, 240, 1200),
    Family(pooled, 64, 320),
    Family(monotone, 400),
    Family(mixing, 40),
]
