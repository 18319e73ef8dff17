"""Random optimizers over random networks, with everything needed to judge
them recomputed from the definitions."""

import math

from vf import gen, ref
from vf.harness import Inconclusive

COST_TYPES = ('float32', 'float64', 'float128', 'float1024')
WIDTH_TYPES = ('float32', 'float64')
# How far a reported log2 may be from the exact one
LOG_TOL = {'float32': 2e-4, 'float64': 1e-9, 'float128': 1e-9, 'float1024': 1e-9}
MAX_BITS = {'float32': 100, 'float64': 900, 'float128': 900, 'float1024': 900}


def network(rng, **kw):
    if rng.coin(.25):
        n = rng.randint(kw.get('n_min', 3), max(4, kw.get('n_max', 12)))
        return gen.regular_tn(rng, n, rng.choice([2, 3, 4]),
                              rng.choice([(2,), (2, 3), (2, 4, 8)]),
                              open_=rng.choice([0., .2]),
                              kind=rng.choice(['str', 'int', 'word', 'mixed']))
    return gen.tn(rng,
                  dims=rng.choice([(2,), (2, 3), (2, 3, 4, 5), (1, 2, 6),
                                   (2, 16, 64)]),
                  hyper=rng.choice([0., .2, .5]),
                  **kw)


def tree_for(rng, t, shared):
    from tnco.ctree import ContractionTree
    p = gen.path(rng, t, shared)
    if p is None:
        return None, None
    # Without hyper-indices the output may be left out
    out = t.output_inds
    if rng.coin(.3) and not t.hyper():
        out = None
    return ContractionTree(p, t.ts_inds, t.dims, output_inds=out), p


class Work:
    """One optimizer with its reference data."""

    def __init__(self, rng, mon, kind=None, shared=None, cost_type=None,
                 net=None, n_min=3, n_max=12, sparse=None, probs=None):
        self.rng, self.mon = rng, mon
        self.kind = kind or rng.choice(['infinite', 'finite'])
        self.cost_type = cost_type or rng.choice(
            ('float64', 'float64') + COST_TYPES)
        self.shared = rng.coin(.6) if shared is None else shared
        while True:
            self.tn = net or network(rng, n_min=n_min, n_max=n_max)
            self.ct, self.path = tree_for(rng, self.tn, self.shared)
            if self.ct is not None:
                break
            if net is not None:
                raise Inconclusive('no path')
        t = self.tn
        self.ls = ref.links(self.ct.nodes)
        self.inds = ref.node_inds(self.ls, t.ts_inds, t.output_inds)
        kw = {}
        self.sparse, self.n_projs = frozenset(), None
        if (rng.coin(.3) if sparse is None else sparse) and t.inds:
            self.sparse = t.sparse_choice(rng)
            self.n_projs = rng.choice(
                [1, 2, 3, 5, 17, 1000, rng.randint(1, 64)])
            kw.update(sparse_inds=rng.choice([list, tuple, frozenset])(
                self.sparse),
                      n_projs=self.n_projs)
        kw['cost_type'] = self.cost_type
        okw = {'disable_shared_inds': not self.shared,
               'seed': (0 if rng.coin(.1) else
                        rng.getrandbits(rng.choice([1, 8, 31, 60])))}
        if not self.shared and rng.coin(.0):
            okw.pop('disable_shared_inds')
        self.skip, self.max_new, self.max_width = frozenset(), 0, math.inf
        if self.kind == 'finite':
            self.width_type = rng.choice(WIDTH_TYPES)
            ws = [self.width(xs) for xs in self.inds]
            top = max(ws)
            mode = rng.choice(['half', 'exact', 'wide', 'tight', 'any'])
            if mode == 'half':
                self.max_width = top / 2
            elif mode == 'exact':
                big = max(self.inds, key=self.width)
                sub = rng.sample(sorted(big, key=repr), rng.randint(
                    0, len(big)))
                self.max_width = self.width(sub)
            elif mode == 'wide':
                self.max_width = top + 1
            elif mode == 'tight':
                self.max_width = rng.uniform(0, 2)
            else:
                self.max_width = rng.uniform(0, top + 1)
            if self.width_type == 'float32':
                import numpy as np
                self.max_width = float(np.float32(self.max_width))
            if rng.coin(.35) and t.inds:
                skip = frozenset(
                    rng.sample(t.inds, rng.randint(1, min(4, len(t.inds)))))
                # What is left of every tensor has to fit
                if max(self.width(xs & skip)
                       for xs in self.inds) <= self.max_width - 1e-3:
                    self.skip = skip
            self.max_new = rng.choice([0, 0, 1, 2, 5, 100])
            kw.update(max_width=self.max_width, width_type=self.width_type)
            okw.update(max_number_new_slices=self.max_new)
            if self.skip or rng.coin(.2):
                okw['skip_slices'] = rng.choice([list, frozenset,
                                                 tuple])(self.skip)
        self.cm_kw, self.opt_kw = kw, okw
        self.make()
        self.probs = probs or [
            self.prob('base'),
            self.prob('greedy'),
            self.prob('mh', 0),
            self.prob('mh', rng.choice([.5, 1, 3, 10, 100])),
        ]
        mon.note(tn=(t.ts_inds, t.dims, t.output_inds), path=self.path,
                 cmodel=kw, optimizer=okw, kind=self.kind)

    def module(self):
        if self.kind == 'finite':
            from tnco.optimize import finite_width as m
        else:
            from tnco.optimize import infinite_memory as m
        from importlib import import_module
        return (import_module(m.__name__ + '.optimizer').Optimizer,
                import_module(m.__name__ + '.cost_model').SimpleCostModel)

    def make(self):
        Optimizer, SimpleCostModel = self.module()
        self.cmodel = SimpleCostModel(**self.cm_kw)
        self.opt = Optimizer(self.ct, self.cmodel, **self.opt_kw)
        return self.opt

    def prob(self, name, beta=0):
        from tnco.optimize.prob import (BaseProbability, Greedy,
                                        MetropolisHastings)
        if name == 'base':
            return BaseProbability(cost_type=self.cost_type)
        if name == 'greedy':
            return Greedy(cost_type=self.cost_type)
        return MetropolisHastings(beta, cost_type=self.cost_type)

    def update(self, prob=None):
        prob = prob or self.rng.choice(self.probs)
        if self.kind == 'finite' and self.rng.coin(.2):
            self.opt.update(prob, update_slices=False)
        else:
            self.opt.update(prob)
        self.mon.event('updates')

    # Reference values
    def width(self, xs):
        return ref.width(xs, self.tn.dims, self.sparse, self.n_projs)

    def cost(self, ls, inds, slices=()):
        return ref.tree_cost(ls, inds, self.tn.dims, self.sparse, self.n_projs,
                             slices)

    def slices(self, best=False):
        if self.kind != 'finite':
            return frozenset()
        return self.opt.min_slices if best else self.opt.slices

    def observe(self, best=False):
        """(links, indices by definition, slices) of the (best) tree."""
        ct = self.opt.min_ctree if best else self.opt.ctree
        ls = ref.links(ct.nodes)
        return ct, ls

    def log_tol(self):
        return LOG_TOL[self.cost_type]
