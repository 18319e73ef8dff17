"""Objects of every public class, and what can be observed of them.

Used by C27, here and in the processes to which objects are sent.
"""

import math

from vf import gen, ref

COST = ('float32', 'float64', 'float128', 'float1024')
WIDTH = ('float32', 'float64', 'float128')


def text(x):
    """Observations as they can be compared between processes."""
    if isinstance(x, dict):
        return repr(sorted([text(k), text(v)] for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return repr(sorted(text(y) for y in x))
    if isinstance(x, (list, tuple)):
        return repr([text(y) for y in x])
    return repr(x)


# What can be observed, by kind


def bitset(x):
    return len(x), list(x.positions()), x.count(), str(x)


def number(x):
    return str(x), [str(x + 1), str(x * x), str(x / 3)]


def node(x):
    return x.children, x.parent, x.is_leaf(), x.is_root()


def tree(x):
    y = type(x)(x)
    k = next((i for i, n in enumerate(y.nodes)
              if not n.is_root() and not y.nodes[n.parent].is_root()), None)
    if k is not None:
        y.swap_with_nn(k)
    return ref.links(x.nodes), len(x), ref.links(y.nodes)


def ctree(x):
    return (ref.links(x.nodes), text(list(x.inds[:])), text(dict(x.dims)), x.path(),
            text(x.output_inds()), x.max_width(), x.n_leaves, x.n_inds)


def prob(x):
    cost = x.cost_type
    if cost == 'float1024':
        from tnco_core import float1024 as f
    else:
        f = float
    return type(x).__name__, cost, [
        str(x(f(a), f(b))) for a, b in ((1, 3), (.5, 1e10), (0, 2), (-1, 5), (7, 2))
    ], [str(x.beta) if hasattr(x, 'beta') else None]


def cost_model(x):
    names = sorted(x.sparse_inds or (), key=repr)
    xs, ys, zs = ['u', 'v'] + names[:1], ['v', 'w'], ['u', 'w'] + names[:1]
    dims = dict.fromkeys(xs + ys + zs + names, 3)
    out = [x.cost_type, text(x.sparse_inds), x.n_projs]
    if hasattr(x, 'max_width'):
        out += [x.width_type, x.max_width, x.width(xs, dims), x.width(zs, dims),
                str(x.contraction_cost(xs, ys, zs, dims, slices=['v']))]
    else:
        out += [str(x.contraction_cost(xs, ys, zs, dims))]
    return out


def core_cost_model(x):
    return [type(x).__name__] + [
        bitset(getattr(x, k)) if k == 'sparse_inds' else str(getattr(x, k))
        for k in ('max_width', 'n_projs', 'sparse_inds') if hasattr(x, k)
    ]


def optimizer(x):
    import copy
    fin = hasattr(x, 'slices')
    from tnco.optimize.prob import MetropolisHastings
    p = MetropolisHastings(2., cost_type=x.cmodel.cost_type)

    def state(o):
        return (ctree(o.ctree), ctree(o.min_ctree), str(o.total_cost),
                str(o.min_total_cost), o.prng_state,
                text([o.slices, o.min_slices, o.skip_slices]) if fin else None)

    y = copy.deepcopy(x)
    for _ in range(3):
        y.update(p)
    return state(x), state(y)


def ordered(x):
    return list(x), len(x), sorted(map(repr, x))


def tensor(x):
    return (x.inds, x.dims, None if x.array is None else
            (str(x.array.dtype), x.array.tolist()), text(x.tags))


def network(x):
    return ([tensor(t) for t in x.tensors], text(x.output_inds),
            text(x.sparse_inds), text(dict(x.dims)), text(x.tags))


def results(x):
    import dataclasses
    return type(x).__module__, [(f.name, text(getattr(x, f.name)))
                                for f in dataclasses.fields(x)]


def app_optimizer(x):
    import copy
    import dataclasses
    y = copy.deepcopy(x)
    t = [('a', 'b'), ('b', 'c'), ('c', 'd', 'e'), ('e', 'a'), ('d', 'f')]
    from tnco.app import Tensor, TensorNetwork
    tn = TensorNetwork([Tensor(xs, dims=2) for xs in t])
    out = []
    for _ in range(2):
        _, res = y.optimize(tn, betas=(0, 3), n_steps=3, n_runs=2, fuse=False)
        out.append([r.path for r in res])
    return type(x).__module__, out, [
        (f.name, text(getattr(x, f.name))) for f in dataclasses.fields(x)]


GATES = None


def gates():
    global GATES
    if GATES is None:
        import numpy as np
        h = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
        cx = np.eye(4)[[0, 1, 3, 2]]
        GATES = [(h, (0,)), (cx, (0, 1)), (h, (1,)), (cx, (1, 2)), (h, (2,))]
    return GATES


def sampler(x):
    import copy
    import dataclasses
    y = copy.deepcopy(x)
    return [y.sample(gates(), 8, betas=(0, 3), n_steps=2,
                     qubit_order=(0, 1, 2)) for _ in range(2)], [
        (f.name, text(getattr(x, f.name))) for f in dataclasses.fields(x)]


def partial(x):
    from tnco.app.circuit.sampling import Sampler
    s = Sampler(seed=5, n_jobs=1)
    return len(x), text(x.qubits), s.sample(x, 8, betas=(0, 3), n_steps=2,
                                            qubit_order=(0, 1, 2))


# Objects: (what, object, others which are not equal, equality holds)


def names_of(rng, n):
    return gen.index_names(rng, n, rng.choice(['word', 'tuple', 'int']))


def make(rng, what, mon=None):
    import numpy as np
    if what == 'bitset':
        from tnco.bitset import Bitset
        n = rng.choice([0, 1, 5, 63, 64, 65, 200])
        on = [i for i in range(n) if rng.coin(.4)]
        x = Bitset(on, n)
        others = [Bitset([i for i in range(n) if i not in on], n)] if n else []
        return x, others + [Bitset(on, n + 1)]
    if what == 'number':
        import tnco_core
        f = tnco_core.float1024
        x = f(rng.choice([0, 1, -3.5, rng.random(), 1e300]))
        for _ in range(rng.randint(0, 6)):
            x = x * f(rng.uniform(-1e100, 1e100)) / f(3)
        return x, [x + f(1) if abs(float(x)) < 1e100 else x * f(2)]
    if what == 'node':
        from tnco_core import Node
        a, b, c = rng.sample(range(1000), 3)
        x = rng.choice([Node((a, b), c), Node(parent=c), Node(children=(a, b)), Node()])
        return x, [Node((a, b + 1001), c)]
    if what == 'prob':
        from tnco.optimize import prob as P
        c = rng.choice(COST)
        b = rng.choice([0, .1, 1 / 3, 7, 1e3])
        k = rng.randrange(3)
        if k == 0:
            return P.Greedy(cost_type=c), []
        if k == 1:
            return P.BaseProbability(cost_type=c), []
        return (P.MetropolisHastings(b, cost_type=c),
                [P.MetropolisHastings(b + .5, cost_type=c)])
    if what in ('cost_model', 'core_cost_model'):
        fin = rng.coin()
        if fin:
            from tnco.optimize.finite_width.cost_model import SimpleCostModel as S
        else:
            from tnco.optimize.infinite_memory.cost_model import SimpleCostModel as S
        kw = {'cost_type': rng.choice(COST)}
        if fin:
            kw.update(max_width=rng.choice([0, 3, 4.5, .1, 1e6]),
                      width_type=rng.choice(WIDTH))
        names = names_of(rng, 5)
        if rng.coin(.6):
            kw.update(sparse_inds=names[:rng.randint(1, 4)],
                      n_projs=rng.choice([1, 2, 7, 10**6, 2**40]))
        others = [dict(kw, cost_type=rng.choice([c for c in COST
                                                 if c != kw['cost_type']]))]
        if fin:
            others += [dict(kw, max_width=kw['max_width'] + 1),
                       dict(kw, width_type=rng.choice(
                           [c for c in WIDTH if c != kw['width_type']]))]
        if 'n_projs' in kw:
            others += [dict(kw, n_projs=kw['n_projs'] + 1),
                       dict(kw, sparse_inds=kw['sparse_inds'] + names[4:])]
            a = dict(kw)
            a.pop('n_projs')
            a.pop('sparse_inds')
            others.append(a)
        x, others = S(**kw), [S(**k) for k in others]
        if what == 'cost_model':
            return x, others
        inds = rng.sample(names, 5) + names_of(rng, 2)
        same = [o.__get_core__(inds) for o in others]
        x = x.__get_core__(inds)
        return x, [o for o in same if type(o) is type(x)]
    if what in ('tree', 'ctree', 'optimizer'):
        from vf import optwork
        if what == 'optimizer':
            from vf.harness import Monitor
            w = optwork.Work(rng, mon or Monitor('x'), n_max=8)
            n = rng.randint(0, 12)
            for _ in range(n):
                w.opt.update(w.probs[0])
            other = w.make()
            for _ in range(n + 1):
                other.update(w.probs[0])
            return w.opt, [other]
        t = gen.tn(rng, n_min=3, n_max=9, hyper=.3, open_=.3,
                   kind=rng.choice(['word', 'tuple', 'int']))
        from tnco.ctree import ContractionTree
        p = gen.path(rng, t, False)
        ct = ContractionTree(p, t.ts_inds, t.dims, output_inds=t.output_inds)
        if what == 'tree':
            from tnco_core import Tree
            x = Tree(ct.nodes)
            y = Tree(x)
            k = next((i for i, n in enumerate(y.nodes)
                      if not n.is_root() and not y.nodes[n.parent].is_root()),
                     None)
            if k is None:
                return x, []
            y.swap_with_nn(k)
            return x, [y]
        others = []
        if t.inds:
            d = dict(t.dims)
            d[rng.choice(t.inds)] += 1
            others.append(ContractionTree(p, t.ts_inds, d,
                                          output_inds=t.output_inds))
        return ct, others
    if what == 'ordered':
        from tnco.ordered_frozenset import OrderedFrozenSet
        xs = rng.sample([1, 2, 'a', 'b', (1, 2), ('x', 'y'), frozenset([1]), None,
                         2.5], rng.randint(0, 8))
        return OrderedFrozenSet(xs), [OrderedFrozenSet(xs + ['more'])]
    if what in ('tensor', 'network'):
        from tnco.app import Tensor, TensorNetwork
        t = gen.tn(rng, n_min=1, n_max=6, hyper=.3, open_=.3,
                   kind=rng.choice(['word', 'tuple', 'int']))
        arrays = t.arrays(rng)
        ts = [Tensor(xs, array=a, tags={'k': i}) if rng.coin() else
              Tensor(xs, dims=[t.dims[x] for x in xs], tags={('z', i): {i}})
              for i, (xs, a) in enumerate(zip(t.ts_inds, arrays))]
        if what == 'tensor':
            return ts[0], [Tensor(ts[0].inds + ('more',), ts[0].dims + (2,))]
        sp = rng.sample(t.inds, rng.randint(0, len(t.inds)))
        return (TensorNetwork(ts, output_inds=t.output_inds, sparse_inds=sp,
                              tags={'name': 'x'}),
                [TensorNetwork(ts + [Tensor(['more'], 2)],
                               output_inds=t.output_inds, sparse_inds=sp,
                               tags={'name': 'x'})])
    if what == 'results':
        if rng.coin():
            from tnco.app.finite_width.sa import ContractionResults as R
            extra = {'slices': frozenset(names_of(rng, 3))}
        else:
            from tnco.app.infinite_memory.sa import ContractionResults as R
            extra = {}
        import dataclasses
        import decimal
        kw = dict(cost=decimal.Decimal('1.25E+4000'), runtime_s=.25,
                  path=[(0, 1), (0, 1)],
                  disconnected_costs=[decimal.Decimal(3), decimal.Decimal('7E9')],
                  disconnected_paths=[[(0, 1)], [(0, 2)]], **extra)
        kw.update({f.name: [] for f in dataclasses.fields(R)
                   if f.name not in kw})
        return R(**kw), []
    if what == 'app_optimizer':
        from tnco.app import Optimizer
        kw = dict(max_width=rng.choice([None, 3.]), n_jobs=1, seed=rng.seed32(),
                  output_format='raw', cost_type=rng.choice(COST))
        x = Optimizer(**kw)
        if rng.coin():
            from tnco.app import Tensor, TensorNetwork
            x.optimize(TensorNetwork([Tensor('ab', 2), Tensor('bc', 2),
                                      Tensor('ca', 2)]), betas=(0, 1), n_steps=2,
                       n_runs=1)
        return x, [Optimizer(**dict(kw, atol=.1))]
    if what == 'sampler':
        from tnco.app.circuit.sampling import Sampler
        kw = dict(seed=rng.seed32(), n_jobs=1, cost_type=rng.choice(COST))
        x = Sampler(**kw)
        if rng.coin():
            x.sample(gates(), 2, betas=(0, 1), n_steps=1, qubit_order=(0, 1, 2))
        return x, [Sampler(**dict(kw, atol=.1))]
    if what == 'partial':
        from tnco.app.circuit.sampling import Sampler
        s = Sampler(seed=rng.seed32(), n_jobs=1)
        return s.sample(gates(), 1, betas=(0, 1), n_steps=1,
                        return_intermediate_state_only=True), []
    raise ValueError(what)


OBSERVE = {
    'bitset': bitset, 'number': number, 'node': node, 'tree': tree,
    'ctree': ctree, 'prob': prob, 'cost_model': cost_model,
    'core_cost_model': core_cost_model, 'optimizer': optimizer,
    'ordered': ordered, 'tensor': tensor, 'network': network,
    'results': results, 'app_optimizer': app_optimizer, 'sampler': sampler,
    'partial': partial,
}
HEAVY = ('app_optimizer', 'sampler', 'partial')
IDENTITY = ('results', 'partial')
