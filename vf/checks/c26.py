"""C26: functions leave their arguments alone, and objects what they hand out."""

import pickle
from collections import Counter

import numpy as np

from vf import circ, gen, objects, optwork, ref
from vf.harness import Family

RULE = ('Public functions are called with containers and arrays of every '
        'mutable form, of which a snapshot (values, order, types) is compared '
        'afterwards, also when the call is refused; arguments are changed after '
        'building an object, and what objects hand out is changed. Non-trivial: '
        'a function and arguments not seen before.')
NEEDED = ('calls', 'functions', 'refused_calls', 'kept', 'handed_out',
          'read_only')


def snap(x):
    """Everything about a value that a caller could notice."""
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.dtype.str, x.tobytes(), x.strides)
    if isinstance(x, dict):
        return ('dict', type(x).__name__, [(snap(k), snap(v))
                                           for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(repr(snap(y)) for y in x))
    t = type(x).__name__
    if t == 'Tensor':
        return (t, snap(x.inds), snap(x.dims), snap(x.array), snap(x.tags))
    if t == 'TensorNetwork':
        return (t, snap(x.tensors), snap(x.output_inds), snap(x.sparse_inds),
                snap(x.tags), snap(dict(x.dims)))
    if t == 'ContractionTree':
        return (t, objects.text(objects.ctree(x)))
    if t == 'OrderedFrozenSet':
        return (t, [snap(y) for y in x])
    return (t, repr(x))


def lists(rng, xss):
    """Mutable containers of the tensors' indices."""
    return [rng.choice([list, list, tuple])(xs) for xs in xss]


def array(rng, a):
    a = np.array(a)
    if a.ndim > 1 and rng.coin(.3):
        a = np.asfortranarray(a)
    if rng.coin(.2):
        a = np.concatenate([a, a])[:len(a)] if a.ndim else a
    return a


def calls(rng, kind):
    """[(name, function, args, kwargs)]"""
    from tnco.app.app import load_tn
    from tnco.app import Optimizer, Tensor, TensorNetwork
    from tnco.ctree import ContractionTree
    from tnco.testing import utils as T
    from tnco.utils import circuit as C
    from tnco.utils import tensor as UT
    from tnco.utils import tn as U
    t = gen.tn(rng, n_min=3, n_max=8, hyper=rng.choice([0, .4]), open_=.3,
               hyper_open=rng.choice([0, .3]),
               kind=rng.choice(['word', 'tuple', 'int']))
    n = len(t.ts_inds)
    arrays = [array(rng, a) for a in t.arrays(rng)]
    for k, xs in enumerate(t.ts_inds):
        # some diagonal
        if len(xs) > 1 and len(set(arrays[k].shape)) == 1 and rng.coin(.4):
            m = np.zeros_like(arrays[k])
            for i in range(m.shape[0]):
                m[(i,) * m.ndim] = 1 + i
            arrays[k] = m
    ts = lists(rng, t.ts_inds)
    dims = dict(t.dims)
    out = rng.choice([list, set, tuple])(t.output_inds)
    seed = rng.seed32()
    path = [rng.choice([list, tuple])(p) for p in gen.path(rng, t, False)]
    if kind == 'paths':
        ps = U.get_random_contraction_path(t.ts_inds, merge_paths=False,
                                           output_inds=t.output_inds, seed=seed)
        ps = [[list(p) for p in q] for q in ps]
        return [
            ('get_random_contraction_path', U.get_random_contraction_path,
             (ts, ), dict(output_inds=out, seed=seed, merge_paths=rng.coin())),
            ('merge_contraction_paths', U.merge_contraction_paths, (n, ps), {}),
            ('split_contraction_path', U.split_contraction_path, (n, path), {}),
            ('fuse', U.fuse, (ts, dims, rng.choice([2, 4, 8])),
             dict(output_inds=out, seed=seed, return_fused_inds=rng.coin(),
                  exclude_inds=rng.sample(t.inds, min(1, len(t.inds))))),
            ('get_einsum_subscripts', U.get_einsum_subscripts, (ts, list(out)),
             {}),
        ]
    if kind == 'contract':
        return [
            ('contract', U.contract, (path, ts), dict(
                output_inds=out, **rng.choice([dict(arrays=arrays),
                                               dict(dims=dims)]))),
            ('contract partial', U.contract, (path[:1], ts), dict(
                output_inds=out, arrays=arrays)),
            ('decompose_hyper_inds', U.decompose_hyper_inds, (arrays, ts), {}),
            ('ContractionTree', ContractionTree, (path, ts, dims),
             dict(output_inds=out)),
            ('is_valid_contraction_tree', T.is_valid_contraction_tree,
             (ContractionTree(path, ts, dims, output_inds=out), ts, dims),
             dict(output_inds=out)),
            ('get_connected_components', T.get_connected_components, (ts,), {}),
        ]
    if kind == 'tensor':
        k = rng.randrange(n)
        j = rng.randrange(n)
        xs, ys = ts[k], [('y', i) if rng.coin() and x not in ts[k] else x
                         for i, x in enumerate(ts[j])]
        both = [x for x in xs if x in ys]
        left = rng.sample(list(xs), rng.randint(0, len(xs)))
        return [
            ('tensordot', UT.tensordot, ((arrays[k], xs), (arrays[j], ys)),
             dict(hyper_inds=both[:rng.randint(0, len(both))])),
            ('tensor.decompose_hyper_inds', UT.decompose_hyper_inds,
             (arrays[k], xs), {}),
            ('svd', UT.svd, (arrays[k], xs, left), dict(seed=seed)),
            ('is_diagonal', UT.is_diagonal, (array(rng, np.diag([1., 2, 3])),), {}),
            ('get_einsum_subscripts', UT.get_einsum_subscripts, (xs, ys, xs), {}),
        ]
    if kind == 'circuit':
        c = [[array(rng, g), list(q)] if rng.coin() else (array(rng, g), q)
             for g, q in circ.circuit(rng, rng.randint(2, 3), rng.randint(2, 8))]
        qs = circ.qubits_of(c)
        ini, _ = circ.state(rng, qs)
        fin, _ = circ.state(rng, qs)
        kw = dict(initial_state=ini, final_state=fin, seed=seed)
        a, b = rng.choice(c), rng.choice(c)
        return [
            ('commute', C.commute, (a, b), {}),
            ('same', C.same, (a, b), {}),
            ('circuit.load', C.load, (c,), dict(
                kw, simplify=rng.coin(), decompose_hyper_inds=rng.coin(),
                fuse=rng.choice([0, 4]))),
            ('load_tn circuit', load_tn, (c,), dict(
                kw, fuse=rng.choice([False, 4]),
                decompose_hyper_inds=rng.coin())),
        ]
    tags = [{'n': [i]} for i in range(n)]
    tn = TensorNetwork([
        Tensor(xs, array=a, tags=g) if rng.coin(.8) else
        Tensor(xs, dims=[dims[x] for x in xs], tags=g)
        for xs, a, g in zip(ts, arrays, tags)
    ], output_inds=out, tags={'t': [1]})
    if kind == 'build':
        k = rng.randrange(n)
        m = {x: [dims[x]] + [i for i in range(n) if x in ts[i]] +
             (['*'] if x in t.output_inds else []) for x in t.inds}
        return [
            ('Tensor', Tensor, (ts[k],), dict(array=arrays[k], tags=tags[k])),
            ('Tensor dims', Tensor, (ts[k], [dims[x] for x in ts[k]]), {}),
            ('TensorNetwork', TensorNetwork, (list(tn.tensors),), dict(
                output_inds=out, tags={'x': [1]})),
            ('TensorNetwork.to_json', lambda x: x.to_json(), (
                TensorNetwork([Tensor(xs, array=a) for xs, a in zip(ts, arrays)],
                              output_inds=out),), {}),
            ('read_inds', U.read_inds, (m,), {}),
            ('load_tn list', load_tn, (list(m.values()),), dict(fuse=rng.choice([False, 3]),
                                                seed=seed)),
            ('load_tn network', load_tn, (tn,), dict(
                fuse=rng.choice([False, 4]), decompose_hyper_inds=rng.coin(),
                seed=seed)),
        ]
    assert kind == 'optimize'
    o = Optimizer(max_width=rng.choice([None, 4.]), n_jobs=1, seed=seed,
                  output_format=rng.choice(['raw', 'json']))
    tn2 = TensorNetwork([
        Tensor(xs, dims=[dims[x] for x in xs], tags={str(i): [i]})
        for i, xs in enumerate(ts)
    ], output_inds=out)
    return [('optimize', o.optimize, (tn2,), dict(
        betas=rng.choice([[0, 3], [.1, 1, 10, 100]]), n_steps=rng.choice([4]),
        n_runs=2, fuse=rng.choice([False, 4])))]


def functions(rng, mon):
    kind = rng.choice(['paths', 'contract', 'tensor', 'circuit', 'build',
                       'contract', 'paths', 'tensor', 'circuit', 'build',
                       'optimize'])
    for name, fn, args, kw in calls(rng, kind):
        if name == 'optimize' and len(kw['betas']) != 2:
            kw.pop('n_steps')
        before = snap((args, kw))
        mon.note(function=name, args=repr(args)[:1500], options=repr(kw)[:800])
        try:
            fn(*args, **kw)
        except (ValueError, TypeError, NotImplementedError) as e:
            mon.event('calls_not_accepted')
            mon.note(refused=repr(e))
        else:
            mon.event('functions')
            mon.event(f'f_{name}')
        after = snap((args, kw))
        mon.check(after == before, f'"{name}" changes its arguments',
                  key='mutated', function=name, before=before, after=after)
        mon.event('calls')
        mon.distinct(name, before)


def refused(rng, mon):
    """Nothing is left behind by a call which is refused half way."""
    kind = rng.choice(['paths', 'contract', 'tensor', 'circuit', 'build'])
    name, fn, args, kw = rng.choice(calls(rng, kind))
    args = list(args)
    # Spoil something deep inside
    k = rng.randrange(len(args))
    x = args[k]
    bad = rng.choice([(5000, 5001), 'bad', None, [-1], ('x', 'y', 'z')])
    if isinstance(x, list) and x:
        x.insert(rng.randrange(len(x) + 1), bad)
    elif isinstance(x, dict) and x:
        x[rng.choice(list(x))] = bad
    else:
        args[k] = bad
    before = snap((args, kw))
    mon.note(function=name, args=repr(args)[:1500], options=repr(kw)[:800])
    try:
        fn(*args, **kw)
    except Exception as e:
        mon.event('refused_calls')
        mon.distinct('refused', name, type(e).__name__, str(e)[:40])
    after = snap((args, kw))
    mon.check(after == before, f'"{name}" changes its arguments when refusing',
              key='mutated', function=name, before=before, after=after)
    mon.event('calls')


def spoil(rng, x):
    """Changes a container of the caller."""
    if isinstance(x, list):
        if x and isinstance(x[0], list) and rng.coin():
            spoil(rng, x[0])
        x.reverse()
        x.append(('spoilt', 1))
        if len(x) > 1:
            x.pop(0)
    elif isinstance(x, dict):
        for k in x:
            x[k] = 77
        x['spoilt'] = 5
    elif isinstance(x, set):
        x.add('spoilt')
        x.discard(next(iter(x)))


def kept(rng, mon):
    """Objects do not look at the containers they were built from again."""
    from tnco.app import Tensor, TensorNetwork
    from tnco.ctree import ContractionTree
    from tnco.ordered_frozenset import OrderedFrozenSet
    t = gen.tn(rng, n_min=3, n_max=8, hyper=rng.choice([0, .4]), open_=.3,
               kind=rng.choice(['word', 'tuple', 'int']))
    path = [list(p) for p in gen.path(rng, t, False)]
    ts = [list(xs) for xs in t.ts_inds]
    dims = dict(t.dims)
    out = rng.choice([list, set])(t.output_inds)
    what = rng.choice(['ctree', 'tensor', 'network', 'ordered', 'cost_model',
                       'optimizer'])
    mon.note(what=what, ts_inds=t.ts_inds, dims=t.dims, path=path)
    given = []
    if what == 'ctree':
        x = ContractionTree(path, ts, dims, output_inds=out)
        given = [path, ts, dims, out]
        see = objects.ctree
    elif what == 'tensor':
        ds, tags = [dims[y] for y in ts[0]], {'a': 1}
        inds = list(ts[0])
        x = Tensor(inds, ds, tags=tags)
        given, see = [inds, ds, tags], objects.tensor
    elif what == 'network':
        tensors = [Tensor(xs, [dims[y] for y in xs]) for xs in ts]
        sp = set(t.inds[:1])
        tags = {'a': 1}
        x = TensorNetwork(tensors, output_inds=out, sparse_inds=sp, tags=tags)
        given, see = [tensors, out, sp, tags], objects.network
    elif what == 'ordered':
        xs = list(t.inds)
        x = OrderedFrozenSet(xs)
        given, see = [xs], objects.ordered
    else:
        w = optwork.Work(rng, mon, n_max=8)
        if what == 'cost_model':
            from tnco.optimize.infinite_memory.cost_model import SimpleCostModel
            sp = rng.choice([list, set])(t.inds)
            x = SimpleCostModel(sparse_inds=sp, n_projs=3)
            given, see = [sp], objects.cost_model
            if not sp:
                x = SimpleCostModel()
        else:
            # The tree is the user's, before and after
            x, see = w.opt, objects.optimizer
            first = objects.text(objects.ctree(w.ct))
            seen = objects.text(see(x))
            for k in range(len(w.ct.nodes)):
                try:
                    w.ct.swap_with_nn(k)
                except (RuntimeError, ValueError, IndexError):
                    pass
            mon.check(objects.text(see(x)) == seen,
                      'an optimizer follows the tree of the user', key='kept')
            moved = objects.text(objects.ctree(w.ct))
            for _ in range(5):
                x.update(w.probs[0])
            mon.check(objects.text(objects.ctree(w.ct)) == moved,
                      'an optimizer changes the tree of the user', key='kept')
            if moved != first:
                mon.event('kept')
                mon.distinct('kept', first)
            return
    seen = objects.text(see(x))
    for g in given:
        spoil(rng, g)
    mon.check(objects.text(see(x)) == seen,
              f'"{what}" follows the containers of the caller', key='kept',
              before=seen, after=objects.text(see(x)))
    mon.event('kept')
    mon.distinct('kept', what, seen)


def handed_out(rng, mon):
    """Changing what was handed out does not change the object."""
    what = rng.choice(['tree', 'ctree', 'optimizer', 'tensor', 'network',
                       'ctree', 'optimizer'])
    x, _ = objects.make(rng, what, mon)
    see = objects.OBSERVE[what]
    seen = objects.text(see(x))
    mon.note(what=what, object=seen[:1500])

    def refuses(fn, msg):
        mon.raises((TypeError, AttributeError), fn, msg, key='read-only')
        mon.event('read_only')

    if what == 'network':
        def f():
            x.dims['new'] = 3

        refuses(f, 'dimensions can be assigned')
        for a in ('tensors', 'output_inds', 'sparse_inds', 'inds', 'dims',
                  'ts_inds', 'n_tensors'):
            refuses(lambda: setattr(x, a, None), f'"{a}" can be assigned')
        for y in (x.tensors, x.ts_inds, x.output_inds, x.sparse_inds, x.inds):
            mon.check(isinstance(y, (tuple, frozenset)), 'mutable', key='read-only')
    elif what == 'tensor':
        for a in ('inds', 'dims', 'array', 'tags', 'ndim'):
            refuses(lambda: setattr(x, a, None), f'"{a}" can be assigned')
        mon.check(isinstance(x.inds, tuple) and isinstance(x.dims, tuple),
                  'mutable', key='read-only')
    else:
        trees = [x] if what != 'optimizer' else [x.ctree, x.min_ctree]
        for y in trees:
            nodes = y.nodes
            if isinstance(nodes, list):
                nodes.reverse()
                if nodes:
                    nodes.pop()
            if hasattr(y, 'inds'):
                i = y.inds[:]
                if isinstance(i, list):
                    i.clear()
                p = y.path()
                p.clear()

                def f():
                    y.dims['new'] = 3

                refuses(f, 'dimensions can be assigned')

                def g():
                    y.inds[0] = frozenset()

                refuses(g, 'indices can be assigned')
            for a in ('nodes',) + (('dims', 'inds', 'n_leaves') if hasattr(
                    y, 'inds') else ()):
                refuses(lambda: setattr(y, a, None), f'"{a}" can be assigned')
        if what == 'optimizer':
            for y in trees:
                for k in range(len(y.nodes)):
                    try:
                        y.swap_with_nn(k)
                    except (RuntimeError, ValueError, IndexError):
                        pass
            for a in ('ctree', 'min_ctree', 'cmodel', 'total_cost',
                      'min_total_cost', 'prng_state', 'disable_shared_inds'):
                refuses(lambda: setattr(x, a, None), f'"{a}" can be assigned')
            if hasattr(x, 'slices'):
                for a in ('slices', 'min_slices', 'skip_slices'):
                    refuses(lambda: setattr(x, a, None),
                            f'"{a}" can be assigned')
                    mon.check(isinstance(getattr(x, a), frozenset), 'mutable',
                              key='read-only')
    mon.check(objects.text(see(x)) == seen,
              f'"{what}" is changed through what it handed out',
              key='handed-out', before=seen, after=objects.text(see(x)))
    mon.event('handed_out')
    mon.distinct('out', what, seen)


FAMILIES = [
    Family(functions, 1500),
    Family(refused, 1500),
    Family(kept, 1500),
    Family(handed_out, 1500),
]
