"""C24: tensors and networks are consistent, or refused."""

import copy
import dataclasses
import json
import pickle
from collections import Counter

import numpy as np

from vf import gen
from vf.harness import Family

RULE = ('Tensors and networks are built from every form of arguments, valid and '
        'not; what they report is compared with what they were built from, in '
        'a second data structure of our own. Non-trivial: a network or tensor '
        'not seen before.')
NEEDED = ('tensors', 'networks', 'refused_tensor', 'refused_network',
          'not_equal', 'json', 'frozen', 'with_arrays')


def as_inds(rng, xs):
    how = rng.randrange(3)
    if how == 0:
        return list(xs)
    return tuple(xs) if how == 1 else (x for x in list(xs))


def as_dims(rng, ds):
    """The same dimensions in another form."""
    opts = [list, tuple, lambda d: (x for x in d), lambda d: np.array(d, int),
            lambda d: [float(x) for x in d], lambda d: map(np.int64, d)]
    if ds and len(set(ds)) == 1:
        opts += [lambda d: d[0], lambda d: np.int32(d[0]), lambda d: float(d[0])]
    return rng.choice(opts)(list(ds))


def values(rng, shape):
    kind = rng.choice(['f8', 'c16', 'i8', 'f4', 'list'])
    if kind == 'c16':
        return rng.np.normal(size=shape) + 1j * rng.np.normal(size=shape)
    if kind == 'i8':
        return rng.np.integers(-5, 5, size=shape)
    a = rng.np.normal(size=shape)
    return a.astype('f4') if kind == 'f4' else a.tolist() if kind == 'list' else a


class Want:
    """What a tensor has to report."""

    def __init__(self, inds, dims, array, tags):
        self.inds, self.dims, self.array, self.tags = inds, dims, array, tags


def observe(mon, t, w):
    mon.check(type(t.inds) is tuple and t.inds == w.inds, 'indices',
              key='tensor', got=t.inds, want=w.inds)
    mon.check(type(t.dims) is tuple and t.dims == w.dims, 'dimensions',
              key='tensor', got=t.dims, want=w.dims)
    mon.check(t.ndim == len(w.inds), 'ndim', key='tensor', got=t.ndim)
    mon.check(t.tags == w.tags, 'tags', key='tensor', got=t.tags, want=w.tags)
    if w.array is None:
        mon.check(t.array is None, 'an array out of nowhere', key='tensor')
    else:
        mon.check(t.array.shape == w.dims and np.array_equal(t.array, w.array),
                  'array', key='tensor', got=t.array, want=w.array)
    mon.event('tensors')


def make(rng, inds, dims, cls):
    """A tensor in one of the possible ways, and what is expected of it."""
    inds, dims = tuple(inds), tuple(dims)
    tags = rng.choice([None, {}, {'a': 1}, {('q', 0): ['x'], 3: {'y': 2.}}])
    arr = None
    kw = {}
    how = rng.choice(['dims', 'array', 'both'])
    if how != 'dims':
        a = values(rng, dims)
        kw['array'] = a
        arr = np.array(a)
    if how != 'array':
        kw['dims'] = as_dims(rng, dims)
    if tags is not None or rng.coin():
        kw['tags'] = tags
    want = Want(inds, dims, arr, copy.deepcopy(tags or {}))
    if rng.coin(.1) and how == 'dims':
        return cls(as_inds(rng, inds), kw.pop('dims'), **kw), want, kw
    return cls(as_inds(rng, inds), **kw), want, kw


def frozen(rng, mon, x):
    for f in rng.sample([f.name for f in dataclasses.fields(x)], 2):
        mon.raises(dataclasses.FrozenInstanceError,
                   lambda: setattr(x, f, getattr(x, f)),
                   'an attribute can be assigned', key='frozen', attribute=f)
        mon.raises(dataclasses.FrozenInstanceError, lambda: delattr(x, f),
                   'an attribute can be deleted', key='frozen', attribute=f)
    mon.event('frozen')


def tensors(rng, mon):
    from tnco.app import Tensor
    n = rng.randint(0, 5)
    inds = gen.index_names(rng, max(n, 1),
                           rng.choice(['word', 'str', 'tuple', 'int']))[:n]
    dims = [rng.choice([1, 2, 2, 3, 4, 7]) for _ in inds]
    if rng.coin(.3) and inds:
        dims = dims[:1] * len(inds)
    if n > 1 and rng.coin(.1):
        inds[1] = inds[0]
        dims[1] = dims[0]
    mon.note(inds=inds, dims=dims)
    t, w, kw = make(rng, inds, dims, Tensor)
    observe(mon, t, w)
    # The caller's tags are his own
    if kw.get('tags'):
        kw['tags']['new'] = 1
        mon.check('new' not in t.tags, 'tags of the caller are aliased',
                  key='tags')
    frozen(rng, mon, t)
    mon.check(isinstance(repr(t), str) and str(t.ndim) in repr(t), 'repr',
              key='repr', got=repr(t))
    # Equality
    other = Tensor(w.inds, w.dims if w.array is None else None, w.array)
    mon.check(t == other and other == t and not t != other,
              'equal tensors are not equal', key='equality')
    mon.check(pickle.loads(pickle.dumps(t)) == t and copy.deepcopy(t) == t,
              'a copy is not equal', key='equality')
    diff = []
    if w.inds:
        i = rng.randrange(n)
        ds = list(w.dims)
        ds[i] += 1
        diff.append(Tensor(w.inds, ds, None if w.array is None else
                           np.zeros(ds)))
        diff.append(Tensor([('other', x) if j == i else x
                            for j, x in enumerate(w.inds)], w.dims, w.array))
        diff.append(Tensor(w.inds[:i] + w.inds[i + 1:],
                           w.dims[:i] + w.dims[i + 1:],
                           None if w.array is None else w.array.take(0, axis=i)))
    if w.array is None:
        diff.append(Tensor(w.inds, array=np.zeros(w.dims)))
    else:
        diff.append(Tensor(w.inds, w.dims))
        a = w.array.astype(complex)
        at = tuple(rng.randrange(d) for d in w.dims)
        for step in rng.sample([1e-3, -1e-3, .1, -2, 1e-3j, -2j], 2):
            b = a.copy()
            b[at] += step
            diff.append(Tensor(w.inds, array=b))
        b = a.copy()
        b[at] += rng.choice([1e-9, -1e-7, 1e-8j])
        near = Tensor(w.inds, array=b)
        mon.check(t == near and near == t, 'within the tolerance, not equal',
                  key='equality')
    for o in diff + [5, None, 'x']:
        mon.check(not t == o and t != o and not o == t,
                  'different tensors are equal', key='equality',
                  other=getattr(o, 'dims', o), inds=getattr(o, 'inds', None))
        mon.event('not_equal')
    as_json(mon, t, w)
    mon.distinct('tensor', w.inds, w.dims, None if w.array is None else
                 (str(w.array.dtype), w.array.size))


def number(x):
    """A number of the array as it is written."""
    if isinstance(x, complex):
        return f'{x.real} + {x.imag}j'
    return [number(y) for y in x] if isinstance(x, list) else x


def plain(x):
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    return x


def want_json(w):
    return {'inds': plain(w.inds), 'dims': list(w.dims),
            'array': None if w.array is None else number(w.array.tolist()),
            'tags': None}


def as_json(mon, t, w):
    if any(not isinstance(k, (str, int)) for k in w.tags):
        return
    got = json.loads(t.to_json())
    tags = got.pop('tags')
    want = want_json(w)
    want.pop('tags')
    mon.check(got == want, 'JSON of a tensor', key='json', got=got, want=want)
    mon.check(tags == {str(k): plain(v) for k, v in w.tags.items()},
              'tags in the JSON of a tensor', key='json', got=tags)
    mon.event('json')


def refused_tensors(rng, mon):
    from tnco.app import Tensor
    n = rng.randint(1, 4)
    inds = gen.index_names(rng, n)
    dims = [rng.choice([2, 3, 4]) for _ in inds]
    bad = rng.choice([0, -1, 2.5, 'a', None, float('inf'), float('nan'), -2, 1j,
                      (2,), 1e-9])
    one = list(dims)
    one[rng.randrange(n)] = bad
    wrong = list(dims)
    wrong[rng.randrange(n)] += 1
    a = rng.np.normal(size=dims)
    cases = {
        'neither dims nor array': lambda: Tensor(inds),
        'a bad dimension': lambda: Tensor(inds, one),
        'too many dimensions': lambda: Tensor(inds, dims + [2]),
        'too few dimensions': lambda: Tensor(inds, dims[:-1]),
        'too few indices': lambda: Tensor(inds[:-1], array=a),
        'too many indices': lambda: Tensor(list(inds) + ['extra'], array=a),
        'an inconsistent array': lambda: Tensor(inds, wrong, a),
        'an inconsistent transposed array': lambda: Tensor(
            inds[:1] + ['z'], (2, 3), np.zeros((3, 2))),
        'an array of another rank': lambda: Tensor(inds, dims, a[None]),
        'an empty array': lambda: Tensor(['x'], array=np.zeros(0)),
        'a bad common dimension': lambda: Tensor(
            inds, rng.choice([0, -1, 1.5, float('inf'), np.int64(0), 'x'])),
    }
    what = rng.choice(list(cases))
    mon.note(what=what, inds=inds, dims=dims, bad=repr(bad))
    mon.raises(ValueError, cases[what], what, key='tensor-refused')
    mon.event('refused_tensor')
    mon.distinct('refused', what, repr(bad) if what == 'a bad dimension' else n)


def network(rng):
    return gen.tn(rng, n_min=1, n_max=8,
                  kind=rng.choice(['word', 'str', 'tuple', 'int']),
                  dims=rng.choice([(2,), (1, 2, 3)]),
                  hyper=rng.choice([0, 0, .4]), open_=.3,
                  hyper_open=rng.choice([0, .4]), scalars=.3)


def networks(rng, mon):
    from tnco.app import Tensor, TensorNetwork
    t = network(rng)
    ts, ws = [], []
    for xs in t.ts_inds:
        x, w, _ = make(rng, xs, [t.dims[x] for x in xs], Tensor)
        ts.append(x)
        ws.append(w)
    count = Counter(x for xs in t.ts_inds for x in xs)
    inds = sorted(count, key=repr)
    kw = {}
    if max(count.values(), default=0) < 3 and rng.coin():
        out = frozenset(x for x in inds if count[x] == 1)
        if rng.coin():
            kw['output_inds'] = None
    else:
        out = frozenset(rng.sample(inds, rng.randint(0, len(inds))))
        kw['output_inds'] = rng.choice(
            [list, tuple, set, frozenset, iter])(sorted(out, key=repr))
    sparse = frozenset()
    if rng.coin(.4):
        sparse = frozenset(rng.sample(inds, rng.randint(0, len(inds))))
        kw['sparse_inds'] = rng.choice([list, tuple, set, iter])(
            sorted(sparse, key=repr))
    tags = rng.choice([None, {'k': 1}, {('a',): 2}])
    if tags is not None:
        kw['tags'] = tags
    mon.note(ts_inds=t.ts_inds, dims=t.dims, output=out, sparse=sparse)
    tn = TensorNetwork(rng.choice([list, tuple, iter])(ts), **kw)
    want_tags = dict(tags or {})
    if tags:
        tags['new'] = 1
    mon.check(tn.output_inds == out and isinstance(tn.output_inds, frozenset),
              'output indices', key='network', got=tn.output_inds, want=out)
    mon.check(tn.sparse_inds == sparse and isinstance(tn.sparse_inds, frozenset),
              'sparse indices', key='network', got=tn.sparse_inds, want=sparse)
    mon.check(tn.inds == frozenset(inds) and tn.n_inds == len(inds), 'indices',
              key='network', got=tn.inds, want=inds)
    mon.check(dict(tn.dims) == {x: t.dims[x] for x in inds}, 'dimensions',
              key='network', got=tn.dims)
    mon.check(tn.ts_inds == tuple(w.inds for w in ws), 'indices of the tensors',
              key='network', got=tn.ts_inds)
    mon.check(tn.ts_tags == tuple(w.tags for w in ws), 'tags of the tensors',
              key='network', got=tn.ts_tags)
    mon.check(tn.tags == want_tags, 'tags', key='network', got=tn.tags)
    mon.check(len(tn.arrays) == len(ws) and all(
        a is x.array for a, x in zip(tn.arrays, ts)), 'arrays', key='network')
    mon.check(len(tn) == tn.n_tensors == len(ts) and
              all(a is b for a, b in zip(tn, ts)) and
              all(a is b for a, b in zip(tn.tensors, ts)) and
              len(list(tn)) == len(ts), 'tensors', key='network')
    i = rng.randrange(-len(ts), len(ts))
    mon.check(tn[i] is ts[i], 'item', key='network')
    mon.raises(IndexError, lambda: tn[len(ts)], 'no such tensor', key='network')
    for x, w in zip(tn, ws):
        observe(mon, x, w)
        if w.array is not None:
            mon.event('with_arrays')
    if inds:
        def assign():
            tn.dims[inds[0]] = 5

        mon.raises(TypeError, assign, 'dimensions can be assigned', key='frozen')
    frozen(rng, mon, tn)
    # Another one from the same tensors
    kw2 = dict(output_inds=out, sparse_inds=sparse, tags=want_tags)
    same = TensorNetwork([Tensor(w.inds, w.dims, w.array) for w in ws], **kw2)
    mon.check(tn == same, 'equal networks are not equal', key='equality')
    mon.check(pickle.loads(pickle.dumps(same)) == same ==
              copy.deepcopy(same), 'a copy is not equal', key='equality')
    others = []
    if inds:
        x = rng.choice(inds)
        others += [dict(kw2, output_inds=out ^ {x}),
                   dict(kw2, sparse_inds=sparse ^ {x})]
    for k in others:
        mon.check(tn != TensorNetwork(same.tensors, **k),
                  'different networks are equal', key='equality')
        mon.event('not_equal')
    j = rng.randrange(len(ts))
    mon.check(tn != TensorNetwork(
        same.tensors[:j] + (Tensor(['unseen'], (2,)),) + same.tensors[j:], **kw2),
              'different networks are equal', key='equality')
    if all(isinstance(k, (str, int)) for w in ws for k in w.tags):
        got = json.loads(tn.to_json())
        for x, w in zip(got['tensors'], ws):
            x['tags'] = None
            mon.check(x == want_json(w), 'JSON of a tensor', key='json', got=x,
                      want=want_json(w))
        mon.check(len(got['tensors']) == len(ws), 'tensors of the JSON',
                  key='json')
        for k, v in (('output_inds', out), ('sparse_inds', sparse)):
            mon.check(sorted(map(repr, got[k])) == sorted(
                repr(plain(x)) for x in v), f'"{k}" of the JSON', key='json',
                      got=got[k], want=v)
        mon.event('json')
    mon.event('networks')
    mon.distinct('network', t.signature(), out, sparse)
    mon.sample(ts_inds=t.ts_inds, dims=t.dims, output=out, sparse=sparse)


def refused_networks(rng, mon):
    from tnco.app import Tensor, TensorNetwork
    t = network(rng)
    ts = [Tensor(xs, [t.dims[x] for x in xs]) for xs in t.ts_inds]
    out = list(t.output_inds)
    cases = {
        'an output index of no tensor': lambda: TensorNetwork(
            ts, output_inds=out + ['nowhere']),
        'a sparse index of no tensor': lambda: TensorNetwork(
            ts, output_inds=out, sparse_inds=['nowhere']),
        'not a tensor': lambda: TensorNetwork(
            ts + [rng.choice([None, ('a', 'b'), np.eye(2)])], output_inds=out),
        'hyper-indices without output indices': lambda: TensorNetwork(
            ts + [Tensor(['h'], 2)] * 3),
    }
    if t.inds:
        x = rng.choice(t.inds)
        bad = Tensor([x], [t.dims[x] + 1])
        at = rng.randint(0, len(ts))
        cases['inconsistent dimensions'] = lambda: TensorNetwork(
            ts[:at] + [bad] + ts[at:], output_inds=out)
        xs = rng.sample(t.inds, min(2, len(t.inds)))
        cases['dimensions inconsistent in one tensor'] = lambda: TensorNetwork(
            [Tensor(['y', 'y'], rng.choice([(2, 3), (3, 2)]))], output_inds=())
        cases['inconsistent dimensions of an array'] = lambda: TensorNetwork(
            ts + [Tensor(xs, array=np.zeros([t.dims[x] + 1 for x in xs]))],
            output_inds=out)
    what = rng.choice(list(cases))
    mon.note(what=what, ts_inds=t.ts_inds, dims=t.dims, output=out)
    mon.raises(ValueError, cases[what], what, key='network-refused')
    mon.event('refused_network')
    mon.distinct('refused', what, t.signature())


FAMILIES = [
    Family(tensors, 4000),
    Family(networks, 3000),
    Family(refused_tensors, 1200),
    Family(refused_networks, 1200),
]
