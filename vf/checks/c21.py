"""C21: dumped results are the results, and files are never lost."""

import bz2
import gzip
import json
import math
import os
import pickle
import warnings
from decimal import Decimal

from vf import gen
from vf.checks.c20 import folder
from vf.harness import Family

RULE = ('Results of random optimizations dumped in every format, compression '
        'and kind of filename, returned or written, over existing files or '
        'not; read back with the standard library and compared, and all the '
        'files of the folder are compared before and after. Non-trivial: a '
        'combination of options and network not seen before.')
NEEDED = ('returned', 'written', 'json', 'pickle', 'compressed', 'exists',
          'overwritten', 'refused', 'late', 'circuit')


def plain(x):
    """What is expected in JSON for a value."""
    if isinstance(x, Decimal):
        return str(x)
    if isinstance(x, (tuple, list)):
        return [plain(v) for v in x]
    if isinstance(x, complex):
        return '{} + {}j'.format(x.real, x.imag)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return x


def unordered(x):
    return sorted(json.dumps(v) for v in x)


def sets(x):
    """JSON of a set of indices, which may contain sets themselves."""
    return unordered(names(v) for v in x)


def names(x):
    if isinstance(x, frozenset):
        return sorted(map(names, x), key=repr)
    if isinstance(x, (tuple, list)):
        return [names(v) for v in x]
    if type(x).__module__.startswith('cirq'):
        return repr(x)
    return x


def deep(x):
    """JSON lists of a frozenset name are in any order: only used in names."""
    return sorted(x, key=repr) if isinstance(x, list) and len(x) == 2 and (
        'f' in x and any(isinstance(v, int) for v in x)) else x


def check_json(mon, text, tn, res, finite):
    obj = json.loads(text)
    mon.check(set(obj) == {'tn', 'res'}, 'JSON: keys', key='json')
    j = obj['tn']
    mon.check(len(j['tensors']) == len(tn.tensors), 'JSON: tensors',
              key='json')
    for a, t in zip(j['tensors'], tn.tensors):
        mon.check([deep(x) for x in a['inds']] == names(t.inds) and
                  a['dims'] == list(t.dims), 'JSON: indices', key='json',
                  got=a['inds'], want=names(t.inds))
        mon.check(a['tags'] == plain(t.tags), 'JSON: tags', key='json')
        mon.check((a['array'] is None) == (t.array is None) and
                  (t.array is None or a['array'] == plain(t.array.tolist())),
                  'JSON: arrays', key='json')
    for k in ('output_inds', 'sparse_inds'):
        mon.check(unordered(map(deep, j[k])) == sets(getattr(tn, k)),
                  f'JSON: {k}', key='json', got=j[k])
    mon.check(len(obj['res']) == len(res), 'JSON: results', key='json')
    for a, r in zip(obj['res'], res):
        mon.check(a['cost'] == plain(r.cost) and
                  a['runtime_s'] == r.runtime_s and
                  a['path'] == plain(r.path) and
                  a['disconnected_paths'] == plain(r.disconnected_paths),
                  'JSON: result', key='json', got=a)
        if finite:
            mon.check(unordered(map(deep, a['slices'])) == sets(r.slices) and
                      [unordered(map(deep, x))
                       for x in a['disconnected_slices']] == list(
                          map(sets, r.disconnected_slices)), 'JSON: slices',
                      key='json', got=a['slices'])
    mon.event('json')


def check_raw(mon, obj, tn, res, finite):
    import numpy as np
    mon.check(isinstance(obj, tuple) and len(obj) == 2, 'raw: not a pair',
              key='raw')
    t, r = obj
    mon.check(t.ts_inds == tn.ts_inds and t.dims == tn.dims and
              t.output_inds == tn.output_inds and t.tags == tn.tags and
              t.sparse_inds == tn.sparse_inds and t.ts_tags == tn.ts_tags,
              'raw: network', key='raw')
    mon.check(all(a is b is None or np.array_equal(a, b)
                  for a, b in zip(t.arrays, tn.arrays)), 'raw: arrays',
              key='raw')
    mon.check(len(r) == len(res), 'raw: results', key='raw')
    keys = ['cost', 'runtime_s', 'path', 'disconnected_costs',
            'disconnected_paths'] + (['slices', 'disconnected_slices']
                                     if finite else [])
    for x, y in zip(r, res):
        mon.check(all(getattr(x, k) == getattr(y, k) for k in keys) and
                  type(x) is type(y), 'raw: result', key='raw')


def some(rng, mon, **kw):
    """(network, results, finite) of a small optimization."""
    from tnco.app import Optimizer, Tensor, TensorNetwork
    t = gen.tn(rng, n_min=1, n_max=6, open_=.3, hyper=.2, scalars=.3,
               connected=rng.coin(.7))
    arrays = t.arrays(rng, rng.coin()) if rng.coin() else None
    tags = [rng.choice([None, {'a': i, 'b': [1, 'x']}])
            for i in range(len(t.ts_inds))]
    given = TensorNetwork(
        [Tensor(xs, dims=[t.dims[x] for x in xs],
                array=arrays[i] if arrays else None, tags=tags[i])
         for i, xs in enumerate(t.ts_inds)], output_inds=t.output_inds)
    opt = {'n_jobs': 1, 'seed': rng.seed32(),
           'cost_type': rng.choice(['float32', 'float64', 'float1024'])}
    if rng.coin():
        opt['max_width'] = rng.choice([1, 2, 3])
    load = {'fuse': rng.choice([0, 3]), 'decompose_hyper_inds': False}
    run = dict(betas=(0, 10), n_steps=4, n_runs=rng.choice([1, 3]), **load)
    mon.note(tn=(t.ts_inds, t.dims, t.output_inds), optimizer=opt, run=run)
    return given, opt, run


def snapshot(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def read_back(data, how):
    if how == 'gzip':
        return gzip.decompress(data)
    if how == 'bz2':
        return bz2.decompress(data)
    return data


def options(rng):
    name = rng.choice(['out', 'out.json', 'out.gzip', 'out.bz2', 'out.pkl',
                       'a.bz2.txt', 'b c.gzip', 'x.gz', 'gzip', 'bz2'])
    comp = rng.choice(['auto', 'auto', 'auto', 'none', 'gzip', 'bz2', 'BZ2',
                       None])
    fmt = rng.choice([None, 'raw', 'json', 'JSON', 'Raw'])
    c = comp.lower() if comp else 'auto'
    if c == 'auto':
        ext = os.path.splitext(name)[1][1:]
        c = ext if ext in ('gzip', 'bz2') else 'none'
    kw = {}
    if fmt is not None:
        kw['output_format'] = fmt
    if comp is not None:
        kw['output_compression'] = comp
    return name, c, (fmt or 'raw').lower(), kw


def dump(rng, mon):
    """dump_results itself."""
    from tnco.app import Optimizer
    from tnco.app.app import dump_results
    given, opt, run = some(rng, mon)
    tn, res = Optimizer(**opt).optimize(given, **run)
    finite = 'max_width' in opt
    # returned
    for fmt in (None, 'raw', 'json'):
        got = dump_results(tn, res, output_format=fmt)
        if fmt == 'json':
            mon.check(isinstance(got, str), 'JSON is not a string', key='json')
            check_json(mon, got, tn, res, finite)
        else:
            mon.check(got[0] is tn and got[1] is res, 'raw: other objects',
                      key='raw')
        mon.event('returned')
    with folder() as d:
        for k in range(3):
            name, comp, fmt, kw = options(rng)
            path = os.path.join(d, name)
            old = snapshot(d)
            if rng.coin(.3) and name not in old:
                junk = bytes(rng.getrandbits(8) for _ in range(
                    rng.choice([0, 10, 200000])))
                with open(path, 'wb') as f:
                    f.write(junk)
                old[name] = junk
            kw['output_filename'] = path
            mon.note(dump=kw, exists=name in old)
            if name in old:
                mon.raises(FileExistsError,
                           lambda: dump_results(tn, res, **kw),
                           'an existing file', key='exists')
                mon.check(snapshot(d) == old, 'files change', key='exists')
                mon.event('exists')
                if rng.coin(.3):
                    continue
                kw['overwrite_output_file'] = True
                mon.event('overwritten')
            mon.check(dump_results(tn, res, **kw) is None,
                      'something is returned', key='file')
            new = snapshot(d)
            data = new.pop(name, None)
            old.pop(name, None)
            mon.check(data is not None and new == old,
                      'other files change, or no file', key='file',
                      got=sorted(new))
            judge_file(mon, data, comp, fmt, tn, res, finite)
            mon.distinct(name, comp, fmt, sorted(kw), finite)
    mon.sample(optimizer=opt, dump=kw)


def judge_file(mon, data, comp, fmt, tn, res, finite):
    mon.check((data[:2] == b'\x1f\x8b') == (comp == 'gzip') and
              (data[:3] == b'BZh') == (comp == 'bz2'), 'compression',
              key='compression', want=comp)
    data = read_back(data, comp)
    if comp != 'none':
        mon.event('compressed')
    if fmt == 'json':
        check_json(mon, data.decode(), tn, res, finite)
    else:
        check_raw(mon, pickle.loads(data), tn, res, finite)
        mon.event('pickle')
    mon.event('written')


def optimizer(rng, mon):
    """Through the optimizers: checked before any work, and again after."""
    from tnco.app import Optimizer
    given, opt, run = some(rng, mon)
    want = Optimizer(**opt).optimize(given, **run)
    finite = 'max_width' in opt
    with folder() as d:
        name, comp, fmt, kw = options(rng)
        path = kw['output_filename'] = os.path.join(d, name)
        mon.note(dump=kw)

        def same(data):
            """Same results, but for the times."""
            data = read_back(data, comp)
            if fmt == 'json':
                j = json.loads(data)
                mon.check([r['path'] for r in j['res']] ==
                          [plain(r.path) for r in want[1]] and
                          [r['cost'] for r in j['res']] ==
                          [plain(r.cost) for r in want[1]], 'results',
                          key='optimizer')
                mon.event('json')
            else:
                tn, res = pickle.loads(data)
                mon.check([(r.path, r.cost) for r in res] ==
                          [(r.path, r.cost) for r in want[1]] and
                          tn.ts_inds == want[0].ts_inds, 'results',
                          key='optimizer')
                mon.event('pickle')
            mon.event('written')

        if rng.coin(.5):
            o = Optimizer(**opt, **kw)
            mon.check(not os.path.exists(path), 'written too early',
                      key='optimizer')
            if rng.coin(.5):
                # somebody else writes it in the meantime
                with open(path, 'wb') as f:
                    f.write(b'precious')
                mon.raises(FileExistsError, lambda: o.optimize(given, **run),
                           'a file which appeared later', key='exists')
                mon.check(snapshot(d) == {name: b'precious'}, 'files change',
                          key='exists')
                mon.event('late')
                return
            mon.check(o.optimize(given, **run) is None, 'returns something',
                      key='optimizer')
            same(snapshot(d)[name])
            mon.raises(FileExistsError, lambda: o.optimize(given, **run),
                       'a second run over the first results', key='exists')
            mon.event('late')
        else:
            with open(path, 'wb') as f:
                f.write(b'x' * 100000)
            mon.raises(FileExistsError, lambda: Optimizer(**opt, **kw),
                       'an existing file', key='exists')
            mon.event('exists')
            mon.check(os.path.getsize(path) == 100000, 'files change',
                      key='exists')
            o = Optimizer(**opt, **kw, overwrite_output_file=True)
            mon.check(os.path.getsize(path) == 100000,
                      'overwritten too early', key='exists')
            o.optimize(given, **run)
            same(snapshot(d)[name])
            mon.event('overwritten')
    mon.distinct('opt', name, comp, fmt, finite)


def circuits(rng, mon):
    """Networks of circuits, whose indices contain qubits."""
    import cirq
    from tnco.app import Optimizer
    qs = cirq.LineQubit.range(3)
    ops = [rng.choice([cirq.H, cirq.T])(rng.choice(qs)) if rng.coin() else
           cirq.CX(*rng.sample(qs, 2)) for _ in range(rng.randint(2, 8))]
    ops += [cirq.H(q) for q in qs]
    c = cirq.Circuit(ops)
    kw = {'n_jobs': 1, 'seed': rng.seed32()}
    if rng.coin():
        kw['max_width'] = 2
    mon.note(circuit=str(c), optimizer=kw)
    run = dict(betas=(0, 10), n_steps=3, final_state=rng.choice([None, '0']),
               fuse=rng.choice([0, 3]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tn, res = Optimizer(**kw).optimize(c, **run)
        s = Optimizer(**kw, output_format='json').optimize(c, **run)
    j = json.loads(s)
    mon.check(len(j['tn']['tensors']) == len(tn.tensors) and
              [t['dims'] for t in j['tn']['tensors']] ==
              [list(t.dims) for t in tn.tensors], 'JSON: tensors', key='json')
    mon.check([len(t['inds']) for t in j['tn']['tensors']] ==
              [len(t.inds) for t in tn.tensors] and
              len(j['tn']['output_inds']) == len(tn.output_inds),
              'JSON: indices', key='json')
    mon.check([plain(r.path) for r in res] == [r['path'] for r in j['res']],
              'JSON: paths', key='json')
    # the names still identify the indices
    m = {}
    for a, t in zip(j['tn']['tensors'], tn.tensors):
        for x, y in zip(a['inds'], t.inds):
            x = json.dumps(x)
            mon.check(m.setdefault(x, y) == y, 'JSON: indices are confused',
                      key='json')
    mon.check(len(set(m.values())) == len(m), 'JSON: indices are confused',
              key='json')
    mon.event('circuit')
    mon.distinct('circuit', str(c), sorted(kw))


def refused(rng, mon):
    from tnco.app.app import dump_results
    with folder() as d:
        f = os.path.join(d, 'x')
        for what, kw in (
            ('format', dict(output_format='xml', output_filename=f)),
            ('compression', dict(output_compression='zip',
                                 output_filename=f)),
            ('no file', dict(output_compression=rng.choice(['bz2', 'gzip']))),
            ('name', dict(output_filename='a\0b')),
            ('name', dict(output_filename=os.path.join(d, 'n' * 5000)))):
            mon.raises(ValueError, lambda: dump_results(None, [], **kw), what,
                       key='refuse')
            mon.event('refused')
        mon.raises(TypeError, lambda: dump_results(None, [], nothing=1),
                   'option', key='refuse')
        mon.check(not os.listdir(d), 'something is written', key='refuse')
    mon.distinct('refused', rng.random())


FAMILIES = [
    Family(dump, 500),
    Family(optimizer, 300),
    Family(circuits, 60),
    Family(refused, 20),
]
