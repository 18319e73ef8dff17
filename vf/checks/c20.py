"""C20: load_tn loads the network that was given, in whatever format."""

import bz2
import gzip
import io
import json
import math
import os
import shutil
import sys
import tempfile
import warnings
from collections import Counter
from contextlib import contextmanager

from vf import gen, ref
from vf.harness import Family

RULE = ('Random networks given as objects, lists, text (comments, blanks), '
        'JSON, files (plain, gzip, bz2, both) and standard input, and random '
        'circuits given as gates, cirq objects, cirq JSON and QASM, with random '
        'options; indices, dimensions, output, tags and the dense value are '
        'compared with the definition. Non-trivial: a network not seen before.')
NEEDED = ('networks', 'fused', 'decomposed', 'merged', 'values', 'lists',
          'texts', 'files', 'stdin', 'gates', 'cirq', 'qasm', 'refused',
          'partial', 'sparse', 'tags')


def load(obj, **kw):
    from tnco.app import load_tn
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return load_tn(obj, **kw)


@contextmanager
def folder():
    d = tempfile.mkdtemp(prefix='vf20-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay_fuse(path, ts, tags, out, dims, max_width, mon):
    """Indices (as sets) and tags after a path by definition."""
    total = Counter(x for xs in ts for x in xs)
    cur = [(Counter(xs), set(xs), t) for xs, t in zip(ts, tags)]
    for p in path:
        x, y = sorted(p)
        mon.check(0 <= x < y < len(cur), 'invalid fuse path', key='fuse')
        cb, ib, tb = cur.pop(y)
        ca, ia, ta = cur.pop(x)
        mon.check(ia & ib, 'fused tensors share nothing', key='fuse')
        c = ca + cb
        inds = {v for v, k in c.items()
                if k < total[v] or v in out or total[v] == 1}
        w = sum(math.log2(dims[v]) for v in inds)
        mon.check(w <= max_width + 1e-9, 'a fused tensor is too large',
                  key='fuse', width=w)
        t = (None if ta is None and tb is None else tb if ta is None else
             ta if tb is None else {'x': ta, 'y': tb})
        cur.append((c, inds, t))
    return [i for _, i, _ in cur], [t for _, _, t in cur]


def judge(mon, t, tn, tags, fuse, decomposed, sparse=(), arrays=None,
          net_tags=None):
    """Compares a loaded network with the description."""
    ts, out = [tuple(x) for x in t.ts_inds], set(t.output_inds)
    dims, got_tags = t.dims, dict(tn.tags)
    ts_tags = [dict(x or {}) for x in tags]
    rep = None
    if decomposed:
        rep = got_tags.pop('hyper_inds_map')
        mon.check(set(rep) == set(t.inds), 'hyper_inds_map', key='tags')
        mon.event('decomposed')
        if any(x != y for x, y in rep.items()):
            mon.event('merged')
        out = {rep[x] for x in out}
        ts_tags = [{} for _ in ts]
    path = []
    if fuse:
        path = got_tags.pop('fuse_path')
        if path:
            mon.event('fused')
    mon.check(got_tags == dict(net_tags or {}), 'tags of the network',
              key='tags', got=got_tags)
    mon.check(set(tn.output_inds) == out, 'output indices', key='output',
              got=tn.output_inds, want=out)
    mon.check(set(tn.sparse_inds) == set(sparse), 'sparse indices',
              key='sparse')
    inds = [tuple(x) for x in tn.ts_inds]
    if not decomposed:
        want, wtags = replay_fuse(path, ts, ts_tags, out, dims, fuse or 0, mon)
        mon.check([set(x) for x in inds] == want and
                  (path or inds == ts), 'indices of the tensors', key='inds',
                  got=inds, want=want)
        mon.check(list(map(dict, tn.ts_tags)) == wtags, 'tags of the tensors',
                  key='tags', got=tn.ts_tags, want=wtags)
        mon.event('tags')
    else:
        mon.check(len(inds) == len(ts) - len(path), 'number of tensors',
                  key='inds')
    for x in tn:
        mon.check(tuple(x.dims) == tuple(dims[i] for i in x.inds),
                  'dimensions', key='dims')
        mon.check((x.array is None) == (arrays is None) or
                  any(a is None for a in arrays), 'arrays', key='arrays')
        if x.array is not None:
            mon.check(x.array.shape == tuple(x.dims), 'shape of an array',
                      key='arrays')
    mon.check(dict(tn.dims) == {i: dims[i] for xs in inds for i in xs},
              'dims', key='dims')
    if arrays is not None and all(a is not None for a in arrays):
        import numpy as np
        from vf.checks.c11 import expand
        o = list(t.output_inds)
        if math.prod(dims[x] for x in o) > 20000:
            return
        want = ref.einsum(arrays, ts, o)
        scale = 1 + np.prod([1 + np.abs(a).sum() for a in arrays])
        if rep is None:
            got = ref.einsum(tn.arrays, inds, o)
        else:
            outs = list(dict.fromkeys(rep[x] for x in o))
            got = expand(ref.einsum(tn.arrays, inds, outs), outs, rep, o, dims)
        mon.check(np.allclose(got, want, rtol=0, atol=1e-9 * scale),
                  'value of the network', key='value')
        mon.event('values')


def fuse_of(rng):
    return rng.choice([None, False, 0, 1, 2, 3.5, 4, 7, 100])


def networks(rng, mon):
    from tnco.app import Tensor, TensorNetwork
    from vf.checks.c11 import structured
    t = gen.tn(rng, n_min=1, n_max=7, dims=rng.choice([(2,), (2, 3), (1, 2)]),
               hyper=rng.choice([0, .4]), open_=rng.choice([0, .3]),
               hyper_open=rng.choice([0, .2]), connected=rng.coin(.7),
               scalars=.5)
    mode = rng.choice(['all', 'all', 'all', 'none', 'some'])
    arrays = structured(rng, t)
    if mode == 'none':
        arrays = None
    elif mode == 'some':
        arrays = [a if rng.coin() else None for a in arrays]
        if not any(a is not None for a in arrays):
            arrays = None
    sparse = t.sparse_choice(rng) if rng.coin(.15) and t.inds else frozenset()
    tags = [rng.choice([None, {}, {'n': i}, {'name': 'x', 'y': 2}])
            for i in range(len(t.ts_inds))]
    net_tags = rng.choice([None, {}, {'a': 1, ('b',): [2]}])
    given = TensorNetwork(
        [Tensor(xs, dims=[t.dims[x] for x in xs],
                array=None if arrays is None else arrays[i], tags=tags[i])
         for i, xs in enumerate(t.ts_inds)],
        output_inds=t.output_inds, sparse_inds=sparse, tags=net_tags)
    kw = {'seed': rng.seed32()}
    fuse, dec = 4, True
    if rng.coin(.8):
        kw['fuse'] = fuse = fuse_of(rng)
    if rng.coin(.7):
        kw['decompose_hyper_inds'] = dec = rng.coin()
    if rng.coin(.2):
        kw['dtype'] = 'complex128'
    if rng.coin(.1):
        kw['backend'] = 'numpy'
    mon.note(tn=(t.ts_inds, t.dims, t.output_inds), sparse=sparse, options=kw,
             arrays=None if arrays is None else
             [None if a is None else repr(a.tolist()) for a in arrays])
    keep = None if arrays is None else [None if a is None else a.copy()
                                        for a in arrays]
    tn = load(given, **kw)
    full = arrays is not None and all(a is not None for a in arrays)
    none = arrays is None
    if sparse:
        fuse = dec = False
        mon.event('sparse')
    if not full and t.ts_inds:
        dec = False
    if not (full or none):
        fuse = False
        mon.event('partial')
    judge(mon, t, tn, tags, fuse if fuse and fuse > 0 else 0, dec, sparse,
          arrays, net_tags)
    if kw.get('dtype') and full:
        mon.check(all(str(a.dtype) == 'complex128' for a in tn.arrays),
                  'type of the arrays', key='dtype')
    # the given network is as before
    mon.check(given.tags == dict(net_tags or {}) and
              [x.inds for x in given] == [tuple(x) for x in t.ts_inds] and
              [x.tags for x in given] == [dict(x or {}) for x in tags],
              'the given network changes', key='mutated')
    if keep is not None:
        import numpy as np
        mon.check(all(a is b is None or np.array_equal(a, b) for a, b in zip(
            given.arrays, keep)), 'the given arrays change', key='mutated')
    mon.event('networks')
    mon.distinct(t.signature(), mode, sorted(kw))
    mon.sample(tensors=t.ts_inds, options=kw)


def rows(rng):
    """A list of indices: [(dim, names...)] and what it means."""
    t = gen.tn(rng, n_min=1, n_max=9, dims=(1, 2, 3, 5, 10),
               hyper=rng.choice([0, .4]), open_=.3, hyper_open=.15,
               connected=rng.coin())
    names = rng.choice([
        [f'T{i}' for i in range(9)], list('abcdefghi'),
        ['A_1', 'x-y', '7', 'Z*', '/a', 'b#', '3.5', 'é', '{}']
    ])
    rng.shuffle(names)
    sparse = t.sparse_choice(rng) if rng.coin(.4) and t.inds else frozenset()
    return t, names, sparse


def described(t, names, sparse, order, sep_out='*', sep_sparse='/', rng=None):
    """Rows in 'order' of the indices; tensors listed in random order."""
    out, tensors = [], {}
    for k, x in enumerate(order):
        ms = [i for i, xs in enumerate(t.ts_inds) if x in xs]
        rng.shuffle(ms)
        row = [names[i] for i in ms]
        if x in t.output_inds:
            row.insert(rng.randint(0, len(row)), sep_out)
        if x in sparse:
            row.insert(rng.randint(0, len(row)), sep_sparse)
        out.append((t.dims[x], *row))
        for n in row:
            if n not in (sep_out, sep_sparse):
                tensors.setdefault(n, []).append(k)
    plain = gen.TN([tuple(v) for v in tensors.values()],
                   {k: t.dims[x] for k, x in enumerate(order)},
                   tuple(k for k, x in enumerate(order)
                         if x in t.output_inds))
    sp = frozenset(k for k, x in enumerate(order) if x in sparse)
    return out, plain, list(tensors), sp


def text_of(rng, rs):
    lines = []
    for r in rs:
        while rng.coin(.2):
            lines.append(rng.choice(['', '   ', '# a comment', '#2 a b',
                                     '#', '# 3 x']))
        s = str(r[0])
        for n in r[1:]:
            s += rng.choice([' ', ' ', '  ', '\t', '   ']) + n
        lines.append(s + rng.choice(['', '', ' ', '\t']))
    if rng.coin(.3):
        lines.append('')
    return rng.choice(['\n', '\n', '\r\n']).join(lines)


@contextmanager
def stdin(text):
    old = sys.stdin
    sys.stdin = io.StringIO(text)
    try:
        yield
    finally:
        sys.stdin = old


def give_file(rng, d, data):
    """A file with 'data' (bytes), maybe compressed."""
    name = os.path.join(d, rng.choice(['tn', 'tn.txt', 'a b.gz', 'x.bz2',
                                       'data.json', '2 a b']))
    for _ in range(rng.choice([0, 1, 1, 2])):
        data = rng.choice([gzip.compress, bz2.compress])(data)
    with open(name, 'wb') as f:
        f.write(data)
    return name


def lists(rng, mon):
    t, names, sparse = rows(rng)
    order = list(t.inds)
    rng.shuffle(order)
    so, ss = '*', '/'
    kw = {'seed': rng.seed32()}
    if rng.coin(.3):
        so, ss = rng.choice([('OUT', '/'), ('*', '@'), ('/', '*'), ('o', 's')])
        kw.update(output_index_token=so, sparse_index_token=ss)
    if set(names) & {so, ss}:
        return
    fuse = 4
    if rng.coin(.8):
        kw['fuse'] = fuse = fuse_of(rng)
    if rng.coin(.5):
        kw['decompose_hyper_inds'] = rng.coin()
    rs, plain, tn_names, sp = described(t, names, sparse, order, so, ss, rng)
    if not rs:
        return
    mon.note(rows=rs, options=kw)
    tags = [{'name': n} for n in tn_names]
    if sp:
        fuse = False
    fuse = fuse if fuse and fuse > 0 else 0
    results = []

    def see(tn, what):
        mon.note(format=what)
        judge(mon, plain, tn, tags, fuse, False, sp)
        results.append([(x.inds, x.dims, x.tags) for x in tn])

    kind = rng.choice([list, tuple])
    see(load(kind(rng.choice([list, tuple])(r) for r in rs), **kw), 'list')
    mon.event('lists')
    text = text_of(rng, rs)
    mon.note(text=text)
    see(load(text, **kw), 'text')
    mon.event('texts')
    see(load(json.dumps(rs), **kw), 'JSON')
    with folder() as d:
        data = rng.choice([text, json.dumps(rs)])
        see(load(give_file(rng, d, data.encode()), **kw), 'file')
        mon.event('files')
        with stdin(data):
            see(load('stdin', **kw), 'stdin')
        mon.event('stdin')
        with stdin(give_file(rng, d, data.encode()) + '\n'):
            see(load('stdin', **kw), 'file from stdin')
    mon.check(all(r == results[0] for r in results), 'formats differ',
              key='formats')
    mon.distinct(plain.signature(), kw.get('fuse'), so, bool(sp))
    mon.sample(rows=rs)


def amplitudes(mon, tn, c, used, ini, fin, phase):
    """Dense value of the loaded network against the simulation.

    The open indices are (qubit, 'i'/'f')-like: compared by their own rule.
    """
    import numpy as np
    from vf import circ
    want, inds = circ.value(c, used, ini, fin)
    out = sorted(tn.output_inds, key=repr)
    mon.check(len(out) == len(inds), 'open indices', key='gates', got=out)
    names = [(x[0], {0: 'i', 1: 'f'}.get(x[1], x[1])) for x in out] if all(
        isinstance(x, tuple) and len(x) == 2 for x in out) else None
    got = ref.einsum(tn.arrays, tn.ts_inds, out)
    if names is None or set(names) != set(inds):
        return
    want = want.transpose([inds.index(x) for x in names]) if inds else want
    if phase:
        ov = np.vdot(got, want)
        got = got * (ov / abs(ov) if abs(ov) > 1e-12 else 1)
    mon.check(np.allclose(got, want, rtol=0, atol=2e-5), 'amplitudes',
              key='gates')
    mon.event('amplitudes')


def same_value(mon, a, b, phase, what):
    import numpy as np
    mon.check(set(a.output_inds) == set(b.output_inds), f'{what}: output',
              key='gates', got=a.output_inds, want=b.output_inds)
    o = sorted(a.output_inds, key=repr)
    x, y = (ref.einsum(t.arrays, t.ts_inds, o) for t in (a, b))
    if phase:
        ov = np.vdot(x, y)
        x = x * (ov / abs(ov) if abs(ov) > 1e-12 else 1)
    mon.check(np.allclose(x, y, rtol=0, atol=2e-5), f'{what}: value',
              key='gates')
    mon.event('values')


def gates(rng, mon):
    import numpy as np
    from tnco.app import TensorNetwork
    from tnco.utils.circuit import load as load_circuit
    from vf import circ
    c = circ.circuit(rng, rng.randint(1, 5), rng.randint(1, 9))
    used = circ.qubits_of(c)
    ai, ini = circ.state(rng, used)
    af, fin = circ.state(rng, used)
    kw = {'initial_state': ai, 'final_state': af}
    if ai == '0':
        kw.pop('initial_state')
    if af == '0':
        kw.pop('final_state')
    simplify = True
    if rng.coin(.7):
        kw['simplify_circuit'] = simplify = rng.coin()
    if rng.coin(.3):
        kw['fuse'] = fuse_of(rng)
    mon.note(circuit=[(repr(np.round(g, 4).tolist())[:300], q) for g, q in c],
             options=kw)
    tn = load([(np.asarray(g), q) for g, q in c], **kw)
    mon.check(isinstance(tn, TensorNetwork), 'not a network', key='gates')
    want, inds = circ.value(c, used, ini, fin)
    out = set(tn.output_inds)
    arrays, ts, o = load_circuit(c, initial_state=ai, final_state=af,
                                 simplify=False, decompose_hyper_inds=False,
                                 fuse=False)
    mon.check(out == set(o) and len(out) == len(inds), 'open indices',
              key='gates', got=out, want=o)
    os_ = sorted(out, key=repr)
    a = ref.einsum(tn.arrays, tn.ts_inds, os_)
    b = ref.einsum(arrays, ts, os_)
    if simplify:
        ov = np.vdot(a, b)
        a = a * (ov / abs(ov) if abs(ov) > 1e-12 else 1)
    mon.check(np.allclose(a, b, rtol=0, atol=2e-5), 'value of the circuit',
              key='gates')
    mon.check(abs(np.linalg.norm(a) - np.linalg.norm(want)) < 1e-4,
              'norm of the amplitudes', key='gates')
    mon.event('gates')
    mon.distinct('gates', [(np.round(g, 3).tobytes(), q) for g, q in c])


def cirq_formats(rng, mon):
    import cirq
    from tnco.app import TensorNetwork
    n = rng.randint(1, 4)
    qs = cirq.LineQubit.range(n)
    ops = []
    for _ in range(rng.randint(1, 9)):
        k = rng.randint(1, min(2, n))
        q = rng.sample(qs, k)
        g = rng.choice([cirq.X, cirq.Y, cirq.H, cirq.S, cirq.T,
                        cirq.rx(rng.random()), cirq.rz(rng.random())]
                       if k == 1 else [cirq.CX, cirq.CZ, cirq.SWAP])
        ops.append(g(*q))
    c = cirq.Circuit(ops)
    kw = {'initial_state': rng.choice(['0', '+', None]),
          'final_state': rng.choice(['0', '1', '-', None])}
    phase = True
    if rng.coin():
        kw['simplify_circuit'] = False
        phase = False
    mon.note(circuit=str(c), options=kw)
    want = load(c, **kw)
    mon.check(isinstance(want, TensorNetwork), 'not a network', key='gates')
    # by definition
    import numpy as np
    from vf import circ
    used = sorted(c.all_qubits())
    plain = [(cirq.unitary(o), o.qubits) for o in c.all_operations()]
    toks = lambda s: {} if s is None else {q: circ.TOKENS[s] for q in used}
    v, inds = circ.value(plain, used, toks(kw['initial_state']),
                         toks(kw['final_state']))
    o = sorted(want.output_inds, key=repr)
    d = ref.einsum(want.arrays, want.ts_inds, o)
    mon.check(d.size == v.size and
              abs(np.linalg.norm(d) - np.linalg.norm(v)) < 1e-4,
              'norm of the amplitudes', key='gates')
    if not inds:
        mon.check(abs(abs(d) - abs(v)) < 1e-4, 'amplitude', key='gates')
    same_value(mon, load(c.freeze(), **kw), want, phase, 'frozen')
    js = cirq.to_json(c)
    same_value(mon, load(js, **kw), want, phase, 'JSON')
    same_value(mon, load(json.loads(js), **kw), want, phase, 'JSON object')
    mon.event('cirq')
    qasm = cirq.qasm(c)
    if rng.coin():
        qasm = '// comment\n\n' + qasm
    # other names of the qubits and other gates: compare the size and norm
    with folder() as d:
        for s, what in ((qasm, 'QASM'), (give_file(rng, d, qasm.encode()),
                                         'QASM file')):
            tn = load(s, **kw)
            oo = sorted(tn.output_inds, key=repr)
            x = ref.einsum(tn.arrays, tn.ts_inds, oo)
            mon.check(x.size == v.size, f'{what}: open indices', key='gates')
            mon.check(abs(np.linalg.norm(x) - np.linalg.norm(v)) < 1e-4 and
                      np.allclose(sorted(abs(x).ravel()),
                                  sorted(abs(v).ravel()), atol=1e-4),
                      f'{what}: amplitudes', key='gates')
            mon.event('qasm')
        f = give_file(rng, d, js.encode())
        same_value(mon, load(f, **kw), want, phase, 'JSON file')
        mon.event('files')
        with stdin(rng.choice([js, f])):
            same_value(mon, load('stdin', **kw), want, phase, 'stdin')
        mon.event('stdin')
    mon.distinct('cirq', str(c))


def refused(rng, mon):
    import numpy as np
    from tnco.app import Tensor, TensorNetwork
    bad = (TypeError, ValueError)
    with folder() as d:
        missing = os.path.join(d, 'missing.json')
        junk = os.path.join(d, 'junk')
        with open(junk, 'wb') as f:
            f.write(bytes(rng.getrandbits(8) for _ in range(64)) + b'\xff\xfe')
        for what, x in (
            ('a word', 'word'), ('a number', 7), ('a float', .5),
            ('None', None), ('rows without tensors', [(2,), (3,)]),
            ('rows without dimensions', [('a', 'b')]),
            ('fractional dimension', [(2.5, 'a', 'b')]),
            ('dimension 0', [(0, 'a', 'b')]),
            ('negative dimension', [(-2, 'a', 'b')]),
            ('text of something else', '2 a b\nhello world'),
            ('negative in text', '-2 a b'), ('missing file', missing),
            ('junk file', junk),
            ('gate of the wrong size', [(np.eye(4), ('a',))]),
            ('not square', [(np.ones((2, 3)), ('a',))]),
            ('not a gate', [(np.eye(2), ('a',)), 3]),
            ('JSON of something else', '{"a": 1}'),
            ('only output', [(2, '*')])):
            mon.raises(bad, lambda: load(x), what, key='refuse')
            mon.event('refused')
    mon.raises(NotImplementedError, lambda: load(iter([(2, 'a', 'b')])),
               'iterator', key='refuse')
    mon.raises(ValueError, lambda: load([(2, 'a', 'b')], output_index_token='t',
                                        sparse_index_token='t'),
               'equal tokens', key='refuse')
    tn = TensorNetwork([Tensor(['i'], dims=2), Tensor(['i'], dims=2)],
                       tags={'fuse_path': 1})
    mon.raises(ValueError, lambda: load(tn, fuse=2), 'tag in use',
               key='refuse')
    tn = TensorNetwork([Tensor(['i'], array=np.ones(2))],
                       tags={'hyper_inds_map': 1})
    mon.raises(ValueError, lambda: load(tn), 'tag in use', key='refuse')
    mon.event('refused', 4)


FAMILIES = [
    Family(networks, 1500),
    Family(lists, 700),
    Family(gates, 250),
    Family(cirq_formats, 80),
    Family(refused, 12),
]
