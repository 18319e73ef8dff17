"""Runs seeded computations and prints what they returned, name by name.

Started by C05 in processes which differ in everything a result must not depend
on (PYTHONHASHSEED, number of jobs).
"""

import json
import sys
import warnings

warnings.simplefilter('ignore')


def canon(x):
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(y) for y in x), key=repr)
    if isinstance(x, dict):
        return sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)
    return repr(x)


def network(text, n_max=9, connected=None):
    from vf import gen
    from vf.harness import Rng
    rng = Rng(text)
    t = gen.tn(rng, n_min=4, n_max=n_max,
               kind=rng.choice(['word', 'str', 'tuple', 'int']),
               hyper=.3, open_=.3,
               connected=rng.coin(.7) if connected is None else connected)
    return rng, t


def compute(text, n_jobs):
    from tnco.app import Optimizer, Tensor, TensorNetwork
    from tnco.utils import tn as U
    rng, t = network(text)
    seed = rng.seed32()
    out = {}
    out['path'] = U.get_random_contraction_path(t.ts_inds, seed=seed)
    out['paths'] = U.get_random_contraction_path(t.ts_inds, seed=seed,
                                                 merge_paths=False)
    out['fuse'] = U.fuse(t.ts_inds, t.dims, max_width=rng.choice([3, 5]),
                         output_inds=t.output_inds, seed=seed)
    arrays = t.arrays(rng)
    tn = TensorNetwork([
        Tensor(xs, array=a) for a, xs in zip(arrays, t.ts_inds)
    ], output_inds=t.output_inds)
    mw = rng.choice([None, 3., 5.])
    o = Optimizer(max_width=mw, seed=seed, n_jobs=n_jobs, output_format='raw')
    fz = rng.choice([False, 4.])
    for k in range(2):
        # The second call continues with the generator of the first
        tn2, res = o.optimize(tn, betas=(0, 10), n_steps=rng.choice([5, 30]),
                              n_runs=3, fuse=fz)
        out[f'network{k}'] = [x.inds for x in tn2.tensors]
        out[f'results{k}'] = [(r.path, str(r.cost), r.disconnected_paths)
                              for r in res]
        if mw is not None:
            out[f'slices{k}'] = [r.slices for r in res]
    return {k: canon(v) for k, v in out.items()}


def sample(text):
    import numpy as np
    from vf.harness import Rng
    from tnco.app.circuit.sampling import Sampler
    rng = Rng(text)
    qs = ['q0', ('a', 1), 7, 'z'][:rng.randint(2, 4)]
    gates = [(np.eye(2), (q,)) for q in qs]
    cx = np.eye(4)[[0, 1, 3, 2]]
    for _ in range(8):
        if rng.coin():
            gates.append((cx, tuple(rng.sample(qs, 2))))
        else:
            a, b = rng.random() * 3, rng.random() * 3
            u = np.array([[np.cos(a), -np.sin(a) * np.exp(1j * b)],
                          [np.sin(a) * np.exp(-1j * b), np.cos(a)]])
            gates.append((u, (rng.choice(qs),)))
    s = Sampler(seed=rng.seed32(), n_jobs=1)
    out = [s.sample(gates, 25, betas=(0, 5), n_steps=4, qubit_order=qs,
                    normalize=False) for _ in range(2)]
    return {'samples': canon(out)}


if __name__ == '__main__':
    res = {}
    for text in sys.argv[2:]:
        res[text] = compute(text, int(sys.argv[1]))
        res['s' + text] = sample('s' + text)
    print(json.dumps(res))
