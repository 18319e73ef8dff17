"""C05: a seed determines the results."""

import copy
import json
import os
import pickle
import subprocess
import sys

from vf import gen, optwork, ref
from vf.harness import Family

RULE = ('Seeded optimizers, path searches, samplers and whole optimizations are '
        'run twice: again, in a process with another PYTHONHASHSEED and number '
        'of jobs, or interrupted (pickled, copied) and resumed at a random '
        'point of their history; all the observable trajectories are compared. '
        'Non-trivial: a trajectory in which the tree changed.')
NEEDED = ('trajectories_compared', 'resumed_and_moved', 'other_hash_seed',
          'functions_compared', 'seed_zero')


def state(o, finite):
    """What a user observes of an optimizer."""
    ct, best = o.ctree, o.min_ctree
    return (ref.links(ct.nodes), ref.links(best.nodes), ct.path(), best.path(),
            str(o.total_cost), str(o.min_total_cost), o.prng_state,
            (o.slices, o.min_slices) if finite else None)


def plan(rng, w, n):
    """A fixed sequence of updates."""
    return [(rng.randrange(len(w.probs)),
             {'update_slices': rng.coin(.8)} if w.kind == 'finite' else {})
            for _ in range(n)]


def run(o, w, steps):
    out = []
    for p, kw in steps:
        o.update(w.probs[p], **kw)
        out.append(state(o, w.kind == 'finite'))
    return out


def same(mon, a, b, what, key):
    for i, (x, y) in enumerate(zip(a, b)):
        mon.check(x == y, f'{what}: differs after update {i + 1}', key=key,
                  first=x, second=y)
    mon.event('trajectories_compared')
    return len({repr(x[0]) for x in a}) > 1


def repeat(rng, mon, **kw):
    w = optwork.Work(rng, mon, n_max=10, **kw)
    steps = plan(rng, w, rng.randint(5, 40))
    a = run(w.opt, w, steps)
    # Another optimizer in between has no influence
    o1, o2 = w.make(), w.make()
    b = []
    for s in steps:
        b += run(o1, w, [s])
        if rng.coin(.3):
            o2.update(w.probs[0])
    if same(mon, a, b, 'same seed', 'repeat'):
        mon.distinct('repeat', w.tn.signature(), a[-1][0], a[-1][6])


def resume(rng, mon, **kw):
    """Pickled at any point, an optimizer continues as if nothing happened."""
    w = optwork.Work(rng, mon, n_max=10, cost_type=rng.choice(
        ['float64', 'float128', 'float1024']),
        net=gen.tn(rng, n_min=4, n_max=9, dims=rng.choice([(2,), (2, 3), (1, 2, 4)]),
                   hyper=rng.choice([0, .3]), kind=kw.pop('kind_', None)), **kw)
    fin = w.kind == 'finite'
    n1, n2 = rng.randint(0, 25), rng.randint(5, 25)
    run(w.opt, w, plan(rng, w, n1))
    before = state(w.opt, fin)
    how = rng.choice(['pickle', 'pickle', 'copy', 'deepcopy', 'twice'])
    if how == 'copy':
        o = copy.copy(w.opt)
    elif how == 'deepcopy':
        o = copy.deepcopy(w.opt)
    else:
        o = pickle.loads(pickle.dumps(w.opt, rng.choice([2, 4, 5])))
        if how == 'twice':
            o = pickle.loads(pickle.dumps(o))
    mon.note(how=how, updates_before=n1)
    mon.check(state(o, fin) == before, 'a copy is in another state',
              key='copy', got=state(o, fin), want=before)
    mon.check(o == w.opt, 'a copy is not equal to the original', key='copy')
    steps = plan(rng, w, n2)
    if rng.coin():
        b = run(o, w, steps)
        mon.check(state(w.opt, fin) == before,
                  'updating a copy changed the original', key='copy')
        a = run(w.opt, w, steps)
    else:
        a = run(w.opt, w, steps)
        b = run(o, w, steps)
    if same(mon, a, b, f'resumed ({how})', 'resume'):
        mon.event('resumed_and_moved')
        mon.distinct('resume', how, w.tn.signature(), a[-1][0])
    mon.sample(kind=w.kind, how=how, tensors=w.tn.ts_inds, before=n1, after=n2)


def resume_slices(rng, mon):
    """Resumed with slices, skipped slices and extra slices."""
    resume(rng, mon, kind='finite')


def seeds(rng, mon):
    """Different seeds do something else (the seed is used)."""
    t = gen.regular_tn(rng, 12, 3)
    w = optwork.Work(rng, mon, net=t, kind=rng.choice(['infinite', 'finite']),
                     shared=False, cost_type='float64')
    seen = set()
    for s in range(5):
        w.opt_kw['seed'] = rng.getrandbits(40)
        o = w.make()
        p = w.prob('base')
        for _ in range(10):
            o.update(p)
        seen.add(repr(ref.links(o.ctree.nodes)))
    mon.check(len(seen) > 1, 'the seed is ignored', key='seed')
    mon.event('trajectories_compared')
    mon.distinct('seeds', seen)


def state_string(rng, mon):
    """The state of the generator can be given as seed."""
    w = optwork.Work(rng, mon, n_max=9, probs=None)
    run(w.opt, w, plan(rng, w, rng.randint(0, 10)))
    st = w.opt.prng_state
    w.opt_kw['seed'] = st
    a, b = w.make(), w.make()
    mon.check(a.prng_state == st or w.kind == 'finite',
              'the state given as seed is not used', key='state')
    steps = plan(rng, w, 15)
    if same(mon, run(a, w, steps), run(b, w, steps), 'same state', 'state'):
        mon.distinct('state', st[:20])


def processes(rng, mon):
    texts = [f'{rng.getrandbits(40)}' for _ in range(5)]
    jobs = [1, rng.choice([1, 2, 3])]
    hs = rng.sample(range(1, 4000), 2)
    mon.note(texts=texts, jobs=jobs, hash_seeds=hs)
    outs = []
    for j, h in zip(jobs, hs):
        r = subprocess.run([sys.executable, '-m', 'vf.sub.detrun',
                            str(j)] + texts,
                           env=dict(os.environ, PYTHONHASHSEED=str(h)),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=400)
        mon.check(r.returncode == 0, f'run failed: {r.stderr[-600:]}',
                  key='process')
        outs.append(json.loads(r.stdout))
    for t in outs[0]:
        for k in outs[0][t]:
            mon.check(outs[0][t][k] == outs[1][t][k],
                      f'"{k}" depends on the process (hash seeds {hs}, '
                      f'jobs {jobs})', key='process', text=t, first=outs[0][t][k],
                      second=outs[1][t][k])
            mon.event('other_hash_seed')
            mon.distinct('process', t, k)
        mon.event('trajectories_compared')


def functions(rng, mon):
    """Every seeded function, called again with the same arguments."""
    import random
    import numpy as np
    from tnco.app import Optimizer, Tensor, TensorNetwork
    from tnco.app.circuit.sampling import Sampler
    from tnco.testing import utils as T
    from tnco.utils import tensor as UT
    from tnco.utils import tn as U
    from tnco.utils.circuit import load
    from vf.sub.detrun import canon
    seed = rng.seed32()
    t = gen.tn(rng, n_min=4, n_max=9, kind=rng.choice(['word', 'tuple', 'int']),
               hyper=rng.choice([0, .3]), open_=.3, connected=rng.coin(.6))
    which = rng.choice([
        'path', 'path', 'paths', 'fuse', 'fuse', 'svd', 'inds', 'tensors', 'load',
        'optimize', 'optimize', 'sampler'
    ])
    kw = {}
    if which in ('path', 'paths'):
        kw['merge_paths'] = which == 'path'

        def fn():
            return U.get_random_contraction_path(
                t.ts_inds, output_inds=t.output_inds, seed=seed, **kw)
    elif which == 'fuse':
        kw['max_width'] = rng.choice([2, 3, 5, 8])

        def fn():
            return U.fuse(t.ts_inds, t.dims, output_inds=t.output_inds,
                          return_fused_inds=True, seed=seed, **kw)
    elif which == 'svd':
        arr = rng.np.normal(size=(2, 3, 2))

        def fn():
            return [xs for _, xs in UT.svd(arr, 'abc', 'ab', seed=seed)]
    elif which == 'inds':
        n = rng.randint(1, 40)

        def fn():
            return T.generate_random_inds(n, seed=seed)
    elif which == 'tensors':
        k = rng.choice([2, 2, 3])
        args = (rng.randint(4, 10), rng.randint(20, 30), k)
        kw = dict(n_output_inds=rng.randint(0, 4), n_cc=rng.randint(1, 3),
                  randomize_names=rng.coin())

        def fn():
            return T.generate_random_tensors(*args, seed=seed, **kw)
    elif which in ('load', 'sampler'):
        qs = ['q0', ('a', 1), 7, 'z'][:rng.randint(2, 4)]
        cx = np.eye(4)[[0, 1, 3, 2]]
        cz = np.diag([1, 1, 1, -1])
        h = np.array([[1, 1], [1, -1]]) / 2**.5
        gates = [(h, (q,)) for q in qs]
        for _ in range(rng.randint(3, 12)):
            gates.append((rng.choice([cx, cz]), tuple(rng.sample(qs, 2)))
                         if rng.coin(.6) else (h, (rng.choice(qs),)))
        if which == 'load':
            kw = dict(fuse=rng.choice([0, 2, 4]),
                      final_state=rng.choice(['0', None]),
                      decompose_hyper_inds=rng.coin(.7),
                      simplify=rng.coin())

            def fn():
                arrays, ts, out = load(gates, seed=seed, **kw)
                return ts, out, [np.asarray(a).tolist() for a in arrays]
        else:

            def fn():
                s = Sampler(seed=seed, n_jobs=1)
                return [
                    s.sample(gates, 20, betas=(0, 5), n_steps=3, qubit_order=qs)
                    for _ in range(2)
                ]
    else:
        kw = dict(max_width=rng.choice([None, 3., 5.]))
        fz = rng.choice([None, False, 3.])
        n_steps, n_runs = rng.choice([3, 15]), rng.randint(1, 3)

        def fn():
            tn = TensorNetwork([
                Tensor(xs, dims=tuple(t.dims[x] for x in xs))
                for xs in t.ts_inds
            ], output_inds=t.output_inds)
            o = Optimizer(seed=seed, n_jobs=1, output_format='raw', **kw)
            out = []
            for _ in range(2):
                tn2, res = o.optimize(tn, betas=(0, 5), n_steps=n_steps,
                                      n_runs=n_runs, fuse=fz)
                out.append(([x.inds for x in tn2.tensors],
                            [(r.path, str(r.cost), r.disconnected_paths,
                              getattr(r, 'slices', None)) for r in res]))
            return out

    mon.note(function=which, seed=seed, options=kw, ts_inds=t.ts_inds,
             dims=t.dims, output=t.output_inds)
    a = canon(fn())
    # Generators which are not ours
    random.seed(rng.getrandbits(30))
    np.random.seed(rng.getrandbits(30))
    for _ in range(rng.randint(1, 2)):
        b = canon(fn())
        mon.check(a == b, f'"{which}" with the same seed returns something else',
                  key='function', seed=seed, first=a, second=b)
    mon.event('functions_compared')
    mon.event(f'compared_{which}')
    if seed == 0:
        mon.event('seed_zero')
    mon.distinct('function', which, a)


FAMILIES = [
    Family(functions, 500),
    Family(repeat, 400),
    Family(resume, 500),
    Family(resume_slices, 500),
    Family(seeds, 40),
    Family(state_string, 150),
    Family(processes, 24, 200, cpu_s=240),
]
