"""C23: the release build has no undefined behaviour and follows the debug one."""

import json
import math
import os
import pickle
import subprocess
import sys

from vf import build, gen, optwork, ref
from vf.checks import c01, c02, c03, c05, c15, c16, c17, c18
from vf.harness import Family

RULE = ('The workloads of the other checks and hostile arguments, run by the '
        'release build (NDEBUG) instrumented with AddressSanitizer and '
        'UndefinedBehaviorSanitizer, which stop the process at the first error; '
        'and seeded trajectories of optimizers run by this build and by the '
        'debug one (another compiler, internal checks active), compared step '
        'by step. Non-trivial: trajectories, trees or arguments not seen '
        'before.')
NEEDED = ('updates', 'moved', 'hostile', 'agreement', 'callbacks', 'survived',
          'seeds_refused', 'seeds_accepted')
ASSUMPTIONS = [
    'Only errors that the sanitizers of clang detect; leaks of memory are not '
    'looked for, as the interpreter itself leaks.',
    'Functions of tnco_core with sizes of arguments that are inconsistent '
    'with each other, and which tnco never calls so, are not called.',
]

HERE = 'san'
# Compared with the previous one
VARIANTS = ('dbg',)


def histories(rng, mon):
    c01.history(rng, mon, n_max=10, steps=rng.randint(3, 25))


def large(rng, mon):
    """More than 64 indices: several machine words."""
    t = gen.regular_tn(rng, rng.randint(20, 60), 3, (2, 3))
    w = optwork.Work(rng, mon, net=t, shared=rng.coin())
    for _ in range(25):
        w.update()
    mon.event('moved')
    mon.check(w.opt.is_valid(), 'is_valid', key='is_valid')
    mon.distinct('large', w.tn.signature())


def extreme(rng, mon):
    """Numbers and types nobody expects, at every door of the optimizers."""
    from tnco.optimize.prob import MetropolisHastings
    w = optwork.Work(rng, mon, n_max=8, cost_type=rng.choice(
        optwork.COST_TYPES))
    odd = [0, -1, 1e308, -1e308, math.inf, -math.inf, math.nan, 5e-324]
    for _ in range(8):
        b = rng.choice(odd)
        try:
            p = MetropolisHastings(b, cost_type=w.cost_type)
        except (ValueError, TypeError, OverflowError):
            continue
        for _ in range(3):
            w.opt.update(p)
            mon.event('updates')
        # Whatever the probability, the trees remain trees
        for best in (False, True):
            ct, ls = w.observe(best)
            mon.check(not ref.tree_error(ls), 'not a tree', key='tree',
                      links=ls)
        mon.event('hostile')
    for atol in odd:
        w.opt.is_valid(atol=atol)
        mon.event('hostile')
    # Options
    Optimizer, Cm = w.module()
    for _ in range(6):
        cm, ok = dict(w.cm_kw), dict(w.opt_kw)
        k = rng.randrange(8)
        if k == 0:
            ok['seed'] = rng.choice([-1, 2**64, 2**64 - 1, 'abc', '', 1.5,
                                     '1 2 3', '9' * 5000, 2**70])
        elif k == 1:
            ok['atol'] = rng.choice(odd)
        elif k == 2 and w.kind == 'finite':
            ok['max_number_new_slices'] = rng.choice([-1, 2**63, 2**64, 1.5])
        elif k == 3 and w.kind == 'finite':
            cm['max_width'] = rng.choice(odd)
        elif k == 4:
            cm['sparse_inds'], cm['n_projs'] = rng.choice([
                (['not there'], 3), ([], 3), (w.tn.inds[:1], 2**63),
                (w.tn.inds[:1], 2**64), (w.tn.inds, 1)])
        elif k == 5 and w.kind == 'finite':
            ok['skip_slices'] = rng.choice([['not there'], w.tn.inds, [[]]])
        elif k == 6:
            ok['disable_shared_inds'] = not ok['disable_shared_inds']
        else:
            cm['cost_type'] = rng.choice(['float32', 'int', None, 'FLOAT64'])
        mon.note(odd_cmodel=cm, odd_optimizer=ok)
        try:
            o = Optimizer(w.ct, Cm(**cm), **ok)
            for _ in range(5):
                o.update(w.prob('base'))
        except (ValueError, TypeError, OverflowError, RuntimeError, KeyError,
                NotImplementedError):
            pass
        mon.event('hostile')
    mon.event('survived')
    mon.distinct('extreme', w.tn.signature(), w.cost_type)


def seeds(rng, mon):
    """States of the generator that are almost right."""
    w = optwork.Work(rng, mon, n_max=6)
    Optimizer, Cm = w.module()
    for _ in range(rng.randint(0, 3)):
        w.update()
    words = w.opt.prng_state.split()
    cm = Cm(**w.cm_kw)
    for _ in range(12):
        bad, k = list(words), rng.randrange(9)
        ok = False
        if k == 0:
            bad[-1] = str(rng.choice([625, 626, 10**4, 2**31, 2**32, 2**63,
                                      2**64, 10**30]))
        elif k == 1:
            bad[-1] = '-1'
        elif k == 2:
            bad[rng.randrange(624)] = str(rng.choice([2**32, 2**64 - 1, 2**64]))
        elif k == 3:
            bad[rng.randrange(625)] = rng.choice(['x', 'nan', '', '1.5', '0x1'])
            bad = [x for x in bad if x]
        elif k == 4:
            del bad[rng.randrange(624)]
        elif k == 5:
            bad.append('1')
        elif k == 6:
            bad = rng.choice([[], ['abc'], ['12'], bad[:300]])
        elif k == 7:
            bad[-1], ok = str(rng.randrange(625)), True
        else:
            bad[rng.randrange(624)], ok = str(rng.getrandbits(32)), True
        seed = rng.choice([' ', ' ', '\n', '  ']).join(bad)
        mon.note(change=k, seed=seed[-200:])

        def run():
            o = Optimizer(w.ct, cm, **{**w.opt_kw, 'seed': seed})
            if ok and w.kind != 'finite':
                mon.check(o.prng_state.split() == bad, 'state of the generator '
                          'is not the one given', key='seed')
            for _ in range(4):
                o.update(w.prob('base'))
            return seed

        if ok:
            run()
            mon.event('seeds_accepted')
        else:
            mon.raises(ValueError, run, 'invalid state of the generator',
                       key='seed')
            mon.event('seeds_refused')
    mon.event('hostile')
    mon.distinct('seeds', words[:3], w.tn.signature())


def huge_dims(rng, mon):
    """Dimensions and costs at the limits of the types."""
    from tnco.ctree import ContractionTree
    from tnco.optimize.prob import BaseProbability
    t = gen.tn(rng, n_min=3, n_max=8, hyper=.3)
    dims = {x: rng.choice([1, 2, 2**31, 2**32, 2**62, 2**63 - 1, 2**64 - 1,
                           2**64, 3**40]) for x in t.inds}
    if rng.coin(.2):
        dims = rng.choice([2**32, 2**64 - 1, 2**64])
    p = gen.path(rng, t, False)
    ctype = rng.choice(optwork.COST_TYPES)
    mon.note(tensors=t.ts_inds, dims=dims, path=p, cost_type=ctype)
    try:
        ct = ContractionTree(p, t.ts_inds, dims, output_inds=t.output_inds)
        for kind in ('infinite', 'finite'):
            if kind == 'finite':
                from tnco.optimize.finite_width.cost_model import \
                    SimpleCostModel
                from tnco.optimize.finite_width.optimizer import Optimizer
                cm = SimpleCostModel(rng.choice([0, 1, 30, 64, 1e6]),
                                     cost_type=ctype)
            else:
                from tnco.optimize.infinite_memory.cost_model import \
                    SimpleCostModel
                from tnco.optimize.infinite_memory.optimizer import Optimizer
                cm = SimpleCostModel(cost_type=ctype)
            o = Optimizer(ct, cm, disable_shared_inds=True, seed=1)
            for _ in range(10):
                o.update(BaseProbability(cost_type=ctype))
            str(o.total_cost), o.log2_total_cost
            pickle.loads(pickle.dumps(o))
            mon.event('moved')
    except (ValueError, TypeError, OverflowError, RuntimeError):
        pass
    mon.event('survived')
    mon.distinct('dims', t.signature(), ctype)


class Stop(Exception):
    pass


def callbacks(rng, mon):
    """Callbacks that raise, come back or change things in the middle."""
    import tnco_core as core
    links = c18.random_links(rng)
    tree = core.Tree([node(core, c, p) for c, p in links])
    n = len(links)
    stop = rng.randrange(n)
    seen = []

    def cb(pos):
        seen.append(pos)
        k = rng.randrange(4)
        if k == 0 and len(seen) < 4:
            inner = []
            core.utils.traverse(tree, inner.append)
            mon.check(sorted(inner) == list(range(n)), 'inner traversal',
                      key='traverse')
        if len(seen) > stop:
            raise Stop

    mon.raises(Stop, lambda: core.utils.traverse(tree, cb), 'callback',
               key='callback')
    mon.check(len(seen) == stop + 1, 'calls after an exception',
              key='callback')
    bits = core.Bitset(sorted(rng.sample(range(200), rng.randint(1, 60))), 200)
    stop = rng.randrange(bits.count())
    seen = []

    def cb2(pos):
        seen.append(pos)
        bits.visit(lambda p: None)
        if len(seen) > stop:
            raise Stop

    mon.raises(Stop, lambda: bits.visit(cb2), 'callback', key='callback')
    mon.check(seen == bits.positions()[:stop + 1], 'positions visited',
              key='callback')
    # The object goes away while it is in use
    box = [core.Bitset([1, 5, 130], 140)]

    def cb3(pos):
        box.clear()
        seen.append(pos)

    seen.clear()
    box[0].visit(cb3)
    mon.check(seen == [1, 5, 130], 'positions visited', key='callback')
    mon.event('callbacks')
    mon.distinct('callbacks', links, stop)


def node(core, c, p):
    c = (-1, -1) if c is None else c
    return core.Node(list(c), -1 if p is None else p)


ODD = [None, True, -1, 0, 1, 2, 3, 63, 64, 65, 2**31, 2**32 - 1, 2**32,
       2**63 - 1, 2**63, 2**64, -2**63, 1.5, math.inf, math.nan, '', '0', '101',
       '1' * 70, 'x', b'1', (), [], [0], [1, 2], [3, 1, 2], [-1], [2**40],
       {}, {'a': 1}, object(), (0, 1), [(0, 1)], [[0], [1], [0, 1]], 1j]


def calls(rng, mon):
    """Random calls of everything that is exported, with odd arguments."""
    import tnco_core as core
    pool = list(ODD)
    links = c18.random_links(rng, rng.choice([1, 2, 5]))
    ns = [node(core, c, p) for c, p in links]
    tree = core.Tree(ns)
    pool += [ns, tree, ns[0], core.Bitset([1], 3), core.Bitset([], 0),
             core.Bitset([64], 65), core.float1024(1.5), core.float1024('nan'),
             core.Node(), core.Tree(), core.ContractionTree()]
    n_ops = 0
    for _ in range(60):
        kind = rng.randrange(4)
        args = [rng.choice(pool) for _ in range(rng.randint(0, 3))]
        try:
            if kind == 0:
                cls = rng.choice([core.Node, core.Tree, core.Bitset,
                                  core.float1024, core.ContractionTree])
                if cls is core.Bitset and len(args) == 2 and isinstance(
                        args[1], int) and 2**16 < args[1] < 2**64:
                    # Slow, or refused by the sanitizer
                    continue
                mon.note(call=repr(cls), args=repr(args)[:1500])
                pool.append(cls(*args))
            elif kind == 1:
                f = rng.choice([core.utils.traverse, core.utils.get_contraction,
                                core.utils.is_close, core.utils.is_logclose,
                                core.utils.all_close, core.utils.all_logclose])
                mon.note(call=repr(f), args=repr(args)[:1500])
                f(*args)
            else:
                o = rng.choice(pool[len(ODD):])
                if isinstance(o, list):
                    continue
                names = [x for x in dir(type(o)) if x not in (
                    '__class__', '__init_subclass__', '__new__', '__init__',
                    '__subclasshook__', '__dir__', '__doc__', '__getattribute__',
                    '__delattr__', '__setattr__', '__reduce__', '__reduce_ex__',
                    '__setstate__', '__sizeof__', '__getstate__', '__module__')]
                a = getattr(o, rng.choice(names))
                mon.note(call=repr(a)[:200], args=repr(args)[:1500])
                r = a(*args) if callable(a) else a
                if type(r).__module__ == 'tnco_core':
                    pool.append(r)
            n_ops += 1
        except Exception:
            n_ops += 1
    # They are what they were
    mon.check(tree.is_valid(),
              'a valid tree became invalid', key='valid')
    for o in pool[len(ODD):]:
        if isinstance(o, (core.Tree, core.ContractionTree)):
            mon.check(o.is_valid(), 'an invalid tree was returned', key='valid')
    mon.event('hostile', n_ops)
    mon.event('survived')
    mon.distinct('calls', rng.random())


def states(rng, mon):
    """Objects made from states that are wrong."""
    import tnco_core as core
    links = c18.random_links(rng, rng.choice([1, 2, 4, 8]))
    ns = [node(core, c, p) for c, p in links]
    objs = [ns[0], core.Tree(ns), core.Bitset([1, 3], 5), core.float1024(2.5)]
    for o in objs:
        try:
            st = o.__getstate__()
        except Exception:
            continue
        for _ in range(6):
            bad = rng.choice(ODD)
            if isinstance(st, str) and rng.coin(.7):
                s = list(st)
                for _ in range(rng.randint(1, 3)):
                    k = rng.randrange(3)
                    i = rng.randrange(len(s) + 1)
                    if k == 0:
                        s[i:i] = rng.choice('0123456789abxz.-@ \0')
                    elif k == 1 and s:
                        del s[min(i, len(s) - 1)]
                    elif s:
                        s[min(i, len(s) - 1)] = rng.choice('01fgz.-@\n')
                bad = ''.join(s)
            elif isinstance(st, tuple) and rng.coin(.7):
                bad = list(st)
                i = rng.randrange(len(bad) + 1)
                bad[i:i + rng.randrange(2)] = [rng.choice(ODD)] * rng.randrange(
                    3)
                bad = tuple(bad)
            x = type(o).__new__(type(o))
            try:
                x.__setstate__(bad)
            except Exception:
                mon.event('hostile')
                continue
            repr(x), x == x
            if hasattr(x, 'is_valid'):
                mon.check(x.is_valid(), 'invalid state was accepted',
                          key='state', state=repr(bad)[:300])
            mon.event('hostile')
    mon.event('survived')
    mon.distinct('states', links)


def plan_of(text):
    """An optimizer and its observable states, for the comparison of builds."""
    from vf.harness import Monitor, Rng
    rng = Rng(text)
    mon = Monitor('C23')
    w = optwork.Work(rng, mon, n_max=10)
    out = []
    for s in c05.plan(rng, w, rng.randint(5, 30)):
        st, = c05.run(w.opt, w, [s])
        out.append([canon(x) for x in st] + [bool(w.opt.is_valid())])
    return out, [w.kind, w.cost_type, canon(w.cm_kw)]


def canon(x):
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(y) for y in x), key=repr)
    if isinstance(x, dict):
        return sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)
    return repr(x)


def agreement(rng, mon):
    texts = [f'{rng.getrandbits(50)}' for _ in range(12)]
    mon.note(texts=texts)
    env = {k: v for k, v in os.environ.items()
           if k not in ('LD_PRELOAD', 'ASAN_OPTIONS', 'UBSAN_OPTIONS')}
    env['VF_CORE_DIR'] = str(build.ensure('dbg')[0])
    p = subprocess.Popen([sys.executable, '-m', 'vf.checks.c23'] + texts,
                         env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True)
    here = [plan_of(t) for t in texts]
    out, err = p.communicate(timeout=400)
    mon.check(p.returncode == 0, f'the debug build failed: {err[-800:]}',
              key='agreement')
    there = json.loads(out)
    names = ('tree', 'best tree', 'path', 'best path', 'total_cost',
             'min_total_cost', 'prng_state', 'slices', 'is_valid')
    for t, (a, what), (b, _) in zip(texts, here, there):
        a = json.loads(json.dumps(a))
        for i, (x, y) in enumerate(zip(a, b)):
            for name, u, v in zip(names, x, y):
                mon.check(u == v, f'{name} after update {i + 1} differs between '
                          'the release and the debug builds', key='agreement',
                          release=u, debug=v, plan=t, options=what)
        mon.check(len(a) == len(b), 'number of updates', key='agreement')
        mon.event('agreement', len(a))
        mon.distinct('agreement', a[-1][0], a[-1][6][-40:])
    mon.sample(plans=texts, updates=[len(a) for a, _ in here])


def reuse(fn, quick, name):
    return Family(fn, quick, variant=HERE, name=name)


FAMILIES = [
    reuse(histories, 480, 'histories'),
    reuse(large, 64, 'large'),
    reuse(extreme, 480, 'extreme'),
    reuse(huge_dims, 600, 'huge_dims'),
    reuse(seeds, 150, 'seeds'),
    reuse(callbacks, 600, 'callbacks'),
    reuse(calls, 1000, 'calls'),
    reuse(states, 800, 'states'),
    Family(agreement, 64, variant=HERE, cpu_s=200),
    reuse(c02.finite, 240, 'costs'),
    reuse(c02.sparse, 240, 'sparse'),
    reuse(c02.huge, 80, 'huge'),
    reuse(c03.plain, 320, 'slicing'),
    reuse(c03.sparse, 240, 'sparse_slicing'),
    reuse(c05.resume, 320, 'resume'),
    reuse(c15.core, 480, 'core_costs'),
    reuse(c15.width, 600, 'widths'),
    reuse(c16.arithmetic, 600, 'arithmetic'),
    reuse(c16.special, 320, 'special'),
    reuse(c16.strings, 320, 'strings'),
    reuse(c16.formats, 400, 'formats'),
    reuse(c17.bitsets, 800, 'bitsets'),
    reuse(c17.bitsets_refused, 400, 'bitsets_refused'),
    reuse(c18.trees, 800, 'trees'),
    reuse(c18.swaps, 320, 'swaps'),
    reuse(c18.single_nodes, 320, 'nodes'),
    reuse(c18.core_ctrees, 800, 'core_ctrees'),
]

if __name__ == '__main__':
    print(json.dumps([plan_of(t) for t in sys.argv[1:]]))
