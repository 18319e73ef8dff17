"""C27: copies and pickles are equal, independent and do the same."""

import copy
import os
import pickle
import subprocess
import sys

from vf import objects
from vf.harness import Family

RULE = ('Objects of every public class, with random contents and history, are '
        'copied, deep-copied and pickled with every protocol, here and to a '
        'process with another hash seed; what can be observed of a copy (its '
        'future included) is compared with the original. Non-trivial: an object '
        'with other observations than seen before.')
NEEDED = ('copied', 'not_equal', 'transported', 'independent')
HOWS = ['pickle0', 'pickle2', 'pickle4', 'pickle5', 'copy', 'deepcopy',
        'in_list', 'twice']
LIGHT = [k for k in objects.OBSERVE if k not in objects.HEAVY]


def duplicate(rng, what, x, how):
    if how == 'copy':
        return copy.copy(x)
    if how == 'deepcopy':
        return copy.deepcopy(x)
    if how == 'in_list':
        # Together with others, more than once
        a, b, (c,) = pickle.loads(pickle.dumps([x, 'between', (x,)]))
        assert a is c
        return rng.choice([a, copy.deepcopy([a, x])[0]])
    if how == 'twice':
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))
    return pickle.loads(pickle.dumps(x, int(how[6:])))


def one(rng, mon, what):
    x, others = objects.make(rng, what, mon)
    see = objects.OBSERVE[what]
    eq = what not in objects.IDENTITY
    before = objects.text(see(x))
    hows = rng.sample(HOWS, 2 if what in objects.HEAVY else 4)
    # Protocols without support for the state of C++ objects refuse
    mon.note(what=what, object=before[:1500])
    for how in hows:
        if how == 'pickle0' and what not in ('tensor', 'network', 'ordered',
                                             'results'):
            continue
        y = duplicate(rng, what, x, how)
        mon.check(type(y) is type(x), f'{how}: another type', key=what,
                  got=type(y).__name__, want=type(x).__name__)
        got = objects.text(see(y))
        mon.check(got == before, f'{how} of "{what}" is different', key=what,
                  got=got, want=before)
        if eq:
            mon.check(y == x and x == y and not y != x,
                      f'{how} of "{what}" is not equal', key=what)
            for o in others:
                if what == 'optimizer' and objects.text(see(o)) == before:
                    continue
                mon.check(not y == o and y != o,
                          f'different "{what}" objects are equal', key=what,
                          one=objects.text(see(x)), two=objects.text(see(o)))
                mon.event('not_equal')
        if getattr(type(x), '__hash__', None) and what in ('bitset', 'ordered'):
            mon.check(hash(x) == hash(y), 'another hash', key=what)
        # What happens to the copy is not seen in the original
        if change(rng, what, y):
            mon.event('independent')
            mon.check(objects.text(see(x)) == before,
                      f'{how} of "{what}" is not independent', key=what)
        mon.event('copied')
        mon.event(f'copied_{what}')
    mon.check(objects.text(see(x)) == before, 'copying changes the object',
              key=what)
    mon.distinct(what, before)
    mon.sample(what=what, object=before[:300])


def change(rng, what, y):
    if what == 'tree' or what == 'ctree':
        for k in range(len(y.nodes)):
            try:
                y.swap_with_nn(k)
            except (RuntimeError, ValueError, IndexError):
                continue
        return True
    if what == 'optimizer':
        from tnco.optimize.prob import BaseProbability
        for _ in range(2):
            y.update(BaseProbability(cost_type=y.cmodel.cost_type))
        return True
    if what == 'prob' and hasattr(y, 'beta'):
        y.beta = 123
        return True
    return False


def here(rng, mon):
    one(rng, mon, rng.choice(LIGHT))


def heavy(rng, mon):
    one(rng, mon, rng.choice(objects.HEAVY))


def transport(rng, mon):
    """To another process and back."""
    kinds = [rng.choice(LIGHT) for _ in range(40)] + list(objects.HEAVY)
    things = [(k, objects.make(rng, k, mon)[0]) for k in kinds]
    seen = [objects.text(objects.OBSERVE[k](x)) for k, x in things]
    h = rng.randrange(1, 4000)
    mon.note(hash_seed=h, kinds=kinds)
    with open('sent', 'wb') as f:
        pickle.dump(things, f, rng.choice([4, 5]))
    r = subprocess.run([sys.executable, '-m', 'vf.sub.echo', 'sent', 'back'],
                       env=dict(os.environ, PYTHONHASHSEED=str(h)),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=200)
    mon.check(r.returncode == 0, f'cannot be loaded elsewhere: {r.stderr[-800:]}',
              key='transport')
    with open('back', 'rb') as f:
        back = pickle.load(f)
    for (k, x), was, (there, y) in zip(things, seen, back):
        mon.check(there == was, f'"{k}" is different in another process', key=k,
                  got=there, want=was)
        got = objects.text(objects.OBSERVE[k](y))
        mon.check(got == was, f'"{k}" comes back different', key=k, got=got,
                  want=was)
        if k not in objects.IDENTITY:
            mon.check(x == y, f'"{k}" comes back not equal', key=k)
        mon.event('transported')
        mon.distinct(k, was)


FAMILIES = [
    Family(here, 5000),
    Family(heavy, 60),
    Family(transport, 16, cpu_s=200),
]
