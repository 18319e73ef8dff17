"""C17: bitsets and ordered sets are sets (of positions, with an order)."""

import operator
import pickle
from copy import copy, deepcopy

from vf.harness import Family

RULE = ('Random bitsets (0 to 300 bits, sizes around multiples of 64) and '
        'ordered sets of mixed elements; every operation is compared with '
        'Python sets and lists, chains of operations included. Non-trivial: '
        'operands not seen before.')
NEEDED = ('bitset_ops', 'bitset_compare', 'bitset_refused', 'set_ops',
          'set_compare', 'set_refused', 'pickles', 'order')


def some(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return set()
    if k == 1:
        return set(range(n))
    p = rng.choice([.03, .3, .5, .9])
    return {i for i in range(n) if rng.random() < p}


def size(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.randint(0, 5)
    if k == 1:
        return max(0, 64 * rng.randint(1, 4) + rng.randint(-1, 1))
    return rng.randint(0, 300)


def make(rng, s, n):
    from tnco.bitset import Bitset
    from tnco_core import Bitset as Core
    k = rng.randrange(4)
    order = list(s)
    rng.shuffle(order)
    if k == 0:
        return Bitset(order, n=n)
    if k == 1:
        bits = ''.join('1' if i in s else '0' for i in range(n))
        return Bitset(bits, n=n) if rng.coin() else Bitset(bits)
    if k == 2:
        return Bitset(iter(order), n)
    return Core(order, n)


def observe(mon, b, s, n, what):
    """Everything that can be read from a bitset."""
    mon.check(len(b) == n, f'{what}: size', key='bitset-size', got=len(b),
              want=n)
    bits = ''.join('1' if i in s else '0' for i in range(n))
    mon.check(str(b) == bits and repr(b) == f'Bitset({bits})',
              f'{what}: string', key='bitset-bits', got=str(b), want=bits)
    mon.check(list(b.positions()) == sorted(s), f'{what}: positions',
              key='bitset-bits', got=list(b.positions()), want=sorted(s))
    seen = []
    b.visit(seen.append)
    mon.check(seen == sorted(s), f'{what}: visit', key='bitset-bits',
              got=seen, want=sorted(s))
    mon.check(b.count() == len(s), f'{what}: count', key='bitset-bits')
    mon.check([b[i] for i in range(n)] == [i in s for i in range(n)],
              f'{what}: elements', key='bitset-bits')
    try:
        b[n]
    except IndexError:
        pass
    else:
        mon.fail(f'{what}: no IndexError', key='bitset-range')


OPS = {'&': operator.and_, '|': operator.or_, '^': operator.xor,
       '-': operator.sub}
CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
       '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


def bitsets(rng, mon):
    n = size(rng)
    a = some(rng, n)
    k = rng.randrange(5)
    if k == 0:
        c = set(a)
    elif k == 1:
        c = {i for i in a if rng.coin(.8)}
    elif k == 2:
        c = a | some(rng, n)
    elif k == 3:
        c = set(range(n)) - a
    else:
        c = some(rng, n)
    x, y = make(rng, a, n), make(rng, c, n)
    mon.note(n=n, a=sorted(a), b=sorted(c))
    observe(mon, x, a, n, 'new')
    for name, op in OPS.items():
        observe(mon, op(x, y), op(a, c), n, name)
        mon.event('bitset_ops')
    full = set(range(n))
    observe(mon, ~x, full - a, n, '~')
    observe(mon, (~x & y) | (x - y) ^ y, ((full - a) & c) | (a - c) ^ c, n,
            'chain')
    for name, op in CMP.items():
        mon.check(op(x, y) is op(a, c), f'comparison {name}',
                  key='bitset-compare')
        mon.event('bitset_compare')
    mon.check(x.issubset(y) is (a <= c) and x.issuperset(y) is (a >= c) and
              x.isdisjoint(y) is a.isdisjoint(c), 'subset or disjoint',
              key='bitset-compare')
    # operands are as before
    observe(mon, x, a, n, 'operand')
    observe(mon, y, c, n, 'operand')
    z = pickle.loads(pickle.dumps(x, rng.randint(2, 5)))
    observe(mon, z, a, n, 'pickle')
    mon.check(z == x and type(z) is type(x), 'pickle differs', key='pickle')
    observe(mon, deepcopy(x) if rng.coin() else copy(x), a, n, 'copy')
    mon.event('pickles')
    mon.distinct('bits', n, sorted(a), sorted(c))
    mon.sample(n=n, a=len(a), b=len(c))


def bitsets_refused(rng, mon):
    from tnco.bitset import Bitset
    n, m = rng.randint(0, 130), rng.randint(0, 130)
    a, c = some(rng, n), some(rng, m)
    x, y = make(rng, a, n), make(rng, c, m)
    mon.note(n=n, m=m)
    if n != m:
        for name, op in {**OPS, **CMP}.items():
            if name in '==!=':
                mon.check(op(x, y) is (name == '!='), 'equal with another size',
                          key='bitset-sizes')
                continue
            mon.raises(ValueError, lambda: op(x, y),
                       f'{name} of different sizes', key='bitset-sizes')
        for f in (x.issubset, x.issuperset):
            mon.raises(ValueError, lambda: f(y), 'subset of different sizes',
                       key='bitset-sizes')
        mon.event('bitset_refused')
    bits = ''.join(rng.choice('01') for _ in range(n))
    bad = bits + rng.choice('2 a-.') + bits
    mon.raises(ValueError, lambda: Bitset(bad), 'bits not 0 or 1',
               key='bitset-refuse')
    mon.raises(ValueError, lambda: Bitset(bits, n=n + rng.choice([1, 7])),
               'another n', key='bitset-refuse')
    pos = sorted(a)
    mon.raises(ValueError, lambda: Bitset(pos), 'no n', key='bitset-refuse')
    mon.raises(ValueError, lambda: Bitset(n=n + 1), 'no bits',
               key='bitset-refuse')
    mon.raises(ValueError, lambda: Bitset([], n=-1), 'negative n',
               key='bitset-refuse')
    if pos:
        mon.raises(ValueError, lambda: Bitset(pos + [rng.choice(pos)], n=n),
                   'repeated', key='bitset-refuse')
        mon.raises(ValueError, lambda: Bitset(pos, n=rng.randint(0, max(pos))),
                   'n too small', key='bitset-refuse')
    mon.raises((ValueError, TypeError), lambda: Bitset(pos + [-1], n=n),
               'negative position', key='bitset-refuse')
    observe(mon, Bitset(), set(), 0, 'empty')
    mon.event('bitset_refused')
    mon.distinct('refused', n, m)


POOL = ([0, 1, 2, 3, -1, 10**20, 'a', 'b', 'ab', '', None, (1, 2), (), 2.5,
         frozenset([1]), b'x', True, 1.0])


def elements(rng):
    n = rng.choice([0, 1, 3, 6, 12, 40])
    pool = POOL if rng.coin() else list(range(rng.choice([4, 15, 60])))
    return [rng.choice(pool) for _ in range(n)]


def ordered(xs):
    """The distinct elements, in the order of their first appearance."""
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def same(mon, got, want, what):
    """want: list of distinct elements, in order."""
    from tnco.ordered_frozenset import OrderedFrozenSet as O
    mon.check(type(got) is O, f'{what}: type', key='set-type')
    g = list(got)
    mon.check(len(g) == len(want) == len(got) and
              all(p is q or (p == q and type(p) is type(q))
                  for p, q in zip(g, want)),
              f'{what}: elements and order', key='set-elements', got=repr(g),
              want=repr(want))
    mon.event('order')


def sets(rng, mon):
    from tnco.ordered_frozenset import OrderedFrozenSet as O
    xs, ys = elements(rng), elements(rng)
    if rng.coin(.2):
        ys = [x for x in xs if rng.coin(.7)]
        rng.shuffle(ys)
    elif rng.coin(.15):
        ys = xs[::-1]
    mon.note(a=repr(xs), b=repr(ys))
    a, c = ordered(xs), ordered(ys)
    x = O(iter(xs)) if rng.coin() else O(xs)
    y = O(ys)
    sa, sc = set(a), set(c)
    same(mon, x, a, 'new')
    same(mon, x.copy(), a, 'copy')
    w = pickle.loads(pickle.dumps(x))
    same(mon, w, [pickle.loads(pickle.dumps(e)) for e in a], 'pickle')
    mon.check(w == x and hash(w) == hash(x), 'pickle differs', key='pickle')
    mon.event('pickles')
    want = {
        '&': [e for e in a if e in sc],
        '|': ordered(a + c),
        '-': [e for e in a if e not in sc],
        '^': [e for e in a if e not in sc] + [e for e in c if e not in sa]
    }
    meth = {'&': 'intersection', '|': 'union', '-': 'difference',
            '^': 'symmetric_difference'}
    for name, op in OPS.items():
        same(mon, op(x, y), want[name], name)
        k = rng.randrange(4)
        other = (y, ys, iter(ys), tuple(c))[k]
        same(mon, getattr(x, meth[name])(other), want[name], meth[name])
        # unordered sets: the same elements
        got = op(x, sc) if rng.coin() else op(x, frozenset(c))
        mon.check(set(got) == op(sa, sc) and type(got) is O,
                  f'{name} with a set', key='set-elements')
        mon.event('set_ops')
    for name, op in CMP.items():
        mon.check(op(x, y) is op(sa, sc), f'comparison {name}',
                  key='set-compare')
        mon.check(op(x, sc) is op(sa, sc), f'comparison {name} with a set',
                  key='set-compare')
        mon.event('set_compare')
    # Of every form, those that can be read once included
    def form():
        return rng.choice([
            lambda: y, lambda: list(ys), lambda: tuple(c), lambda: iter(ys),
            lambda: (e for e in c), lambda: sc, lambda: dict.fromkeys(c),
            lambda: dict.fromkeys(c).keys(), lambda: map(lambda e: e, ys)])()

    for name, w in (('issubset', sa <= sc), ('issuperset', sa >= sc),
                    ('isdisjoint', sa.isdisjoint(sc))):
        o = form()
        mon.check(getattr(x, name)(o) is w, f'{name} of {type(o).__name__}',
                  key='set-compare')
    for name in OPS:
        o = form()
        same(mon, getattr(x, meth[name])(o), want[name] if not isinstance(o, set)
             else list(getattr(x, meth[name])(O(sc))), meth[name])
    for name, w in (('&', a), ('|', a), ('-', []), ('^', [])):
        same(mon, OPS[name](x, x), w, f'{name} with itself')
    mon.check(all((e in x) is (e in sa) for e in POOL), 'membership',
              key='set-compare')
    if sa == sc:
        mon.check(hash(x) == hash(y), 'hash of equal sets', key='set-hash')
    r = list(xs)
    rng.shuffle(r)
    mon.check(O(r) == x and hash(O(r)) == hash(x) and len({x, O(r)}) == 1,
              'the order changes equality or hash', key='set-hash')
    same(mon, x, a, 'operand')
    same(mon, y, c, 'operand')
    mon.check(repr(x) == f'OrderedFrozenSet({tuple(a)!r})' == str(x), 'repr',
              key='set-repr', got=repr(x))
    for name, op in {**OPS, **CMP}.items():
        if name in '==!=':
            continue
        mon.raises(TypeError, lambda: op(x, list(ys)), f'{name} with a list',
                   key='set-refuse')
        mon.event('set_refused')
    mon.raises(TypeError, lambda: O([[1]]), 'unhashable', key='set-refuse')
    mon.distinct('set', repr(xs), repr(ys))


FAMILIES = [
    Family(bitsets, 2500),
    Family(bitsets_refused, 800),
    Family(sets, 3000),
]
