"""C15: costs and widths are what the cost models define."""

import math
from decimal import Decimal
from fractions import Fraction

from vf import gen, ref
from vf.harness import Family

RULE = ('Random index sets (up to 90 indices), dimensions (mixed, common, '
        'huge), sparse indices and numbers of projections, slices, and all '
        'pairs of types; compared with exact integers and widths by '
        'definition. Non-trivial: a set of sizes and types not seen before.')
NEEDED = ('costs', 'widths', 'deltas', 'capped', 'sparse', 'common_dims',
          'refused', 'beyond_double', 'core')
COST = ('float32', 'float64', 'float128', 'float1024')
WIDTH = ('float32', 'float64', 'float128')
EPS = {'float32': 2.**-23, 'float64': 2.**-52, 'float128': 2.**-52}
BITS = {'float32': 120, 'float64': 1000, 'float128': 1000, 'float1024': 10000}


def exact(x):
    """The value a cost type reports, exactly."""
    if type(x).__name__ == 'float1024':
        s = str(x)
        return Fraction(Decimal(s))
    return Fraction(float(x))


def same_cost(mon, got, want, ct, n, **kw):
    if ct == 'float1024':
        tol = Fraction(n + 2, 2**1022)
        if want > 2**1024:
            mon.event('beyond_double')
    else:
        tol = Fraction((n + 2) * EPS[ct])
    g = exact(got)
    mon.check(abs(g - want) <= tol * want, 'contraction cost', key='cost',
              got=str(got)[:60], want=str(want)[:60], type=ct, **kw)
    mon.event('costs')


def instance(rng):
    kind = rng.choice(['few', 'few', 'many'])
    n = rng.randint(1, 9) if kind == 'few' else rng.randint(20, 90)
    inds = gen.index_names(rng, n)
    pool = rng.choice([(2,), (2, 3, 5), (1, 2, 7), (2**20, 3, 10**6), (97, 89)])
    dims = {x: rng.choice(pool) for x in inds}
    A = rng.sample(inds, rng.randint(0, n))
    B = rng.sample(inds, rng.randint(0, n))
    ab = list(dict.fromkeys(A + B))
    C = rng.sample(ab, rng.randint(0, len(ab)))
    S = rng.sample(inds, rng.randint(0, min(n, 4)))
    kw, sparse, n_projs = {}, frozenset(), None
    if rng.coin(.5):
        sparse = frozenset(rng.sample(inds, rng.randint(0, min(n, 6))))
        n_projs = rng.choice([1, 2, 3, 10, 1000, 10**9, rng.randint(1, 40)])
        kw = dict(sparse_inds=rng.choice([list, tuple, frozenset])(sparse))
        if sparse or rng.coin():
            kw['n_projs'] = n_projs
        if not sparse:
            n_projs = None
    return inds, dims, A, B, C, S, kw, sparse, n_projs


def give(rng, xs):
    return rng.choice([list, tuple, frozenset, iter])(xs)


def dims_arg(rng, mon, dims, used, inds):
    v = {dims[x] for x in inds}
    if len(v) == 1 and rng.coin():
        mon.event('common_dims')
        return v.pop()
    d = {x: dims[x] for x in used}
    if rng.coin(.3):
        d = dict(dims)
    return d


def cost(rng, mon):
    from tnco.optimize.finite_width.cost_model import SimpleCostModel as F
    from tnco.optimize.infinite_memory.cost_model import SimpleCostModel as I
    inds, dims, A, B, C, S, kw, sparse, n_projs = instance(rng)
    ct = rng.choice(COST)
    mon.note(A=A, B=B, C=C, S=S, dims=dims, sparse=kw, type=ct)
    u = set(A) | set(B)
    used = list(dict.fromkeys([*A, *B, *C, *S, *sparse]))
    for finite in (False, True):
        want = ref.union_cost(u, dims, sparse, n_projs, S if finite else ())
        if want.bit_length() > BITS[ct]:
            continue
        d = dims_arg(rng, mon, dims, used, inds)
        if finite:
            m = F(rng.choice([0, 3.5, math.inf]), cost_type=rng.choice(
                [ct, ct.upper()]), width_type=rng.choice(WIDTH), **kw)
            got = m.contraction_cost(give(rng, A), give(rng, B), give(rng, C), d,
                                     give(rng, S))
        else:
            m = I(cost_type=ct, **kw)
            got = m.contraction_cost(give(rng, A), give(rng, B), give(rng, C), d)
        same_cost(mon, got, want, ct, len(u | set(S)), finite=finite)
        s = ref.prod(dims[x] for x in sparse & (u | (set(S) if finite else
                                                     set())))
        if sparse:
            mon.event('sparse')
            if s > n_projs:
                mon.event('capped')
        mon.check(m.cost_type == ct and m.n_projs == kw.get('n_projs') and
                  (m.sparse_inds or frozenset()) == sparse,
                  'attributes of the model', key='attributes')
    mon.distinct(ct, len(u), len(S), len(sparse), n_projs,
                 tuple(sorted(dims.values())))
    mon.sample(A=A, B=B, slices=S, sparse=sparse, n_projs=n_projs, type=ct)


def width(rng, mon):
    from tnco.optimize.finite_width.cost_model import SimpleCostModel as F
    inds, dims, A, *_, kw, sparse, n_projs = instance(rng)
    wt, ct = rng.choice(WIDTH), rng.choice(COST)
    m = F(10, cost_type=ct, width_type=wt, **kw)
    used = list(dict.fromkeys([*A, *sparse]))
    mon.note(inds=A, dims=dims, sparse=kw, type=wt)
    want = ref.width(A, dims, sparse, n_projs)
    tol = (1e-5 if wt == 'float32' else 1e-11) * (1 + sum(
        math.log2(dims[x]) for x in A))
    d = dims_arg(rng, mon, dims, used, inds)
    got = float(m.width(give(rng, A), d))
    mon.check(abs(got - want) <= tol, 'width', key='width', got=got, want=want)
    mon.event('widths')
    x = rng.choice(inds)
    used = list(dict.fromkeys([*A, x, *sparse]))
    d = dims_arg(rng, mon, dims, used, inds)
    got = float(m.delta_width(give(rng, A), d, x))
    dw = ref.width(set(A) ^ {x}, dims, sparse, n_projs) - want
    mon.check(abs(got - dw) <= 2 * tol + 1e-9, 'difference of width',
              key='delta', got=got, want=dw, index=x, sparse=sparse)
    mon.event('deltas')
    if sparse:
        mon.event('sparse')
        if ref.prod(dims[x] for x in sparse & set(A)) > n_projs:
            mon.event('capped')
    mon.distinct(wt, len(A), len(sparse), n_projs, x in A, x in sparse,
                 tuple(sorted(dims.values())))


def core(rng, mon):
    """The compiled models the optimizers use, by position."""
    import importlib

    from tnco_core import Bitset
    inds, dims, A, B, C, S, kw, sparse, n_projs = instance(rng)
    n = len(inds)
    pos = {x: i for i, x in enumerate(inds)}
    ct, wt = rng.choice(COST), rng.choice(WIDTH)
    want = ref.union_cost(set(A) | set(B), dims, sparse, n_projs, S)
    if want.bit_length() > BITS[ct]:
        return
    B_ = lambda xs: Bitset([pos[x] for x in xs], n)
    d = [dims[x] for x in inds]
    if len(set(d)) == 1 and rng.coin():
        d = d[0]
    f = importlib.import_module('tnco_core.optimize.finite_width.cost_model')
    i = importlib.import_module('tnco_core.optimize.infinite_memory.cost_model')
    if sparse:
        args = (B_(sparse), n_projs)
        fm = getattr(f, f'SimpleCostModelSparseInds_{ct}_{wt}')(5, *args)
        im = getattr(i, f'SimpleCostModelSparseInds_{ct}')(*args)
    else:
        fm = getattr(f, f'SimpleCostModel_{ct}_{wt}')(5)
        im = getattr(i, f'SimpleCostModel_{ct}')()
    same_cost(mon, fm.contraction_cost(B_(A), B_(B), B_(C), d, B_(S)), want, ct,
              n)
    want = ref.union_cost(set(A) | set(B), dims, sparse, n_projs)
    same_cost(mon, im.contraction_cost(B_(A), B_(B), B_(C), d), want, ct, n)
    tol = (1e-5 if wt == 'float32' else 1e-11) * (1 + sum(
        math.log2(dims[x]) for x in inds))
    w = ref.width(A, dims, sparse, n_projs)
    mon.check(abs(float(fm.width(B_(A), d)) - w) <= tol, 'width', key='width')
    x = rng.choice(inds)
    dw = ref.width(set(A) ^ {x}, dims, sparse, n_projs) - w
    mon.check(abs(float(fm.delta_width(B_(A), d, pos[x])) - dw) <= 2 * tol,
              'difference of width', key='delta', want=dw)
    mon.event('core')
    mon.distinct('core', ct, wt, n, len(A), len(B), len(S), len(sparse))


def refused(rng, mon):
    from tnco.optimize.finite_width.cost_model import SimpleCostModel as F
    from tnco.optimize.infinite_memory.cost_model import SimpleCostModel as I
    k = rng.randrange(9)
    make = rng.choice([lambda **k: I(**k), lambda **k: F(3, **k)])
    V, N = ValueError, NotImplementedError
    if k == 0:
        e, bad = V, lambda: make(sparse_inds=['a'])
    elif k == 1:
        e, bad = V, lambda: make(n_projs=3)
    elif k == 2:
        e, bad = V, lambda: make(sparse_inds=['a'], n_projs=rng.choice(
            [-1, 1.5, -3]))
    elif k == 3:
        e, bad = N, lambda: make(cost_type=rng.choice(
            ['float16', 'int', 'double', 'float256']))
    elif k == 4:
        e, bad = N, lambda: F(1, width_type=rng.choice(
            ['float16', 'float1024', 'x']))
    elif k == 5:
        e, bad = V, lambda: F(-rng.random() - 1e-3)
    elif k == 6:
        e, bad = V, lambda: I().contraction_cost('ab', 'bc', 'ac',
                                                 {'a': 2, 'b': 2})
    elif k == 7:
        e, bad = V, lambda: F(1).contraction_cost('ab', 'bc', 'acd', 2, ())
    else:
        e, bad = V, lambda: rng.choice([
            lambda: F(1).width('ab', {'a': 2}),
            lambda: F(1).delta_width('a', {'a': 2}, 'b'),
            lambda: F(1).contraction_cost('ab', 'bc', 'ac', {
                'a': 2, 'b': 2, 'c': 2}, 'd')
        ])()
    mon.raises(e, bad, f'inconsistent arguments ({k})', key='refuse')
    mon.event('refused')
    mon.distinct('refused', k)


def equality(rng, mon):
    """Models are equal exactly when their parameters are."""
    from tnco.optimize.finite_width.cost_model import SimpleCostModel as F
    from tnco.optimize.infinite_memory.cost_model import SimpleCostModel as I
    import pickle

    def params():
        p = dict(cost_type=rng.choice(COST[:2]))
        if rng.coin():
            p.update(sparse_inds=frozenset(rng.sample('abc', 2)),
                     n_projs=rng.choice([2, 3]))
        if fin:
            p.update(max_width=rng.choice([1, 2]), width_type=rng.choice(
                WIDTH[:2]))
        return p

    fin = rng.coin()
    p, q = params(), params()
    make = F if fin else I
    a, b = make(**p), make(**q)
    mon.check((a == b) == (p == q) and (a != b) == (p != q),
              'equality of models', key='equality', p=p, q=q)
    mon.check(make(**p) == a and pickle.loads(pickle.dumps(a)) == a,
              'a copy differs', key='equality')
    mon.distinct('eq', str(p), str(q))


FAMILIES = [
    Family(cost, 2500),
    Family(width, 2500),
    Family(core, 1200),
    Family(refused, 150),
    Family(equality, 200),
]
