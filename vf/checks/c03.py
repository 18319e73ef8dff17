"""C03: tensors fit the maximum width after slicing, slices are the allowed."""

import math

from vf import gen, optwork, ref
from vf.harness import Family

RULE = ('Random networks, width limits (half, exactly a sum of log-dimensions, '
        'tight, wide), skipped indices, numbers of new slices, sparse indices; '
        'after every update every tensor of the current and of the best tree is '
        'measured after slicing. Non-trivial: an update after which the set of '
        'slices is non-empty and new for that network.')
NEEDED = ('widths_checked', 'sliced_states', 'slices_changed', 'at_limit')


def fits(mon, w, inds, slices, label):
    # The limit as the optimizer holds it
    tol = 1e-5 if w.width_type == 'float32' else 1e-9
    limit = w.max_width + tol * max(1., abs(w.max_width))
    cm = w.cmodel
    for i, xs in enumerate(inds):
        s = xs - slices
        width = w.width(s)
        mon.check(width <= limit,
                  f'{label}: a tensor is wider than the limit after slicing',
                  key='width', inds=xs, slices=slices, width=width,
                  max_width=w.max_width, node=i)
        mon.event('widths_checked')
        if abs(width - w.max_width) < 1e-6:
            mon.event('at_limit')
    mon.check(not slices & w.skip, f'{label}: a skipped index is sliced',
              key='skip', slices=slices, skip=w.skip)
    mon.check(slices <= set(w.tn.inds), f'{label}: unknown slices', key='skip')


def history(rng, mon, updates=None, **kw):
    w = optwork.Work(rng, mon, kind='finite', **kw)
    o = w.opt
    mon.check(o.skip_slices == w.skip, 'skip_slices is not what was asked',
              key='skip')
    first = o.slices
    wide = [xs for xs in w.inds if w.width(xs) > w.max_width + 1e-4]
    fits(mon, w, w.inds, first, 'initial tree')
    mon.check(o.min_slices == first, 'initial best slices differ', key='init')
    if not any(w.width(xs) > w.max_width - 1e-4 for xs in w.inds):
        mon.event('nothing_to_slice')
        mon.check(not first, 'sliced although everything fits', key='useless',
                  slices=first, max_width=w.max_width)
    for x in first:
        mon.check(any(x in xs for xs in wide) or
                  any(x in xs and w.width(xs) > w.max_width - 1e-4
                      for xs in w.inds),
                  'sliced an index that is in no tensor wider than the limit',
                  key='useless', index=x, slices=first)
    seen = set()
    last, last_cost = first, w.cost(w.ls, w.inds, first)
    n = len(w.tn.ts_inds)
    for i in range(updates or rng.randint(5, 40)):
        us = rng.coin(.6)
        o.update(rng.choice(w.probs), update_slices=us)
        mon.event('updates')
        ct, ls = w.observe()
        inds = ref.node_inds(ls, w.tn.ts_inds, w.tn.output_inds)
        slices = o.slices
        fits(mon, w, inds, slices, 'tree')
        bct, bls = w.observe(True)
        binds = ref.node_inds(bls, w.tn.ts_inds, w.tn.output_inds)
        fits(mon, w, binds, o.min_slices, 'best tree')
        if not us:
            # Slices are then only ever added, as many as allowed per move
            mon.check(slices >= last, 'slices were removed without updating '
                      'the slices', key='monotone', before=last, after=slices)
            mon.check(len(slices - last) <= w.max_new * max(0, n - 2),
                      'more new slices than allowed', key='max_new',
                      before=last, after=slices, allowed=w.max_new)
        elif w.max_new == 0 and not last:
            mon.check(not slices, 'slices appeared although none may be added',
                      key='max_new', after=slices)
        cost = w.cost(ls, inds, slices)
        if us and slices != last and not slices >= last:
            # Replaced: only because that is cheaper
            mon.event('slices_replaced')
            old = [last] if w.max_new == 0 else []
            for s in old:
                c = w.cost(ls, inds, s)
                if w.cost_type != 'float32' and max(c, cost) < 2**50:
                    mon.check(cost < c, 'slices were replaced by worse ones',
                              key='replace', before=s, after=slices,
                              costs=(c, cost))
        if slices != last:
            mon.event('slices_changed')
        if slices:
            mon.event('sliced_states')
            if slices not in seen:
                seen.add(slices)
                mon.distinct(w.tn.signature(), w.max_width,
                             sorted(map(repr, slices)))
        last, last_cost = slices, cost
    if rng.coin(.2):
        ok, msg = o.is_valid(return_message=True)
        mon.check(ok, f'is_valid() is False: {msg}', key='is_valid')
    mon.sample(tensors=w.tn.ts_inds, dims=w.tn.dims, max_width=w.max_width,
               width_type=w.width_type, skip=w.skip, max_new=w.max_new,
               slices=last)


def plain(rng, mon):
    history(rng, mon, sparse=False)


def sparse(rng, mon):
    history(rng, mon, sparse=True)


def hyper(rng, mon):
    t = gen.tn(rng, n_min=4, n_max=10, hyper=.6, hyper_open=.4, open_=.4,
               dims=(2, 3, 5))
    history(rng, mon, net=t)


def larger(rng, mon):
    t = gen.regular_tn(rng, rng.randint(14, 30), 3, (2, 3))
    history(rng, mon, net=t, updates=40)


def one_move(rng, mon):
    """Three tensors: every update proposes at most one move."""
    t = gen.tn(rng, 3, dims=(2, 3, 4), extra=rng.randint(2, 7), hyper=.2,
               open_=.5)
    w = optwork.Work(rng, mon, kind='finite', net=t)
    last = w.opt.slices
    for _ in range(25):
        w.opt.update(w.probs[0], update_slices=False)
        new = w.opt.slices
        mon.check(new >= last and len(new - last) <= w.max_new,
                  'more new slices than allowed in one move', key='max_new',
                  before=last, after=new, allowed=w.max_new)
        ct, ls = w.observe()
        inds = ref.node_inds(ls, t.ts_inds, t.output_inds)
        fits(mon, w, inds, new, 'tree')
        if len(new - last):
            mon.event(f'added_{min(3, len(new - last))}')
            mon.event('slices_changed')
        if new:
            mon.event('sliced_states')
            mon.distinct('one', t.signature(), sorted(map(repr, new)))
        last = new


def rejected(rng, mon):
    """Impossible requests are refused instead of being half satisfied."""
    from tnco.optimize.finite_width import Optimizer
    from tnco.optimize.finite_width.cost_model import SimpleCostModel
    t = gen.tn(rng, n_min=3, n_max=8, dims=(2, 3, 4))
    ct, path = optwork.tree_for(rng, t, True)
    if ct is None:
        return
    top = max(ref.width(xs, t.dims) for xs in ct.inds[:])
    for wt in optwork.WIDTH_TYPES:
        # Skipping everything cannot fit less than the widest tensor
        if top > .5:
            cm = SimpleCostModel(max_width=top - .25, width_type=wt)
            mon.raises(ValueError,
                       lambda: Optimizer(ct, cm, skip_slices=t.inds, seed=1,
                                         disable_shared_inds=True),
                       'skipping all indices of a too wide tensor',
                       key='refuse')
            mon.distinct(t.signature(), wt)
        cm = SimpleCostModel(max_width=top + 1, width_type=wt)
        o = Optimizer(ct, cm, skip_slices=t.inds, seed=1,
                      disable_shared_inds=True)
        mon.check(not o.slices, 'sliced although everything fits',
                  key='useless')
        mon.raises(ValueError,
                   lambda: Optimizer(ct, cm, skip_slices=['no such index'],
                                     seed=1, disable_shared_inds=True),
                   'skipping an unknown index', key='refuse')


FAMILIES = [
    Family(plain, 1000),
    Family(sparse, 900),
    Family(hyper, 700),
    Family(larger, 150),
    Family(one_move, 700),
    Family(rejected, 150),
]
