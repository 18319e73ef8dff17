"""What a check's case functions use: random choices, the monitor, verdicts."""

import hashlib
import json
import math
import random
from collections import Counter


class Violation(Exception):
    """The monitored property was observed to be broken."""

    def __init__(self, what, key=None, **details):
        super().__init__(what)
        self.what = what
        # The mechanism, by which a known finding is recognised
        self.key = key or what.split(':')[0]
        self.details = details


class Inconclusive(Exception):
    """The case could not be decided (resources, environment)."""


def _jsonable(x, depth=0):
    if isinstance(x, (str, bool, int)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if depth > 6:
        return repr(x)[:300]
    if isinstance(x, dict):
        return {
            str(k)[:200]: _jsonable(v, depth + 1)
            for k, v in list(x.items())[:60]
        }
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(x)[:120]]
    return repr(x)[:600]


class Monitor:
    """Counts what was observed and raises on a violation."""

    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.notes = None
        self.reset()

    def reset(self):
        self.events = Counter()
        self.sigs = set()
        self.sample_ = None
        self.context = {}

    # Observations
    def event(self, name, n=1):
        self.events[name] += n

    def distinct(self, *what):
        """Registers one distinct, non-trivial behaviour that was observed."""
        self.sigs.add(
            hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def sample(self, **kw):
        if self.sample_ is None:
            self.sample_ = _jsonable(kw)

    def note(self, **kw):
        """Context written into the replay file if this case fails."""
        self.context.update(kw)
        if self.notes:
            # For the reader of a crash, after which nobody can be asked
            with open(self.notes, 'w') as f:
                f.write(dump(self.context))

    # Verdicts
    def check(self, cond, what, key=None, **details):
        self.events['assertions'] += 1
        if not cond:
            raise Violation(what, key=key, **details)

    def fail(self, what, key=None, **details):
        raise Violation(what, key=key, **details)

    def raises(self, excs, fn, what, key=None, **details):
        """'fn' has to refuse with one of 'excs'."""
        self.events['rejections'] += 1
        try:
            r = fn()
        except excs as e:
            return e
        except Exception as e:  # the wrong kind of refusal
            raise Violation(f'{what}: raised {type(e).__name__}: {e}',
                            key=key or what,
                            **details) from e
        raise Violation(f'{what}: accepted', key=key or what,
                        got=repr(r)[:300], **details)


class Rng(random.Random):
    """random.Random with a numpy generator derived from the same seed."""

    def __init__(self, text):
        h = hashlib.sha256(text.encode()).digest()
        super().__init__(int.from_bytes(h[:16], 'big'))
        self._np_seed = int.from_bytes(h[16:24], 'big')
        self._np = None

    @property
    def np(self):
        if self._np is None:
            import numpy
            self._np = numpy.random.default_rng(self._np_seed)
        return self._np

    def coin(self, p=0.5):
        return self.random() < p

    def seed32(self):
        """A seed; the ends of the range are as good as any other."""
        if self.coin(.2):
            return self.choice([0, 0, 1, 2**32 - 1])
        return self.getrandbits(32)


class Family:
    """A family of cases: fn(rng, mon)."""

    def __init__(self,
                 fn,
                 quick,
                 thorough=None,
                 variant='dbg',
                 cpu_s=60,
                 env=None,
                 name=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick
        self.thorough = quick * 12 if thorough is None else thorough
        self.variant = variant
        self.cpu_s = cpu_s
        self.env = env or {}


def dump(obj):
    return json.dumps(_jsonable(obj))
