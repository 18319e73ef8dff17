"""C22: Parallel runs the core exactly once per argument, in order."""

import json
import math
import os
import pickle
import threading
import time
from struct import calcsize

from vf.checks.c20 import folder
from vf.harness import Family

RULE = ('Random arguments, numbers of jobs, buffers, verbosity, injected '
        'delays, exceptions and timeouts; every run appends its start and its '
        'end to an event log, which is checked afterwards: exactly once, with '
        'its own arguments and index, stopped only after the timeout. '
        'Non-trivial: an order of completion not seen before.')
NEEDED = ('runs', 'sequential', 'processes', 'logs', 'timeouts', 'stopped',
          'exceptions', 'buffers', 'released', 'reordered', 'shared')


class Watch:
    """Shared memory and threads created while it is active."""

    def __enter__(self):
        import multiprocessing.shared_memory as m

        import tnco.parallel as p
        self.mod, self.names = p, []
        self.orig = p.SharedMemory
        names = self.names

        def create(*args, **kwargs):
            shm = self.orig(*args, **kwargs)
            names.append(shm.name)
            return shm

        p.SharedMemory = create
        self.threads = set(threading.enumerate())
        return self

    def __exit__(self, *exc):
        self.mod.SharedMemory = self.orig

    def check(self, mon, daemons=False):
        left = [n for n in self.names if os.path.exists(f'/dev/shm/{n}')]
        mon.check(not left, 'shared memory is left behind', key='shm',
                  got=left)
        end = time.monotonic() + 5
        while True:
            # helpers of joblib are kept on purpose; timers are not
            new = [t for t in set(threading.enumerate()) - self.threads
                   if isinstance(t, threading.Timer)]
            if not new or time.monotonic() > end:
                break
            time.sleep(.01)
        mon.check(not new, 'a timer is left behind', key='timer')
        mon.event('released', len(self.names))


def logger(path):

    def log(**kw):
        import json
        import os
        import time
        f = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(f, (json.dumps({**kw, 't': time.monotonic(),
                                 'pid': os.getpid()}) + '\n').encode())
        os.close(f)

    return log


def read_log(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(x) for x in f]


def check_log(mon, log, n, what=''):
    """Every run starts once and ends once, after it started."""
    starts = [e['idx'] for e in log if e['e'] == 'start']
    ends = [e['idx'] for e in log if e['e'] == 'end']
    mon.check(sorted(starts) == list(range(n)), f'{what}starts', key='once',
              got=sorted(starts), want=n)
    mon.check(sorted(ends) == list(range(n)), f'{what}ends', key='once',
              got=sorted(ends), want=n)
    for i in range(n):
        a, = (e for e in log if e['e'] == 'start' and e['idx'] == i)
        b, = (e for e in log if e['e'] == 'end' and e['idx'] == i)
        mon.check(a['t'] <= b['t'] and a['pid'] == b['pid'],
                  'a run changes process', key='once')
    mon.event('logs', len(log))
    if ends != sorted(ends):
        mon.event('reordered')
    mon.distinct(n, starts, ends)
    return ends


def call(mon, jobs, core, *args, **kw):
    """Parallel, with standard error silenced."""
    import contextlib
    import io

    from tnco.parallel import Parallel
    with contextlib.redirect_stderr(io.StringIO()):
        return Parallel(core, *args, n_jobs=jobs, **kw)


def instance(rng, n=None):
    """Positional and keyword arguments, possibly of several lengths."""
    n = n or rng.choice([1, 2, 3, 5, 8, 13])
    xs = [rng.choice([i, -i, str(i), (i, 'x'), None, [i]]) for i in range(n)]
    args, kw = [], {}
    longer = lambda: [rng.random() for _ in range(n + rng.choice([0, 0, 3]))]
    for _ in range(rng.randint(0, 2)):
        args.append(longer())
    for k in rng.sample(['a', 'b', 'zeta', 'seed'], rng.randint(0, 3)):
        kw[k] = longer()
    # at least one has exactly n
    if not kw or rng.coin():
        args.append(xs)
    else:
        kw['a'] = xs
    if rng.coin(.2):
        args = [iter(a) for a in args]
        args = [list(a) for a in args]
    return n, args, kw


BUFFERS = [('f', .5), ('d', .1), ('q', -2**60), ('b', -7), ('B', 200),
           ('i', 123456), ('?', True), ('H', 65535)]


def run(rng, mon, jobs, delay):
    n, args, kw = instance(rng)
    bufs = rng.sample(['cost', 'width', 'n'], rng.randint(0, 3))
    bufs = [(b, rng.choice(BUFFERS)) for b in bufs]
    types = [(b, d) for b, (d, _) in bufs]
    values = {b: v for b, (_, v) in bufs}
    sleeps = [rng.random() * delay for _ in range(n)]
    # The later ones sometimes end first
    if rng.coin():
        sleeps.sort(reverse=True)
    mon.note(n=n, jobs=jobs, args=repr(args), kwargs=repr(kw), buffers=types)
    given_args = [list(a) for a in args]
    with folder() as d, Watch() as w:
        path = os.path.join(d, 'log')
        log = logger(path)

        def core(*xs, idx, status, stop, **ks):
            import time
            log(e='start', idx=idx)
            bad = []
            for name in values:
                b = ks.pop(name)
                if b[idx] != 0 or len(b) != n:
                    bad.append(f'{name} starts as {b[idx]}')
                if idx % 2 == 0:
                    b[idx] = values[name]
            if len(status) != n or len(stop) != n:
                bad.append('lengths')
            if status[idx] != 0:
                bad.append(f'status starts as {status[idx]}')
            status[idx] = .5
            time.sleep(sleeps[idx])
            if status[idx] != .5:
                bad.append('status is changed by another run')
            status[idx] = 1
            stopped = bool(stop[idx])
            log(e='end', idx=idx)
            return idx, xs, ks, stopped, bad

        extra = {}
        if types or rng.coin():
            extra['buffers'] = types
        if rng.coin(.3):
            extra.update(verbose=rng.choice([1, 2, 3]), refresh_per_second=50,
                         leave=rng.coin(), text='x', description='y')
        if rng.coin(.3):
            extra['timeout'] = 60
        rs = call(mon, jobs, core, *args, **kw, **extra)
        w.check(mon)
        lg = read_log(path)
    mon.check(isinstance(rs, list) and len(rs) == n, 'number of results',
              key='results', got=len(rs), want=n)
    for i, (idx, xs, ks, stopped, bad) in enumerate(rs):
        mon.check(idx == i, 'results are not in order', key='order',
                  got=[r[0] for r in rs])
        mon.check(xs == tuple(a[i] for a in given_args) and
                  ks == {k: v[i] for k, v in kw.items()},
                  'arguments of another run', key='arguments', got=(xs, ks))
        mon.check(not stopped, 'stopped without a timeout', key='stop')
        mon.check(not bad, 'buffers', key='buffers', got=bad)
    check_log(mon, lg, n)
    pids = {e['pid'] for e in lg}
    if jobs == 1:
        mon.check(pids == {os.getpid()}, 'other processes with one job',
                  key='jobs')
        starts = [e['idx'] for e in lg if e['e'] == 'start']
        mon.check(starts == list(range(n)), 'order of the runs', key='order')
        mon.event('sequential')
    else:
        k = jobs if jobs > 0 else os.cpu_count() + jobs + 1
        mon.check(n == 1 or k == 1 or os.getpid() not in pids,
                  'runs in the main process', key='jobs')
        # Never more at the same time than asked for
        level = top = 0
        for e in sorted(lg, key=lambda e: (e['t'], e['e'] == 'start')):
            level += 1 if e['e'] == 'start' else -1
            top = max(top, level)
        mon.check(top <= max(k, 1), 'too many runs at the same time',
                  key='jobs', got=top, want=k)
        mon.event('processes', len(pids))
    mon.event('runs', n)
    mon.event('buffers', len(types) * n)
    mon.sample(n=n, jobs=jobs, log=lg[:6])


def sequential(rng, mon):
    run(rng, mon, 1, .002)


def processes(rng, mon):
    for _ in range(4):
        run(rng, mon, rng.choice([2, 3, 4, 8, -1, -2]), .04)


def timeouts(rng, mon):
    """stop is set for all the runs after the timeout, and not before."""
    jobs = rng.choice([1, 1, 2, 3])
    n = rng.choice([1, 2, 5])
    timeout = rng.choice([0, 0, .001, .05, .2, .5])
    mon.note(jobs=jobs, n=n, timeout=timeout)
    limit = 30

    def core(x, *, idx, status, stop):
        import time
        if stop[idx]:
            return x, time.monotonic(), 'at once'
        t0 = time.monotonic()
        while not stop[idx] and time.monotonic() - t0 < limit:
            time.sleep(.002)
        return x, time.monotonic(), 'late' if stop[idx] else 'never'

    with Watch() as w:
        start = time.monotonic()
        rs = call(mon, jobs, core, list(range(n)), timeout=timeout)
        took = time.monotonic() - start
        w.check(mon)
    mon.check([r[0] for r in rs] == list(range(n)), 'results', key='results')
    for _, t, how in rs:
        mon.check(how != 'never', 'not stopped', key='timeout')
        mon.check(t - start >= timeout - .01, 'stopped too early',
                  key='timeout', after=t - start)
        mon.event('stopped')
    mon.check(took < timeout + limit / 2, 'stopped too late', key='timeout',
              took=took)
    if jobs == 1:
        hows = [r[2] for r in rs]
        if timeout < .01:
            # Even the first may be late for its start
            hows[0] = 'late'
        mon.check(hows == ['late'] + ['at once'] * (n - 1),
                  'runs after the timeout', key='timeout',
                  got=[r[2] for r in rs])
    mon.event('timeouts')
    mon.distinct('timeout', jobs, n, timeout, [r[2] for r in rs])


class Boom(Exception):
    pass


def exceptions(rng, mon):
    n = rng.choice([1, 3, 6])
    jobs = rng.choice([1, 1, 1, 1, 1, 1, 2, 3])
    which = rng.randrange(n)
    exc = rng.choice([ValueError, KeyError, ZeroDivisionError, RuntimeError])
    mon.note(jobs=jobs, n=n, which=which, exception=exc.__name__)

    def core(x, *, idx, status, stop):
        if idx == which:
            raise exc('boom')
        return x

    with Watch() as w:
        try:
            call(mon, jobs, core, list(range(n)),
                 **({'timeout': 100} if rng.coin() else {}))
        except exc as e:
            mon.check('boom' in str(e), 'another exception', key='exception')
        else:
            mon.fail('the exception is lost', key='exception')
        w.check(mon)
    # and it still works
    rs = call(mon, jobs, lambda x, *, idx, status, stop: x + 1,
              list(range(n)))
    mon.check(rs == [i + 1 for i in range(n)], 'results after an exception',
              key='exception')
    mon.event('exceptions')
    mon.distinct('exception', n, jobs, which, exc.__name__)


def refused(rng, mon):
    from tnco.parallel import Buffer

    def core(*args, idx, status, stop, **kw):
        raise Boom

    mon.raises(ValueError, lambda: call(mon, 1, core), 'no arguments',
               key='refuse')
    mon.raises(ValueError, lambda: call(mon, 0, core, [1, 2]), 'no jobs',
               key='refuse')
    mon.raises(ValueError, lambda: call(mon, 1, core, [1], buffers=[
        ('x', 'zz')]), 'type of a buffer', key='refuse')
    for t in ('', 'qq', 'J', '1'):
        mon.raises(ValueError, lambda: Buffer(3, t), 'type of a buffer',
                   key='refuse')
    mon.distinct('refused', rng.random())


def buffer(rng, mon):
    """A buffer is a list of fixed length and type, shared when pickled."""
    from tnco.parallel import Buffer
    import struct
    t, v = rng.choice(BUFFERS)
    n = rng.choice([1, 2, 3, 17, 1000])

    def value():
        if t in 'fd':
            x = rng.choice([0., -1.5, 1e30, rng.random()])
            return struct.unpack(t, struct.pack(t, x))[0]
        if t == '?':
            return rng.coin()
        k = 8 * calcsize(t)
        return rng.getrandbits(k) - (0 if t.isupper() else 2**(k - 1))

    if rng.coin():
        ref = [value() for _ in range(n)]
        b = Buffer(rng.choice([list, tuple, iter])(ref), t)
    else:
        ref = [False if t == '?' else 0.0 if t in 'fd' else 0] * n
        b = Buffer(n, t)
    try:
        other = pickle.loads(pickle.dumps(b))
        for k in range(rng.randint(1, 40)):
            i, x = rng.randrange(n), value()
            rng.choice([b, other])[i] = x
            ref[i] = x
            if k % 5 == 0:
                mon.check(list(b) == ref == list(other) and
                          [b[j] for j in range(n)] == ref, 'elements',
                          key='buffer', got=list(b)[:20], want=ref[:20])
                mon.event('shared')
        mon.check(list(b) == ref and len(b) == n == len(other) and
                  b.dtype == t and repr(b) == repr(ref), 'elements',
                  key='buffer')
        for j in (n, n + 5):
            mon.raises(IndexError, lambda: b[j], 'out of range',
                       key='buffer')
            mon.raises(IndexError, lambda: b.__setitem__(j, x),
                       'out of range', key='buffer')
        mon.check(list(b) == ref, 'changed out of range', key='buffer')
        other.shm.close()
    finally:
        b.shm.unlink()
        b.shm.close()
    mon.event('buffers')
    mon.distinct('buffer', t, n, repr(ref)[:200])


FAMILIES = [
    Family(sequential, 350),
    Family(processes, 24),
    Family(timeouts, 36),
    Family(exceptions, 60),
    Family(refused, 10),
    Family(buffer, 300),
]
