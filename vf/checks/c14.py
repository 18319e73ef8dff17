"""C14: sampled bitstrings follow the output distribution of the circuit."""

import math
from collections import Counter

from vf import gen, ref
from vf.harness import Family

RULE = ('Random circuits of arbitrary one-qubit gates and classical gates '
        '(permutations with phases) on 2-3 qubits; samples are compared with '
        'the simulated distribution: nothing of probability zero, and counts '
        'within a Chernoff bound of 1e-11 per outcome. Non-trivial: a circuit '
        'whose distribution is not a single bitstring, not seen before.')
NEEDED = ('samples', 'circuits', 'zero_outcomes', 'refused', 'classical',
          'not_classical', 'intermediate', 'cirq', 'qiskit')
DELTA = math.log(1e11)


def kl(k, n, p):
    """n * KL(k/n || p)"""
    q = k / n
    r = 0.
    if q > 0:
        r += q * math.log(q / p) if p > 0 else math.inf
    if q < 1:
        r += (1 - q) * math.log((1 - q) / (1 - p)) if p < 1 else math.inf
    return n * r


def judge(mon, counts, n, dist, what='samples'):
    """dist: {bitstring: probability}; returns an error or None."""
    if sum(counts.values()) != n:
        return 'count', f'{sum(counts.values())} samples of {n}'
    for b, k in counts.items():
        if b not in dist:
            return 'bitstring', f'not a bitstring: {b!r}'
        if dist[b] < 1e-11:
            return 'impossible', f'{b} has probability zero'
    for b, p in dist.items():
        p = min(1., max(0., p))
        p = 0. if p < 1e-11 else 1. if p > 1 - 1e-11 else p
        if kl(counts.get(b, 0), n, p) > DELTA:
            return 'distribution', (f'{b}: {counts.get(b, 0)} of {n}, '
                                    f'probability {p}')
    # Marginals and parities have more power than single outcomes
    nq = len(next(iter(dist)))
    for mask in range(1, 2**nq):
        par = lambda b: bin(int(b, 2) & mask).count('1') % 2
        p = sum(v for b, v in dist.items() if par(b))
        p = min(1., max(0., p))
        p = 0. if p < 1e-11 else 1. if p > 1 - 1e-11 else p
        k = sum(v for b, v in counts.items() if par(b))
        if kl(k, n, p) > DELTA:
            return 'distribution', f'parity {mask:b}: {k} of {n}, probability {p}'
    return None


def distribution(c, qs):
    import numpy as np
    from vf import circ
    u = circ.unitary(c, qs).reshape(2**len(qs), -1)[:, 0]
    p = np.abs(u)**2
    return {format(i, f'0{len(qs)}b'): float(p[i]) for i in range(len(p))}


def sampler(rng, **kw):
    from tnco.app.circuit.sampling import Sampler
    return Sampler(n_jobs=1, seed=rng.seed32(), **kw)


def options(rng):
    kw = dict(betas=(0, 10), n_steps=rng.choice([1, 5]))
    if rng.coin(.3):
        kw['n_runs'] = rng.choice([1, 2])
    if rng.coin(.5):
        kw['simplify'] = rng.coin()
    if rng.coin(.5):
        kw['decompose_hyper_inds'] = rng.coin()
    if rng.coin(.5):
        kw['fuse'] = rng.choice([None, 0, 2, 4])
    if rng.coin(.3):
        kw['use_matrix_commutation'] = rng.coin()
    return kw


def run(rng, mon, given, c, qs, n, classify=None):
    kw = options(rng)
    order = rng.sample(qs, len(qs)) if rng.coin(.7) else None
    if order is not None:
        kw['qubit_order'] = rng.choice([list, tuple])(order)
    norm = rng.coin(.4)
    if not norm:
        kw['normalize'] = False
    s = sampler(rng, **({'dtype': 'complex128'} if rng.coin(.3) else {}))
    mon.note(options=kw, n=n)
    if rng.coin(.4):
        # Optimize once, then sample in several goes
        st = s.sample(given, return_intermediate_state_only=True,
                      **{k: v for k, v in kw.items() if k != 'normalize'})
        counts, k, got_order = Counter(), n, None
        while k:
            m = min(k, rng.randint(1, n))
            d, o = s.sample(st, m, normalize=False, **(
                {'qubit_order': order} if order is not None else {}))
            mon.check(got_order in (None, o), 'the order of qubits changes',
                      key='order')
            mon.check(sum(d.values()) == m, 'number of samples', key='count')
            got_order = o
            counts.update(d)
            k -= m
        counts = dict(counts)
        mon.event('intermediate')
    else:
        d, got_order = s.sample(given, n, **kw)
        vals = list(d.values())
        mon.check(vals == sorted(vals, reverse=True), 'not sorted by hits',
                  key='sorted')
        if norm:
            mon.check(abs(sum(vals) - 1) < 1e-9, 'not normalized',
                      key='normalize', got=d)
            d = {b: v * n for b, v in d.items()}
            mon.check(all(abs(v - round(v)) < 1e-6 for v in d.values()),
                      'not fractions of hits', key='normalize')
            d = {b: round(v) for b, v in d.items()}
        counts = d
    mon.check(set(got_order) == set(qs) and len(got_order) == len(qs) and
              (order is None or tuple(got_order) == tuple(order)),
              'order of qubits', key='order', got=got_order, want=order)
    dist = distribution(c, list(got_order))
    err = judge(mon, counts, n, dist)
    if err and classify:
        key = classify(counts, list(got_order))
        if key:
            mon.fail(f'{err[0]}: {err[1]}', key=key, counts=counts, dist=dist)
    mon.check(err is None, f'{err and err[0]}: {err and err[1]}',
              key=err and err[0], counts=counts, dist=dist)
    mon.event('samples', n)
    mon.event('circuits')
    if any(p < 1e-11 for p in dist.values()):
        mon.event('zero_outcomes')
    if max(dist.values()) < 1 - 1e-9:
        mon.distinct(sorted(round(p, 6) for p in dist.values()), len(c))
    mon.sample(counts=counts, distribution=dist)


def superposed(rng, c):
    """With a layer of one-qubit gates before, most times."""
    from vf import circ
    return [(circ.H if rng.coin() else circ.haar(rng, 2), (q,))
            for q in circ.qubits_of(c) if rng.coin(.6)] + c


def few(rng, mon):
    """Many samples of small circuits."""
    from vf import circ
    c = superposed(rng, circ.circuit(rng, rng.randint(1, 3), rng.randint(1, 6),
                                     True))
    mon.note(circuit=[(g.tolist() if g.dtype != complex else repr(g.tolist()),
                       q) for g, q in c])
    give = rng.choice([list, tuple])(c)
    run(rng, mon, give, c, circ.qubits_of(c), 600)


def deep(rng, mon):
    """Interference: few samples of deeper circuits."""
    from vf import circ
    c = superposed(rng, circ.circuit(rng, rng.randint(2, 5), rng.randint(6, 14),
                                     True))
    run(rng, mon, c, c, circ.qubits_of(c), 60)


def rotations(rng, mon):
    """One qubit: the probability of a rotation, precisely."""
    import numpy as np
    t = rng.random() * np.pi
    g = np.array([[np.cos(t / 2), -np.sin(t / 2)],
                  [np.sin(t / 2), np.cos(t / 2)]])
    c = [(g, ('a',))]
    if rng.coin():
        u = rng.random() * np.pi
        c.append((np.diag([1, np.exp(1j * u)]), ('a',)))
        c.append((g.T, ('a',)))
    run(rng, mon, c, c, ['a'], 2500)


def classical(rng, mon):
    """Only classical gates: one bitstring, computed by permuting bits."""
    from vf import circ
    n = rng.randint(2, 6)
    qs = gen.index_names(rng, n)
    c = [(circ.X if rng.coin() else circ.I, (q,)) for q in qs]
    for _ in range(rng.randint(1, 15)):
        k = rng.randint(1, min(3, n))
        c.append((circ.gate(rng, k, True), tuple(rng.sample(qs, k))))
    run(rng, mon, c, c, qs, 3)
    mon.distinct('classical', [g.tobytes() for g, _ in c])


def is_classical(rng, mon):
    import numpy as np
    from tnco.app.circuit.sampling import is_classical_operation as f
    from vf import circ
    n = 2**rng.randint(0, 3)
    k = rng.randrange(8)
    if k <= 1:
        m, want = circ.permutation(rng, n) @ circ.phases(rng, n), True
        m = m * np.exp(rng.choice([0, 1e-7, -1e-7]))
        m = m + 1e-8 * rng.np.normal(size=m.shape)
    elif k == 2:
        m, want = circ.permutation(rng, n), True
    elif k == 3:
        m, want = circ.haar(rng, n), n == 1
    elif k == 4:
        m, want = circ.permutation(rng, n) * rng.choice([1.01, .9, 0]), False
    elif k == 5:
        m = circ.permutation(rng, n)
        m[rng.randrange(n), rng.randrange(n)] += 1e-2
        want = False
    elif k == 6:
        m, want = np.eye(3)[rng.np.permutation(3)], False
    else:
        m, want = rng.choice([np.eye(4)[:2], np.ones(4), np.eye(4)[:, :2],
                              np.ones((2, 2, 2))]), False
    mon.check(bool(f(m)) == want, 'is_classical_operation is wrong',
              key='is_classical', matrix=repr(m.tolist()), want=want)
    mon.event('classical' if want else 'not_classical')
    mon.distinct('is', np.round(m, 6).tobytes(), m.shape)


def refused(rng, mon):
    import numpy as np
    from tnco.app.circuit.sampling import Sampler
    from vf import circ
    c = circ.circuit(rng, 3, 5, True)
    qs = circ.qubits_of(c)
    s = sampler(rng)
    kw = dict(betas=(0, 1), n_steps=1)
    k = rng.randrange(3)
    if k == 0:
        a, b = ('x', 1), ('x', 2)
        c.insert(rng.randint(0, len(c)), (circ.haar(rng, 4), (a, b)))
        mon.raises(ValueError, lambda: s.sample(c, 1, **kw),
                   'a quantum gate on two qubits', key='refuse')
    elif k == 1:
        o = rng.choice([qs + [('no', 1)], qs[:-1]])
        mon.raises(ValueError, lambda: s.sample(c, 1, qubit_order=o, **kw),
                   'order of other qubits', key='refuse')
    else:
        mon.raises(NotImplementedError, lambda: Sampler(max_width=3.),
                   'a finite width', key='refuse')
    mon.event('refused')


def with_cirq(rng, mon):
    import cirq
    n = rng.randint(1, 3)
    qs = cirq.LineQubit.range(n)
    one = [cirq.H, cirq.X**.5, cirq.T, cirq.ry(rng.random())]
    ops = []
    for _ in range(rng.randint(1, 8)):
        if n > 1 and rng.coin(.4):
            ops.append(rng.choice([cirq.CNOT, cirq.CZ, cirq.ISWAP])(
                *rng.sample(qs, 2)))
        else:
            ops.append(rng.choice(one)(rng.choice(qs)))
    circuit = cirq.Circuit(ops)
    c = [(cirq.unitary(o), o.qubits) for o in circuit.all_operations()]
    used = list(dict.fromkeys(q for _, x in c for q in x))
    if rng.coin():
        circuit.append(cirq.measure(*used, key='m'))
    if rng.coin(.2):
        circuit = cirq.Moment(circuit[0])
        c = [(cirq.unitary(o), o.qubits) for o in circuit.operations]
        used = list(dict.fromkeys(q for _, x in c for q in x))
    run(rng, mon, circuit, c, used, 300)
    mon.event('cirq')


def with_qiskit(rng, mon):
    import numpy as np
    import qiskit
    n = rng.randint(1, 3)
    qc = qiskit.QuantumCircuit(n)
    for _ in range(rng.randint(1, 8)):
        if n > 1 and rng.coin(.4):
            getattr(qc, rng.choice(['cx', 'cz', 'swap']))(*rng.sample(
                range(n), 2))
        elif rng.coin(.4):
            qc.ry(rng.random() * 3, rng.randrange(n))
        else:
            getattr(qc, rng.choice('hxst'))(rng.randrange(n))
    raw, c = [], []
    for ins in qc.data:
        m = np.asarray(ins.operation.to_matrix())
        k = len(ins.qubits)
        rev = list(range(k))[::-1]
        raw.append((m, tuple(ins.qubits)))
        c.append((m.reshape((2,) * 2 * k).transpose(
            rev + [k + i for i in rev]).reshape(2**k, 2**k),
                  tuple(ins.qubits)))

    def classify(counts, order):
        if judge(mon, counts, 300, distribution(raw, order)) is None:
            return 'qiskit-bit-order'

    used = list(dict.fromkeys(q for _, x in c for q in x))
    run(rng, mon, qc, c, used, 300, classify)
    mon.event('qiskit')


FAMILIES = [
    Family(few, 120),
    Family(deep, 120),
    Family(rotations, 24),
    Family(classical, 100),
    Family(is_classical, 600),
    Family(refused, 40),
    Family(with_cirq, 60),
    Family(with_qiskit, 60),
]
