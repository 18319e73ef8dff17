"""C13: a loaded circuit has the amplitudes of the circuit."""

import itertools
from collections import Counter

from vf import gen, ref
from vf.harness import Family

RULE = ('Random circuits (fixed gates, diagonal, permutation and Haar gates on '
        '1-3 qubits, gates undone later, also through commuting ones), random '
        'initial and final states with open qubits, and every option; the '
        'dense value of the network is compared with a state simulation. '
        'Non-trivial: a circuit with other gates than seen before.')
NEEDED = ('circuits', 'exact', 'up_to_phase', 'simplified', 'open', 'closed',
          'commute', 'same', 'refused', 'cirq', 'qiskit')


def close(mon, got, want, phase, key='value', **kw):
    import numpy as np
    if phase:
        # up to a global phase
        ov = np.vdot(got, want)
        got = got * (ov / abs(ov) if abs(ov) > 1e-12 else 1)
        mon.event('up_to_phase')
    else:
        mon.event('exact')
    return np.allclose(got, want, rtol=0, atol=2e-5)


def options(rng):
    kw = {}
    if rng.coin(.6):
        kw['simplify'] = rng.coin()
    if rng.coin(.5):
        kw['use_matrix_commutation'] = rng.coin()
    if rng.coin(.6):
        kw['decompose_hyper_inds'] = rng.coin()
    if rng.coin(.7):
        kw['fuse'] = rng.choice([None, False, 0, 1, 2, 3, 4.5, 10])
    if rng.coin(.2):
        kw['dtype'] = 'complex128'
    if rng.coin(.3):
        kw['seed'] = rng.seed32()
    return kw


def check(rng, mon, loadable, c, qs, want_fn=None):
    """Loads and compares; qs are the qubits, c the gates as arrays."""
    import numpy as np
    from tnco.utils.circuit import load
    from vf import circ
    ai, ini = circ.state(rng, qs)
    af, fin = circ.state(rng, qs)
    kw = options(rng)
    mon.note(circuit=[(repr(np.round(g, 4).tolist())[:300], q) for g, q in c],
             initial=ai, final=af, options=kw)
    if ai == '0' and rng.coin():
        a0 = {}
    else:
        a0 = {'initial_state': ai}
    if not (af == '0' and rng.coin()):
        a0['final_state'] = af
    arrays, ts, out = load(loadable, **a0, **kw)
    arrays, ts = list(arrays), [tuple(x) for x in ts]
    want, inds = circ.value(c, qs, ini, fin)
    mon.check(set(out) == set(inds), 'open indices', key='open', got=out,
              want=inds)
    mon.check(len(arrays) == len(ts), 'number of tensors', key='number')
    cnt = Counter(x for xs in ts for x in xs)
    for a, xs in zip(arrays, ts):
        mon.check(len(set(xs)) == len(xs) and np.shape(a) == (2,) * len(xs),
                  'shape of a tensor', key='shape', got=(xs, np.shape(a)))
    mon.check(set(inds) <= set(cnt), 'an open index is in no tensor',
              key='open', missing=set(inds) - set(cnt))
    mon.check(all(n > 1 or x in out for x, n in cnt.items()),
              'another index is open', key='open', got=ts)
    got = ref.einsum(arrays, ts, inds)
    phase = kw.get('simplify', True)
    ok = close(mon, got, want, phase)
    if not ok and want_fn is not None:
        key = want_fn(got, ini, fin, phase)
        if key:
            mon.fail('value of the network is not that of the circuit',
                     key=key, got=got, want=want)
    mon.check(ok, 'value of the network is not that of the circuit',
              key='value', got=got, want=want)
    mon.event('circuits')
    mon.event('open' if inds else 'closed')
    if kw.get('simplify', True) and len(arrays) < len(c):
        mon.event('simplified')
    mon.distinct([(np.round(g, 3).tobytes(), tuple(map(qs.index, q)))
                  for g, q in c], sorted(map(str, kw.items())))
    mon.sample(n_gates=len(c), n_tensors=len(ts), open=inds, options=kw)


def arrays(rng, mon):
    from vf import circ
    c = circ.circuit(rng, rng.randint(1, 5), rng.randint(1, 12))
    give = rng.choice([list, tuple])(
        (g.tolist() if rng.coin(.1) else g, rng.choice([list, tuple])(q))
        for g, q in c)
    check(rng, mon, give, c, circ.qubits_of(c))


def cancelling(rng, mon):
    """Gates followed by their inverse, possibly through commuting gates."""
    import numpy as np
    from vf import circ
    n = rng.randint(1, 4)
    c = circ.circuit(rng, n, rng.randint(1, 5))
    qs = circ.qubits_of(c)
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(1, min(3, len(qs)))
        g, q = circ.gate(rng, k), tuple(rng.sample(qs, k))
        mid = []
        for _ in range(rng.randint(0, 3)):
            m = rng.randint(1, min(2, len(qs)))
            mid.append((circ.gate(rng, m) if rng.coin() else circ.phases(
                rng, 2**m), tuple(rng.sample(qs, m))))
        inv, qi = g.conj().T, q
        if rng.coin():  # the inverse with its qubits in another order
            p = rng.sample(range(k), k)
            qi = tuple(q[i] for i in p)
            inv = inv.reshape((2,) * 2 * k).transpose(
                p + [k + i for i in p]).reshape(2**k, 2**k)
        if rng.coin(.15):  # nearly, but not
            inv = inv @ np.diag(np.exp(1j * np.linspace(0, .3, 2**k)))
        c = c + [(g, q)] + mid + [(inv, qi)]
        if rng.coin(.3):
            c = c + [(h.conj().T, r) for h, r in reversed(c[-3:])]
    check(rng, mon, c, c, qs)


def identity(rng, mon):
    """Everything cancels: only the open and closed ends are left."""
    from vf import circ
    c = circ.circuit(rng, rng.randint(1, 3), rng.randint(1, 4))
    c = c + [(g.conj().T, q) for g, q in reversed(c)]
    check(rng, mon, c, c, circ.qubits_of(c))


def commute_same(rng, mon):
    import numpy as np
    from tnco.utils.circuit import commute, same
    from vf import circ
    qs = gen.index_names(rng, 4)
    k, l = rng.randint(1, 3), rng.randint(1, 3)
    A, qa = circ.gate(rng, k), tuple(rng.sample(qs, k))
    B, qb = circ.gate(rng, l), tuple(rng.sample(qs, l))
    if rng.coin(.3):
        A, B = circ.phases(rng, 2**k), circ.phases(rng, 2**l)
    if rng.coin(.4):
        p = rng.sample(range(k), k)
        qb = tuple(qa[i] for i in p)
        B = A.reshape((2,) * 2 * k).transpose(p + [k + i for i in p]).reshape(
            2**k, 2**k) * np.exp(1j * rng.choice([0, .7]))
        if rng.coin(.3):
            B = B * np.where(np.arange(2**k) == 1, np.exp(.2j), 1)
        if rng.coin(.3):
            B = B.conj().T
    every = list(dict.fromkeys(qa + qb))
    a, b = (circ.unitary([(A, qa)], every), circ.unitary([(B, qb)], every))
    n = 2**len(every)
    a, b = a.reshape(n, n), b.reshape(n, n)
    d = np.abs(a @ b - b @ a).max()
    shared = bool(set(qa) & set(qb))
    mon.note(A=A, qa=qa, B=B, qb=qb)
    if d < 1e-10 or d > 1e-3:
        mon.check(bool(commute((A, qa), (B, qb))) == (d < 1e-10),
                  'commute is wrong', key='commute', diff=d)
        got = commute((A, qa), (B, qb), use_matrix_commutation=False)
        mon.check(bool(got) == (not shared), 'commute by qubits is wrong',
                  key='commute', got=got)
        mon.event('commute')
    if set(qa) == set(qb):
        ov = np.vdot(a, b)
        d = np.abs(a * (ov / abs(ov) if abs(ov) else 1) - b).max()
        if d < 1e-10 or d > 1e-3:
            mon.check(bool(same((A, qa), (B, qb))) == (d < 1e-10),
                      'same is wrong', key='same', diff=d)
            mon.event('same')
    else:
        mon.check(not same((A, qa), (B, qb)), 'same with other qubits',
                  key='same')
    if rng.coin(.2):
        bad = rng.choice([(A, qa + qa), (A[:-1], qa), (A, qa + (('z', 9),)),
                          (np.eye(1), ())])
        f = rng.choice([commute, same])
        g = (bad, (B, qb)) if rng.coin() else ((B, qb), bad)
        mon.raises(ValueError, lambda: f(*g), 'invalid gate', key='refuse')
        mon.event('refused')
    mon.distinct('pair', np.round(A, 3).tobytes(), np.round(B, 3).tobytes(),
                 tuple(every.index(q) for q in qb))


def refused(rng, mon):
    import numpy as np
    from tnco.utils.circuit import load
    from vf import circ
    c = circ.circuit(rng, 3, 4)
    q = rng.choice(circ.qubits_of(c))
    st = rng.choice([{q: '2'}, {q: 'x'}, {q: [1, 1]}, {q: [1, 0, 0]},
                     {q: np.array([[1, 0], [0, 1]])}])
    kw = rng.choice([{'initial_state': st}, {'final_state': st}])
    mon.raises(ValueError, lambda: load(c, **kw), 'invalid state', key='refuse')
    mon.event('refused')


def with_cirq(rng, mon):
    import cirq
    import numpy as np
    n = rng.randint(1, 4)
    kind = rng.randrange(3)
    qs = {0: cirq.LineQubit.range(n), 1: cirq.GridQubit.rect(1, n),
          2: [cirq.NamedQubit(f'q{i}') for i in range(n)]}[kind]
    qs = list(qs)
    gates = [(cirq.H, 1), (cirq.X**.3, 1), (cirq.Y, 1), (cirq.T, 1),
             (cirq.rz(rng.random()), 1)]
    if n > 1:
        gates += [(cirq.CNOT, 2), (cirq.CZ**.4, 2), (cirq.ISWAP, 2),
                  (cirq.FSimGate(rng.random(), rng.random()), 2),
                  (cirq.SWAP, 2)]
    if n > 2:
        gates += [(cirq.CCX, 3), (cirq.CSWAP, 3)]
    ops = []
    for _ in range(rng.randint(1, 9)):
        g, k = rng.choice(gates)
        ops.append(g.on(*rng.sample(qs, k)))
        if rng.coin(.2):
            ops.append(cirq.inverse(rng.choice(ops)))
    circuit = cirq.Circuit(ops)
    c = [(cirq.unitary(o), o.qubits) for o in circuit.all_operations()]
    used = list(dict.fromkeys(q for _, x in c for q in x))
    if rng.coin(.3):
        circuit.append(cirq.measure(*used, key='m'))
    if rng.coin(.2):
        circuit = circuit.freeze()
    if rng.coin(.15):
        circuit = cirq.Moment(circuit[0])
        c = [(cirq.unitary(o), o.qubits) for o in circuit.operations
             if not cirq.is_measurement(o)]
        used = list(dict.fromkeys(q for _, x in c for q in x))
        if not c:
            return
    check(rng, mon, circuit, c, used)
    mon.event('cirq')


def with_qiskit(rng, mon):
    """Qiskit's matrices have the first qubit as the least significant."""
    import numpy as np
    import qiskit
    from vf import circ
    n = rng.randint(1, 4)
    qc = qiskit.QuantumCircuit(n)
    one = ['h', 'x', 'y', 's', 't', 'sdg']
    symmetric = rng.coin(.5)
    two = ['cz', 'swap', 'iswap'] if symmetric else [
        'cx', 'cz', 'swap', 'ch', 'cy'
    ]
    for _ in range(rng.randint(1, 9)):
        if n > 2 and not symmetric and rng.coin(.15):
            getattr(qc, rng.choice(['ccx', 'cswap']))(*rng.sample(range(n), 3))
        elif n > 1 and rng.coin(.45):
            getattr(qc, rng.choice(two))(*rng.sample(range(n), 2))
        elif rng.coin(.3):
            qc.u(rng.random(), rng.random(), rng.random(), rng.randrange(n))
        else:
            getattr(qc, rng.choice(one))(rng.randrange(n))
    raw, c = [], []
    for ins in qc.data:
        m = np.asarray(ins.operation.to_matrix())
        k = len(ins.qubits)
        raw.append((m, tuple(ins.qubits)))
        rev = list(range(k))[::-1]
        c.append((m.reshape((2,) * 2 * k).transpose(
            rev + [k + i for i in rev]).reshape(2**k, 2**k),
                  tuple(ins.qubits)))
    qs = list(dict.fromkeys(q for _, x in c for q in x))

    # The reference agrees with Qiskit itself (last qubit most significant)
    from qiskit.quantum_info import Operator
    every = list(qc.qubits)
    u = circ.unitary(c, every)
    p = list(range(n))[::-1]
    u = u.transpose(p + [n + i for i in p]).reshape(2**n, 2**n)
    assert np.allclose(u, Operator(qc).data, atol=1e-9)

    def classify(got, ini, fin, phase):
        other, _ = circ.value(raw, qs, ini, fin)
        if phase:
            ov = np.vdot(got, other)
            got = got * (ov / abs(ov) if abs(ov) > 1e-12 else 1)
        if np.allclose(got, other, rtol=0, atol=2e-5):
            return 'qiskit-bit-order'

    check(rng, mon, qc, c, qs, classify)
    mon.event('qiskit')


FAMILIES = [
    Family(arrays, 700),
    Family(cancelling, 500),
    Family(identity, 150),
    Family(commute_same, 1500),
    Family(refused, 60),
    Family(with_cirq, 300),
    Family(with_qiskit, 200),
]
