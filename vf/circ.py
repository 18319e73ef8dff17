"""Random circuits as plain (matrix, qubits) lists, and their simulation."""

import numpy as np

from vf import gen

I = np.eye(2)
X = np.array([[0, 1.], [1, 0]])
Y = np.array([[0, -1j], [1j, 0]])
Z = np.diag([1., -1])
H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
S = np.diag([1, 1j])
T = np.diag([1, np.exp(.25j * np.pi)])
CX = np.eye(4)[[0, 1, 3, 2]]
CZ = np.diag([1., 1, 1, -1])
SWAP = np.eye(4)[[0, 2, 1, 3]]
ISWAP = np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]])
CCX = np.eye(8)[[0, 1, 2, 3, 4, 5, 7, 6]]
CSWAP = np.eye(8)[[0, 1, 2, 3, 4, 6, 5, 7]]


def haar(rng, n):
    a = rng.np.normal(size=(n, n)) + 1j * rng.np.normal(size=(n, n))
    q, r = np.linalg.qr(a)
    return q * (np.diag(r) / abs(np.diag(r)))


def phases(rng, n):
    return np.diag(np.exp(2j * np.pi * rng.np.random(n)))


def permutation(rng, n):
    return np.eye(n)[rng.np.permutation(n)]


def gate(rng, n, classical=False):
    """A unitary over n qubits, from the usual sets or random."""
    d = 2**n
    fixed = {1: [I, X, Y, Z, H, S, T], 2: [CX, CZ, SWAP, ISWAP],
             3: [CCX, CSWAP]}.get(n, [])
    k = rng.random()
    if classical:
        fixed = [g for g in fixed if g is not H]
        if fixed and k < .5:
            return rng.choice(fixed)
        return permutation(rng, d) @ (phases(rng, d) if rng.coin() else
                                      np.eye(d))
    if fixed and k < .6:
        return rng.choice(fixed)
    if k < .7:
        return phases(rng, d)
    if k < .8:
        return permutation(rng, d)
    if k < .85:
        # controlled
        u = np.eye(d, dtype=complex)
        u[d // 2:, d // 2:] = haar(rng, d // 2) if d > 2 else np.exp(1j)
        return u
    return haar(rng, d)


def circuit(rng, n_qubits, depth, classical2=False, kind=None):
    """A random circuit with some gates undone again (also after others)."""
    qs = gen.index_names(rng, n_qubits, kind or rng.choice(
        ['str', 'int', 'word', 'tuple']))
    out = []
    for _ in range(depth):
        if out and rng.coin(.3):
            g, q = rng.choice(out[-4:])
            g = g.conj().T
            if rng.coin(.3):
                g = g * np.exp(1j * rng.random())
            out.append((g, q))
            continue
        k = min(n_qubits, rng.choice([1, 1, 1, 2, 2, 3]))
        out.append((gate(rng, k, classical2 and k > 1), tuple(rng.sample(qs,
                                                                         k))))
    return out


def qubits_of(c):
    return list(dict.fromkeys(q for _, qs in c for q in qs))


def apply(state, g, pos):
    """Applies g to the axes 'pos' of state."""
    k = len(pos)
    g = np.asarray(g).reshape((2,) * 2 * k)
    state = np.tensordot(g, state, axes=(list(range(k, 2 * k)), pos))
    return np.moveaxis(state, range(k), pos)


def unitary(c, qs):
    """Tensor with axes (f of every qubit, i of every qubit)."""
    n = len(qs)
    u = np.eye(2**n, dtype=complex).reshape((2,) * 2 * n)
    for g, q in c:
        u = apply(u, g, [qs.index(x) for x in q])
    return u


TOKENS = {
    '0': np.array([1, 0.]),
    '1': np.array([0, 1.]),
    '+': np.array([1, 1]) / np.sqrt(2),
    '-': np.array([1, -1]) / np.sqrt(2)
}


def state(rng, qs):
    """(argument for load, {qubit: vector})"""
    k = rng.random()
    if k < .25:
        return None, {}
    if k < .5:
        t = rng.choice('01+-')
        return t, {q: TOKENS[t] for q in qs}
    arg, vec = {}, {}
    for q in qs:
        r = rng.random()
        if r < .35:
            continue
        if r < .7:
            arg[q] = rng.choice('01+-')
            vec[q] = TOKENS[arg[q]]
        else:
            v = rng.np.normal(size=2) + 1j * rng.np.normal(size=2)
            v /= np.linalg.norm(v)
            arg[q] = v if rng.coin() else v.tolist()
            vec[q] = v
    if rng.coin(.2):
        arg[('not', 'there')] = '0'
    return arg, vec


def value(c, qs, ini, fin):
    """(array, [(qubit, 'f') ..., (qubit, 'i') ...]) of what is left open."""
    u = unitary(c, qs)
    inds = [(q, 'f') for q in qs] + [(q, 'i') for q in qs]
    for tag, st in (('i', ini), ('f', fin)):
        for q, v in st.items():
            k = inds.index((q, tag))
            u = np.tensordot(u, v if tag == 'i' else np.conj(v), axes=([k],
                                                                        [0]))
            inds.pop(k)
    return u, inds
