"""P12: the matrices of quantum gates.

Arrays are indexed [inputs..., outputs...] (first all input wires, then all
output wires), so the array of a gate with matrix U is U transposed.
Entries and parameters are arbitrary; the identities are decided exactly."""
import numpy as np
from contracts.reg import ob
from lambeq.backend import quantum as Q
from lambeq.backend.quantum import qubit, bit, Ty

QU = 'lambeq.backend.quantum.'


def matrix(a):
    """[in, out] array of a gate -> matrix acting on column vectors."""
    a = np.asarray(a)
    n = a.ndim // 2
    return np.moveaxis(a, range(n), range(n, 2 * n)).reshape(2 ** n, 2 ** n)


def unitary(m, U, label):
    m.eq(np.conj(U).T @ U, eye(len(U)), label)


def eye(n):
    return np.eye(n) + np.zeros((n, n)) * 1j


def mat(*rows):
    return np.array(rows)


def conjugate(a):
    """The diagrammatic conjugate: entrywise, with the wires in reverse order."""
    a = np.asarray(a)
    n = a.ndim // 2
    return np.conj(a).transpose([*range(n - 1, -1, -1), *range(2 * n - 1, n - 1, -1)])


def adjoint(a):
    a = np.asarray(a)
    n = a.ndim // 2
    return np.conj(np.moveaxis(a, range(n), range(n, 2 * n)))


def textbook(g, which, p):
    """R_axis(2 pi p)."""
    c, s = g.cos(1, p), g.sin(1, p)
    return {'x': mat([c, -1j * s], [-1j * s, c]),
            'y': mat([c, -s], [s, c]),
            'z': mat([c - 1j * s, 0], [0, c + 1j * s])}[which]


def rotation(which):
    return {'x': Q.Rx, 'y': Q.Ry, 'z': Q.Rz}[which]


def family(g, m, box, U, label):
    """The box has matrix U, and its relatives the matrices derived from it."""
    g.networks()
    n = len(U).bit_length() - 1
    m.true(box.dom == qubit ** n and box.cod == qubit ** n, label + ' type')
    A = np.asarray(U).T.reshape([2] * 2 * n)
    m.eq(matrix(box.array), U, label + ' matrix')
    unitary(m, matrix(box.array), label + ' unitary')
    m.eq(box.dagger().array, adjoint(A), label + ' dagger')
    m.eq(box.dagger().dagger().array, A, label + ' double dagger')
    z = g.int('z', lo=-4, hi=4)
    r = box.rotate(z)
    want = A if z % 2 == 0 else conjugate(A)
    m.eq(r.array, want, label + ' rotated')
    m.eq(r.dagger().array, adjoint(want), label + ' rotated, then dagger')
    m.eq(box.dagger().rotate(z).array, adjoint(want), label + ' dagger, then rotated')


@ob('P12', QU + 'Rx.array', QU + 'Ry.array', QU + 'Rz.array', QU + 'Rotation.dagger', QU + 'Rotation.phase',
    QU + 'AntiConjugate.rotate', QU + 'SelfConjugate.rotate', n=100)
def rotations(g, m):
    k, p = g.choice('x', 'y', 'z'), g.phase('p')
    family(g, m, rotation(k)(p), textbook(g, k, p), 'R' + k)
    q = g.phase('q')
    m.eq(matrix(rotation(k)(p).array) @ matrix(rotation(k)(q).array), matrix(rotation(k)(p + q).array), 'angles add up')
    m.eq(rotation(k)(p + 2).array, rotation(k)(p).array, 'period two full turns')
    m.eq(rotation(k)(p + 1).array, -rotation(k)(p).array, 'a full turn is a sign')
    m.true(rotation(k)(p).phase is p or rotation(k)(p).phase == p, 'phase')
    m.eq(matrix(rotation(k)(0.0).array), eye(2), 'no rotation')


R = 2 ** -.5
CONSTANT = {
    'X': (Q.X, mat([0, 1], [1, 0])),
    'Y': (Q.Y, mat([0, -1j], [1j, 0])),
    'Z': (Q.Z, mat([1, 0], [0, -1])),
    'H': (Q.H, mat([R, R], [R, -R])),
    'S': (Q.S, mat([1, 0], [0, 1j])),
    'T': (Q.T, mat([1, 0], [0, R + 1j * R])),
    'SWAP': (Q.SWAP, mat([1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1])),
    'CX': (Q.CX, mat([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0])),
    'CY': (Q.CY, mat([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1j], [0, 0, 1j, 0])),
    'CZ': (Q.CZ, np.diag([1, 1, 1, -1])),
    'CCX': (Q.CCX, np.eye(8)[[0, 1, 2, 3, 4, 5, 7, 6]]),
    'CCZ': (Q.CCZ, np.diag([1, 1, 1, 1, 1, 1, 1, -1])),
}


@ob('P12', QU + 'Daggered', QU + 'Swap.__init__', QU + 'Controlled.array', 'lambeq.backend.tensor.Box.array',
    'lambeq.backend.tensor.Box._adjoint_array', 'lambeq.backend.tensor.Box._conjugate_array',
    'lambeq.backend.tensor.Daggered.array', 'lambeq.backend.tensor.Box.rotate', n=100)
def constants(g, m):
    k = g.choice(*CONSTANT)
    box, U = CONSTANT[k]
    if k == 'SWAP':
        m.eq(matrix(box.array), U, 'matrix')
        m.eq(matrix(box.dagger().array), U, 'dagger')
        m.eq(matrix(box.rotate(g.int('z')).array), U, 'rotated')
    else:
        family(g, m, box, U, k)
    b = Q.GATES[k]
    m.eq(b.array, box.array, 'named gate')


@ob('P12', QU + 'Ket.__init__', QU + 'Bra.__init__', QU + 'Bit.__init__', QU + 'Ket.dagger', QU + 'Bra.dagger',
    QU + 'Ket.__new__', QU + 'Bra.__new__', n=60)
def basis(g, m):
    i = g.choice(0, 1)
    e = np.eye(2)[i]
    for b, dom, cod in ((Q.Ket(i), Ty(), qubit), (Q.Bra(i), qubit, Ty()), (Q.Bit(i), Ty(), bit)):
        m.eq(b.array, e, 'basis vector')
        m.true(b.dom == dom and b.cod == cod, 'type')
        if not isinstance(b, Q.Bit):
            m.eq(b.dagger().array, e, 'dagger')
            m.true(b.dagger().dom == cod and b.dagger().cod == dom, 'dagger type')
            m.true(b.rotate(g.int('z')) == b, 'rotated')
    m.true(type(Q.Ket(i).dagger()) is Q.Bra and Q.Bra(i).dagger() == Q.Ket(i), 'dagger of a state')
    bits = [g.choice(0, 1) for _ in range(g.choice(0, 2, 3))]
    for cls in (Q.Ket, Q.Bra, Q.Bit):
        if len(bits) > 1:
            m.eq([b.bit for b in cls(*bits).boxes], bits, 'bit string')


@ob('P12', QU + 'Rotation.__init__', QU + 'Box.dagger', 'lambeq.backend.tensor.Box.array', n=100)
def boxes(g, m):
    """A box with an arbitrary array and any small shape."""
    n, k = g.choice(0, 1, 2), g.choice(0, 1, 2)
    A = g.array('a', (2,) * (n + k))
    b = Q.Box('f', qubit ** n, qubit ** k, A)
    z = g.int('z')
    full = A
    flip = np.asarray(np.conj(A)).transpose([*range(n - 1, -1, -1), *range(n + k - 1, n - 1, -1)])
    dag = np.conj(np.moveaxis(A, range(n), range(k, n + k)))
    m.eq(b.array, full, 'array')
    m.eq(b.dagger().array, dag, 'dagger')
    m.eq(b.rotate(z).array, full if z % 2 == 0 else flip, 'rotated')
    m.eq(b.rotate(z).dagger().array, dag if z % 2 == 0 else np.conj(np.moveaxis(flip, range(n), range(k, n + k))),
         'dagger of a rotation')
    m.eq(b.dagger().rotate(z).array, b.rotate(z).dagger().array, 'rotation of a dagger')


@ob('P12', QU + 'Controlled.array', QU + 'Swap.__init__', n=30)
def fredkin(g, m):
    d = g.choice(1, -1)
    box = Q.Controlled(Q.SWAP, d)
    claims(g, m, box, controlled(CONSTANT['SWAP'][1], 2, d), 3)


def controlled(U, k, d):
    """Spec: matrix on k + |d| wires; control first (d > 0) or last."""
    n = k + abs(d)
    out = np.zeros((2 ** n, 2 ** n), dtype=object)
    for i in range(2 ** n):
        b = [i >> (n - 1 - j) & 1 for j in range(n)]
        c = b[0] if d > 0 else b[-1]
        pos = list(range(n - k, n)) if d > 0 else list(range(k))
        if not c:
            out[i, i] = 1
            continue
        t = int(''.join(str(b[j]) for j in pos) or '0', 2)
        for o in range(2 ** k):
            bo = list(b)
            for x, j in enumerate(pos):
                bo[j] = o >> (k - 1 - x) & 1
            out[int(''.join(map(str, bo)), 2), i] = U[o, t]
    return out


CTRL = (QU + 'Controlled.array', QU + 'Controlled.decompose', QU + 'Controlled.dagger', QU + 'Controlled.rotate',
        QU + 'Controlled.__init__')


def claims(g, m, box, C, n):
    g.networks()
    A = C.T.reshape([2] * 2 * n)
    m.true(box.dom == qubit ** n and box.cod == qubit ** n, 'type')
    m.eq(box.array, A, 'acts exactly when the control is set')
    m.eq(box.dagger().array, adjoint(A), 'dagger')
    z = g.int('z', lo=-4, hi=4)
    m.eq(box.rotate(z).array, A if z % 2 == 0 else conjugate(A), 'rotated')


@ob('P12', *CTRL, n=60, bound='target of 1 or 2 qubits, control at most 3 wires away')
def controlled_any(g, m):
    """Any gate at all under the control."""
    k, d = g.choice(1, 2), g.choice(1, 2, 3, -1, -2, -3)
    if k == 2:
        g.assume(abs(d) < 3)
    A = g.array('u', (2,) * 2 * k)
    box = Q.Controlled(Q.Box('U', qubit ** k, qubit ** k, A), d)
    claims(g, m, box, controlled(matrix(A), k, d), k + abs(d))


@ob('P12', *CTRL, n=60, bound='two controls, each at most 2 wires away')
def controlled_twice(g, m):
    d, e = g.choice(1, 2, -1, -2), g.choice(1, 2, -1, -2)
    A = g.array('u', (2, 2))
    inner = Q.Controlled(Q.Box('U', qubit, qubit, A), d)
    box = Q.Controlled(inner, e)
    C = controlled(controlled(matrix(A), 1, d), 1 + abs(d), e)
    claims(g, m, box, C, 1 + abs(d) + abs(e))


@ob('P12', *CTRL, QU + 'Controlled.phase', n=60, bound='control at most 3 wires away')
def controlled_rotation(g, m):
    w, d, p = g.choice('x', 'y', 'z'), g.choice(1, 2, 3, -1, -2, -3), g.phase('p')
    box = Q.Controlled(rotation(w)(p), d)
    C = controlled(textbook(g, w, p), 1, d)
    claims(g, m, box, C, 1 + abs(d))
    unitary(m, matrix(box.array), 'unitary')
    m.eq(box.phase, p, 'phase')
    f = {'x': Q.CRx, 'y': Q.CRy, 'z': Q.CRz}[w]
    m.eq(f(p, d).array, box.array, 'named gate')
    m.eq(Q.GATES['R' + w](p).array, rotation(w)(p).array, 'named rotation')
    m.eq(Q.GATES['CR' + w](p).array, Q.Controlled(rotation(w)(p)).array, 'named controlled rotation')


@ob('P12', QU + 'Scalar.array', QU + 'Scalar.dagger', QU + 'Sqrt.array', QU + 'Sqrt.dagger', n=60)
def scalars(g, m):
    x = g.array('x', ())
    x = x.item() if hasattr(x, 'item') else x
    s = Q.Scalar(x)
    m.eq(s.array, x, 'scalar')
    m.eq(s.dagger().array, np.conj(x), 'dagger of a scalar')
    for v, r in ((2, 2 ** .5), (4, 2), (9, 3)):
        m.eq(Q.Sqrt(v).array, r, 'square root')
        m.eq(Q.Sqrt(v).dagger().array, r, 'dagger of a square root')


@ob('P12', QU + 'generate_cup', QU + 'generate_cap', QU + 'generate_spider', n=80,
    bound='cups and caps of at most 2 wires, spiders with at most 4 legs on either side')
def wiring(g, m):
    n = g.choice(1, 2)
    t = qubit ** n
    I = np.zeros((2,) * 2 * n)
    for i in np.ndindex(*(2,) * n):
        I[i + i[::-1]] = 1
    m.eq(Q.generate_cap(t, t).eval(), I, 'cap')
    m.eq(Q.generate_cup(t, t).eval(), I, 'cup')
    i, o = g.choice(0, 1, 2, 3, 4), g.choice(0, 1, 2, 3, 4)
    g.assume(i + o > 0 and i + o < 7)
    D = np.zeros((2,) * (i + o))
    D[(0,) * (i + o)] = D[(1,) * (i + o)] = 1
    d = Q.generate_spider(qubit, i, o)
    m.true(d.dom == qubit ** i and d.cod == qubit ** o, 'spider type')
    m.eq(d.eval(), D, 'spider')
