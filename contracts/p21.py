"""P21: tensor evaluation agrees with the algebra of diagrams.

Reference semantics: the layers are applied one after the other, an array is
indexed [inputs..., outputs...].  Entries are arbitrary (exact polynomial
arithmetic), shapes are small."""
import numpy as np
from contracts.reg import ob
from lambeq.backend import quantum as Q, tensor as T
from lambeq.backend.quantum import qubit, bit, Ty
from lambeq.backend.tensor import Dim

TE = 'lambeq.backend.tensor.'
QU = 'lambeq.backend.quantum.'


# ---------------------------------------------------------------- reference
def delta(d, legs):
    A = np.zeros((d,) * legs)
    for i in range(d):
        A[(i,) * legs] = 1
    return A


def swapped(a, b):
    A = np.zeros((a, b, b, a))
    for i in range(a):
        for j in range(b):
            A[i, j, j, i] = 1
    return A


def box_array(b):
    dom, cod = b.dom.dim, b.cod.dim
    if isinstance(b, T.Swap):
        return swapped(*dom)
    if isinstance(b, T.Cup):
        return delta(dom[0], 2)
    if isinstance(b, T.Cap):
        return delta(cod[0], 2)
    if isinstance(b, T.Spider):
        return delta((dom + cod)[0], len(dom) + len(cod))
    if isinstance(b, T.Daggered):
        A = np.asarray(box_array(b.box))
        n = len(b.box.dom)
        return np.asarray(np.conj(A)).transpose([*range(n, A.ndim), *range(n)])
    A = np.asarray(b.data)
    if b.z % 2:
        A = A.reshape(dom[::-1] + cod[::-1])
        n = len(dom)
        return np.asarray(np.conj(A)).transpose([*range(n - 1, -1, -1), *range(A.ndim - 1, n - 1, -1)])
    return A.reshape(dom + cod)


def apply(arr, A, n_in, off, k):
    """Contract the outputs off..off+k of arr with the first k axes of A."""
    A = np.asarray(A)
    ax = [n_in + off + i for i in range(k)]
    out = np.asarray(np.tensordot(arr, A, axes=(ax, list(range(k)))))
    new = A.ndim - k
    return np.moveaxis(out, range(out.ndim - new, out.ndim), range(n_in + off, n_in + off + new))


def identity(dims):
    A = np.ones(())
    n = len(dims)
    for d in dims:
        A = np.multiply.outer(A, np.eye(d))
    return A.transpose([*range(0, 2 * n, 2), *range(1, 2 * n, 2)])


def meaning(d):
    n_in = len(d.dom)
    arr = identity(d.dom.dim)
    for left, box, right in d.layers:
        arr = apply(arr, box_array(box), n_in, len(left), len(box.dom))
    return arr


# ------------------------------------------------------------------- inputs
def tbox(g, name, dom, cod):
    return T.Box(name, Dim(*dom), Dim(*cod), g.array(name, tuple(dom) + tuple(cod)))


def same(g, m, d, label):
    m.eq(d.eval(), meaning(d), label)
    m.eq(tuple(np.shape(d.eval())), d.dom.dim + d.cod.dim, label + ' shape')


SMALL = 'wires of dimension 2 and 3, at most 3 wires and 4 layers'
F = (TE + 'Diagram.to_tn', TE + 'Diagram.eval', TE + 'Box.array')


@ob('P21', *F, n=60, bound=SMALL)
def composition(g, m):
    """Sequential composition, tensor, and the interchange of the two."""
    g.networks()
    a, b, c = g.choice((2, 3, 2), (3, 2, 2), (2, 2, 3))
    f, h = tbox(g, 'f', (a,), (b, c)), tbox(g, 'h', (b, c), (a,))
    k = tbox(g, 'k', (c,), (b,))
    kind = g.choice('then', 'tensor', 'middle', 'scalar', 'state', 'effect', 'last', 'first')
    I = T.Diagram.id
    d = {'then': lambda: f >> h, 'tensor': lambda: f @ k, 'middle': lambda: f >> I(Dim(b)) @ k >> I(Dim(b, b)),
         'scalar': lambda: tbox(g, 's', (), ()) @ k,
         'state': lambda: tbox(g, 's', (), (a,)) >> f,
         'effect': lambda: f >> tbox(g, 'e', (b,), ()) @ I(Dim(c)),
         'last': lambda: f @ I(Dim(b)) >> I(Dim(b)) @ tbox(g, 'e', (c, b), (a,)),
         'first': lambda: I(Dim(a)) @ k >> tbox(g, 'e', (a, b), ())}[kind]()
    same(g, m, d, kind)
    if kind == 'then':
        m.eq(d.eval(), np.tensordot(f.array, h.array, 2), 'composition contracts the shared wires')
    if kind == 'tensor':
        m.eq(d.eval(), np.moveaxis(np.multiply.outer(f.array, k.array), 3, 1), 'tensor is the outer product')


@ob('P21', *F, TE + 'Swap.__init__', TE + 'Spider.__init__', TE + 'Cup.__init__', TE + 'Cap.__init__', n=80, bound=SMALL)
def structure(g, m):
    """Swaps permute, spiders copy, cups and caps connect."""
    g.networks()
    a, b = g.choice((2, 3), (3, 2), (3, 3), (4, 2))
    A, B = Dim(a), Dim(b)
    I = T.Diagram.id
    f = tbox(g, 'f', (a,), (b,))
    kind = g.choice('swap', 'swap2', 'cup', 'cap', 'snake', 'spider', 'spiders', 'cap state', 'cup left', 'cap2')
    i, o = (g.choice(0, 1, 2), g.choice(0, 1, 2)) if kind == 'spider' else (1, 1)
    if kind == 'spider':
        g.assume(i + o > 0)
    d = {'swap': lambda: f @ I(A) >> T.Swap(B, A).to_diagram(),
         'swap2': lambda: f @ I(B @ A) >> I(B) @ T.Swap(B, A) >> T.Swap(B, A) @ I(B),
         'cup': lambda: f @ I(B) >> T.Cup(B, B).to_diagram(),
         'cup left': lambda: I(A) @ f @ I(B) >> I(A) @ T.Cup(B, B),
         'cap': lambda: T.Cap(A, A) >> f @ I(A),
         'cap2': lambda: I(B) @ T.Cap(A, A) >> I(B @ A) @ f,
         'cap state': lambda: T.Cap(A, A).to_diagram(),
         'snake': lambda: f @ T.Cap(B, B) >> T.Cup(B, B) @ I(B),
         'spider': lambda: I(A ** i) >> T.Spider(A, i, o).to_diagram(),
         'spiders': lambda: T.Spider(A, 1, 2) >> f @ I(A)}[kind]()
    same(g, m, d, kind)
    if kind == 'snake':
        m.eq(d.eval(), f.array, 'snake')


@ob('P21', TE + 'Box.dagger', TE + 'Daggered.array', TE + 'Box.rotate', *F, n=60, bound=SMALL)
def adjoints(g, m):
    """The dagger is the conjugate transpose, rotating reverses and conjugates."""
    g.networks()
    a, b, c = g.choice((2, 3, 2), (3, 2, 2))
    f, h = tbox(g, 'f', (a,), (b, c)), tbox(g, 'h', (c,), (a, b))
    d = f >> T.Diagram.id(Dim(b)) @ h
    n, k = len(d.dom), len(d.cod)
    z = g.choice(1, -1, 2, 3)
    M = meaning(d)
    m.eq(d.dagger().eval(), np.conj(M).transpose([*range(n, n + k), *range(n)]), 'dagger')
    m.eq(d.dagger().dagger().eval(), M, 'double dagger')
    R = np.conj(M).transpose([*range(n - 1, -1, -1), *range(n + k - 1, n - 1, -1)])
    m.eq(d.rotate(z).eval(), R if z % 2 else M, 'rotated')
    m.eq(d.rotate(z).dagger().eval(), d.dagger().rotate(z).eval(), 'rotation and dagger commute')
    m.eq((f.dagger() >> f).eval(), np.tensordot(np.conj(f.array), f.array, ([0], [0])), 'inner products')


@ob('P21', TE + 'Diagram.to_tn', sym=False, n=150)
def random_diagrams(g, m):
    """Random tensor diagrams of up to 6 layers."""
    d = random_diagram(g, 6)
    if not d.dom and not any(not isinstance(b, T.Cup) for b in d.boxes):
        g.assume(False)
    same(g, m, d, 'random')
    if not any(isinstance(b, (T.Spider,)) for b in d.boxes):
        m.eq(d.dagger().eval(), np.conj(meaning(d)).transpose(
            [*range(len(d.dom), len(d.dom @ d.cod)), *range(len(d.dom))]), 'dagger of a random diagram')


def random_diagram(g, n):
    dims = [g.choice(2, 3) for _ in range(g.choice(0, 1, 2, 3))]
    d = T.Diagram.id(Dim(*dims))
    for j in range(g.choice(*range(n + 1))):
        cur = list(d.cod.dim)
        i = g.choice(*range(len(cur) + 1))
        kind = g.choice('box', 'box', 'dagger', 'rotated', 'swap', 'cup', 'cap', 'spider')
        if len(cur) > 3 and kind == 'cap':
            continue
        if kind in ('box', 'dagger', 'rotated'):
            k = g.choice(*range(min(2, len(cur) - i) + 1))
            cod = [g.choice(2, 3) for _ in range(g.choice(*range(max(1, min(2, 4 - len(cur) + k) + 1))))]
            dom = cur[i:i + k]
            if kind == 'dagger':
                b = tbox(g, f'b{j}', cod, dom).dagger()
            elif kind == 'rotated':
                b = tbox(g, f'b{j}', dom[::-1], cod[::-1]).l
            else:
                b = tbox(g, f'b{j}', dom, cod)
        elif kind == 'swap' and i + 1 < len(cur):
            b = T.Swap(Dim(cur[i]), Dim(cur[i + 1]))
        elif kind == 'cup' and i + 1 < len(cur) and cur[i] == cur[i + 1]:
            b = T.Cup(Dim(cur[i]), Dim(cur[i]))
        elif kind == 'cap':
            c = g.choice(2, 3)
            b = T.Cap(Dim(c), Dim(c))
        elif kind == 'spider' and i < len(cur):
            b = T.Spider(Dim(cur[i]), 1, g.choice(0, 1, 2))
        else:
            continue
        d = d >> T.Diagram.id(Dim(*cur[:i])) @ b @ T.Diagram.id(Dim(*cur[i + len(b.dom):]))
    return d


# ------------------------------------------------------------------ circuits
class State:
    """Reference semantics of mixed circuits: one array, its axes listed as
    inputs, and for every open wire either one (bit) or two (qubit) axes."""

    def __init__(self, dom):
        self.arr = np.ones(())
        self.inputs, self.wires, self.next = [[], [], []], [], 0
        for t in dom:
            if t == bit:
                a, b = self.put(np.eye(2), [])
                self.inputs[0].append(a)
                self.wires.append((b,))
            else:
                a, b = self.put(np.eye(2), [])
                c, e = self.put(np.eye(2), [])
                self.inputs[1].append(a)
                self.inputs[2].append(c)
                self.wires.append((b, e))

    def axes(self):
        return self.order

    def put(self, A, joined):
        """Multiply by A, contracting the axes `joined` with its first ones."""
        order = getattr(self, 'order', [])
        A = np.asarray(A)
        self.arr = np.asarray(np.tensordot(self.arr, A, ([order.index(x) for x in joined], list(range(len(joined))))))
        new = list(range(self.next, self.next + A.ndim - len(joined)))
        self.next += len(new)
        self.order = [x for x in order if x not in joined] + new
        return new

    def run(self, left, box):
        o, n = len(left), len(box.dom)
        ins = self.wires[o:o + n]
        if isinstance(box, Q.Swap):
            self.wires[o:o + 2] = ins[::-1]
            return
        if isinstance(box, Q.Discard):
            self.put(np.eye(2), list(ins[0]))
            outs = []
        elif isinstance(box, Q.MixedState):
            outs = [tuple(self.put(np.eye(2), []))]
        elif isinstance(box, Q.Measure):
            outs = [tuple(self.put(delta(2, 3), list(ins[0])))]
        elif isinstance(box, Q.Encode):
            outs = [tuple(self.put(delta(2, 3), list(ins[0])))]
        elif all(t == bit for t in box.dom @ box.cod) and box.dom @ box.cod:
            outs = [(x,) for x in self.put(box.array, [w[0] for w in ins])]
        else:
            A = np.asarray(box.array)
            u = self.put(A, [w[0] for w in ins])
            v = self.put(np.conj(A), [w[1] for w in ins])
            outs = list(zip(u, v))
        self.wires[o:o + n] = outs

    def result(self):
        order = (self.inputs[0] + self.inputs[1] + self.inputs[2] + [w[0] for w in self.wires if len(w) == 1]
                 + [w[0] for w in self.wires if len(w) == 2] + [w[1] for w in self.wires if len(w) == 2])
        return self.arr.transpose([self.order.index(x) for x in order])


def mixed_meaning(d):
    s = State(d.dom)
    for left, box, _ in d.layers:
        s.run(left, box)
    return s.result()


GATES2 = 'circuits with at most 4 wires; entries and parameters arbitrary'


@ob('P21', QU + 'Diagram.to_tn', QU + 'Diagram.eval', QU + 'Diagram.is_mixed', n=100, bound=GATES2)
def circuits(g, m):
    g.networks()
    I = Q.Id
    U, V = (Q.Box(x, qubit ** 2, qubit ** 2, g.array(x, (2,) * 4)) for x in 'UV')
    p = g.phase('p')
    Ms, D, E, K = Q.Measure(), Q.Discard(), Q.Encode(), Q.Ket(0)
    S = Q.SWAP
    qb, bq, bb = Q.Swap(qubit, bit), Q.Swap(bit, qubit), Q.Swap(bit, bit)
    kinds = {
        'pure': lambda: U >> Q.Rx(p) @ I(1),
        'pure swap': lambda: U >> S >> I(1) @ Q.Rz(p),
        'far control': lambda: U @ I(1) >> Q.Controlled(Q.Ry(p), 2),
        'discard': lambda: U >> I(1) @ D,
        'discard first': lambda: U >> D @ Q.Ry(p),
        'mixed state': lambda: I(1) @ Q.MixedState() >> U,
        'measure': lambda: U >> Ms @ I(1),
        'measure both': lambda: U >> Ms @ Ms,
        'measure last': lambda: U >> I(1) @ Ms,
        'encode': lambda: E @ I(1) >> U,
        'through': lambda: Ms @ I(1) >> E @ I(1) >> U,
        'bit swap': lambda: Ms @ Ms >> bb,
        'bit swap after a qubit': lambda: U >> I(1) @ Ms >> I(1) @ (I(bit) @ Q.Bit(1) >> bb),
        'qubit past a bit': lambda: U >> I(1) @ Ms >> qb,
        'bit past a qubit': lambda: U @ I(1) >> Ms @ I(2) >> bq @ I(1) >> I(1) @ bq,
        'classical box': lambda: U >> Ms @ I(1) >> Q.Box('c', bit, bit @ bit, g.array('c', (2, 2, 2))) @ I(1),
        'classical state': lambda: Q.Bit(1) @ K >> I(bit) @ Q.Rx(p) >> I(bit) @ Ms,
        'self-adjoint': lambda: U >> hermitian(g) @ Q.Y >> I(1) @ D,
        'self-adjoint pure': lambda: U >> Q.Y @ hermitian(g) >> Q.CY,
        'adjoint': lambda: U.dagger() >> Q.S @ Q.T.dagger() >> I(1) @ D,
        'conjugate': lambda: U.l >> I(1) @ Ms,
        'controlled in the middle': lambda: U @ I(1) >> I(1) @ D @ I(1) >> Q.Controlled(Q.Rx(p), -1),
        'postselect': lambda: K @ K >> U >> Q.Bra(0) @ Ms,
    }
    k = g.choice(*kinds)
    d = kinds[k]()
    w = mixed_meaning(d)
    m.eq(d.eval(mixed=True), w, k)
    if d.is_mixed:
        m.eq(d.eval(), w, k + ' (mixed by itself)')
    else:
        m.eq(d.eval(), meaning_q(d), k + ' (pure)')


def hermitian(g):
    A = g.array('h', (2, 2))
    return Q.Box('h', qubit, qubit, A + np.conj(A).T, self_adjoint=True)


def meaning_q(d):
    n_in = len(d.dom)
    arr = identity(d.dom.dim)
    for left, box, right in d.layers:
        arr = apply(arr, box.array, n_in, len(left), len(box.dom))
    return arr
