"""P14: exported circuits."""
import random
import numpy as np
from contracts.reg import ob
from pyvc.rt import LoopSpec
from lambeq.backend import quantum as Q
from lambeq.backend.quantum import (CCX, CCZ, CX, CZ, SWAP, Bra, Controlled, Diagram, Discard, Gate, H, Id, Ket, Measure,
                                    Rx, Ry, Rz, S, Scalar, Sqrt, Swap, T, X, Y, Z, bit, qubit, readoff_circuital,
                                    to_circuital)
from lambeq.backend.converters import tk
from lambeq.backend.converters.tk import Circuit, from_tk, to_tk
from lambeq.backend.symbol import Symbol

QU = 'lambeq.backend.quantum.'
TK = 'lambeq.backend.converters.tk.'


# ---- gates -------------------------------------------------------------------------------------------------------

def wires_of(box):
    """Where the controls and the target of a nested controlled box are: outermost control first, target last."""
    if not isinstance(box, Controlled):
        return [0]
    inner = wires_of(box.controlled)
    if box.distance > 0:
        return [0] + [w + box.distance for w in inner]
    end = len(box.controlled.dom) - 1
    return [end - box.distance] + inner


@ob('P14', QU + 'Gate.from_box', bound='at most three nested controls (at any distances)')
def gate(g, m):
    """Wires, parameters and daggers of a gate."""
    nest = g.choice(0, 1, 1, 2, 3)
    off = g.int('offset', lo=0, small=True)
    p = g.real('phase')
    box = g.choice(X, S, Rx(p), Ry(p), Rz(p))
    base, k = box, box
    plain = box.name.split('(')[0]
    phase = None if box in (X, S) else p
    for i in range(nest):
        d = g.int(f'distance {i}', lo=-9, hi=9) if not g.symbolic else g.int(f'distance {i}')
        g.assume(d != 0)
        box = Controlled(box, d)
    gt = Gate.from_box(box, off)
    want = [off + w for w in wires_of(box)]
    m.eq(len(gt.qubits), nest + 1, 'number of wires')
    m.eq(sorted(gt.qubits[:-1]), sorted(want[:-1]), 'controls')
    m.eq(gt.qubits[-1], want[-1], 'target')
    m.eq(gt.gtype, 'C' * nest + plain, 'kind of gate')
    m.eq(gt.dagger, False, 'not a dagger')
    if nest:
        m.eq([*gt.control, gt.gate_q], [*sorted(gt.qubits[:-1]), want[-1]], 'control and target')
    else:
        m.eq([gt.control, gt.gate_q], [None, None], 'no control')
    if nest < 2:
        m.eq(gt.phase, phase, 'phase')
    if not nest:
        a = Gate.from_box(S.dagger(), off)
        m.eq([a.gtype, a.dagger, a.qubits, a.phase], ['S', True, [off], None], 'daggered gate')
        b = Gate.from_box(Rx(p).dagger(), off)
        m.eq([b.gtype, b.dagger, b.qubits, b.phase], ['Rx', False, [off], -p], 'daggered rotation')
        w = Gate.from_box(SWAP, off)
        m.eq([w.gtype, w.qubits, w.phase], ['SWAP', [off, off + 1], None], 'swap')
        c = Gate.from_box(Scalar(p), off)
        m.eq([c.gtype, c.qubits], ['Scalar', []], 'scalar')


# ---- whole circuits ----------------------------------------------------------------------------------------------

def density(d):
    """Probabilities of the output bits, from inputs in state zero and with qubits discarded: the definition."""
    r = np.ones((1, 1), complex)
    wires = list(d.dom)
    for t in wires:
        r = np.kron(r, np.diag([1, 0]).astype(complex))
    for layer in d.layers:
        a, b, c = len(layer.left), layer.box, len(layer.right)
        L, R, k, q = 2 ** a, 2 ** c, len(layer.box.dom), len(layer.box.cod)
        x = r.reshape(L, 2 ** k, R, L, 2 ** k, R)
        if isinstance(b, Discard):
            x = np.einsum('iakjal->ikjl', x)
        elif isinstance(b, Measure):
            x = x.copy()
            x[:, 0, :, :, 1, :] = 0
            x[:, 1, :, :, 0, :] = 0
        else:
            M = matrix_of(b)
            x = np.einsum('xa,iakjbl,yb->ixkjyl', M, x, M.conj())
        n = a + q + c
        r = x.reshape(2 ** n, 2 ** n)
    n = len(d.cod)
    r = r.reshape((2,) * (2 * n))
    for i in reversed([i for i, t in enumerate(d.cod) if t == qubit]):
        r = np.trace(r, axis1=i, axis2=i + r.ndim // 2)
    k = r.ndim // 2
    return np.real(np.diag(r.reshape(2 ** k, 2 ** k))).reshape((2,) * k)


R2 = 2 ** -.5
PLAIN = {'H': [[R2, R2], [R2, -R2]], 'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]], 'Z': [[1, 0], [0, -1]], 'S': [[1, 0], [0, 1j]],
         'T': [[1, 0], [0, np.exp(.25j * np.pi)]]}


def turned(axis, p):
    """Rotation by 2 pi p."""
    c, s = np.cos(np.pi * p), np.sin(np.pi * p)
    return np.array({'x': [[c, -1j * s], [-1j * s, c]], 'y': [[c, -s], [s, c]], 'z': [[c - 1j * s, 0], [0, c + 1j * s]]}[axis])


def matrix_of(b):
    if isinstance(b, Q.Daggered):
        return matrix_of(b.dagger()).conj().T
    if isinstance(b, Controlled):
        ws = wires_of(b)
        return controlled(matrix_of(core_of(b)), ws, len(ws) and max(ws) + 1)
    if isinstance(b, Swap):
        return np.eye(4)[[0, 2, 1, 3]]
    if isinstance(b, (Ket, Bra)):
        v = np.eye(2)[[b.bit]]
        return v.T if isinstance(b, Ket) else v
    if isinstance(b, Q.Sqrt):
        return np.array([[complex(b.data) ** .5]])
    if isinstance(b, Scalar):
        return np.array([[complex(b.data)]])
    if isinstance(b, (Rx, Ry, Rz)):
        return turned(type(b).__name__[1], b.data)
    return np.array(PLAIN[b.name], complex)


def core_of(b):
    return core_of(b.controlled) if isinstance(b, Controlled) else b


def controlled(U, ws, n):
    """The matrix on n wires of U on the last of the wires, controlled by the others."""
    M = np.zeros((2 ** n, 2 ** n), complex)
    for j in range(2 ** n):
        bits = [(j >> (n - 1 - i)) & 1 for i in range(n)]
        if not all(bits[w] for w in ws[:-1]):
            M[j, j] = 1
            continue
        for v in (0, 1):
            out = list(bits)
            out[ws[-1]] = v
            M[sum(x << (n - 1 - i) for i, x in enumerate(out)), j] += U[v, bits[ws[-1]]]
    return M


def on_wires(M, ws, n):
    """State transformer of a matrix on some wires of n."""
    k = len(ws)

    def step(st):
        st = np.tensordot(np.asarray(M).reshape((2,) * (2 * k)), st, axes=(range(k, 2 * k), ws))
        return np.moveaxis(st, range(k), ws)
    return step


def ground(n):
    st = np.zeros((2,) * n, complex)
    st[(0,) * n] = 1
    return st


def outcomes(st, wires):
    """Joint probabilities of some wires, in the order given."""
    p = abs(st) ** 2
    rest = tuple(i for i in range(p.ndim) if i not in wires)
    p = p.sum(axis=rest)
    order = sorted(wires)
    return np.transpose(p, [order.index(w) for w in wires]) if wires else p


def run_tk(t):
    """Probabilities of the bits of a tket circuit."""
    st, at = ground(t.n_qubits), {}
    for c in t.get_commands():
        qs = [x.index[0] for x in c.qubits]
        if c.op.type.name == 'Measure':
            at[c.bits[0].index[0]] = qs[0]
            continue
        assert not set(qs) & set(at.values()), 'gate after measurement'
        st = on_wires(c.op.get_unitary(), qs, t.n_qubits)(st)
    return outcomes(st, [at[i] for i in range(len(at))])


class Result:
    def __init__(self, p):
        self.p = p

    def get_counts(self):
        return {i: float(v) for i, v in np.ndenumerate(self.p)}


class Backend:
    """An exact backend."""

    def process_circuits(self, circuits, **kwargs):
        return [run_tk(c) for c in circuits]

    def get_result(self, handle):
        return Result(handle)


def run_gates(info):
    """Unnormalised probabilities of the bits not post-selected, from the indexed gate list."""
    n, k = info.total_qubits, 1.
    st = ground(n)
    for x in info.gates:
        if x.gtype == 'Scalar':
            k *= abs(x.phase) ** 2
            continue
        name = x.gtype
        if name == 'SWAP':
            M = np.eye(4)[[0, 2, 1, 3]]
            st = on_wires(M, x.qubits, n)(st)
            continue
        deep = len(x.qubits) - 1
        assert name[:deep] == 'C' * deep
        name = name[deep:]
        U = turned(name[1], float(x.phase)) if name in ('Rx', 'Ry', 'Rz') else np.array(PLAIN[name], complex)
        U = U.conj().T if x.dagger else U
        st = on_wires(controlled(U, list(range(deep + 1)), deep + 1), x.qubits, n)(st)
    bits = sorted(info.bitmap, key=lambda q: info.bitmap[q])
    assert [info.bitmap[q] for q in bits] == list(range(len(bits)))
    p = outcomes(st, bits)
    return k * p[tuple(info.postmap[q] if q in info.postmap else slice(None) for q in bits)]


def nested(g, width, core):
    """A gate with controls on this many wires in total, if any."""
    box, w = core, 1
    while w < width:
        d = g.r.randrange(1, width - w + 1)
        box, w = Controlled(box, g.r.choice([d, -d])), w + d
    return box


def param(g):
    return g.choice(0., .25, .5, 1., -.75, g.r.random())


def some_circuit(g, most=4, steps=9, symbols=None, measure=True):
    """Any circuit that tket has the gates for."""
    k = g.r.randrange(1, most)
    d = (Id(k) if g.r.random() < .3 else Ket(*[g.r.randrange(2) for _ in range(k)]) if k > 1 else Ket(g.r.randrange(2))).to_diagram()
    turn = lambda: g.r.choice(symbols) * g.r.choice([1, 1, -1, .5]) if symbols and g.r.random() < .7 else param(g)
    one = lambda: g.choice(H, X, Y, Z, S, T, S.dagger(), T.dagger(), Rx(turn()), Ry(turn()), Rz(turn()), Rz(turn()).dagger())
    used = []
    for _ in range(g.r.randrange(1, steps)):
        c = d.cod
        e = g.r.random()
        at = [i for i in range(len(c)) if c[i:i + 1] == qubit]
        run = lambda n: [i for i in at if all(i + j in at for j in range(n))]
        if e < .12 and len(c) < most + 1:
            i, b = g.r.randrange(len(c) + 1), Ket(g.r.choice([0, 0, 1]))
        elif e < .2 and at:
            i, b = g.r.choice(at), Bra(g.r.choice([0, 0, 1]))
        elif e < .26 and at:
            i, b = g.r.choice(at), Discard()
        elif e < .36 and at and measure:
            i, b = g.r.choice(at), Measure()
        elif e < .4:
            i, b = g.r.randrange(len(c) + 1), g.choice(Scalar(.5), Q.Sqrt(2), Scalar(.5 + .5j), Scalar(-1))
        elif e < .52 and len(c) > 1:
            i = g.r.randrange(len(c) - 1)
            b = Swap(c[i:i + 1], c[i + 1:i + 2])
        elif e < .8 and run(2):
            n = g.r.choice([n for n in (2, 3, 4, 5) if run(n)])
            b = nested(g, n, g.choice(X, X, Z, Rx(turn()), Ry(turn()), Rz(turn())))
            again = [x for x in used if len(x.dom) == n]
            deep = len(wires_of(b)) - 1
            if again and g.r.random() < .4:
                b = g.r.choice(again)
            elif deep > 2 or deep == 2 and core_of(b) != X:
                b = Controlled(core_of(b), g.r.choice([n - 1, 1 - n]))
            elif n == 2 and g.r.random() < .3:
                b = g.choice(CX, CZ)
            used.append(b)
            i = g.r.choice(run(n))
        elif at:
            i, b = g.r.choice(at), one()
        else:
            continue
        d = d >> (Id(c[:i]) @ b @ Id(c[i + len(b.dom):]))
    return g.note('circuit', d)


def close(p, q):
    return p.shape == q.shape and bool(np.allclose(p, q, atol=1e-9))


BOUND = 'circuits of at most 9 boxes and 5 wires'


@ob('P14', TK + 'to_tk', QU + 'to_circuital', QU + 'readoff_circuital', QU + 'Gate.from_box', QU + 'Diagram.is_circuital',
    QU + 'Diagram.init_and_discard', QU + 'Diagram.to_tk', QU + 'Diagram.eval', TK + 'Circuit.get_counts',
    sym=False, n=700, bound=BOUND)
def export(g, m):
    """The distribution of the circuit is that of its tket circuit and that of its list of gates."""
    d = some_circuit(g)
    was = repr(d)
    want = density(d)
    t = to_tk(d)
    m.eq(repr(d), was, 'circuit left alone')
    p = run_tk(t)
    m.eq(p.shape, (2,) * t.n_bits, 'one outcome per bit')
    chosen = t.post_selection
    m.true(set(chosen) <= set(range(t.n_bits)), 'bits post-selected')
    p = t.scalar * p[tuple(chosen.get(i, slice(None)) for i in range(t.n_bits))]
    m.true(close(p, want), 'distribution of the tket circuit')
    m.true(close(d.eval(backend=Backend()), want), 'evaluated distribution')
    c = to_circuital(d)
    m.wt(c, 'well-typed')
    m.true(c.is_circuital, 'circuital')
    m.eq(len(c.dom), 0, 'no input')
    m.true(close(density(c), want), 'distribution of the circuital circuit')
    m.true(close(run_gates(readoff_circuital(c)), want), 'distribution of the gate list')
    if d.is_circuital:
        m.true(close(run_gates(readoff_circuital(d)), want), 'distribution of the gate list read off at once')
    kets = sum(isinstance(b, Ket) for b in d.boxes) + len(d.dom)
    m.eq(t.n_qubits, kets, 'number of qubits')


@ob('P14', TK + 'Circuit.get_counts', QU + 'Diagram.eval', sym=False, n=100, bound='two or three ' + BOUND)
def together(g, m):
    """Several circuits at once, each with its own post-selection and scalar."""
    ds = [some_circuit(g, 3, 6) for _ in range(g.r.randrange(2, 4))]
    got = ds[0].eval(*ds[1:], backend=Backend())
    m.eq(len(got), len(ds), 'one result each')
    for x, d in zip(got, ds):
        m.true(close(x, density(d)), 'its distribution')


@ob('P14', TK + 'from_tk', TK + 'to_tk', sym=False, n=300, bound=BOUND)
def back(g, m):
    """To tket and back."""
    d = some_circuit(g)
    b = from_tk(to_tk(d))
    m.wt(b, 'well-typed')
    m.true(close(density(b), density(d)), 'same distribution')
    m.true(close(density(from_tk(to_tk(b))), density(d)), 'same again')


TKGATES = {1: ['H', 'X', 'Y', 'Z', 'S', 'T', 'Sdg', 'Tdg', 'Rx', 'Ry', 'Rz'], 2: ['CX', 'CY', 'CZ', 'SWAP', 'CRx', 'CRy', 'CRz'], 3: ['CCX']}


@ob('P14', TK + 'from_tk', TK + 'Circuit.upgrade', sym=False, n=300, bound='tket circuits of at most 7 gates on 5 qubits')
def imported(g, m):
    """Any tket circuit, with bits in any order."""
    n = g.r.randrange(1, 6)
    on = g.r.sample(range(n), g.r.randrange(n + 1))
    pure = g.bool('plain tket circuit')
    c = (tk.tk.Circuit if pure else Circuit)(n, len(on))
    for _ in range(g.r.randrange(8)):
        k = g.r.randrange(1, min(3, n) + 1)
        f = getattr(c, g.r.choice(TKGATES[k]))
        args = g.r.sample(range(n), k)
        f(*([2 * param(g)] if 'R' in f.__name__ else []), *args)
    for b, q in enumerate(on):
        c.Measure(q, b)
    chosen, k = {}, 1.
    if not pure:
        chosen = {b: g.r.randrange(2) for b in range(len(on)) if g.r.random() < .3}
        c.post_select(chosen)
        k = g.choice(1., .25)
        c.scale(k)
    g.note('circuit', (c.get_commands(), chosen, k))
    p = k * run_tk(c)[tuple(chosen.get(i, slice(None)) for i in range(len(on)))]
    d = from_tk(c)
    m.wt(d, 'well-typed')
    m.true(close(density(d), p), 'same distribution')


@ob('P14', TK + 'to_tk', TK + 'from_tk', TK + '_tk_to_lmbq_param', sym=False, n=200, bound=BOUND)
def parameters(g, m):
    """Circuits with parameters: the same parameters at the same places."""
    xs = [Symbol(x, scale=g.choice(1, 2, -.5)) for x in g.r.sample(['a', 'b__n@s', 'c_0'], g.r.randrange(1, 4))]
    vs = [g.r.uniform(-1, 1) for _ in xs]
    d = some_circuit(g, 3, 7, [x.unscaled for x in xs])
    t = to_tk(d)
    m.eq({x.name for x in t.free_symbols()}, {x.name for x in d.free_symbols}, 'parameters of the tket circuit')
    b = from_tk(t)
    m.eq({x.name for x in b.free_symbols}, {x.name for x in d.free_symbols}, 'parameters back')
    names = [x.unscaled for x in xs]
    want = density(d.lambdify(*names)(*vs))
    m.true(close(density(b.lambdify(*names)(*vs)), want), 'bound after the round trip')
    m.true(close(density(from_tk(to_tk(d.lambdify(*names)(*vs)))), want), 'bound before')


@ob('P14', TK + 'to_tk', QU + 'readoff_circuital', sym=False, n=20, bound='listed gates')
def refuses(g, m):
    """What tket has no gate for is refused, not dropped."""
    b = g.choice(Controlled(H, 1), Controlled(S, 1), Controlled(CZ, 1), Controlled(SWAP, 1), Q.MixedState() >> Measure(), Q.Bit(0) >> Q.Encode())
    try:
        t = to_tk(g.note('circuit', b.to_diagram()))
        m.fail('refused')
    except NotImplementedError:
        m.ok('refused')


# ---- any number of gates -----------------------------------------------------------------------------------------

KINDS = ['H', 'X', 'Y', 'Z', 'S', 'T', 'Rx', 'Ry', 'Rz', 'CX', 'CZ', 'CRx', 'CRy', 'CRz', 'CCX', 'SWAP']


class AGate:
    """The i-th gate: any kind, phase, wires."""

    def __init__(self, fam, i):
        self.fam, self.i = fam, i
        self.qubits = ('wires', i)

    @property
    def gtype(self):
        k = self.fam['kind'](self.i)
        if k == len(KINDS):
            return 'Scalar'
        for j, x in enumerate(KINDS[:-1]):
            if k == j:
                return x
        return KINDS[-1]

    @property
    def phase(self):
        if 'R' in self.gtype or self.gtype == 'Scalar':
            return self.fam['phase'](self.i)
        return None

    @property
    def dagger(self):
        return bool(self.fam['dagger'](self.i) == 1)


class Made:
    """Op.create."""

    def __init__(self, kind, params, dagger=False):
        self.kind, self.params, self.daggered = kind, params, dagger

    @staticmethod
    def create(kind, *params):
        return Made(kind, [p for ps in params for p in (ps if isinstance(ps, list) else [ps])])

    @property
    def dagger(self):
        return Made(self.kind, self.params, not self.daggered)

    def parts(self):
        return [self.kind.name, self.params, self.daggered]


class Built:
    """A tket circuit: whatever was there after `since` gates, and the commands given since then."""

    def __init__(self, n_qubits=0, n_bits=0, post_selection=None, scalar=None, post_processing=None):
        self.made = (n_qubits, n_bits, post_selection or {})
        self.since, self.commands, self.factor = 0, [], 1
        self.measured = []

    def add_gate(self, op, qubits):
        self.commands = self.commands + [[op.parts(), qubits]]

    def scale(self, x):
        self.factor = self.factor * x
        return self

    def Measure(self, q, b):
        self.measured.append((q, b))


def expected(x):
    """Commands for one gate, and the factor."""
    if x.gtype == 'Scalar':
        return [], x.phase * x.phase
    return [[[x.gtype, [] if x.phase is None else [2 * x.phase], x.dagger], x.qubits]], 1


class Converts(LoopSpec):
    """One gate after the other becomes its command."""

    def __init__(self, g, gates):
        self.g, self.gates = g, gates

    def modified(self, L):
        return [nm for nm in L.names if isinstance(self.entry.get(nm), Built)]

    def circuit(self, env):
        return [v for v in env.values() if isinstance(v, Built)][0]

    def havoc(self, L, loc, i):
        c = self.circuit(loc)
        c.since, c.commands, c.factor = self.g.value(i), [], 1
        return {}

    def inv(self, L, env, i, m):
        if not hasattr(m, '_rec'):
            return
        c, i = self.circuit(env), self.g.value(i)
        want, factor = [], 1
        if c.since == i - 1:
            want, factor = expected(self.gates(i - 1))
        else:
            m.eq(c.since, i, 'gates so far')
        m.eq(c.commands, want, 'command of the gate')
        m.eq(c.factor, factor, 'factor of the gate')


@ob('P14', TK + 'to_tk', n=60)
def commands(g, m):
    """Every gate becomes one command, in order."""
    import types
    if not g.symbolic:
        return export(g, m)
    fam = {'kind': g.ints('kind', lo=0), 'phase': g.reals('phase'), 'dagger': g.ints('dagger')}
    gate = lambda i: AGate(fam, i)
    gates = g.list(gate, 'gates')
    bitmap, postmap = g.choice(({}, {}), ({4: 0}, {4: 1}), ({3: 1, 1: 0, 0: 2}, {3: 1, 0: 0}))
    n = g.int('qubits', lo=6, small=True)
    info = Q.CircuitInfo(n, gates, bitmap, postmap, [])
    circ = g.bool('circuital')
    once = types.SimpleNamespace(is_circuital=True, what='circuital')
    d = once if circ else types.SimpleNamespace(is_circuital=False, what='any')

    def makes(x):
        m.eq(x.what, 'any', 'made circuital')
        return once

    def reads(x, use_sympy=False):
        m.eq(x.what, 'circuital', 'circuital when read off')
        m.true(use_sympy, 'with sympy parameters')
        return info
    for nm, f in (('to_circuital', makes), ('readoff_circuital', reads), ('Circuit', Built), ('Op', Made)):
        g.contract(tk, nm, f)
    g.invariant('to_tk', Converts(g, gate))
    c = to_tk(d)
    m.eq(c.made, (n, len(bitmap), {bitmap[q]: v for q, v in postmap.items()}), 'bits post-selected')
    m.eq(sorted(c.measured), sorted(bitmap.items()), 'measurements')
    m.eq(c.since, len(gates), 'every gate')
    m.eq([c.commands, c.factor], [[], 1], 'nothing else')


class Read:
    """Gate.from_box by contract."""

    def __init__(self, box, offset, use_sympy=False):
        self.box, self.offset, self.use_sympy = box, offset, use_sympy


class Any:
    """The i-th box: any gate."""

    def __init__(self, i):
        self.i = i


class Reads(LoopSpec):
    """The gates read off so far."""

    def __init__(self, g, gate):
        self.g, self.gate = g, gate

    def modified(self, L):
        return [nm for nm in L.names if isinstance(self.entry.get(nm), list) and any(isinstance(x, Read) for x in self.entry[nm])]

    def upto(self, nm, i):
        return self.g.joined(self.entry[nm], self.gate, self.g.value(i))

    def havoc_var(self, L, name, val, i):
        return self.upto(name, i)

    def inv(self, L, env, i, m):
        if hasattr(m, '_rec'):
            for nm in self.modified(L):
                same_gates(self.g, m, env[nm], self.upto(nm, i))


def same_gates(g, m, xs, ys):
    m.eq(len(xs), len(ys), 'number of gates')
    j = g.int('j', lo=0)
    if j < len(ys):
        x, y = xs[j], ys[j]
        m.true(x.box is y.box if not isinstance(y.box, Any) else isinstance(x.box, Any), 'box')
        if isinstance(y.box, Any) and isinstance(x.box, Any):
            m.eq(x.box.i, y.box.i, 'box')
        m.eq(x.offset, y.offset, 'offset')
        m.eq(x.use_sympy, y.use_sympy, 'kind of parameters')


@ob('P14', QU + 'readoff_circuital', n=60, bound='at most three qubits, any number of gates')
def read_off(g, m):
    """Kets, any number of gates, measurements, post-selections and discards."""
    if not g.symbolic:
        return export(g, m)
    import types
    bits, end, back, first, sympy = g.choice(
        ([0], ['wire'], False, True, True), ([1], ['bit'], False, True, False), ([0], [1], False, True, True),
        ([0, 1], ['gone', 0], True, True, False), ([1, 0], ['bit', 1], False, False, True), ([0, 0], [1, 'bit'], False, True, True),
        ([0, 1, 0], ['bit', 1, 'gone'], False, True, True), ([1, 1, 0], [0, 'gone', 'bit'], True, False, False),
        ([0, 0, 1], ['gone', 1, 0], True, True, True), ([0, 0, 1], [1, 'gone', 0], False, True, False),
        ([1, 0, 1], ['wire', 'bit', 'gone'], False, False, True), ([0, 1, 1], ['bit', 'wire', 1], True, True, False),
        ([1, 0, 0], ['bit', 0, 'bit'], False, False, True), ([0, 1, 0], ['gone', 'bit', 'gone'], True, True, True))
    n = len(bits)
    layer = lambda left, box: types.SimpleNamespace(left=left, box=box)
    offset = g.ints('offset', lo=0)

    class Left:
        def __init__(self, i):
            self.i = i

        def __pv_len__(self):
            return offset(self.i)
    kets = [layer(qubit ** i, Ket(b)) for i, b in enumerate(bits)]
    measures = [layer(qubit ** i, Measure()) for i, e in enumerate(end) if e == 'bit']
    wires, ends = list(range(n)), []
    for i in reversed(range(n)) if back else range(n):
        if end[i] in ('bit', 'wire'):
            continue
        k = wires.index(i)
        ends.append(layer(g.joined([], lambda j: qubit, k), Discard() if end[i] == 'gone' else Bra(end[i])))
        wires.remove(i)
    one = layer(qubit ** 0, S)
    k = g.int('gates', lo=0)
    layers = g.joined(kets + (measures if first else []) + [one], lambda i: layer(Left(i), Any(i)), k) + ([] if first else measures) + ends
    d = types.SimpleNamespace(is_circuital=True, layers=layers, cod=[bit if end[i] == 'bit' else qubit for i in wires])
    g.contract(Gate, 'from_box', Read)
    at = lambda i: Read(Any(i), offset(i), sympy)
    g.invariant('readoff_circuital', Reads(g, at))
    info = readoff_circuital(d, use_sympy=sympy)
    m.eq(info.total_qubits, n, 'qubits')
    ones = [Read(X, i) for i, b in enumerate(bits) if b]
    m.eq([(x.box, x.offset) for x in info.gates[:len(ones)]], [(X, x.offset) for x in ones], 'kets in state one')
    same_gates(g, m, info.gates[len(ones):], g.joined([Read(S, 0, sympy)], at, k))
    out = [i for i in range(n) if end[i] in ('bit', 0, 1)]
    m.eq(info.bitmap, {q: i for i, q in enumerate(out)}, 'bits in the order of the wires')
    m.eq(info.postmap, {i: end[i] for i in range(n) if end[i] in (0, 1)}, 'post-selections')
    m.eq(sorted(info.discards), [i for i in range(n) if end[i] == 'gone'], 'discards')
