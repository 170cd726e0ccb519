"""P11: ansaetze."""
from contracts.reg import ob
from contracts.gates import Adds, Chains, Grids, Keeps, Ledger, Stacks, census, grid
from contracts.p10 import sentence, with_domain
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Id, Spider, Swap, Ty, Word
from lambeq.backend import quantum as Q, tensor as T
from lambeq.backend.symbol import Symbol
from lambeq.ansatz import circuit as ansatz_circuit
from lambeq.ansatz import (CircuitAnsatz, IQPAnsatz, MPSAnsatz, Sim14Ansatz, Sim15Ansatz, Sim4Ansatz, Sim9Ansatz,
                           Sim9CxAnsatz, SpiderAnsatz, StronglyEntanglingAnsatz, TensorAnsatz)
from lambeq.ansatz.base import BaseAnsatz

A = 'lambeq.ansatz.'
CI = A + 'circuit.'
TE = A + 'tensor.'

COUNT = {IQPAnsatz: lambda n, l: l * (n - 1), Sim14Ansatz: lambda n, l: 4 * n * l, Sim15Ansatz: lambda n, l: 2 * n * l,
         Sim4Ansatz: lambda n, l: l * (3 * n - 1), Sim9Ansatz: lambda n, l: n * l, Sim9CxAnsatz: lambda n, l: n * l,
         StronglyEntanglingAnsatz: lambda n, l: 3 * n * l}
BASES = ('n', 's', 'p')
NAMES = ['a', 'b', 'a_0', 'a:', 'a\\:', 'a b', 'a,b', 'ё', 'a__n', '']
SPECIAL = (Cup, Cap, Swap, Spider)


def base_type(g):
    t = Ty(g.r.choice(BASES))
    return t.rotate(g.r.choice([0, 0, 0, 1, -1, 2, -2]))


def some_ty(g, most=3):
    t = Ty()
    for _ in range(g.r.randrange(most + 1)):
        t = t @ base_type(g)
    return t


def some_box(g, most=3):
    name = g.r.choice(NAMES)
    if g.r.random() < .4:
        return Word(name or 'w', some_ty(g, most))
    b = Box(name or 'f', some_ty(g, most), some_ty(g, most))
    return b


def some_diagram(g, most=3, spiders=True):
    """A sentence, or boxes one after the other and side by side."""
    k = g.r.random()
    if k < .3:
        d = sentence(g, swaps=True, layers=6)
        return d if k < .2 else with_domain(g, d)
    d = Id(some_ty(g, 2))
    for _ in range(g.r.randrange(1, 4)):
        c = d.cod
        i = g.r.randrange(len(c) + 1)
        j = g.r.randrange(i, min(len(c), i + 2) + 1)
        e = g.r.random()
        if e < .1 and j - i == 2:
            b = Swap(c[i:i + 1], c[i + 1:i + 2])
        elif e < .2 and j - i == 1 and spiders:
            b = Spider(c[i:j], 1, g.r.randrange(1, 4))
        elif e < .3:
            t = base_type(g)
            b, j = Cap(t, t.l), i
        elif e < .5 and d.boxes and any(x.dom == c[i:j] for x in d.boxes):
            b = [x for x in d.boxes if x.dom == c[i:j]][0]
        else:
            b = Box(g.r.choice(NAMES) or 'f', c[i:j], some_ty(g, most))
        d = d >> (Id(c[:i]) @ b @ Id(c[j:]))
    return g.note('diagram', d)


def meaningful(d):
    """The boxes that get parameters."""
    return [b for b in d.boxes if not isinstance(b, SPECIAL)]


def sizes(t, size):
    return [size[x.name] for x in ([t] if t.is_atomic else t.objects)] if len(t) else []


def key(b):
    """What tells boxes apart."""
    return (b.name, str(b.dom), str(b.cod))


def circuit_of(x):
    return x.to_diagram() if hasattr(x, 'to_diagram') else x


@ob('P11', CI + 'CircuitAnsatz._ar', CI + 'CircuitAnsatz.ob_size', CI + 'CircuitAnsatz.__call__', CI + 'CircuitAnsatz._get_n_ancillas',
    A + 'base.BaseAnsatz._summarise_box', *[CI + c.__name__ + '.' + f for c in COUNT for f in ('circuit', 'params_shape')],
    sym=False, n=500, bound='diagrams of at most 10 boxes, types of at most 3 wires of at most 3 qubits, 0 to 5 layers')
def circuits(g, m):
    size = {b: g.r.choice([0, 1, 1, 1, 1, 2, 2, 3]) for b in BASES}
    g.note('sizes', size)
    cls = g.choice(*COUNT)
    layers, single, discard = g.choice(0, 1, 1, 2, 2, 3, 4, 5), g.choice(0, 1, 2, 3, 3, 4, 5), g.bool('discard')
    d = some_diagram(g, g.choice(1, 2, 3), all(k == 1 for k in size.values()))
    some = g.r.choice([0, 0, 0, 1, 2, 3])
    mine = {b: g.r.randrange(3) for b in meaningful(d) if g.r.random() < .5}
    how = g.choice('int', 'int', 'dict', 'callable')
    anc = {'int': some, 'dict': mine, 'callable': lambda b: len(b.name) % 2}[how]
    of = {'int': lambda b: some, 'dict': lambda b: mine.get(b, 0), 'callable': lambda b: len(b.name) % 2}[how]
    g.note('ancillas', (how, some, mine))
    kw = {}
    basis = None
    rots = None
    if cls is not StronglyEntanglingAnsatz:
        basis = g.choice(None, Q.Id(Q.qubit) >> Q.H, Q.Rx(.25).to_diagram())
        rots = g.choice(None, [Q.Ry], [Q.Rz, Q.Rx, Q.Ry])
        if basis is not None:
            kw['postselection_basis'] = basis
        if rots is not None:
            kw['single_qubit_rotations'] = rots
    elif g.r.random() < .5:
        kw['ranges'] = [1] * layers
    a = cls({Ty(b): k for b, k in size.items()}, layers, single, discard=discard, n_ancillas=anc, **kw)
    c = circuit_of(a(d))
    qubits = lambda t: sum(sizes(t, size))
    m.wt(c, 'well-typed')
    m.eq([c.dom, c.cod], [Q.qubit ** qubits(d.dom), Q.qubit ** qubits(d.cod)], 'qubits of the wires')
    params = {}
    for b in meaningful(d):
        e = circuit_of(a(b))
        x, y, k = qubits(b.dom), qubits(b.cod), of(b)
        n = max(x, y) + k
        m.wt(e, 'well-typed box')
        m.eq([e.dom, e.cod], [Q.qubit ** x, Q.qubit ** y], 'qubits of the box')
        want = 0 if n == 0 else single if n == 1 else COUNT[cls](n, layers)
        free = {s.name for s in e.free_symbols}
        m.eq(len(free), want, f'number of parameters of {cls.__name__} on {n} qubits')
        m.eq(sum(len(z.free_symbols) for z in e.boxes), want, 'every parameter in one place')
        kets = [z for z in e.boxes if isinstance(z, Q.Ket)]
        bras = [z for z in e.boxes if isinstance(z, Q.Bra)]
        gone = [z for z in e.boxes if isinstance(z, Q.Discard)]
        m.eq(len(kets), n - x, 'qubits prepared')
        m.eq(len(gone) if discard else len(bras), n - y, 'qubits discarded or post-selected')
        m.eq(len(bras) if discard else len(gone), 0, 'nothing else')
        m.true(all(z.bit == 0 for z in kets + bras), 'in state zero')
        m.true(all(len(z.dom) == len(z.cod) and not z.is_mixed for z in e.boxes if z not in kets + bras + gone), 'gates otherwise')
        if basis is not None and not discard:
            m.true(len([z for z in e.boxes if z in basis.boxes]) >= n - y, 'in the basis chosen')
        # a copy of the box
        f = circuit_of(a(type(b)(b.name, b.cod) if isinstance(b, Word) else type(b)(b.name, b.dom, b.cod, b.z)))
        m.true(f == e, 'equal boxes, equal circuits')
        params.setdefault(key(b), free)
    m.eq({s.name for s in c.free_symbols}, set().union(*params.values()) if params else set(), 'parameters of the circuit')
    disjoint(m, params)


def disjoint(m, params):
    ks = list(params)
    for i, x in enumerate(ks):
        for y in ks[:i]:
            m.true(not params[x] & params[y], f'disjoint parameters of {x} and {y}')


@ob('P11', A + 'base.BaseAnsatz._summarise_box', sym=False, n=400, bound='names of at most 4 characters, types of at most 2 wires')
def labels(g, m):
    """Boxes with the same label have the same word and type."""
    a = IQPAnsatz({Ty(b): 1 for b in BASES}, 1)
    word = lambda: ''.join(g.r.choice('a:, _\\n.') for _ in range(g.r.randrange(1, 5)))
    w, x = word(), word()
    if g.r.random() < .6:
        x = w
    t, u = (some_ty(g, 2), some_ty(g, 2)), (some_ty(g, 2), some_ty(g, 2))
    if g.r.random() < .3:
        u = t
    b, c = Box(w, *t), Box(x, *u)
    g.note('boxes', (key(b), key(c)))
    m.eq(a._summarise_box(b) == a._summarise_box(c), key(b) == key(c), 'labels')


def dim(*xs):
    return T.Dim(*[x for x in xs if x > 1]) if any(x > 1 for x in xs) else T.Dim()


def dims_of(t, size):
    atoms = ([t] if t.is_atomic else t.objects) if len(t) else []
    return [x for a in atoms for x in size[a.name][::-1 if a.z % 2 else 1] if x > 1]


def product(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def flows(b, size):
    """Sizes of what flows in and out: odd windings flow backwards."""
    i = o = 1
    atoms = lambda t: ([t] if t.is_atomic else t.objects) if len(t) else []
    for t in atoms(b.dom):
        k = product(size[t.name])
        i, o = (i, o * k) if t.z % 2 else (i * k, o)
    for t in atoms(b.cod):
        k = product(size[t.name])
        i, o = (i * k, o) if t.z % 2 else (i, o * k)
    return i, o


@ob('P11', TE + 'TensorAnsatz._ar', TE + 'TensorAnsatz._generate_directed_dom_cod', TE + 'TensorAnsatz.__call__', sym=False, n=400,
    bound='diagrams of at most 10 boxes, types of at most 3 wires')
def tensors(g, m):
    size = {b: g.choice((1,), (2,), (3,), (2, 3), (4,)) for b in BASES}
    g.note('sizes', size)
    d = some_diagram(g)
    a = TensorAnsatz({Ty(b): dim(*k) for b, k in size.items()})
    t = circuit_of(a(d))
    m.wt(t, 'well-typed')
    m.eq([dims(t.dom), dims(t.cod)], [dims_of(d.dom, size), dims_of(d.cod, size)], 'dimensions of the wires')
    params = {}
    for b in meaningful(d):
        e = circuit_of(a(b))
        m.wt(e, 'well-typed box')
        m.eq([dims(e.dom), dims(e.cod)], [dims_of(b.dom, size), dims_of(b.cod, size)], 'dimensions of the box')
        m.eq(len(e.boxes), 1, 'one tensor')
        s = e.boxes[0].data
        m.eq((s.directed_dom, s.directed_cod), flows(b, size), 'flow')
        m.eq(s.size, product(dims_of(b.dom, size) + dims_of(b.cod, size)), 'number of parameters')
        m.eq(s.scale, 1, 'unscaled')
        f = circuit_of(a(type(b)(b.name, b.cod) if isinstance(b, Word) else type(b)(b.name, b.dom, b.cod, b.z)))
        m.true(f == e, 'equal boxes, equal tensors')
        params.setdefault(key(b), {x.name for x in e.free_symbols})
    m.eq({s.name for s in t.free_symbols}, set().union(*params.values()) if params else set(), 'parameters of the diagram')
    disjoint(m, params)


def dims(t):
    return [x for x in t.dim if x > 1]


@ob('P11', TE + 'MPSAnsatz._split_ar', TE + 'SpiderAnsatz._split_ar', TE + 'SplitTensorAnsatz.__call__', sym=False, n=500,
    bound='diagrams of at most 10 boxes, types of at most 12 wires')
def split(g, m):
    size = {b: g.choice((2,), (3,), (2, 3)) for b in BASES}
    g.note('sizes', size)
    cls = g.choice(MPSAnsatz, SpiderAnsatz)
    left = g.bool('left')
    d = some_diagram(g, g.choice(2, 4, 6, 12))
    ob_map = {Ty(b): dim(*k) for b, k in size.items()}
    if cls is MPSAnsatz:
        most, bond = g.choice(3, 3, 4, 5), g.choice(2, 5)
        a = MPSAnsatz(ob_map, bond, most, uncurry_left=left)
        size = {**size, 'B': (bond,)}
    else:
        most = g.choice(2, 2, 3, 4)
        a = SpiderAnsatz(ob_map, most, uncurry_left=left)
    t = circuit_of(a(d))
    m.wt(t, 'well-typed')
    m.eq([dims(t.dom), dims(t.cod)], [dims_of(d.dom, size), dims_of(d.cod, size)], 'dimensions of the wires')
    params = {}
    for b in meaningful(d):
        s = circuit_of(a.split_functor(b))
        m.wt(s, 'well-typed pieces')
        m.eq([s.dom, s.cod], [b.dom, b.cod], 'type kept')
        pieces = meaningful(s)
        m.true(all(len(p.dom) + len(p.cod) <= most for p in pieces), 'small tensors')
        n = len(b.dom) + len(b.cod)
        if n <= most:
            k = 1
        else:
            k = -(-n // (most - 2)) if cls is MPSAnsatz else -(-(n - 1) // (most - 1))
        m.eq(len(pieces), k, 'number of tensors')
        e = circuit_of(a(b))
        m.wt(e, 'well-typed box')
        m.eq([dims(e.dom), dims(e.cod)], [dims_of(b.dom, size), dims_of(b.cod, size)], 'dimensions of the box')
        syms = e.free_symbols
        m.eq(len(syms), k, 'one parameter per tensor')
        m.true(all(x.size == product(dims(z.dom) + dims(z.cod)) for z in e.boxes for x in z.free_symbols), 'sizes of parameters')
        # every wire of the pieces but the bonds is a wire of the box
        if cls is MPSAnsatz and n > most:
            m.eq(sum(len(p.cod) for p in pieces), n + 2 * (k - 1), 'bonds')
        f = circuit_of(a(type(b)(b.name, b.cod) if isinstance(b, Word) else type(b)(b.name, b.dom, b.cod, b.z)))
        m.true(f == e, 'equal boxes, equal tensors')
        params.setdefault(b.name, set())
        params[b.name] |= {x.name for x in syms}
    m.eq({s.name for s in t.free_symbols}, set().union(*params.values()) if params else set(), 'parameters of the diagram')
    disjoint(m, params)


@ob('P11', TE + 'MPSAnsatz._split_ar', TE + 'SpiderAnsatz._split_ar', sym=False, n=1, bound='two words')
def split_types(g, m):
    """The same word with two types whose first pieces have the same type."""
    n, s = Ty('n'), Ty('s')
    ob_map = {n: T.Dim(2), s: T.Dim(3)}
    shared = []
    for a, t, u in ((SpiderAnsatz(ob_map), n @ s, n @ s @ n), (MPSAnsatz(ob_map, 2), n @ s @ n @ n, n @ n @ n @ s)):
        x, y = ({z.name for z in a(Word('w', k).to_diagram()).free_symbols} for k in (t, u))
        shared += [(type(a).__name__, z) for z in sorted(x & y)]
    m.true(shared == [], f'shared parameters {shared}')


@ob('P11', CI + 'CircuitAnsatz.__init__', CI + 'StronglyEntanglingAnsatz.__init__', TE + 'MPSAnsatz.__init__', TE + 'SpiderAnsatz.__init__',
    CI + 'CircuitAnsatz.__call__', TE + 'TensorAnsatz.__call__', sym=False, n=40, bound='listed configurations')
def refuses(g, m):
    """What no circuit exists for is refused."""
    n = Ty('n')

    def refused(f, exc, label):
        try:
            f()
            m.fail(label)
        except exc:
            m.ok(label)
    refused(lambda: MPSAnsatz({n: T.Dim(2)}, 2, max_order=2), ValueError, 'order too small')
    refused(lambda: MPSAnsatz({n: T.Dim(2), MPSAnsatz.BOND_TYPE: T.Dim(2)}, 2), ValueError, 'bond given twice')
    refused(lambda: SpiderAnsatz({n: T.Dim(2)}, max_order=1), ValueError, 'order too small')
    l = g.choice(0, 1, 2, 3)
    refused(lambda: StronglyEntanglingAnsatz({n: 2}, l, ranges=[1] * (l + 1)), ValueError, 'ranges')
    k = g.choice(2, 3, 4)
    a = StronglyEntanglingAnsatz({n: k}, 2, ranges=[1, k])
    refused(lambda: a(Word('w', n).to_diagram()), ValueError, 'range beyond the qubits')


# (start, number) of the parameters used by the iterations of the inner loops of circuit()
INNER = {Sim14Ansatz: {1: lambda n: (n, 1), 2: lambda n: (3 * n, 1)}, Sim4Ansatz: {1: lambda n: (2 * n, 1)},
         StronglyEntanglingAnsatz: {1: lambda n: (0, 3)}}


def layout(g, cls, n, ledger):
    """Contracts of the loops that lay out gates."""
    g.invariant(('Diagram.tensor', 0), Stacks.by(g))
    g.invariant(('Diagram.then', 0), Chains.by(g))
    name = cls.__name__ + '.circuit'
    g.invariant((name, 0), Keeps(g, ledger, rows=True))
    g.invariant(name, Keeps(g, ledger))
    for k, f in INNER.get(cls, {}).items():
        start, per = f(n)
        g.invariant((name, k), Keeps(g, ledger, start=start, per=per))


def blank(cls, **kw):
    a = object.__new__(cls)
    for k, v in kw.items():
        setattr(a, k, v)
    return a


def layered(cls):
    def h(g, m):
        """On any number of qubits, with any number of layers: well-typed, and
        every parameter of the shape in exactly one gate."""
        if not g.symbolic:
            return circuits(g, m)
        n, rows = g.int('n_qubits', lo=2), g.int('n_layers', lo=0)
        kw = {}
        if cls is StronglyEntanglingAnsatz:
            kw['ranges'] = g.choice(None, 'some')
            if kw['ranges']:
                ranges = g.ints('range', lo=1)
                kw['ranges'] = g.list(lambda i: ranges(i), 'ranges', n=rows)
        a = blank(cls, n_layers=rows, **kw)
        shape = a.params_shape(n)
        m.eq(shape[0], rows, 'one row per layer')
        ledger = Ledger(g, shape[1])
        layout(g, cls, n, ledger)
        try:
            c = a.circuit(n, grid(g, shape[0], shape[1]))
        except ValueError:
            m.true(kw.get('ranges') is not None, 'only refused for a range beyond the qubits')
            return
        q = g.power(Q.qubit, n)
        m.wt(c, 'well-typed')
        m.eq([c.dom, c.cod], [q, q], 'as many wires as qubits')
        m.eq(ledger.usage(m, c.layers, 'parameters'), ledger.joined([('rows', 0, rows)]), 'every parameter used once')
    h.__name__ = 'layers_' + cls.__name__
    return h


for _c in COUNT:
    ob('P11', CI + _c.__name__ + '.circuit', CI + _c.__name__ + '.params_shape', n=30)(layered(_c))


def laid_out(ends):
    def h(g, m):
        """A box with wires of any number of qubits and any number of ancillas,
        whatever circuit the ansatz lays out on that many qubits."""
        if not g.symbolic:
            return circuits(g, m)
        dom, cod, anc, single = g.int('dom', lo=0), g.int('cod', lo=0), g.int('anc', lo=0), g.int('single', lo=0)
        label = g.string('label')
        qubits = lambda n: g.power(Q.qubit, n)
        doms, cods = g.ty('dom'), g.ty('cod')
        box = Box('f', doms, cods)
        n = dom + anc if dom > cod else cod + anc
        laid = []

        def params_shape(self, k):
            m.eq(k, n, 'parameters for all the qubits')
            laid.append((g.int('rows', lo=0), g.int('cols', lo=0)))
            return laid[0]

        def circuit(self, k, params):
            m.eq(k, n, 'a circuit on all the qubits')
            m.true(k >= 2, 'on several qubits')
            m.eq(params.shape, laid[0], 'parameters of the shape asked for')
            xs = params.xs
            m.all(len(xs), lambda i, m: m.eq(xs[i], Symbol(f'{label}_{i}')), 'a parameter of its own in every place')
            laid.append(g.circuit('laid', qubits(k), qubits(k)))
            return laid[1]

        members = dict(params_shape=params_shape, circuit=circuit, ob_size=lambda self, t: dom if t is doms else cod,
                       _get_n_ancillas=lambda self, b: anc, _summarise_box=lambda self, b: label)
        rotation = lambda j: lambda sym: Q.Parametrized(f'R{j}', Q.qubit, Q.qubit, sym)
        g.unpacks(Q.Ket, Q.Bra)
        g.contract(ansatz_circuit, 'np', Grids(m))
        g.contract(ansatz_circuit, 'cycle', lambda xs: g.list(rotation, 'rotations', n=single + g.int('more', lo=1)))
        g.invariant('CircuitAnsatz._ar', Adds(g, lambda j: Q.Layer(left=Q.Ty(), box=rotation(j)(Symbol(f'{label}_{j}')), right=Q.Ty())))
        g.invariant(('Diagram.tensor', 0), Stacks.by(g))
        basis = g.circuit('basis', Q.qubit, Q.qubit) if ends == 'basis' else Q.Id(Q.qubit)
        a = blank(type('Any', (CircuitAnsatz,), members), n_single_qubit_params=single, single_qubit_rotations=None,
                  discard=ends == 'discard', postselection_basis=basis, n_layers=1)
        c = a._ar(None, box)
        m.wt(c, 'well-typed')
        m.eq([c.dom, c.cod], [qubits(dom), qubits(cod)], 'qubits of the wires')
        (kets, bras, gone), rest = census(g, m, c.layers, Q.Ket, Q.Bra, Q.Discard)
        m.eq(kets, n - dom, 'qubits prepared')
        m.eq([bras, gone], [0, n - cod] if ends == 'discard' else [n - cod, 0], 'qubits discarded or post-selected')
        core = [(k, x) for k, x in rest if not (ends == 'basis' and k is not None and (g.made('stack', x(0).box) or g.made('basis', x(0).box)))]
        if n >= 2:
            m.true(len(core) == 1 and core[0][0] is not None and g.made('laid', core[0][1](0).box), 'the circuit of the ansatz, once')
        elif n == 0 or single == 0:
            m.eq(len(core), 0, 'nothing else')
        else:
            m.eq(len(core), 1, 'one run of rotations')
            k, x = core[0]
            k, x = (1, lambda j: core[0][1]) if k is None else (k, x)
            m.eq(k, single, 'as many rotations as asked for')
            m.all(k, lambda j, m: m.eq(x(j).box.data, Symbol(f'{label}_{j}')), 'a parameter of its own in every rotation')
    h.__name__ = 'boxes_' + ends
    return h


for _e in ('discard', 'postselect', 'basis'):
    ob('P11', CI + 'CircuitAnsatz._ar', 'lambeq.backend.quantum.Ket.__new__', 'lambeq.backend.quantum.Bra.__new__',
       'lambeq.backend.quantum.Id', 'lambeq.backend.grammar.Diagram.tensor', n=30)(laid_out(_e))
