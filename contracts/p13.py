"""P13: symbols and parameter binding."""
import copy
from contracts.reg import ob
from lambeq.backend import symbol as S, tensor as T, quantum as Q
from lambeq.backend.symbol import Symbol, lambdify

SY = 'lambeq.backend.symbol.'
TE = 'lambeq.backend.tensor.'
QU = 'lambeq.backend.quantum.'


def a_symbol(g, name='s'):
    return Symbol(g.string(name), g.int('dom', lo=0, hi=None if g.symbolic else 5),
                  g.int('cod', lo=0, hi=None if g.symbolic else 5), g.real('scale'))


def parts(s):
    return [s.name, s.directed_dom, s.directed_cod]


@ob('P13', SY + 'Symbol.__mul__', SY + 'Symbol.__rmul__', SY + 'Symbol.__neg__', SY + 'Symbol.unscaled',
    SY + 'Symbol.size', n=300)
def scaling(g, m):
    s, x, y = a_symbol(g), g.real('x'), g.real('y')
    for r, f in ((s * x, x), (x * s, x), (-s, -1), (s * x * y, x * y), (-(x * s), -x), (s.unscaled * x, None)):
        m.eq(parts(r), parts(s), 'the symbol stays the same')
        m.eq(r.scale, x if f is None else s.scale * f, 'the scale is multiplied')
    u = s.unscaled
    m.eq(parts(u), parts(s), 'unscaled keeps the symbol')
    m.eq(u.scale, 1, 'unscaled')
    m.true((s * x).unscaled == u, 'scaling keeps the identity')
    m.eq((s * x).size, s.directed_dom * s.directed_cod, 'size')
    if not g.symbolic:
        m.eq(hash(s * x), hash(s), 'hash')


@ob('P13', SY + 'Symbol.__eq__', SY + 'Symbol.__lt__', n=300)
def comparison(g, m):
    """Equality looks at all the parts, the order is by name and then scale."""
    a, b = a_symbol(g, 'a'), a_symbol(g, 'b')
    e = a == b
    m.true(bool(e) == bool(a.name == b.name and a.directed_dom == b.directed_dom
                           and a.directed_cod == b.directed_cod and a.scale == b.scale), 'equality')
    lt = bool(a < b)
    if a.name == b.name:
        m.true(lt == bool(a.scale < b.scale), 'by scale')
    elif not g.symbolic:
        m.eq(lt, a.name < b.name, 'by name')


class Sympy:
    """sympy by contract: c * Symbol(n) is a Mul that gives back c and the
    symbol when c is neither 0 nor 1, and the symbol itself when c is 1."""
    class Expr:
        pass

    class Symbol(Expr):
        def __init__(self, name):
            self.name = name

        def __rmul__(self, c):
            return Sympy.Mul(c, self)
        __mul__ = __rmul__

    class Mul(Expr):
        def __init__(self, c, s):
            self.c, self.s = c, s

        def as_coeff_Mul(self):
            return self.c, self.s


@ob('P13', SY + 'Symbol.to_sympy', 'lambeq.backend.converters.tk._tk_to_lmbq_param', n=100)
def through_sympy(g, m):
    from lambeq.backend.converters import tk
    s = Symbol(g.string('s'), scale=g.real('scale'))
    g.assume(s.scale != 0)
    if g.symbolic:
        import sys
        g.contract(tk, 'sympy', Sympy)
        g.module('sympy', Sympy)
        g.floats(tk)
    r = tk._tk_to_lmbq_param(s.to_sympy())
    m.true(isinstance(r, Symbol), 'a symbol')
    m.eq(parts(r), parts(s), 'same symbol')
    m.eq(r.scale, s.scale, 'same scale')
    m.true(g.symbolic or isinstance(r.scale, (int, float)), 'a number to compute with')
    c = g.real('c')
    m.eq(tk._tk_to_lmbq_param(c), c, 'numbers are kept')


def listed(g):
    """Distinct symbols in any order, with a value each."""
    if g.symbolic:
        name, dom, cod, val = g.names('sym'), g.family('dom'), g.family('cod'), g.reals('val')
        n = g.int('n', lo=0)
        return g.list(lambda i: Symbol(name(i), dom(i), cod(i)), 'symbols', n=n), g.list(val, 'values', n=n)
    n = g.int('n', lo=1, hi=6)
    xs = [Symbol(f's{i}', 1 + i % 2, 1 + i % 3) for i in range(n)]
    g.r.shuffle(xs)
    return g.note('symbols', xs), [g.real('v') for _ in range(n)]


@ob('P13', SY + 'lambdify', n=300)
def bind_symbol(g, m):
    """Whatever the number and order of the listed symbols, a scaled symbol
    becomes its own value times its scale."""
    xs, vs = listed(g)
    j = g.index(xs)
    s = xs[j]
    k = g.real('scale')
    f = lambdify(xs, Symbol(s.name, s.directed_dom, s.directed_cod, k))
    m.eq(f(*vs), k * vs[j], 'own value times the scale')
    m.eq(lambdify(xs, s)(*vs), vs[j], 'own value')
    c = g.real('c')
    m.eq(lambdify(xs, c)(*vs), c, 'constants are kept')
    m.true(lambdify(xs, None)(*vs) is None, 'no data')


@ob('P13', SY + 'lambdify', n=100)
def unlisted_symbol(g, m):
    xs, vs = listed(g)
    if g.symbolic:
        s = Symbol(g.string('other'), g.int('d'), g.int('c'))
        try:
            lambdify(xs, s)
        except ValueError:
            return
        j = g.index(xs)
        m.ok('accepted')
        return
    try:
        lambdify(xs, Symbol('missing'))
    except ValueError:
        m.ok('refused')
    else:
        m.fail('unlisted symbols are refused')


def spread(k, *d):
    out = []
    for x in d:
        out += [x] * k
    return out


@ob('P13', TE + 'Box.lambdify', TE + 'Daggered.lambdify', TE + 'Box.free_symbols', n=200)
def bind_tensor_box(g, m):
    xs, vs = listed(g)
    j = g.index(xs)
    s = xs[j]
    k = g.real('scale')
    a, b = T.Dim(2, 3), T.Dim(4)
    z = g.choice(0, 1)
    box = T.Box('w', a, b, Symbol(s.name, s.directed_dom, s.directed_cod, k)).rotate(z)
    free = list(box.free_symbols)
    m.eq(len(free), 1, 'one free symbol')
    m.eq(parts(free[0]), parts(s), 'the free symbol')
    r = box.lambdify(*xs)(*vs)
    m.eq([r.name, r.z], [box.name, box.z], 'same box')
    m.true(r.dom == box.dom and r.cod == box.cod, 'same type')
    m.eq(r.data, k * vs[j], 'value times scale')
    m.eq(len(r.free_symbols), 0, 'no symbols left')
    d = box.dagger().lambdify(*xs)(*vs)
    m.true(isinstance(d, T.Daggered), 'still daggered')
    m.eq(d.data, k * vs[j], 'daggered data')
    m.eq([d.box.data, d.box.z, d.z], [k * vs[j], box.z, box.z], 'inner box')
    m.true(d.dom == box.cod and d.cod == box.dom, 'daggered type')
    c = T.Box('c', a, b, g.real('c'))
    m.true(c.lambdify(*xs)(*vs) is c, 'constants are left alone')
    m.eq(box.data.scale, k, 'original unchanged')


class Bindable(Q.Box):
    """An arbitrary gate by contract: binding gives the gate with its values."""
    def __init__(self, n, values=None):
        Q.Box.__init__(self, 'gate', Q.qubit ** n, Q.qubit ** n)
        self.values = values
        self.seen = None

    def lambdify(self, *symbols, **kw):
        def fn(*xs):
            r = Bindable(len(self.dom), xs)
            r.seen = symbols
            return r
        return fn


@ob('P13', QU + 'Rotation.lambdify', QU + 'Parametrized.lambdify', QU + 'Controlled.lambdify', n=200)
def bind_gates(g, m):
    xs, vs = listed(g)
    j = g.index(xs)
    s = xs[j]
    k = g.real('scale')
    sym = Symbol(s.name, s.directed_dom, s.directed_cod, k)
    cls = g.choice(Q.Rx, Q.Ry, Q.Rz)
    gate = cls(sym)
    r = gate.lambdify(*xs)(*vs)
    m.true(type(r) is cls, 'same gate')
    m.eq(r.data, k * vs[j], 'value times scale')
    m.eq(r.phase, k * vs[j], 'phase')
    m.true(r.dom == gate.dom and r.cod == gate.cod, 'same type')
    m.eq(len(r.free_symbols), 0, 'no symbols left')
    d = g.choice(-2, -1, 1, 3)
    c = Q.Controlled(gate, d)
    r = c.lambdify(*xs)(*vs)
    m.true(type(r) is Q.Controlled and type(r.controlled) is cls, 'controlled gate')
    m.eq([r.distance, r.data, r.controlled.data], [d, k * vs[j], k * vs[j]], 'distance and values')
    m.true(r.dom == c.dom and r.cod == c.cod, 'controlled type')
    m.eq(gate.data.scale, k, 'original unchanged')


@ob('P13', QU + 'Controlled.lambdify', n=30)
def bind_controlled(g, m):
    """Any gate under the control is bound by its own contract (so nested controls are too)."""
    if not g.symbolic:
        return
    xs, vs = listed(g)
    inner = Bindable(g.choice(1, 2, 3))
    d = g.choice(-3, -1, 1, 2)
    c = Q.Controlled(inner, d)
    r = c.lambdify(*xs)(*vs)
    m.true(type(r) is Q.Controlled and type(r.controlled) is Bindable, 'controlled gate')
    m.eq(r.distance, d, 'distance')
    m.eq(list(r.controlled.values), vs, 'values passed on')
    m.eq(list(r.controlled.seen), xs, 'symbols passed on')
    m.true(r.dom == c.dom and r.cod == c.cod, 'type')


@ob('P13', TE + 'Diagram.lambdify', n=1)
def bind_diagram(g, m):
    """Every box is bound by its own contract, in a diagram with any number of layers."""
    if not g.symbolic:
        return
    xs, vs = listed(g)
    base = g.diagram('d', boxfn=g.bindable)
    d = T.Diagram(dom=base.dom, cod=base.cod, layers=base.layers)
    r = d.lambdify(*xs)(*vs)
    m.true(type(r) is T.Diagram, 'a diagram')
    m.eq(r.dom, d.dom, 'dom')
    m.eq(r.cod, d.cod, 'cod')
    m.eq(len(r.layers), len(d.layers), 'as many layers')
    m.wt(r, 'well-typed')
    i = g.index(d.layers)
    a, b = d.layers[i], r.layers[i]
    m.eq(a.left, b.left, 'left')
    m.eq(a.right, b.right, 'right')
    m.eq(b.box.what(), [a.box.what()[0], True], 'the box, bound')
    m.eq(list(b.box.given[0]), xs, 'symbols passed on')
    m.eq(list(b.box.given[1]), vs, 'values passed on')


# ------------------------------------------------------------ real circuits
def value(data, env):
    return env[data.name] * data.scale if isinstance(data, Symbol) else data


def view(box, env):
    """What the box is with every symbol replaced (written independently)."""
    if isinstance(box, Q.Controlled):
        return ['C', box.distance, view(box.controlled, env), value(box.data, env)]
    if isinstance(box, T.Daggered):
        return ['D', view(box.box, env), value(box.data, env)]
    if isinstance(box, Q.Rotation):
        return [type(box).__name__, value(box.data, env)]
    return [type(box).__name__, box.name, box.z, value(box.data, env)]


def views(d, env):
    return [[symg_wires(l.left), view(l.box, env), symg_wires(l.right)] for l in d.layers]


def symg_wires(t):
    return len(t)


def symbols_in(box):
    if isinstance(box, Q.Controlled):
        return symbols_in(box.controlled)
    if isinstance(box, T.Daggered):
        return symbols_in(box.box)
    return [box.data.name] if isinstance(box.data, Symbol) else []


def nothing_left(m, d):
    m.eq(sorted(s.name for s in d.free_symbols), [], 'no free symbols')
    for b in d.boxes:
        while True:
            m.eq(len(b.free_symbols), 0, f'no free symbols in {b}')
            m.true(not isinstance(b.data, Symbol), 'no symbol in the data')
            if isinstance(b, Q.Controlled):
                b = b.controlled
            elif isinstance(b, T.Daggered):
                b = b.box
            else:
                break


def gate(g, names):
    r = g.r
    k = r.randrange(7)
    if k == 0:
        return r.choice([Q.H, Q.X, Q.S, Q.T, Q.Controlled(Q.X), Q.Controlled(Q.Controlled(Q.Z, -1), 2)])
    if k == 1:
        n = r.choice([1, 2])
        a = Q.Box(f'g{r.randrange(3)}', Q.qubit ** n, Q.qubit ** n, r.choice([Symbol(r.choice(names)) * g.real('scale'), Symbol(r.choice(names))]))
        b = a.dagger()
    else:
        data = g.real('phase') if r.random() < .2 else Symbol(r.choice(names))
        if r.random() < .5:
            data = data * r.choice([-1, .5, 2., -.25])
        if isinstance(data, Symbol) and r.random() < .2:
            data = -data
        b = r.choice([Q.Rx, Q.Ry, Q.Rz])(data)
        if r.random() < .3:
            b = b.dagger()
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        b = Q.Controlled(b, r.choice([-2, -1, 1, 2]))
    return b.rotate(1) if r.random() < .1 and not isinstance(b, T.Daggered) else b


def circuit(g, names):
    boxes = [gate(g, names) for _ in range(g.r.choice([0, 1, 2, 4, 5]))]
    if boxes and g.r.random() < .4:
        boxes.append(boxes[0])             # the same object twice
    w = max([1] + [len(b.dom) for b in boxes])
    d = Q.Id(w)
    for b in boxes:
        i = g.r.randint(0, w - len(b.dom))
        d = d >> Q.Id(i) @ b @ Q.Id(w - i - len(b.dom))
    return g.note('circuit', d)


@ob('P13', QU + 'Diagram.lambdify', QU + 'Controlled.lambdify', TE + 'Diagram.free_symbols', sym=False, n=600)
def circuits(g, m):
    names = ['a', 'b', 'c', 'd'][:g.int('n', lo=1, hi=4)]
    d = circuit(g, names)
    used = sorted({x for b in d.boxes for x in symbols_in(b)})
    m.eq(sorted(s.name for s in d.free_symbols), used, 'free symbols')
    m.true(all(s.scale == 1 for s in d.free_symbols), 'unscaled')
    order = list(names)
    g.r.shuffle(order)
    env = {x: g.real('value') for x in names}
    before = views(d, {x: Symbol(x) for x in names})
    r = d.lambdify(*[Symbol(x) for x in g.note('order', order)])(*[env[x] for x in order])
    m.eq([symg_wires(r.dom), symg_wires(r.cod)], [symg_wires(d.dom), symg_wires(d.cod)], 'type')
    m.eq(views(r, env), views(d, env), 'every symbol replaced by its own value')
    nothing_left(m, r)
    m.true(views(d, {x: Symbol(x) for x in names}) == before, 'original unchanged')


@ob('P13', 'lambeq.training.quantum_model.QuantumModel._fast_subs', sym=False, n=500)
def model_binding(g, m):
    from lambeq.training import NumpyModel
    names = ['a', 'b', 'c', 'd'][:g.int('n', lo=1, hi=4)]
    ds = [circuit(g, names) for _ in range(g.r.choice([1, 1, 2, 3]))]
    for d in ds:
        if g.r.random() < .5:
            d.free_symbols
            for b in d.boxes:
                b.free_symbols
    order = list(names)
    g.r.shuffle(order)
    env = {x: g.real('value') for x in names}
    model = NumpyModel()
    model.symbols = [Symbol(x) for x in g.note('order', order)]
    before = [views(d, {x: Symbol(x) for x in names}) for d in ds]
    rs = model._fast_subs(ds, [env[x] for x in order])
    m.eq(len(rs), len(ds), 'as many diagrams')
    for d, r, b in zip(ds, rs, before):
        m.eq(views(r, env), views(d, env), 'every symbol replaced by its own value')
        nothing_left(m, r)
        m.true(views(d, {x: Symbol(x) for x in names}) == b, 'original unchanged')
    used = {x for d in ds for b in d.boxes for x in symbols_in(b)}
    if used:
        drop = g.r.choice(sorted(used))
        model.symbols = [Symbol(x) for x in order if x != drop]
        try:
            model._fast_subs(ds, [env[x] for x in order if x != drop])
        except KeyError:
            m.ok('missing parameters are refused')
        else:
            m.fail('missing parameters are refused')


@ob('P13', TE + 'Box.lambdify', TE + 'Daggered.lambdify', TE + 'Diagram.lambdify', sym=False, n=300)
def tensors(g, m):
    """Symbols standing for whole tensors."""
    import numpy as np
    r = g.r
    dims = [T.Dim(1), T.Dim(2), T.Dim(3), T.Dim(2, 3), T.Dim(3, 2)]
    boxes, env, syms = [], {}, {}
    cur = r.choice(dims)
    dom = cur
    for i in range(r.choice([1, 2, 3])):
        cod = r.choice(dims)
        nm = f'w{r.randrange(3)}_{cur.dim}_{cod.dim}'
        a = Symbol(nm, cur.product, cod.product)
        syms[nm] = a
        env[nm] = env.get(nm, np.random.RandomState(r.randrange(99)).rand(*cur.dim, *cod.dim))
        k = r.choice([1., 2., -1.5])
        b = T.Box(nm, cur, cod, a * k if k != 1 else a)
        if r.random() < .3:
            nm2 = nm + '+'
            syms[nm2] = Symbol(nm2, cod.product, cur.product)
            env[nm2] = np.random.RandomState(r.randrange(99)).rand(*cod.dim, *cur.dim)
            b = T.Box(nm2, cod, cur, syms[nm2]).dagger()
        boxes.append(b)
        cur = cod
    d = T.Id(dom)
    for b in boxes:
        d = d >> b
    if r.random() < .3:
        d = d.l
    order = sorted(syms)
    r.shuffle(order)
    out = d.lambdify(*[syms[x] for x in order])(*[env[x] for x in order])
    m.eq([b.z for b in out.boxes], [b.z for b in d.boxes], 'conjugation')
    for a, b in zip(d.boxes, out.boxes):
        inner, got = (a.box, b.box) if isinstance(a, T.Daggered) else (a, b)
        m.true(type(a) is type(b) and a.dom == b.dom and a.cod == b.cod and a.name == b.name, 'same box')
        m.eq(np.asarray(got.data), env[inner.data.name] * inner.data.scale, 'value times scale')
        m.eq(np.asarray(b.data), env[inner.data.name] * inner.data.scale, 'value times scale')
    m.eq(len(out.free_symbols), 0, 'no free symbols')
    m.eq(sorted(s.name for s in d.free_symbols), sorted({(b.box if isinstance(b, T.Daggered) else b).data.name for b in d.boxes}), 'free symbols')
