"""Loop contracts for code that lays out gates on any number of qubits."""
from pyvc.rt import LoopSpec, KEEP
from lambeq.backend import grammar, quantum as Q

Ty, Diagram = grammar.Ty, grammar.Diagram


class Param(tuple):
    """The parameter in some row and column of a grid of parameters."""
    row = property(lambda p: p[0])
    col = property(lambda p: p[1])

    def __pv_str__(self):
        return 'theta'

    def __str__(self):
        return 'theta'


def grid(g, rows, cols):
    return g.list(lambda r: g.list(lambda c: Param((r, c)), 'row', n=cols), 'rows', n=rows)


class Piecewise(LoopSpec):
    """The pieces joined by the loop are one box each, or circuits of one type."""
    g = None

    @classmethod
    def by(cls, g):
        """A new loop contract for every run of the loop."""
        return type(cls.__name__, (cls,), {'g': g})

    def single(self, j):
        """The only layer of piece j, or None if its layers are not known."""
        ls = self.of(j).layers
        return ls[0] if self.g.sure(len(ls) == 1) else None

    def empty(self, j):
        """Piece j has no layers."""
        ls = self.of(j).layers
        return self.g.sure(len(ls) == 0)

    def begin(self, L, loc):
        LoopSpec.begin(self, L, loc)
        self.L = L
        self.piece = self.of(0)

    def of(self, j):
        x = self.L.chunk.get(self.g.z(j))
        return x[-1] if type(x) is tuple else x          # enumerated

    def stack(self, i):
        """The layers after i pieces."""
        g, before = self.g, self.entry['layers']
        if self.empty(0):
            return list(before)
        if self.single(0) is not None:
            return g.joined(before, self.layer, i)
        c = g.circuit('stack', self.base(), self.reached(i))
        return c.layers

    def havoc_var(self, L, name, val, i):
        i = self.g.value(i)
        if isinstance(val, Ty):
            return self.wires(name, i)
        if name == 'layers':
            return self.stack(i)
        return KEEP

    def inv(self, L, env, i, m):
        if not hasattr(m, '_rec'):
            return
        i = self.g.value(i)
        for nm in self.modified(L):
            if nm not in env or nm not in self.entry:
                continue
            if isinstance(env[nm], Ty) and isinstance(self.entry[nm], Ty):
                m.eq(env[nm], self.wires(nm, i), f'wires {nm}')
            if nm == 'layers':
                if self.empty(0) or self.single(0) is not None:
                    m.eq(env[nm], self.stack(i), 'layers')
                else:
                    m.wt(Q.Diagram(dom=self.base(), cod=self.reached(i), layers=env[nm]), 'layers')


class Stacks(Piecewise):
    """Diagram.tensor over pieces of one type: after i of them the wires on
    the left are their outputs, those on the right the inputs still to come."""

    def wires(self, name, i):
        g, t0 = self.g, self.entry[name]
        if name == 'left':
            return t0 @ self.times(self.piece.cod, i)
        if name == 'right':
            return t0[self.size(self.piece.dom) * i:]
        return t0

    def size(self, t):
        return 1 if self.g.sure(len(t) == 1) else len(t)

    def times(self, t, i):
        return self.g.power(t, i) if len(t) else t

    def base(self):
        return self.entry['dom']

    def reached(self, i):
        return self.wires('left', i) @ self.wires('right', i)

    def layer(self, j):
        L = self.single(j)
        return Q.Layer(left=self.wires('left', j) @ L.left, box=L.box, right=L.right @ self.wires('right', j + 1))


class Chains(Piecewise):
    """Diagram.then over pieces that keep the wires."""

    def wires(self, name, i):
        return self.entry[name]

    def base(self):
        return self.entry['self'].dom

    def reached(self, i):
        return self.entry['cod']

    def layer(self, j):
        return self.single(j)


class Ledger:
    """Ghost state: which parameters the boxes of a circuit carry, in order,
    as whole rows ('rows', from, to) and parts of a row ('cols', row, from, to)."""

    def __init__(self, g, cols):
        self.g, self.cols = g, cols
        self.claims = {}
        self.row = 0

    def joined(self, items):
        """The same, with neighbours merged."""
        g, out = self.g, []
        for x in items:
            if x[0] == 'cols' and g.sure(x[2] == 0) and g.sure(x[3] == self.cols):
                x = ('rows', x[1], x[1] + 1)
            if g.sure(x[-2] == x[-1]):
                continue
            while out and out[-1][0] == x[0] and g.sure(out[-1][-1] == x[-2]) and (x[0] == 'rows' or g.sure(out[-1][1] == x[1])):
                x = (*x[:-2], out.pop()[-2], x[-1])
                if x[0] == 'cols' and g.sure(x[2] == 0) and g.sure(x[3] == self.cols):
                    x = ('rows', x[1], x[1] + 1)
            out.append(x)
        return out

    def usage(self, m, layers, label):
        g, out = self.g, []
        for n, x in g.pieces(layers):
            if n is None:
                out += self.carried(m, x.box, label)
                continue
            b = x(0).box
            if hasattr(b, 'sym'):
                out += self.carried(m, b, label)
                continue
            p = b.data
            if isinstance(p, Param):
                m.all(n, lambda j, m: m.eq(x(j).box.data, Param((p.row, p.col + j))), label + ': one after the other')
                out.append(('cols', p.row, p.col, p.col + n))
            else:
                m.all(n, lambda j, m: m.true(not isinstance(x(j).box.data, Param)), label + ': no parameters')
        return self.joined(out)

    def carried(self, m, b, label):
        if hasattr(b, 'sym'):
            if b.sym not in self.claims:
                m.fail(label + ': unknown circuit')
                return []
            return self.claims[b.sym]
        return [('cols', b.data.row, b.data.col, b.data.col + 1)] if isinstance(b.data, Param) else []


class Keeps(LoopSpec):
    """The circuits under construction keep going from and to the same wires;
    iteration i adds row i of the parameters (rows=True), or columns
    start + per * i, ... of the current row."""

    def __init__(self, g, ledger, rows=False, start=0, per=0):
        self.g, self.ledger, self.rows, self.start, self.per = g, ledger, rows, start, per

    def added(self, i):
        if self.rows:
            return [('rows', 0, i)]
        a = self.start
        return [('cols', self.ledger.row, a, a + self.per * i)] if self.per else []

    def havoc(self, L, loc, i):
        if self.rows:
            self.ledger.row = self.g.value(i)
        return LoopSpec.havoc(self, L, loc, i)

    def havoc_var(self, L, name, val, i):
        d = self.entry[name] if isinstance(val, Diagram) else None
        if d is None:
            return KEEP
        c = self.g.circuit(name, d.cod, d.cod)
        (_, x), = self.g.pieces(c.layers)
        self.ledger.claims[x(0).box.sym] = self.added(self.g.value(i))
        return type(d)(dom=d.dom, cod=d.cod, layers=[*d.layers, *c.layers])

    def inv(self, L, env, i, m):
        if not hasattr(m, '_rec'):
            return
        i = self.g.value(i)
        for nm in self.modified(L):
            d, e = env.get(nm), self.entry.get(nm)
            if isinstance(d, Diagram) and isinstance(e, Diagram):
                m.eq(d.dom, e.dom, f'domain of {nm}')
                m.eq(d.cod, e.cod, f'codomain of {nm}')
                m.wt(d, f'{nm} well-typed')
                before = self.ledger.usage(m, e.layers, f'parameters before {nm}')
                after = self.ledger.usage(m, d.layers, f'parameters of {nm}')
                m.eq(after, self.ledger.joined([*before, *self.added(i)]), f'parameters used once in {nm}')


class Adds(LoopSpec):
    """After i iterations the circuit has i more layers, layer(0), ..., layer(i - 1)."""

    def __init__(self, g, layer):
        self.g, self.layer = g, layer

    def value(self, name, i):
        d = self.entry[name]
        return type(d)(dom=d.dom, cod=d.cod, layers=self.g.joined(d.layers, self.layer, i))

    def havoc_var(self, L, name, val, i):
        return self.value(name, self.g.value(i)) if isinstance(val, Diagram) else KEEP

    def inv(self, L, env, i, m):
        if hasattr(m, '_rec'):
            for nm in self.modified(L):
                if isinstance(env.get(nm), Diagram) and isinstance(self.entry.get(nm), Diagram):
                    m.eq(env[nm], self.value(nm, self.g.value(i)), f'layers of {nm}')


class Grids:
    """What the circuit ansaetze ask of numpy: an array of given elements in a given shape."""

    def __init__(self, m):
        self.m = m

    def __getattr__(self, name):
        from pyvc.core import Unsupported
        raise Unsupported('numpy.' + name)

    def prod(self, shape):
        k = 1
        for x in shape:
            k = k * x
        return k

    def array(self, xs):
        return Flat(self.m, xs)


class Flat:
    def __init__(self, m, xs):
        self.m, self.xs, self.shape = m, xs, None

    def reshape(self, shape):
        k = 1
        for x in shape:
            k = k * x
        self.m.eq(len(self.xs), k, 'as many parameters as the shape has places')
        self.shape = shape
        return self


def census(g, m, layers, *classes):
    """Number of boxes of each class, and what else there is."""
    out, rest = [0] * len(classes), []
    for n, x in g.pieces(layers):
        b = x.box if n is None else x(0).box
        if n is None or hasattr(b, 'sym'):
            known = [i for i, c in enumerate(classes) if isinstance(b, c)] if not hasattr(b, 'sym') else []
        else:
            known = [i for i, c in enumerate(classes) if isinstance(b, c)]
            for i in known:
                m.all(n, lambda j, m: m.true(isinstance(x(j).box, classes[i])), 'boxes of one kind')
        if known:
            out[known[0]] = out[known[0]] + (1 if n is None else n)
        else:
            rest.append((n, x))
    return out, rest
