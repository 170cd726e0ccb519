"""Vectors of unknown length, elementwise (numpy 1-d arrays by contract).

A vector is its length and the function from index to entry; operations are
elementwise, in-place operations replace the function.  `Numpy` stands for the
module numpy inside a function under check: it implements the listed functions
on such vectors and is numpy itself on everything else."""
from __future__ import annotations
import numpy
import z3
from . import core, rt, session
from .core import Unsupported, SymReal, SymInt, SymBool, Sym, zi, mkint, mkbool, zr, zb
from .num import Num
from .seqs import SymList, Chunk, as_symlist


class NaN:
    """An entry that is not a number (result of a division by zero)."""
    def _bin(self, o):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bin
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __mod__ = _bin

    def __neg__(self):
        return self
    __abs__ = __pos__ = __neg__

    def _cmp(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _cmp

    def __ne__(self, o):
        return True
    __hash__ = None

    def __repr__(self):
        return 'NaN'


NAN = NaN()


def div(a, b):
    """Division as numpy does it: no exception, the result is not a number."""
    if isinstance(a, NaN) or isinstance(b, NaN):
        return NAN
    if isinstance(a, Num) or isinstance(b, Num):
        return a / b
    if core.ctx().decide(zr(b) == 0):
        return NAN
    return SymReal(z3.simplify(zr(a) / zr(b)))


def both(a, b, f):
    if isinstance(a, NaN) or isinstance(b, NaN):
        return NAN
    return f(a, b)


def ite(c, a, b):
    if c is True or c is False:
        return a if c else b
    if isinstance(a, (SymReal, SymInt, int, float)) and isinstance(b, (SymReal, SymInt, int, float)):
        return SymReal(z3.If(zb(c), zr(a), zr(b)))
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(zb(c), zb(a), zb(b)))
    return a if core.ctx().decide(zb(c)) else b


def lesser(a, b):
    return both(a, b, lambda a, b: SymReal(z3.If(zr(a) <= zr(b), zr(a), zr(b))))


def greater(a, b):
    return both(a, b, lambda a, b: SymReal(z3.If(zr(a) >= zr(b), zr(a), zr(b))))


def entry(x):
    """Entry function of an operand of an elementwise operation, or None."""
    if isinstance(x, Order):
        return x.at
    if isinstance(x, Vec):
        return x.f
    if isinstance(x, SymList):
        y = SymList(list(x.segs))
        return lambda i: y.at(zi(i))
    if isinstance(x, (Sym, Num, NaN, int, float, bool, numpy.number)):
        return lambda i: x
    if isinstance(x, numpy.ndarray) and x.shape == ():
        return lambda i: x.item()
    return None


def size(*xs):
    for x in xs:
        if isinstance(x, Vec):
            return x.n
        if isinstance(x, SymList):
            return x.zlen
    return None


def lift(f, *xs):
    fs = [entry(x) for x in xs]
    if any(e is None for e in fs):
        return NotImplemented
    ns = [size(x) for x in xs if size(x) is not None]
    for m in ns[1:]:
        if not core.ctx().decide(zi(ns[0]) == zi(m)):
            raise ValueError('operands could not be broadcast together')
    return Vec(ns[0], lambda i: f(*[e(i) for e in fs]))


OPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'truediv': div, 'mod': lambda a, b: a % b,
}
CMPS = {
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
}


class Vec:
    __array_priority__ = 3000
    __array_ufunc__ = None
    ndim = 1
    dtype = float

    def __init__(self, n, f, tag=None):
        self.n, self.f, self._tag = n, f, tag
        self.base, self.stores = f, []

    # ghost identity of the contents
    @property
    def tag(self):
        if self._tag is None:
            self._tag = core.ctx().int('tag')
        return self._tag

    def set(self, f, tag=None):
        self.f, self._tag = f, tag
        self.base, self.stores = f, []

    def at(self, i):
        return self.f(i)

    def __pv_len__(self):
        return mkint(zi(self.n))

    def __len__(self):
        n = core.concrete_int(mkint(zi(self.n)))
        if n is None:
            raise Unsupported('len() of a vector of unknown length')
        return n

    @property
    def shape(self):
        return (self.__pv_len__(),)

    @property
    def size(self):
        return self.__pv_len__()

    def __pv_items__(self):
        yield Chunk(zi(self.n), lambda i: self.f(i))

    def __iter__(self):
        raise Unsupported('iterating over a vector outside instrumented code')

    def _norm(self, i):
        e = zi(i)
        c = core.ctx()
        if c.decide(e < 0):
            e = e + zi(self.n)
        if c.decide(z3.Or(e < 0, e >= zi(self.n))):
            raise IndexError('index out of bounds')
        return z3.simplify(e)

    def __getitem__(self, i):
        if isinstance(i, (int, SymInt, numpy.integer)) and not isinstance(i, bool):
            return self.f(mkint(self._norm(i)))
        if isinstance(i, slice):
            return self if i == slice(None) else Blur()
        if isinstance(i, Order):
            return self.take(i)
        raise Unsupported(f'vector index {i!r}')

    def take(self, ind, axis=None):
        if not isinstance(ind, Order) or axis not in (0, None):
            raise Unsupported('take')
        f = self.f
        return Vec(self.n, lambda k: f(ind.at(k)))

    def min(self):
        o = Order(self.copy())
        r = self.f(o.at(0))
        o.where(0)
        return r

    def __setitem__(self, i, v):
        if isinstance(i, slice) and i == slice(None):
            w = lift(lambda a, b: b, self, v)
            self.set(w.f)
            return
        if not isinstance(i, (int, SymInt, numpy.integer)) or isinstance(i, bool):
            raise Unsupported(f'vector index {i!r}')
        k, old = self._norm(i), self.f
        base, stores = self.base, self.stores + [(k, v)]
        self.set(lambda j: ite(mkbool(zi(j) == k), v, old(j)) if not z3.eq(zi(j), k) else v)
        self.base, self.stores = base, stores

    def copy(self, *a, **kw):
        v = Vec(self.n, self.f, self.tag)
        return v

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **kw):
        return self.copy()

    def __neg__(self):
        return lift(lambda a: -a, self)

    def __abs__(self):
        return lift(abs, self)

    def __pow__(self, k):
        return lift(lambda a: both(a, k, lambda a, k: a ** k), self)

    def clip(self, lo=None, hi=None, out=None):
        r = self
        if lo is not None:
            r = lift(greater, r, lo)
        if hi is not None:
            r = lift(lesser, r, hi)
        if out is not None:
            out.set(r.f)
            return out
        return r

    def squeeze(self):
        if core.ctx().decide(zi(self.n) == 1):
            return self.f(0)
        return self

    def fill(self, v):
        self.set(lambda i: v)

    def tolist(self):
        f = self.f
        return SymList([Chunk(zi(self.n), lambda i: f(i))])

    def _quant(self, want):
        """any (want True) / all (want False): fork on the existence of an index."""
        f, n = self.f, zi(self.n)
        c = core.ctx()
        r = c.choose(2) == 0
        c.soft -= 1
        if r:
            k = c.int('ex')
            c.add(z3.And(k >= 0, k < n))
            if rt.truth(f(mkint(k))) is not want:
                raise core.Infeasible
            return want
        for_every(n, f, not want)
        return not want

    def any(self, *a):
        return self._quant(True)

    def all(self, *a):
        return self._quant(False)

    def __bool__(self):
        raise ValueError('the truth value of an array is ambiguous')

    def __hash__(self):
        raise TypeError('unhashable')

    def __repr__(self):
        return f'Vec({self.n})'

    def __getattr__(self, name):
        raise Unsupported(f'vector attribute {name}') if not name.startswith('__') else AttributeError(name)


# Facts (length, entry function, truth value) about every index, and indices at
# which to instantiate them: kept with the path on which they hold.
def for_every(n, f, v):
    """A fact about all indices."""
    c = core.ctx()
    c.store['#forall'] = (*c.store.get('#forall', ()), (n, f, v))
    for i in c.store.get('#known', ()):
        at_every(i, [(n, f, v)])


def seen(i):
    """An index at which later facts will be instantiated, too."""
    c = core.ctx()
    c.store['#known'] = (*c.store.get('#known', ()), zi(i))
    at_every(i)


def at_every(i, facts=None):
    """Instantiate the known facts about all indices at i."""
    for n, f, v in core.ctx().store.get('#forall', ()) if facts is None else facts:
        ok = z3.And(zi(i) >= 0, zi(i) < n)

        def th():
            core.ctx().add(ok)
            return f(mkint(zi(i)))
        e = rt.formula(th)
        core.ctx().add(z3.Implies(ok, e if v else z3.Not(e)))


def _mk(name, op):
    def fwd(self, o):
        return lift(op, self, o)

    def rev(self, o):
        return lift(lambda a, b: op(b, a), self, o)

    def inp(self, o):
        r = lift(op, self, o)
        if r is NotImplemented:
            return r
        if o is self or isinstance(o, Vec) or True:
            self.set(r.f)
        return self
    return fwd, rev, inp


for _n, _op in OPS.items():
    _f, _r, _i = _mk(_n, _op)
    setattr(Vec, f'__{_n}__', _f)
    setattr(Vec, f'__r{_n}__', _r)
    setattr(Vec, f'__i{_n}__', _i)
for _n, _op in CMPS.items():
    setattr(Vec, f'__{_n}__', _mk(_n, _op)[0])
Vec.__hash__ = None


class Blur:
    """An array of which nothing is known but the number of columns."""
    def __init__(self, c=None):
        self.c = c

    def _op(self, *a):
        return self
    __sub__ = __rsub__ = __add__ = __radd__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __abs__ = __neg__ = _op
    __array_ufunc__ = None

    def _real(self, *a):
        return SymReal(z3.Real(core.ctx().fresh_name('blur')))
    max = min = _real

    def sum(self, axis=None, **kw):
        if axis is None or self.c is None:
            return self._real()
        F = z3.Function(core.ctx().fresh_name('mean'), z3.IntSort(), z3.RealSort())
        return Vec(self.c, lambda i: SymReal(F(zi(i))))
    mean = sum


class Order:
    """The result of argsort by contract: a permutation that sorts."""
    def __init__(self, v):
        c = core.ctx()
        s = c.fresh_name('order')
        self.n, f = v.n, v.f
        P, Q = (z3.Function(s + x, z3.IntSort(), z3.IntSort()) for x in ('', '~'))
        n = zi(v.n)

        def seen():
            """Indices whose facts are known in this context."""
            cc, out = core.ctx(), []
            while cc is not None:
                out += cc.__dict__.get('order_seen', {}).get(s, [])
                cc = cc.parent
            return out

        def at(i):
            """Position in v of the i-th smallest entry."""
            i = z3.simplify(zi(i))
            old = seen()
            if any(z3.eq(i, j) for j in old):
                return P(i)
            cc = core.ctx()
            cc.__dict__.setdefault('order_seen', {}).setdefault(s, []).append(i)
            cc.uninterp = True
            cc.add(z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n, Q(P(i)) == i)))
            x = zr(f(P(i)))
            for j in old:
                y = zr(f(P(j)))
                cc.add(z3.Implies(z3.And(0 <= j, j <= i, i < n), y <= x))
                cc.add(z3.Implies(z3.And(0 <= i, i <= j, j < n), x <= y))
            return P(i)

        def where(k):
            """Rank of position k."""
            k = zi(k)
            core.ctx().add(z3.Implies(z3.And(k >= 0, k < n), z3.And(Q(k) >= 0, Q(k) < n, P(Q(k)) == k)))
            at(Q(k))
            return Q(k)
        self.at, self.where = at, where

    def __getitem__(self, i):
        return mkint(self.at(i))


class Rows:
    """A matrix of unknown shape, row by row."""
    ndim = 2
    dtype = float
    __array_ufunc__ = None

    def __init__(self, n, c, row):
        self.n, self.c, self.row = zi(n), zi(c), row

    @staticmethod
    def family(n, c, name='sim', fact=None):
        """Arbitrary rows (ghost: one tag per row)."""
        s = core.ctx().fresh_name(name)
        F = z3.Function(s, z3.IntSort(), z3.IntSort(), z3.RealSort())
        T = z3.Function(s + '~tag', z3.IntSort(), z3.IntSort())

        def row(k):
            k = zi(k)

            def get(i):
                x = SymReal(F(k, zi(i)))
                if fact is not None:
                    fact(x, i)
                return x
            return Vec(zi(c), get, tag=T(k))
        return Rows(n, c, row)

    @property
    def shape(self):
        return (mkint(self.n), mkint(self.c))

    def __pv_len__(self):
        return mkint(self.n)

    def _norm(self, i):
        return Vec._norm(self, i)

    def __getitem__(self, k):
        if isinstance(k, (int, SymInt)) and not isinstance(k, bool):
            return self.row(self._norm(k)).copy()
        if isinstance(k, slice):
            return Blur(self.c)
        if isinstance(k, Order):
            return self.take(k, 0)
        raise Unsupported(f'matrix index {k!r}')

    def __setitem__(self, k, v):
        if not isinstance(k, (int, SymInt)) or isinstance(k, bool):
            raise Unsupported(f'matrix index {k!r}')
        if not isinstance(v, Vec):
            raise Unsupported('row of a matrix')
        e, old, v = self._norm(k), self.row, v.copy()


        def row(j):
            q = z3.simplify(zi(j) == e)
            if z3.is_true(q):
                return v
            if z3.is_false(q):
                return old(j)
            u = old(j)
            return Vec(self.c, lambda i: ite(mkbool(q), v.f(i), u.f(i)), tag=z3.If(q, zi(v.tag), zi(u.tag)))
        self.row = row

    def take(self, ind, axis=None, **kw):
        if not isinstance(ind, Order) or axis != 0:
            raise Unsupported('take')
        row = self.row
        return Rows(self.n, self.c, lambda k: row(ind.at(k)))

    def clip(self, lo=None, hi=None):
        row = self.row
        T = z3.Function(core.ctx().fresh_name('clipped'), z3.IntSort(), z3.IntSort())

        def new(k):
            v = row(k).clip(lo, hi)
            v._tag = T(zi(k))
            return v
        return Rows(self.n, self.c, new)

    def copy(self, *a):
        return Rows(self.n, self.c, self.row)

    def __pv_items__(self):
        row = self.row
        yield Chunk(self.n, lambda k: row(k).copy())
    __hash__ = None


class Bounds:
    """A two-column array: lower and upper bound per index."""
    def __init__(self, n, lo, hi):
        self.n, self.lo, self.hi = n, lo, hi
        self.ndim = 2

    def __pv_len__(self):
        return mkint(zi(self.n))

    @property
    def shape(self):
        return (self.__pv_len__(), 2)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and k[1] in (0, 1, -1, -2):
            return Vec(self.n, self.lo if k[1] in (0, -2) else self.hi)
        if isinstance(k, tuple) and len(k) == 2 and k[0] is Ellipsis and k[1] in (0, 1, -1, -2):
            return Vec(self.n, self.lo if k[1] in (0, -2) else self.hi)
        raise Unsupported(f'bounds index {k!r}')

    @property
    def T(self):
        return [Vec(self.n, self.lo), Vec(self.n, self.hi)]

    def __pv_items__(self):
        yield Chunk(zi(self.n), lambda i: (self.lo(i), self.hi(i)))


class Atom:
    """One set known by its membership predicate; possibly empty."""
    wrap = None

    def __init__(self, pred, wrap=None):
        self.pred, self._some = pred, None
        if wrap is not None:
            self.wrap = wrap

    def has(self, x):
        return False if self._some is False else self.pred(x)

    def assume(self, x):
        """A formula saying that x is in."""
        return zb(self.has(x))

    def some(self):
        """Empty or not: an arbitrary choice, remembered."""
        if self._some is None:
            c = core.ctx()
            self._some = c.choose(2) == 0
            c.soft -= 1
        return self._some


class Union(Atom):
    """The union of n sets set(0), ..., set(n - 1)."""
    def __init__(self, n, set):
        self.n, self._some = zi(n), None
        got = {}

        def at(i):
            k = zi(i).sexpr()
            if k not in got:
                got[k] = set(i)
            return got[k]
        self.set = at

    @property
    def wrap(self):
        return self.set(core.ctx().int('el')).wrap

    def assume(self, x):
        i = core.ctx().int('in')
        seen(i)
        return z3.And(i >= 0, i < self.n, *[z3.Or(*[a.assume(x) for a in self.set(i).atoms])])

    def has(self, x):
        c = core.ctx()
        if c.choose(2) == 0:
            c.add(self.assume(x))
            return True
        for_every(self.n, lambda i: mkbool(zb(self.set(i).has(x))), False)
        return False

    def some(self):
        return core.ctx().decide(self.n > 0) and Atom.some(self)


class Elements(Chunk):
    """The elements of a set, in some order."""
    __slots__ = ('src',)


class Members:
    """A set known by membership only: a union of atoms."""
    def __init__(self, pred=None, atoms=(), wrap=None):
        self.atoms = [Atom(pred, wrap)] if pred is not None else list(atoms)

    @property
    def wrap(self):
        """From names to elements."""
        return next((a.wrap for a in self.atoms if a.wrap), None) or (lambda x: x)

    def elements(self, rank=None):
        """A list of the elements; ordered by rank, if given."""
        c = core.ctx()
        s = c.fresh_name('elem')
        n = c.int('card')
        c.add(n >= 0)
        F = z3.Function(s, z3.IntSort(), z3.StringSort())
        H = z3.Function(s + '~', z3.StringSort(), z3.IntSort())
        wrap = self.wrap

        def get(i):
            i = zi(i)
            cc = core.ctx()
            cc.uninterp = True
            x = wrap(core.mkstr(F(i)))
            ok = z3.And(i >= 0, i < n)
            got = cc.store.get(s, ())
            if any(i.eq(j) for j, _ in got):
                return x
            cc.store[s] = (*got, (i, x))
            cc.add(z3.Implies(ok, z3.And(H(F(i)) == i, z3.Or(*[a.assume(x) for a in self.atoms]))))
            if rank is not None:
                for j, y in got:
                    cc.add(z3.Implies(z3.And(ok, j >= 0, j < i), rank(y, x)))
                    cc.add(z3.Implies(z3.And(ok, i < j, j < n), rank(x, y)))
            return x
        ch = Elements(n, get)
        object.__setattr__(ch, 'src', self)
        return ch

    def __pv_items__(self):
        yield self.elements()

    def __iter__(self):
        return self.__pv_items__()

    @staticmethod
    def of(xs):
        """The set of the elements of a list."""
        if isinstance(xs, SymList):
            if all(isinstance(s, Elements) for s in xs.segs):
                return Members(atoms=[a for s in xs.segs for a in s.src.atoms])
            return Members(lambda x: rt.contains(x, xs))
        xs = list(xs)
        return Members(lambda x: mkbool(z3.Or(*[zb(x == y) for y in xs]))) if xs else Members()

    def __contains__(self, x):
        return rt.truth(self.has(x))

    def has(self, x):
        if any(isinstance(p, Union) for p in self.atoms):
            return any(rt.truth(p.has(x)) for p in sorted(self.atoms, key=lambda p: isinstance(p, Union)))
        fs = [zb(p.has(x)) for p in self.atoms]
        return mkbool(z3.Or(*fs)) if fs else False

    def union(self, *others):
        r = Members(atoms=self.atoms)
        for o in others:
            r.atoms += (o if isinstance(o, Members) else Members.of(o)).atoms
        return r
    __or__ = union

    def __ior__(self, o):
        self.atoms = self.union(o).atoms
        return self

    def add(self, x):
        self.atoms = self.union([x]).atoms

    def copy(self):
        return self.union()

    def update(self, *os):
        self.atoms = self.union(*os).atoms

    def __bool__(self):
        return any([a.some() for a in self.atoms])

    def __pv_len__(self):
        raise Unsupported('size of a set known by membership')
    __hash__ = None


class Arranged(Chunk):
    """The sorted list of another one."""
    __slots__ = ('where',)


def arranged(ch, key, reverse):
    """The elements of a list in another order: none smaller than an earlier
    (by the key)."""
    c = core.ctx()
    s = c.fresh_name('sorted')
    F, H = [z3.Function(s + x, z3.IntSort(), z3.IntSort()) for x in ('', '~')]
    n = ch.n

    def get(i):
        i = zi(i)
        cc = core.ctx()
        cc.uninterp = True
        got = cc.store.get(s, ())
        x = ch.get(F(i))
        if any(i.eq(j) for j, _ in got):
            return x
        cc.store[s] = (*got, (i, x))
        ok = z3.And(i >= 0, i < n)
        cc.add(z3.Implies(ok, z3.And(F(i) >= 0, F(i) < n, H(F(i)) == i)))
        for j, y in got:
            less = rt.formula(lambda: key(x) < key(y))
            more = rt.formula(lambda: key(y) < key(x))
            if reverse:
                less, more = more, less
            cc.add(z3.Implies(z3.And(ok, j >= 0, j < i), z3.Not(less)))
            cc.add(z3.Implies(z3.And(ok, i < j, j < n), z3.Not(more)))
        return x
    out = Arranged(n, get)

    def where(q):
        """The place in the sorted list of element q of the original one."""
        q = zi(q)
        core.ctx().add(z3.Implies(z3.And(q >= 0, q < n), z3.And(H(q) >= 0, H(q) < n, F(H(q)) == q)))
        get(H(q))
        return core.mkint(H(q))
    out.where = where
    return SymList([out])


def ordered(segs, key, reverse):
    """sorted(elements of a set): the elements, none smaller than an earlier."""
    if len(segs) != 1 or not isinstance(segs[0], Chunk):
        raise Unsupported('sorted over unknown length')
    k = key or (lambda x: x)
    if not isinstance(segs[0], Elements):
        return arranged(segs[0], k, reverse)
    if reverse:
        raise Unsupported('sorted in reverse')

    def rank(x, y):
        return z3.Not(rt.formula(lambda: k(y) < k(x)))
    return SymList([segs[0].src.elements(rank)])


class SetType:
    """Stands for the type `set` in a module under check."""
    def __call__(self, xs=()):
        return Members().union(xs) if isinstance(xs, Members) else Members.of(xs)

    def union(self, *sets):
        if not sets:
            raise TypeError("unbound method set.union() needs an argument")
        return sets[0].union(*sets[1:])


class Numpy:
    """The module numpy, with vectors of unknown length."""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        return getattr(numpy, name)

    def empty(self, n, *a, **kw):
        if isinstance(n, tuple) and len(n) == 2 and any(isinstance(x, SymInt) for x in n):
            return Rows.family(n[0], n[1], 'empty')
        return self.zeros(n, *a, **kw)

    def full(self, n, v, *a, **kw):
        n = n[0] if isinstance(n, tuple) and len(n) == 1 else n
        return Vec(zi(n), lambda i: v) if isinstance(n, SymInt) else numpy.full(n, v, *a, **kw)

    def argsort(self, v, *a, **kw):
        return Order(v.copy()) if isinstance(v, Vec) else numpy.argsort(v, *a, **kw)

    def min(self, v, *a, **kw):
        if not isinstance(v, Vec):
            return numpy.min(v, *a, **kw)
        return v.min()
    amin = min

    def max(self, v, *a, **kw):
        if not isinstance(v, Vec):
            return v.max() if isinstance(v, Blur) else numpy.max(v, *a, **kw)
        return v.f(Order(v.copy()).at(zi(v.n) - 1))

    def _vec(self, x):
        if isinstance(x, Vec):
            return x
        if isinstance(x, SymList):
            y = SymList(list(x.segs))
            return Vec(y.zlen, lambda i: y.at(zi(i)))
        return None

    def array(self, x, *a, copy=True, **kw):
        v = self._vec(x)
        if v is None:
            if isinstance(x, Bounds):
                return x
            if isinstance(x, Rows):
                return x.copy()
            return numpy.array(x, *a, copy=copy, **kw)
        return v.copy()

    def asarray(self, x, *a, **kw):
        v = self._vec(x)
        return v if v is not None else x if isinstance(x, (Bounds, Rows, Sym)) else numpy.asarray(x, *a, **kw)

    asfarray = asarray

    def copy(self, x, *a, **kw):
        return x.copy() if isinstance(x, (Vec, Rows)) else numpy.copy(x, *a, **kw)

    def zeros(self, n, *a, **kw):
        n = n[0] if isinstance(n, tuple) and len(n) == 1 else n
        return Vec(zi(n), lambda i: 0.) if isinstance(n, SymInt) else numpy.zeros(n, *a, **kw)

    def ones(self, n, *a, **kw):
        n = n[0] if isinstance(n, tuple) and len(n) == 1 else n
        return Vec(zi(n), lambda i: 1.) if isinstance(n, SymInt) else numpy.ones(n, *a, **kw)

    def zeros_like(self, x, *a, **kw):
        return Vec(x.n, lambda i: 0.) if isinstance(x, Vec) else numpy.zeros_like(x, *a, **kw)

    def ones_like(self, x, *a, **kw):
        return Vec(x.n, lambda i: 1.) if isinstance(x, Vec) else numpy.ones_like(x, *a, **kw)

    def _lift(self, name, f, *xs, **kw):
        if any(isinstance(x, Blur) for x in xs):
            return Blur()
        if any(isinstance(x, (Vec, SymList)) for x in xs):
            return lift(f, *xs)
        if any(isinstance(x, (Sym, Num, NaN)) for x in xs):
            return f(*xs)
        return getattr(numpy, name)(*xs, **kw)

    def minimum(self, a, b):
        return self._lift('minimum', lesser, a, b)

    def maximum(self, a, b):
        return self._lift('maximum', greater, a, b)

    def clip(self, x, lo, hi, out=None):
        return x.clip(lo, hi, out) if isinstance(x, Vec) else numpy.clip(x, lo, hi)

    def where(self, c, a, b):
        return self._lift('where', lambda c, a, b: ite(c if isinstance(c, (bool, SymBool)) else c != 0, a, b), c, a, b)

    def abs(self, x):
        return self._lift('abs', abs, x)
    absolute = abs

    def mod(self, a, b):
        return self._lift('mod', lambda a, b: a % b, a, b)
    remainder = mod

    def add(self, a, b):
        return self._lift('add', OPS['add'], a, b)

    def subtract(self, a, b):
        return self._lift('subtract', OPS['sub'], a, b)

    def multiply(self, a, b):
        return self._lift('multiply', OPS['mul'], a, b)

    def divide(self, a, b, out=None, where=True):
        if not any(isinstance(x, (Vec, Sym)) for x in (a, b)):
            kw = {} if where is True else dict(where=where)
            return numpy.divide(a, b, out=out, **kw)
        if where is True:
            r = self._lift('divide', div, a, b)
        else:
            old = entry(out) if out is not None else (lambda i: NAN)
            fa, fb, fw = entry(a), entry(b), entry(where)
            r = Vec(size(a, b, where), lambda i: div(fa(i), fb(i)) if rt.truth(fw(i)) else old(i))
        if out is not None:
            out.set(r.f)
            return out
        return r
    true_divide = divide

    def sign(self, x):
        return self._lift('sign', lambda a: SymReal(z3.If(zr(a) > 0, 1., z3.If(zr(a) < 0, -1., z3.RealVal(0)))), x)

    def floor(self, x):
        if isinstance(x, Num):
            from . import num
            return num.whole(core.ctx().fresh_name('whole'))
        return self._lift('floor', lambda a: SymReal(z3.ToReal(z3.ToInt(zr(a)))), x)

    def isnan(self, x):
        return self._lift('isnan', lambda a: isinstance(a, NaN), x)

    def isinf(self, x):
        return self._lift('isinf', lambda a: False, x)

    def isfinite(self, x):
        return self._lift('isfinite', lambda a: not isinstance(a, NaN), x)

    def any(self, x, *a, **kw):
        return x.any() if isinstance(x, Vec) else numpy.any(x, *a, **kw)

    def all(self, x, *a, **kw):
        return x.all() if isinstance(x, Vec) else numpy.all(x, *a, **kw)

    def isscalar(self, x):
        return True if isinstance(x, (Sym, Num)) else numpy.isscalar(x)


class Random:
    """numpy.random by contract: choice picks arbitrary members."""
    def __init__(self, log):
        self.log = log

    def __getattr__(self, name):
        if name in ('RandomState', 'default_rng', 'Generator'):
            return getattr(numpy.random, name)
        raise Unsupported(f'numpy.random.{name}')

    def rand(self, n=None, *a):
        if a or n is None:
            raise Unsupported('shape of random numbers')
        F = z3.Function(core.ctx().fresh_name('rand'), z3.IntSort(), z3.RealSort())

        def get(i):
            x = F(zi(i))
            core.ctx().add(z3.And(x >= 0, x < 1))
            return SymReal(x)
        return Vec(zi(n), get)

    def choice(self, xs, size=None, **kw):
        size = size[0] if isinstance(size, tuple) else size
        xs = list(xs)
        if len(xs) != 2 or size is None:
            raise Unsupported('choice')
        B = z3.Function(core.ctx().fresh_name('pick'), z3.IntSort(), z3.BoolSort())
        v = Vec(zi(size), lambda i: SymReal(z3.If(B(zi(i)), zr(xs[0]), zr(xs[1]))))
        self.log.append(v)
        return v

    def randint(self, lo, hi=None, size=None, **kw):
        if hi is None:
            lo, hi = 0, lo
        size = size[0] if isinstance(size, tuple) else size
        F = z3.Function(core.ctx().fresh_name('draw'), z3.IntSort(), z3.IntSort())

        def get(i):
            x = F(zi(i))
            core.ctx().add(z3.And(x >= lo, x < hi))
            return SymReal(z3.ToReal(x))
        v = Vec(zi(size), get)
        self.log.append(v)
        return v


class Fake:
    """A module of which only some names are known."""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'unknown name {name}')


class Torch:
    """torch by contract: random vectors; parameters are their values."""
    def __init__(self):
        self.rand = Random(None).rand
        import torch
        self.nn = Fake(Parameter=lambda x: x, ParameterList=lambda x=(): x, Module=torch.nn.Module)

    def __getattr__(self, name):
        raise Unsupported(f'torch.{name}')


def sqrt(x):
    """The nonnegative root; nothing more is needed of it."""
    import math
    if not isinstance(x, (SymReal, SymInt)):
        return math.sqrt(x)
    c = core.ctx()
    c.uninterp = True
    if rt.truth(x < 0):
        raise ValueError('math domain error')
    r = z3.Real(c.fresh_name('root'))
    c.add(z3.And(r >= 0, (r == 0) == (zr(x) == 0)))
    return SymReal(r)


def same_nan(a, b):
    if isinstance(a, NaN) or isinstance(b, NaN):
        return session.NO, f'{a!r} and {b!r}'
    return None


def install():
    if same_nan not in session.SAME:
        session.SAME.append(same_nan)
