"""A list of trees of unknown length without repetition, kept with the
position of every member, and a dictionary of them by category (by contract:
list.insert, del, slicing; dict get, set, del)."""
from __future__ import annotations
import z3
from . import core, rt
from .core import Unsupported, SymReal, mkint, mkbool, zi
from .seqs import Chunk, SymList, concrete_int

INT = z3.IntSort()
SCORE = z3.Function('score', INT, z3.RealSort())
CAT = z3.Function('cat', INT, INT)


class ACat:
    """An arbitrary category."""
    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return mkbool(self.e == o.e) if isinstance(o, ACat) else False

    def __ne__(self, o):
        return mkbool(self.e != o.e) if isinstance(o, ACat) else True
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'category attribute {name}')


class ATree:
    """An arbitrary tree; identical to another iff the numbers agree."""
    def __init__(self, e):
        self.e = e
        self.score = SymReal(SCORE(e))
        self.cat = ACat(CAT(e))

    def __pv_is__(self, o):
        return mkbool(self.e == o.e) if isinstance(o, ATree) else False
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('trees compared')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'tree attribute {name}')


class Base:
    """n trees in non-increasing order of score, one per category."""
    def __init__(self):
        c = core.ctx()
        s = c.fresh_name('cell')
        self.s = s
        self.n = c.int('n')
        c.add(self.n >= 0)
        c.uninterp = True
        self.F = z3.Function(s, INT, INT)
        self.P = z3.Function(s + '#pos', INT, INT)
        self.B = z3.Function(s + '#of', INT, INT)

    def at(self, i, known=None):
        c = core.ctx()
        ids = c.store.get(self.s)
        if ids is None or ids[0] is not c:
            ids = c.store[self.s] = (c, dict(ids[1]) if ids else {}, list(ids[2]) if ids else [])
        raw = i.get_id()
        if raw in ids[1]:
            return ids[1][raw][1]
        i0, i = i, z3.simplify(i)
        t = self.F(i)
        new = i.get_id() not in ids[1]
        ids[1][raw] = ids[1][i.get_id()] = (i0, t, i)
        if new:
            ok = z3.And(i >= 0, i < self.n)
            out = [self.P(t) == i, self.B(CAT(t)) == t]
            st = SCORE(t)
            for j, sj in ids[2]:
                out.append(z3.Implies(z3.And(i <= j, j < self.n), st >= sj))
                out.append(z3.Implies(z3.And(j <= i, j >= 0), sj >= st))
            ids[2].append((i, st))
            if self.extra:
                out += self.extra(i, t)
            f = z3.Implies(ok, z3.And(out))
            c.facts.append(f)
            c.solver.add(f)
            c.cache.clear()
        return t

    extra = None

    def pos(self, t):
        return self.P(t)

    def has(self, t):
        """The tree is there."""
        p = self.P(t)
        self.at(p)
        return z3.And(p >= 0, p < self.n, self.F(p) == t)

    def of(self, k):
        """The tree of category k, if there is one."""
        return self.B(k)

    def has_cat(self, k):
        t = self.B(k)
        return z3.And(CAT(t) == k, self.has(t))


class Shelf:
    """The list: functions from positions to trees and back."""
    def __init__(self, n, at, pos, has):
        self.set(n, at, pos, has)

    def set(self, n, at, pos, has):
        self.n, self.at, self.pos, self.has = z3.simplify(zi(n)), at, pos, has

    @staticmethod
    def of(base):
        return Shelf(base.n, base.at, base.pos, base.has)

    def take(self, o):
        self.set(o.n, o.at, o.pos, o.has)

    def snap(self):
        return Shelf(self.n, self.at, self.pos, self.has)

    def __pv_len__(self):
        return mkint(self.n)

    def __len__(self):
        raise Unsupported('native len()')

    def __bool__(self):
        return core.ctx().decide(self.n > 0)

    def _norm(self, i):
        c = core.ctx()
        i = zi(i)
        if c.decide(i < 0):
            i = z3.simplify(i + self.n)
        if not c.decide(z3.And(i >= 0, i < self.n)):
            raise IndexError('list index out of range')
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.stop is not None or i.step is not None:
                raise Unsupported('slice of the trees')
            lo = self._lo(i)
            at = self.at
            return SymList([Chunk(self.n - lo, lambda j: ATree(at(z3.simplify(zi(j) + lo))))])
        return ATree(self.at(self._norm(i)))

    def _lo(self, sl):
        c = core.ctx()
        lo = zi(sl.start or 0)
        if not c.decide(z3.And(lo >= 0, lo <= self.n)):
            raise Unsupported('slice beyond the list')
        return lo

    def __pv_items__(self):
        at = self.at
        yield Chunk(self.n, lambda j: ATree(at(zi(j))))

    def __iter__(self):
        return self.__pv_items__()

    def insert(self, i, x):
        c = core.ctx()
        i = zi(i)
        if not c.decide(z3.And(i >= 0, i <= self.n)):
            raise Unsupported('insert position')
        if not isinstance(x, ATree):
            raise Unsupported('insert')
        x, n, at, pos, has = x.e, self.n, self.at, self.pos, self.has
        self.set(n + 1, lambda j: z3.If(j < i, at(j), z3.If(j == i, x, at(j - 1))),
                 lambda t: z3.If(t == x, i, z3.If(pos(t) < i, pos(t), pos(t) + 1)),
                 lambda t: z3.Or(t == x, has(t)))

    def append(self, x):
        self.insert(self.n, x)

    def __delitem__(self, i):
        n, at, pos, has = self.n, self.at, self.pos, self.has
        if isinstance(i, slice):
            if i.stop is not None or i.step is not None:
                raise Unsupported('slice of the trees')
            lo = self._lo(i)
            self.set(lo, at, pos, lambda t: z3.And(has(t), pos(t) < lo))
            return
        i = self._norm(i)
        self.set(n - 1, lambda j: z3.If(j < i, at(j), at(j + 1)),
                 lambda t: z3.If(pos(t) < i, pos(t), pos(t) - 1),
                 lambda t: z3.And(has(t), pos(t) != i))

    def pop(self, i=-1):
        x = self[i]
        del self[i]
        return x

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'list.{name} on the trees')
    __hash__ = None


class ByCat:
    """dict from category to tree."""
    def __init__(self, base):
        self.has, self.get_ = base.has_cat, base.of

    def take(self, o):
        self.has, self.get_ = o.has, o.get_

    def snap(self):
        r = object.__new__(ByCat)
        r.has, r.get_ = self.has, self.get_
        return r

    def __contains__(self, k):
        return core.ctx().decide(self.has(k.e))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return ATree(self.get_(k.e))

    def get(self, k, default=None):
        return ATree(self.get_(k.e)) if k in self else default

    def __setitem__(self, k, t):
        has, get, k, t = self.has, self.get_, k.e, t.e
        self.has = lambda q: z3.Or(q == k, has(q))
        self.get_ = lambda q: z3.If(q == k, t, get(q))

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        has, k = self.has, k.e
        self.has = lambda q: z3.And(q != k, has(q))

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise KeyError(k)
        r = ATree(self.get_(k.e))
        del self[k]
        return r

    def without(self, shelf, lo, hi):
        """Without the categories of the trees at positions lo..hi-1."""
        r = self.snap()
        has, get = self.has, self.get_

        def there(q):
            t = get(q)
            return z3.And(has(q), z3.Not(z3.And(shelf.has(t), CAT(t) == q, shelf.pos(t) >= lo, shelf.pos(t) < hi)))
        r.has = there
        return r

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'dict.{name} on the trees')
    __hash__ = None


def offered(name='offered'):
    """Any number of trees."""
    F = z3.Function(core.ctx().fresh_name(name), INT, INT)
    c = core.ctx()
    n = c.int('n_' + name)
    c.add(n >= 0)
    return SymList([Chunk(n, lambda i: ATree(F(zi(i))))]), n
