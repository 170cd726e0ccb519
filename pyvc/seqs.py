"""Symbolic-length lists: a list of segments, each concrete or a Chunk.

Chunk(n, get): n is a symbolic length, get(i) computes the i-th element
(lazily, possibly by running real code on the underlying element).
"""
from __future__ import annotations
from . import core
import z3
from .core import Unsupported, ctx, zi, mkint, mkbool, SymInt, concrete_int


class Chunk:
    """Marker for 'n elements get(0..n-1)' flowing through iterators."""
    __slots__ = ('n', 'get')

    def __init__(self, n, get):
        object.__setattr__(self, 'n', zi(n))
        object.__setattr__(self, 'get', get)

    def __getattr__(self, name):
        raise Unsupported(f'chunk of unknown length used as element (.{name})')

    def __eq__(self, o):
        raise Unsupported('chunk compared')
    __hash__ = None

    def __bool__(self):
        raise Unsupported('chunk truth')

    def __iter__(self):
        raise Unsupported('chunk iterated natively')

    def __deepcopy__(self, memo):
        return self


def to_segs(x):
    """Segments of any iterable (generators may yield Chunk markers)."""
    from .rt import iter_items
    segs = []
    for it in iter_items(x):
        if isinstance(it, Chunk):
            segs.append(it)
        else:
            if segs and isinstance(segs[-1], list):
                segs[-1].append(it)
            else:
                segs.append([it])
    return segs


def has_chunk(segs):
    return any(isinstance(s, Chunk) for s in segs)


def simp(segs):
    out = []
    for s in segs:
        if isinstance(s, Chunk):
            n = z3.simplify(s.n)
            if z3.is_int_value(n):
                k = n.as_long()
                if k <= 0:
                    continue
                if k <= 8:
                    s = [s.get(z3.IntVal(i)) for i in range(k)]
        if isinstance(s, list):
            if not s:
                continue
            if out and isinstance(out[-1], list):
                out[-1] = out[-1] + s
                continue
            s = list(s)
        out.append(s)
    return out


def mklist(segs, kind=list):
    segs = simp(segs)
    if not segs:
        return kind()
    if not has_chunk(segs):
        return kind(segs[0])
    return SymList(segs, kind)


class SymList:
    """Mutable list (or tuple) of symbolic length."""

    def __init__(self, segs, kind=list):
        self.segs = simp(segs)
        self.kind = kind

    # -- length
    @property
    def zlen(self):
        t = [z3.IntVal(len(s)) if isinstance(s, list) else s.n for s in self.segs]
        return z3.simplify(z3.Sum(t)) if t else z3.IntVal(0)

    def sym_len(self):
        return mkint(self.zlen)

    def __len__(self):
        v = concrete_int(self.sym_len())
        if v is None:
            raise Unsupported('native len() of a symbolic list')
        return v

    def __bool__(self):
        return ctx().decide(self.zlen > 0)

    def __iter__(self):
        n = concrete_int(self.sym_len())
        if n is None or n > 12:
            raise Unsupported('native iteration over a list of unknown length')
        return iter([self.at(z3.IntVal(i)) for i in range(n)])

    def __deepcopy__(self, memo):
        return SymList(self.segs, self.kind)

    def __hash__(self):
        raise Unsupported('hash of symbolic list')

    # -- access
    def at(self, i):
        """Element at z3 index i (0 <= i < len assumed)."""
        c = ctx()
        i = zi(i)
        off = z3.IntVal(0)
        for k, s in enumerate(self.segs):
            n = z3.IntVal(len(s)) if isinstance(s, list) else s.n
            last = k == len(self.segs) - 1
            if last or c.decide(z3.simplify(i < off + n)):
                j = z3.simplify(i - off)
                if isinstance(s, list):
                    v = concrete_int(mkint(j))
                    if v is None:
                        for t in range(len(s)):
                            if t == len(s) - 1 or c.decide(j == t):
                                return s[t]
                    if not 0 <= v < len(s):
                        raise core.Infeasible
                    return s[v]
                return s.get(j)
            off = z3.simplify(off + n)
        raise core.Infeasible

    def __getitem__(self, key):
        c = ctx()
        if isinstance(key, slice):
            return self._slice(key)
        k = zi(key)
        n = self.zlen
        if c.decide(k < 0):
            k = z3.simplify(k + n)
        if not c.decide(z3.And(k >= 0, k < n)):
            raise IndexError('list index out of range')
        return self.at(k)

    def _slice(self, sl):
        c = ctx()
        n = self.zlen
        step = sl.step
        if step is None:
            step = 1
        step = concrete_int(step) if not isinstance(step, int) else step
        if step == -1:
            if sl.start is None and sl.stop is None:
                return self.reversed()
            def rnorm(v, default):
                if v is None:
                    return default
                v = zi(v)
                if c.decide(v < 0):
                    v = z3.simplify(v + n)
                    return z3.IntVal(-1) if c.decide(v < 0) else v
                return z3.simplify(n - 1) if c.decide(v >= n) else v
            a = rnorm(sl.start, z3.simplify(n - 1))
            b = rnorm(sl.stop, z3.IntVal(-1))
            if c.decide(b >= a):
                return self.kind()
            r = mklist(self.sub(z3.simplify(b + 1), z3.simplify(a + 1)), self.kind)
            return r.reversed() if isinstance(r, SymList) else r[::-1]
        if step != 1:
            raise Unsupported('slice step')

        def norm(v, default):
            if v is None:
                return default
            v = zi(v)
            if c.decide(v < 0):
                v = z3.simplify(v + n)
                if c.decide(v < 0):
                    return z3.IntVal(0)
                return v
            if c.decide(v > n):
                return n
            return v
        a = norm(sl.start, z3.IntVal(0))
        b = norm(sl.stop, n)
        if c.decide(a >= b):
            return self.kind()
        return mklist(self.sub(a, b), self.kind)

    def sub(self, a, b):
        """Segments of positions a..b-1, 0<=a<=b<=len."""
        c = ctx()
        a, b = z3.simplify(zi(a)), z3.simplify(zi(b))
        out = []
        off = z3.IntVal(0)
        for s in self.segs:
            n = z3.IntVal(len(s)) if isinstance(s, list) else s.n
            end = z3.simplify(off + n)
            lo_in = c.decide(a > off)        # a cuts at/after the start
            hi_in = c.decide(b < end)
            lo = z3.simplify(a - off) if lo_in else z3.IntVal(0)
            hi = z3.simplify(b - off) if hi_in else n
            off = end
            if c.decide(lo >= hi):
                continue
            if isinstance(s, list):
                l, h = concrete_int(mkint(lo)), concrete_int(mkint(hi))
                if l is None:
                    for t in range(len(s)):
                        if c.decide(lo == t):
                            l = t
                            break
                if h is None:
                    for t in range(len(s) + 1):
                        if c.decide(hi == t):
                            h = t
                            break
                out.append(s[l:h])
            else:
                g = s.get
                out.append(Chunk(z3.simplify(hi - lo),
                                 (lambda i, g=g, lo=lo: g(z3.simplify(zi(i) + lo)))))
        return out

    def reversed(self):
        out = []
        for s in reversed(self.segs):
            if isinstance(s, list):
                out.append(s[::-1])
            else:
                out.append(Chunk(s.n, lambda i, s=s: s.get(z3.simplify(s.n - 1 - zi(i)))))
        return SymList(out, self.kind)

    def map(self, f):
        return SymList([[f(x) for x in s] if isinstance(s, list)
                        else Chunk(s.n, lambda i, s=s: f(s.get(i))) for s in self.segs], self.kind)

    # -- building
    def __add__(self, o):
        return mklist(self.segs + to_segs(o), self.kind)

    def __radd__(self, o):
        return mklist(to_segs(o) + self.segs, self.kind)

    def __iadd__(self, o):
        self.segs = simp(self.segs + to_segs(o))
        return self

    def append(self, x):
        self.segs = simp(self.segs + [[x]])

    def extend(self, o):
        self.segs = simp(self.segs + to_segs(o))

    def insert(self, i, x):
        c = ctx()
        n = self.zlen
        i = zi(i)
        if c.decide(i < 0):
            i = z3.simplify(i + n)
            if c.decide(i < 0):
                i = z3.IntVal(0)
        elif c.decide(i > n):
            i = n
        self.segs = simp(self.sub(z3.IntVal(0), i) + [[x]] + self.sub(i, n))

    def pop(self, i=-1):
        v = self[i]
        c = ctx()
        k = zi(i)
        n = self.zlen
        if c.decide(k < 0):
            k = z3.simplify(k + n)
        self.segs = simp(self.sub(z3.IntVal(0), k) + self.sub(z3.simplify(k + 1), n))
        return v

    def index(self, v):
        """Contract of list.index: a position that holds an equal element, the
        first one; ValueError if there is none."""
        from .rt import truth
        c = ctx()
        n = self.zlen
        found = c.choose(2) == 0
        c.soft -= 1
        j = c.int('before')
        eq = []

        def th():
            cc = ctx()
            cc.add(z3.And(j >= 0, j < n))
            base = len(cc.facts)
            r = truth(self.at(j) == v)
            return cc.facts[base:], r
        for o in core.explore(th):
            if o.kind != 'ret' or o.ctx.soft > c.soft:
                raise Unsupported('list.index: comparison with an arbitrary element')
            f, r = o.value
            if r:
                eq.append(z3.And(*f) if f else z3.BoolVal(True))
        eq = z3.Or(*eq) if eq else z3.BoolVal(False)
        if not found:
            absent = z3.Implies(z3.And(j >= 0, j < n), z3.Not(eq))
            for t in int_consts(c.facts):
                c.add(z3.substitute(absent, (j, t)))
            c.add(z3.ForAll([j], absent))
            if c.check() == z3.unsat:
                raise core.Infeasible
            raise ValueError('item is not in list')
        k = c.int('found')
        c.add(z3.And(k >= 0, k < n, z3.substitute(eq, (j, k))))
        c.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(eq))))
        if not truth(self.at(k) == v):
            raise core.Infeasible
        return mkint(k)

    def copy(self):
        return SymList(self.segs, self.kind)

    def __mul__(self, k):
        return repeat(self, k)
    __rmul__ = __mul__

    def __setitem__(self, key, val):
        c = ctx()
        if isinstance(key, slice):
            raise Unsupported('slice assignment on symbolic list')
        k = zi(key)
        n = self.zlen
        if c.decide(k < 0):
            k = z3.simplify(k + n)
        if not c.decide(z3.And(k >= 0, k < n)):
            raise IndexError
        self.segs = simp(self.sub(z3.IntVal(0), k) + [[val]] + self.sub(z3.simplify(k + 1), n))

    def __delitem__(self, key):
        c = ctx()
        n = self.zlen
        if isinstance(key, slice):
            a = zi(key.start or 0)
            b = n if key.stop is None else zi(key.stop)
            if key.step not in (None, 1) or not c.entails(z3.And(a >= 0, b >= a, b <= n)):
                raise Unsupported('slice deletion')
            self.segs = simp(self.sub(z3.IntVal(0), a) + self.sub(b, n))
            return
        k = zi(key)
        if c.decide(k < 0):
            k = z3.simplify(k + n)
        if not c.decide(z3.And(k >= 0, k < n)):
            raise IndexError
        self.segs = simp(self.sub(z3.IntVal(0), k) + self.sub(z3.simplify(k + 1), n))

    # -- comparison
    def __eq__(self, o):
        if not isinstance(o, (SymList, list, tuple)):
            return False
        return list_eq_decide(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __contains__(self, x):
        if self.segs and all(type(s).__name__ == 'Elements' for s in self.segs):
            from .rt import truth
            return any(truth(s.src.has(x)) for s in self.segs)
        for s in self.segs:
            if isinstance(s, list) and any(x is y for y in s):
                return True
        try:
            self.index(x)
            return True
        except ValueError:
            return False


def int_consts(facts):
    out, seen, todo = {}, set(), list(facts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort():
            out[str(t)] = t
        todo += t.children()
    return list(out.values())[:30]


def as_symlist(x, kind=list):
    if isinstance(x, SymList):
        return x
    return SymList(to_segs(x), kind)


def list_eq_decide(a, b):
    """Decide list equality (used as a branch condition)."""
    from .rt import truth
    c = ctx()
    A, B = as_symlist(a), as_symlist(b)
    if not c.decide(A.zlen == B.zlen):
        return False
    n = concrete_int(mkint(A.zlen))
    if n is not None:
        return all(truth(A.at(z3.IntVal(i)) == B.at(z3.IntVal(i))) for i in range(n))
    sa, sb = [list(s) if isinstance(s, list) else s for s in A.segs], \
        [list(s) if isinstance(s, list) else s for s in B.segs]
    for end in (-1, 0):
        while sa and sb and isinstance(sa[end], list) and isinstance(sb[end], list):
            if not truth(sa[end].pop(end) == sb[end].pop(end)):
                return False
            if not sa[end]:
                sa.pop(end)
            if not sb[end]:
                sb.pop(end)
    A, B = SymList(sa), SymList(sb)
    k = c.int('k')
    res = []
    soft = False

    def th():
        cc = core.ctx()
        cc.add(z3.And(k >= 0, k < A.zlen))
        base = len(cc.facts)
        r = truth(A.at(k) == B.at(k))
        return cc.facts[base:], r
    for o in core.explore(th):
        if o.kind != 'ret':
            raise Unsupported('exception inside a list comparison')
        soft = soft or bool(o.ctx.soft)
        res.append(o.value)
    if all(r for _, r in res):
        return True
    if res and not any(r for _, r in res) and not soft and c.entails(A.zlen > 0):
        return False
    if c.choose(2) == 0:
        if not soft:
            f = z3.Or(*[z3.And(*p) if p else z3.BoolVal(True) for p, r in res if r])
            c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < A.zlen), f)))
            c.soft -= 1
        return True
    c.add(z3.And(k >= 0, k < A.zlen))
    if A.at(k) == B.at(k):
        raise core.Infeasible
    if not soft:
        c.soft -= 1
    return False


def repeat(x, k):
    """x * k for a concrete list x and symbolic k."""
    c = ctx()
    X = as_symlist(x)
    if c.decide(zi(k) <= 0):
        return X.kind()
    m = X.zlen
    if z3.is_int_value(m) and m.as_long() == 1:
        return SymList([Chunk(zi(k), lambda i: X.at(z3.IntVal(0)))], X.kind)
    raise Unsupported('repetition of a list with several elements')
