"""Path contexts, forking, solver access and scalar symbolic values.

A *thunk* (a harness that calls real, instrumented lambeq code) is executed
once per path.  Every branch on a symbolic condition calls `Ctx.decide`,
which consults the solver; when both outcomes are feasible the alternative is
queued and the thunk is re-executed with the recorded decision prefix, until
all paths are exhausted.  `prove` issues a verification condition
    path condition  ==>  claim
to the solver.  Nothing is bounded here: lists have symbolic length, and loops
over them are cut with invariants (see rt.py).
"""
from __future__ import annotations
import sys, time, os
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import re
import z3

z3.set_param('smt.random_seed', 1)
TIMEOUT_MS = 10000
FIRST_MS = 700         # incremental attempt


class Unsupported(Exception):
    """The code left the subset the engine understands (never a violation)."""


class EndPath(BaseException):
    """Path finished inside a cut loop (its obligations were proved there)."""


class Infeasible(BaseException):
    """Path condition became contradictory."""


class Models:
    """Models of the facts seen so far: cheap evidence that a fact does not follow."""
    def __init__(self, relevant=None):
        self.ms, self.upto, self.relevant = [], 0, relevant

    def catch_up(self, facts):
        for g in facts[self.upto:]:
            if self.relevant is None or self.relevant(g):
                self.ms = [m for m in self.ms if z3.is_true(m.eval(g, model_completion=True))]
        self.upto = len(facts)

    def keep(self, m):
        self.ms = self.ms[-5:] + [m]

    def refutes(self, f):
        return any(z3.is_false(m.eval(f, model_completion=True)) for m in self.ms)


class Stats:
    queries = 0
    solver_s = 0.0
    unknowns = 0
    by_word = 0
    by_z3 = 0
    second = 0              # discharged by cvc5 or a newer z3 after an unknown


CTX: 'Ctx | None' = None


def ctx() -> 'Ctx':
    if CTX is None:
        raise Unsupported('symbolic value used outside an exploration')
    return CTX


def active() -> bool:
    return CTX is not None


class Ctx:
    def __init__(self, prefix, parent=None, tag=''):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.parent = parent
        self.tag = tag
        self.counter = 0
        self.nests = 0
        self.facts = list(parent.facts) if parent else []
        self.solver = z3.Solver()
        self.solver.set('timeout', FIRST_MS)
        for f in self.facts:
            self.solver.add(f)
        self.cache = {}
        self.models = Models()
        self.hopeless = parent is not None and parent.hopeless     # incremental solving does not work here
        from .words import WordStore
        self.words = WordStore(self, parent.words if parent else None)
        self.store = dict(parent.store) if parent else {}
        self.trace = []
        self.uninterp = bool(parent and parent.uninterp)
        self.parent_hard = parent is None or parent.hard
        self.soft = 0           # branches not reflected in the SMT facts

    @property
    def hard(self):
        """A counterexample of the solver is a counterexample of the claim."""
        return not self.soft and not self.uninterp and self.parent_hard

    # -- names
    def fresh_name(self, base):
        self.counter += 1
        return f'{base}!{self.tag}{self.counter}'

    def int(self, base='i'):
        return z3.Int(self.fresh_name(base))

    def bool(self, base='b'):
        return z3.Bool(self.fresh_name(base))

    # -- facts
    def add(self, f):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)
        self.cache.clear()
        if z3.is_false(f):
            raise Infeasible

    def check(self, *fs, timeout=None):
        t = time.time()
        Stats.queries += 1
        r = z3.unknown
        if not self.hopeless:
            r = self.solver.check(*fs)
            self.last = self.solver
        if r == z3.unknown:         # not incrementally: other tactics
            self.hopeless = True
            self.last = z3.Solver()
            self.last.set('timeout', timeout or TIMEOUT_MS)
            self.last.add(*self.facts)
            self.last.add(*fs)
            r = self.last.check()
        Stats.solver_s += time.time() - t
        if r == z3.unknown:
            Stats.unknowns += 1
        return r

    def entails(self, f) -> bool:
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self.check() == z3.unsat
        k = f.sexpr()
        if k in self.cache:
            return self.cache[k]
        self.models.catch_up(self.facts)
        if self.models.refutes(f):
            r = False
        else:
            v = self.check(z3.Not(f))
            r = v == z3.unsat
            if v == z3.sat:
                self.models.keep(self.last.model())
        self.cache[k] = r
        return r

    def choose(self, n: int) -> int:
        """Nondeterministic choice among n branches (all explored)."""
        self.soft += 1
        pos = len(self.taken)
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.taken + [k])
        self.taken.append(c)
        if len(self.taken) > 400:
            raise Unsupported('path too long')
        return c

    def decide(self, f) -> bool:
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        pos = len(self.taken)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.taken.append(c)
            if c in (2, 3):                # forced by the solver at record time
                c -= 2
            b = (c == 0)
            self.add(f if b else z3.Not(f))
            return b
        r1 = self.check(f)
        r2 = self.check(z3.Not(f))
        if r1 == z3.unsat and r2 == z3.unsat:
            raise Infeasible
        if r1 == z3.unsat:
            self.taken.append(3); self.add(z3.Not(f)); return False
        if r2 == z3.unsat:
            self.taken.append(2); self.add(f); return True
        self.alts.append(self.taken + [1])
        self.taken.append(0)
        if len(self.taken) > 400:
            raise Unsupported('path too long')
        self.add(f)
        return True


MAXPATHS = 20000
EXPIRED = False


class Outcome:
    def __init__(self, kind, value, ctx):
        self.kind, self.value, self.ctx = kind, value, ctx


def explore(thunk, nested=True, on_outcome=None, maxpaths=MAXPATHS):
    """Run thunk over all paths; returns list of Outcomes ('ret'|'exc'|'end')."""
    global CTX
    parent = CTX
    outs = []
    work = [[]]
    tag = ''
    if parent is not None:
        parent.nests += 1
        tag = f'{parent.tag}{parent.nests}.'
    n = 0
    while work:
        if EXPIRED:
            raise Unsupported('time budget of this harness exhausted')
        n += 1
        if n > maxpaths:
            raise Unsupported('too many paths')
        prefix = work.pop()
        c = Ctx(prefix, parent, tag)
        CTX = c
        out = None
        try:
            try:
                v = thunk()
                out = Outcome('ret', v, c)
            except EndPath:
                out = Outcome('end', None, c)
            except Infeasible:
                out = None
            except Unsupported:
                raise
            except RecursionError as e:
                raise Unsupported(f'recursion: {e}')
            except Exception as e:   # an exception of the code under check
                out = Outcome('exc', e, c)
            if out is not None and on_outcome is not None:
                try:
                    on_outcome(out)
                except Infeasible:
                    out = None
                except EndPath:
                    pass
            work.extend(c.alts)
        finally:
            CTX = parent
        if out is not None and on_outcome is None:
            outs.append(out)
    return outs


# ---------------------------------------------------------------- scalars
def zi(x):
    """python/symbolic int -> z3 Int."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported(f'not an int: {type(x)}')


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SymInt):
        return x.e != 0
    raise Unsupported(f'not a bool: {type(x)}')


class Sym:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'<{self.e}>'


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return ctx().decide(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == zb(o))
        if isinstance(o, (int, SymInt)):
            return mkbool(zi(self) == zi(o))
        return NotImplemented
    __hash__ = Sym.__hash__

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(zb(r)))

    def __and__(self, o): return mkbool(z3.And(self.e, zb(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.e, zb(o)))
    __ror__ = __or__
    def __invert__(self): raise Unsupported('~ on symbolic bool')
    def __add__(self, o): return mkint(zi(self) + zi(o))
    __radd__ = __add__
    def __sub__(self, o): return mkint(zi(self) - zi(o))
    def __rsub__(self, o): return mkint(zi(o) - zi(self))
    def __mul__(self, o): return mkint(zi(self) * zi(o))
    __rmul__ = __mul__
    def __mod__(self, o): return SymInt(zi(self)) % o
    def __int__(self): raise Unsupported('int(SymBool) outside instrumented code')
    def __index__(self): return int(bool(self))


def _isnum(o):
    return isinstance(o, (int, SymInt, SymBool)) and not isinstance(o, float)


class SymInt(Sym):
    __slots__ = ()

    def _bin(self, o, f):
        if type(o) is float:
            return SymReal(f(z3.ToReal(self.e), zr(o)))
        if isinstance(o, SymReal) or isinstance(o, float):
            return NotImplemented
        if not _isnum(o):
            return NotImplemented
        return mkint(f(self.e, zi(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, str):
            return SymStr(z3.Function('REPSTR', z3.StringSort(), z3.IntSort(), z3.StringSort())(z3.StringVal(o), self.e))
        if isinstance(o, (list, tuple)):
            from .seqs import repeat
            return repeat(o, self)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return intdiv(self.e, zi(o))[0]

    def __rfloordiv__(self, o): return intdiv(zi(o), self.e)[0]

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return intdiv(self.e, zi(o))[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return intdiv(zi(o), self.e)[1]

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return mkint(r)
        if isinstance(o, (float, SymReal)):
            return power(z3.ToReal(self.e), zr(o))
        return NotImplemented

    def __rpow__(self, o):
        # o ** self : uninterpreted power with base tag (used for 2**n dims)
        if isinstance(o, int):
            return mkint(z3.Function(f'POW{o}', z3.IntSort(), z3.IntSort())(self.e))
        return NotImplemented

    def _cmp(self, o, f):
        if type(o) is float:
            return mkbool(f(z3.ToReal(self.e), zr(o)))
        if isinstance(o, SymReal) or isinstance(o, float):
            return NotImplemented
        if not _isnum(o):
            return NotImplemented
        return mkbool(f(self.e, zi(o)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not isinstance(o, (SymReal, float)) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not isinstance(o, (SymReal, float)) else r
    __hash__ = Sym.__hash__
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return ctx().decide(self.e != 0)

    def __index__(self):
        v = concrete_int(self)
        if v is None:
            raise Unsupported(f'symbolic integer used as a machine index: {self.e}')
        return v
    __int__ = __index__

    def __float__(self):
        raise Unsupported('float of symbolic int')


def intdiv(a, b):
    """Python floor division and modulo."""
    b = z3.simplify(b)
    if z3.is_int_value(b):
        if b.as_long() == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b.as_long() > 0:
            return mkint(a / b), mkint(a % b)
        q = -((-(-a)) / (-b)) if False else None
        # floor(a / b) for b<0  ==  floor((-a) / (-b))
        q = (-a) / (-b)
        return mkint(q), mkint(a - b * q)
    c = ctx()
    if c.decide(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if c.decide(b > 0):
        if c.entails(z3.And(-b <= a, a < 2 * b)):        # no division needed
            q = 0 if c.decide(z3.And(0 <= a, a < b)) else -1 if c.decide(a < 0) else 1
            return mkint(z3.IntVal(q)), mkint(a - q * b)
        return mkint(a / b), mkint(a % b)
    q = (-a) / (-b)
    return mkint(q), mkint(a - b * q)


def concrete_int(x):
    """The unique value of x under the path condition, or None."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    c = ctx()
    e = x.e
    if c.check() != z3.sat:
        return None
    v = c.last.model().eval(e, model_completion=True)
    if z3.is_int_value(v) and c.entails(e == v):
        return v.as_long()
    return None


def zr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, (SymInt, SymBool)):
        return z3.ToReal(zi(x))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        from fractions import Fraction
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf in real arithmetic')
        f = Fraction(x)
        return z3.RealVal(f'{f.numerator}/{f.denominator}')
    raise Unsupported(f'not a real: {type(x)}')


def power(a, b):
    r = z3.Function('POWR', z3.RealSort(), z3.RealSort(), z3.RealSort())(z3.simplify(a), z3.simplify(b))
    c = ctx()
    c.uninterp = True
    c.add(z3.Implies(a > 0, r > 0))
    return SymReal(r)


class SymReal(Sym):
    """A mathematical real standing for a Python float (assumption: exact)."""
    __slots__ = ()
    __array_priority__ = 1000

    def _bin(self, o, f):
        try:
            b = zr(o)
        except Unsupported:
            if isinstance(o, float) and o in (float('inf'), float('-inf')):
                raise
            return NotImplemented
        return SymReal(z3.simplify(f(self.e, b)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        try:
            b = zr(o)
        except Unsupported:
            return NotImplemented
        if ctx().decide(b == 0):
            raise ZeroDivisionError('float division by zero')
        return SymReal(z3.simplify(self.e / b))

    def __rtruediv__(self, o):
        if ctx().decide(self.e == 0):
            raise ZeroDivisionError('float division by zero')
        return SymReal(z3.simplify(zr(o) / self.e))

    def __neg__(self): return SymReal(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = z3.RealVal(1)
            for _ in range(o):
                r = r * self.e
            return SymReal(r)
        return power(self.e, zr(o))

    def __rpow__(self, o):
        return power(zr(o), self.e)

    def __ceil__(self):
        c = ctx()
        k = c.int('ceil')
        c.add(z3.And(z3.ToReal(k) - 1 < self.e, self.e <= z3.ToReal(k)))
        return SymInt(k)

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __floordiv__(self, o):
        b = zr(o)
        if ctx().decide(b == 0):
            raise ZeroDivisionError
        return SymReal(z3.ToReal(z3.ToInt(self.e / b)))

    def __mod__(self, o):
        b = zr(o)
        if ctx().decide(b == 0):
            raise ZeroDivisionError
        return SymReal(self.e - b * z3.ToReal(z3.ToInt(self.e / b)))

    def _cmp(self, o, f, inf):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return inf(o)
        try:
            b = zr(o)
        except Unsupported:
            return NotImplemented
        return mkbool(f(self.e, b))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda v: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda v: True)
        return True if r is NotImplemented else r
    __hash__ = Sym.__hash__
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)
    def __bool__(self): return ctx().decide(self.e != 0)
    def __float__(self): raise Unsupported('float() of a symbolic real')
    def __int__(self): raise Unsupported('int() of a symbolic real')


LOWER = z3.Function('str_lower', z3.StringSort(), z3.StringSort())


RANK = z3.Function('rank', z3.StringSort(), z3.RealSort())
UNRANK = z3.Function('unrank', z3.RealSort(), z3.StringSort())


def strrank(e):
    """The order of the strings, as an embedding into the reals."""
    c = ctx()
    c.uninterp = True
    c.add(UNRANK(RANK(e)) == e)
    return RANK(e)


class SymStr(Sym):
    """An arbitrary string (z3 string term)."""
    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(self.e == zs(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(zb(r)))
    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return mkbool(strrank(self.e) < strrank(zs(o))) if isinstance(o, (str, SymStr)) else NotImplemented

    def __gt__(self, o):
        return mkbool(strrank(zs(o)) < strrank(self.e)) if isinstance(o, (str, SymStr)) else NotImplemented

    def __le__(self, o):
        return mkbool(strrank(self.e) <= strrank(zs(o))) if isinstance(o, (str, SymStr)) else NotImplemented

    def __ge__(self, o):
        return mkbool(strrank(zs(o)) <= strrank(self.e)) if isinstance(o, (str, SymStr)) else NotImplemented

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mkstr(z3.Concat(self.e, zs(o)))

    def __radd__(self, o):
        return mkstr(z3.Concat(zs(o), self.e))

    def __len__(self):
        raise Unsupported('len of symbolic string')

    def __pv_len__(self):
        return mkint(z3.Length(self.e))

    def __contains__(self, o):
        return ctx().decide(z3.Contains(self.e, zs(o)))

    def lower(self):
        ctx().uninterp = True       # models may choose any function
        return mkstr(LOWER(self.e))

    def startswith(self, o):
        return mkbool(z3.PrefixOf(zs(o), self.e))

    def endswith(self, o):
        return mkbool(z3.SuffixOf(zs(o), self.e))

    def __iter__(self):
        raise Unsupported('iterating over a symbolic string')

    def _cut(self, v, default):
        n = z3.Length(self.e)
        if v is None:
            return default
        v, c = zi(v), ctx()
        if c.decide(v < 0):
            v = z3.simplify(v + n)
            return v if c.decide(v >= 0) else z3.IntVal(0)
        return v if c.decide(v <= n) else n

    def __getitem__(self, k):
        c, n = ctx(), z3.Length(self.e)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('string slice step')
            a, b = self._cut(k.start, z3.IntVal(0)), self._cut(k.stop, n)
            if not c.decide(a < b):
                return ''
            return mkstr(tidy(z3.SubString(self.e, a, z3.simplify(b - a))))
        k = zi(k)
        if c.decide(k < 0):
            k = z3.simplify(k + n)
        if not c.decide(z3.And(k >= 0, k < n)):
            raise IndexError('string index out of range')
        r = z3.SubString(self.e, k, 1)
        c.add(z3.Length(r) == 1)
        for (base, lo, hi, bad) in c.store.get('chars', ()):     # characters known not to occur
            if z3.eq(base, self.e):
                c.add(z3.Implies(z3.And(k >= lo, k < hi), z3.And(*[r != z3.StringVal(x) for x in bad])))
        return mkstr(r)

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or not sep:
            raise Unsupported('split of a symbolic string')
        return FirstPart(self, sep)

    def __bool__(self):
        return ctx().decide(z3.Length(self.e) > 0)

    def __format__(self, spec):
        raise Unsupported('format of symbolic string outside instrumented f-string')


class FirstPart:
    """The parts of a symbolic string, of which only the first is known."""

    def __init__(self, s, sep):
        self.s, self.sep = s, sep

    def __getitem__(self, k):
        if k != 0 or isinstance(k, bool):
            raise Unsupported('parts of a symbolic string')
        e, sep = z3.simplify(self.s.e), z3.StringVal(self.sep)
        first = e.arg(0) if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT) else e
        if z3.is_string_value(first) and self.sep in first.as_string():
            return first.as_string().split(self.sep)[0]
        if not ctx().decide(z3.Contains(e, sep)):
            return self.s
        return mkstr(z3.SubString(e, 0, z3.IndexOf(e, sep, 0)))

    def __getattr__(self, n):
        raise Unsupported(f'parts of a symbolic string: {n}')

    def __iter__(self):
        raise Unsupported('parts of a symbolic string')


def zs(x):
    if isinstance(x, SymStr):
        return x.e
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported(f'not a string {type(x)}')


def tidy(e):
    """Replace a substring of a concatenation by the parts it covers."""
    c = ctx()
    base, a, n = e.children()
    if not z3.is_app_of(base, z3.Z3_OP_SEQ_CONCAT):
        return e
    parts, todo = [], [base]
    while todo:
        t = todo.pop(0)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            todo = t.children() + todo
        else:
            parts.append(t)
    pos, cuts = z3.IntVal(0), [z3.IntVal(0)]
    for t in parts:
        pos = z3.simplify(pos + z3.Length(t))
        cuts.append(pos)
    i = next((i for i, p in enumerate(cuts) if c.entails(p == a)), None)
    if i is None:
        return e
    j = next((j for j, p in enumerate(cuts) if j >= i and c.entails(p == a + n)), None)
    if j is None:
        return e
    if i == j:
        return z3.StringVal('')
    return parts[i] if j == i + 1 else z3.Concat(*parts[i:j])


def mkstr(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), e.as_string())
    return SymStr(e)


def is_sym(x):
    return isinstance(x, Sym)
