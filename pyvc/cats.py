"""Categories of any size: a symbolic atom or feature, a part that is only
known by what the contracts of the recursive functions say about it, and a
category whose form is settled as far as the code looks at it."""
from __future__ import annotations
import z3
from . import core, rt
from .core import Unsupported, SymInt, mkint, mkbool, zi

from lambeq.bobcat.lexicon import Atom, Category, Feature

INT, BOOL = z3.IntSort(), z3.BoolSort()
EQ = z3.Function('same_category', INT, INT, BOOL)
MATCH = z3.Function('category_matches', INT, INT, BOOL)
HASH = z3.Function('category_hash', INT, INT)
COMB = {}


class SymAtom(SymInt):
    __slots__ = ()

    @property
    def is_punct(self):
        return mkbool(z3.Or(*[self.e == int(a) for a in Atom._member_map_.values() if a.is_punct]))


class SymFeature(SymInt):
    __slots__ = ()

    @property
    def is_free(self):
        return Feature.is_free.fget(self)


def number(cls, sym, name, lo=0):
    e = core.ctx().int(name)
    core.ctx().add(z3.And(e >= lo, e < len(cls.values)))
    return sym(e)


def atom():
    return number(Atom, SymAtom, 'atom', 1)


def feature():
    return number(Feature, SymFeature, 'feature')


def hashed(t):
    """The hash of a tuple depends on the hashes of its members only."""
    if isinstance(t, Category):
        return t.hash
    if not isinstance(t, tuple):
        return hash(t)
    es = []
    for x in t:
        if isinstance(x, tuple):
            x = hashed(x)
        if isinstance(x, Category):
            x = x.hash
        if isinstance(x, str):
            x = sum(ord(ch) << 21 * k for k, ch in enumerate(x))
        if not isinstance(x, (int, SymInt)):
            raise Unsupported(f'hash of {type(x).__name__}')
        es.append(x)
    if not any(isinstance(x, SymInt) for x in es):
        return hash(tuple(map(int, es)))
    es = [zi(x) for x in es]
    if len(es) not in COMB:
        COMB[len(es)] = z3.Function(f'hash{len(es)}', *[INT] * (len(es) + 1))
    return mkint(COMB[len(es)](*es))


class Part(Category):
    """A category of any form, seen through the contracts of its methods."""
    def __new__(cls, *a, **kw):
        return object.__new__(cls)

    def __init__(self, name, known=()):
        c = core.ctx()
        self.e = c.int(name)
        self.name = name
        self.hash = mkint(HASH(self.e))
        self.vars = set()
        known = [k.e for k in known] + [self.e]
        # what is shown of every category holds of the parts (induction)
        x = self.e
        c.add(EQ(x, x))
        for y in known:
            c.add(EQ(x, y) == EQ(y, x))
            c.add(z3.Implies(EQ(x, y), HASH(x) == HASH(y)))
            for z in known:
                for u, v, w in ((x, y, z), (y, x, z), (y, z, x)):
                    c.add(z3.Implies(z3.And(EQ(u, v), EQ(v, w)), EQ(u, w)))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'{k} of a part of a category')

    atom = feature = var = relation = dir = result = argument = atomic = complex = \
        property(lambda self: self.__getattr__('form'))

    def __repr__(self):
        return 'part ' + self.__dict__.get('name', 'moved')

    def __pv_is__(self, o):
        return self is o

    def _equals(self, o):
        if not isinstance(o, Part):
            raise Unsupported('a part compared with a whole')
        return mkbool(EQ(self.e, o.e))

    def _matches(self, o):
        if not isinstance(o, Part):
            raise Unsupported('a part compared with a whole')
        return mkbool(MATCH(self.e, o.e))

    def __eq__(self, o):
        return self is o or self._equals(o)
    __hash__ = None

    def matches(self, o):
        return self is o or self._matches(o)

    def translate(self, var_map, feature=Feature.NONE):
        return Moved(self, var_map, feature)


class Moved(Part):
    """A part with its variables and its free features replaced."""
    def __init__(self, of, var_map, feature):
        self.of, self.var_map, self.to = of, var_map, feature
        self.hash = mkint(core.ctx().int('moved'))
        self.vars = set()

    def _equals(self, o):
        raise Unsupported('a translated category compared')
    _matches = translate = _equals


class Lazy(Category):
    """Any category; its form is a case split made when the code looks."""
    def __new__(cls, *a, **kw):
        return object.__new__(cls)

    def __init__(self, g, name):
        self.__dict__.update(g=g, name=name, form=None, vars=set(), hash=0,
                             var=Var(name), relation=None, type_raising_dep_var=0)

    def look(self):
        if self.form is None:
            d = self.g.choice('\0', '/', '\\')
            if d == '\0':
                f = dict(dir=d, atom=atom(), feature=feature(), result=None, argument=None)
            else:
                f = dict(dir=d, atom=Atom.NONE, feature=Feature.NONE,
                         result=Lazy(self.g, self.name + '.r'), argument=Lazy(self.g, self.name + '.a'))
            self.__dict__['form'] = f
        return self.form

    dir = property(lambda self: self.look()['dir'])
    atom = property(lambda self: self.look()['atom'])
    feature = property(lambda self: self.look()['feature'])
    result = property(lambda self: self.look()['result'])
    argument = property(lambda self: self.look()['argument'])
    atomic = property(lambda self: self.dir == '\0')
    complex = property(lambda self: not self.atomic)

    def __repr__(self):
        return self.name

    def __str__(self):
        raise Unsupported('text of a category')

    def _equals(self, o):
        raise Unsupported('categories compared')

    def translate(self, *a):
        raise Unsupported('translation outside its contract')

    def __eq__(self, o):
        return self is o or self._equals(o)
    __hash__ = None


class Var:
    """A variable, the same as another only if it is."""
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__

    def __repr__(self):
        return f'var({self.k})'


class Total:
    """A map defined on every variable."""
    def __init__(self, name):
        self.name, self.got = name, {}

    def __getitem__(self, k):
        s = zi(k).sexpr() if not isinstance(k, Var) else repr(k)
        if s not in self.got:
            self.got[s] = Var(f'{self.name} of {s}')
        return self.got[s]

    def get(self, k, default=None):
        return self[k]

    def __contains__(self, k):
        return True


class Partial:
    """A map about which nothing is known."""
    def __init__(self, g, value):
        self.g, self.value = g, value

    def __contains__(self, k):
        return self.g.choice(True, False)

    def __getitem__(self, k):
        if self.g.choice(True, False):
            raise KeyError(k)
        return self.value()

    def __setitem__(self, k, v):
        pass

    def get(self, k, default=None):
        return default if self.g.choice(True, False) else self.value()

    def items(self):
        return []


class Member:
    """One of the variables of a category."""
    def __init__(self, i):
        self.i = zi(i)


class Growing:
    """A map of which the variables passed so far are known to be keys."""
    def __init__(self, g):
        self.g, self.upto, self.also = g, z3.IntVal(0), []

    def covers(self, n):
        j = core.ctx().int('j')
        return mkbool(z3.Implies(z3.And(j >= 0, j < zi(n)), z3.Or(j < self.upto, *[j == k for k in self.also])))

    def __contains__(self, v):
        if self.g.choice(True, False):
            self.also.append(v.i)
            return True
        core.ctx().add(z3.And(v.i >= self.upto, *[v.i != k for k in self.also]))
        if core.ctx().check() == z3.unsat:
            raise core.Infeasible
        return False

    def __setitem__(self, v, x):
        self.also.append(v.i)

    def __getitem__(self, v):
        raise Unsupported('look-up in a growing map')


class Rule:
    """Any of the rules of an enumeration."""
    def __init__(self, cls):
        c = core.ctx()
        self.e, self.cls = c.int('rule'), cls
        c.add(z3.Or(*[self.e == r.value for r in cls]))

    def __eq__(self, o):
        if isinstance(o, Rule):
            return mkbool(self.e == o.e)
        return mkbool(self.e == o.value) if isinstance(o, self.cls) else False

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else mkbool(z3.Not(core.zb(r)))
    __hash__ = None


# ------------------------------------------------------------------ as text
class Words:
    """The text of a part of a category."""
    def __init__(self, part, full):
        self.part, self.full = part, full
        self.n = part.lengths.setdefault(full, None)
        if self.n is None:
            self.n = part.lengths[full] = core.ctx().int('length')
            core.ctx().add(self.n >= 1)

    def __eq__(self, o):
        return isinstance(o, Words) and self.part is o.part and self.full == o.full

    @property
    def closed(self):
        """Nothing that follows can be read as a part of it."""
        return not self.part.complex or self.full and self.part.marked

    def __repr__(self):
        return f'<text of {self.part.name}>'


class Printed(Part):
    """A part that is printed."""
    def __init__(self, g, name, known=()):
        super().__init__(name, known)
        self.g, self.lengths, self.flags = g, {}, {}

    def flag(self, k):
        if k not in self.flags:
            self.flags[k] = self.g.choice(True, False)
        return self.flags[k]

    complex = property(lambda self: self.flag('complex'))
    atomic = property(lambda self: not self.complex)
    marked = property(lambda self: self.flag('marked'))

    def _str(self, full=False, slot_counter=0):
        return Text([Words(self, bool(full))]), slot_counter + 6


class Text:
    """A string made of known pieces and the texts of parts."""
    def __init__(self, segs):
        self.segs = []
        for s in segs:
            if isinstance(s, str) and self.segs and isinstance(self.segs[-1], str):
                self.segs[-1] += s
            elif s != '':
                self.segs.append(s)

    def __add__(self, o):
        if isinstance(o, str):
            return Text(self.segs + [o])
        return Text(self.segs + o.segs) if isinstance(o, Text) else NotImplemented

    def __radd__(self, o):
        return Text([o] + self.segs) if isinstance(o, str) else NotImplemented

    def __pv_str__(self):
        return self
    __hash__ = None

    def __eq__(self, o):
        return isinstance(o, Text) and self.segs == o.segs

    def __repr__(self):
        return ''.join(map(str, self.segs))

    def __pv_len__(self):
        return mkint(sum((z3.IntVal(len(s)) if isinstance(s, str) else s.n for s in self.segs), z3.IntVal(0)))

    def endswith(self, ends):
        s = self.segs[-1]
        if isinstance(s, str):
            return s.endswith(ends)
        if set(ends) != {'}', '>'}:
            raise Unsupported('end of a text')
        return s.full and s.part.marked

    def locate(self, pos):
        """The segment that begins or continues at pos."""
        c, at, pos = core.ctx(), z3.IntVal(0), zi(pos)
        for k, s in enumerate(self.segs):
            off = z3.simplify(pos - at)
            if z3.is_int_value(off):
                off = off.as_long()
                if 0 <= off < (len(s) if isinstance(s, str) else 1):
                    return k, off
            at = at + (len(s) if isinstance(s, str) else s.n)
        if c.entails(pos == at):
            return len(self.segs), 0
        raise Unsupported('position within the text of a part')

    def __getitem__(self, pos):
        k, j = self.locate(pos)
        if k == len(self.segs):
            raise IndexError('string index out of range')
        s = self.segs[k]
        if not isinstance(s, str):
            raise Unsupported('a character of the text of a part')
        return s[j]

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'str.{k} of a text')

    def unit(self, pos):
        """The part whose text, closed, is at pos, and where it ends."""
        k, j = self.locate(pos)
        if k == len(self.segs):
            return None
        s, end = self.segs[k], zi(pos)
        if isinstance(s, Words):
            if not s.closed:
                return None
            k, j, end = k + 1, 0, end + s.n
        elif s[j:] == '(' and k + 2 < len(self.segs) and not self.segs[k + 1].closed and self.segs[k + 2][0] == ')':
            s = self.segs[k + 1]
            k, j, end = k + 2, 1, end + s.n + 2
        else:
            return None
        rest = '' if k == len(self.segs) else self.segs[k][j:] if isinstance(self.segs[k], str) else '?'
        if not rest and k + 1 < len(self.segs):
            rest = '?'
        if rest[:1] not in ('', '/', '\\', ')'):
            return None
        return s.part, mkint(end)


class Regex:
    """A regular expression, matched at a known piece of a text."""
    def __init__(self, real):
        self.real, self.pattern = real, real.pattern

    def match(self, string, pos=0):
        if not isinstance(string, Text):
            return self.real.match(string, pos=pos)
        k, j = string.locate(pos)
        run = '' if k == len(string.segs) else string.segs[k]
        if not isinstance(run, str):
            raise Unsupported('match at the text of a part')
        r = self.real.match(run[j:])
        if r and j + r.end() == len(run) and k + 1 < len(string.segs):
            raise Unsupported('match up to the text of a part')
        return r and Matched(r, pos)


class Matched:
    def __init__(self, r, pos):
        self.r, self.pos = r, pos

    def __getitem__(self, k):
        return self.r[k]

    def group(self, *k):
        return self.r.group(*k)

    def end(self):
        return self.pos + self.r.end()
