"""Arbitrary CCG types: terms of an algebraic datatype, unfolded on demand.

SCat is a CCGType of which only the datatype term is known.  Its recursive
methods are replaced by their contracts (structural induction: the methods
are proved on a type with arbitrary components, assuming the contract for the
components)."""
import z3
from . import core, session, rt, symg, words
from .core import ctx, zs, mkstr, mkbool, SymStr, SymBool, Unsupported
from .words import Factor

from lambeq.text2diagram.ccg_type import CCGType

_dt = z3.Datatype('CCG')
_dt.declare('empty')
_dt.declare('atom', ('nm', z3.StringSort()))
_dt.declare('over', ('ores', _dt), ('oarg', _dt))
_dt.declare('under', ('ures', _dt), ('uarg', _dt))
CCG = _dt.create()
STR = z3.Function('ccg_str', CCG, z3.StringSort())
PRETTY = z3.Function('ccg_pretty', CCG, z3.StringSort())
REPL = z3.Function('ccg_replace', CCG, CCG, CCG, CCG)
SIZE = z3.Function('ccg_size', CCG, z3.IntSort())
SPINE = z3.Function('ccg_spine', CCG, CCG, z3.BoolSort())


def term(t):
    if isinstance(t, SCat):
        return t.t
    if t._direction is not None:
        a, b = term(t._result), term(t._argument)
        return CCG.over(a, b) if t._direction == '/' else CCG.under(a, b)
    if t._name is None:
        return CCG.empty
    return CCG.atom(zs(t._name))


class SCat(CCGType):
    __pv_type__ = CCGType

    def __init__(self, t):
        object.__setattr__(self, 't', z3.simplify(t))

    is_empty = property(lambda s: mkbool(CCG.is_empty(s.t)))
    is_atomic = property(lambda s: mkbool(CCG.is_atom(s.t)))
    is_over = property(lambda s: mkbool(CCG.is_over(s.t)))
    is_under = property(lambda s: mkbool(CCG.is_under(s.t)))
    is_complex = property(lambda s: mkbool(z3.Or(CCG.is_over(s.t), CCG.is_under(s.t))))

    @property
    def _name(self):
        return mkstr(CCG.nm(self.t)) if rt.truth(self.is_atomic) else None

    @property
    def _direction(self):
        return '/' if rt.truth(self.is_over) else '\\' if rt.truth(self.is_under) else None

    @property
    def _result(self):
        d = self._direction
        return None if d is None else SCat(CCG.ores(self.t) if d == '/' else CCG.ures(self.t))

    @property
    def _argument(self):
        d = self._direction
        return None if d is None else SCat(CCG.oarg(self.t) if d == '/' else CCG.uarg(self.t))

    def __repr__(self):
        return f'SCat({self.t})'
    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    # ---- contracts of the recursive methods
    def to_string(self, pretty=False):
        ctx().uninterp = True
        return mkstr((PRETTY if pretty else STR)(self.t))

    def __pv_str__(self):
        return self.to_string()

    def to_grammar(self, Ty=None):
        if Ty is not None and Ty is not symg.Ty:
            raise Unsupported('grammar type of another class')
        return symg.ATy(gword(self.t))

    def replace(self, original, replacement):
        ctx().uninterp = True
        return SCat(REPL(self.t, term(original), term(replacement)))

    def replace_result(self, original, replacement, direction='|'):
        """(self, None) or (new, old) with old somewhere on the result spine
        and new the same type with old replaced."""
        c = ctx()
        for (t, old, new, repl, dirs) in c.store.get('contexts', ()):
            for a, x, b, y in ((t, old, new, repl), (new, repl, t, old)):
                if dirs == direction and entails(a == self.t) and entails(x == term(original)):
                    if entails(y == term(replacement)):
                        return SCat(b), SCat(x)
                    n = fresh('new')
                    context(a, x, n.t, term(replacement), dirs)
                    return n, SCat(x)
        k = ('rr', self.t.sexpr(), term(original).sexpr(), term(replacement).sexpr(), direction)
        if k not in c.store:
            if c.choose(2) == 0:
                c.store[k] = None
            else:
                old = fresh('old')
                new = fresh('new')
                context(self.t, old.t, new.t, term(replacement), direction)
                c.store[k] = (new, old)
        v = c.store[k]
        return (self, None) if v is None else v

    def split(self, base):
        return split(self, base)


def _about_types(f, seen=None):
    """The fact says something about CCG types and nothing about lengths of wires."""
    todo, hit = [f], False
    while todo:
        e = todo.pop()
        if z3.is_app(e):
            n = e.decl().name()
            if n.startswith('len_'):
                return False
            if e.sort() == CCG:
                hit = True
            todo += e.children()
    return hit


def entails(f):
    """Does f follow from the facts about types alone?  (Sound: fewer facts.)"""
    c = ctx()
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return c.entails(f)
    st = c.__dict__.setdefault('ccg', None)
    if st is None:
        st = c.ccg = {'solver': z3.Solver(), 'upto': 0, 'cache': {}, 'models': core.Models()}
        st['solver'].set('timeout', 500)
        st['facts'] = []
    new = [g for g in c.facts[st['upto']:] if _about_types(g)]
    st['upto'] = len(c.facts)
    if new:
        st['facts'] += new
        st['solver'].add(*new)
        st['cache'] = {k: v for k, v in st['cache'].items() if v}
        st['models'].catch_up(st['facts'])
    k = f.sexpr()
    if k not in st['cache']:
        if st['models'].refutes(f):
            st['cache'][k] = False
        else:
            core.Stats.queries += 1
            r = st['solver'].check(z3.Not(f))
            last = st['solver']
            if r == z3.unknown:
                last = z3.Solver()
                last.set('timeout', 2000)
                last.add(*st['facts'])
                last.add(z3.Not(f))
                r = last.check()
            if r == z3.sat:
                st['models'].keep(last.model())
            st['cache'][k] = r == z3.unsat
    return st['cache'][k]


words.ENTAILS['CCG'] = entails


def sized(t):
    """Types are finite: components are smaller."""
    c = ctx()
    for k, fs in ((CCG.is_over, (CCG.ores, CCG.oarg)), (CCG.is_under, (CCG.ures, CCG.uarg))):
        for f in fs:
            c.add(z3.Implies(k(t), SIZE(f(t)) < SIZE(t)))


def left_of(t, b):
    """Wires before (after) the base b of the result spine of t."""
    return Factor('ccgL', (z3.simplify(t), z3.simplify(b)), 0)


def right_of(t, b):
    return Factor('ccgR', (z3.simplify(t), z3.simplify(b)), 0)


def on_spine(t, b):
    """b is on the result spine of t: G(t) = L.G(b).R (lemma, by induction on t)."""
    c = ctx()
    t, b = z3.simplify(t), z3.simplify(b)
    k = ('spine', t.sexpr(), b.sexpr())
    if k in c.store:
        return
    c.store[k] = True
    c.uninterp = True           # SPINE, SIZE: only some of their properties are known
    c.add(SPINE(t, b))
    c.add(z3.Or(t == b, z3.And(SIZE(b) < SIZE(t), z3.Or(CCG.is_over(t), CCG.is_under(t)))))
    for f in (CCG.is_over, CCG.is_under):
        r = (CCG.ores if f is CCG.is_over else CCG.ures)(t)
        c.add(z3.Implies(z3.And(t != b, f(t)), SPINE(r, b)))
    sized(t)
    w = (left_of(t, b),) + gword(b) + (right_of(t, b),)
    g = gword(t)
    if len(g) == 1 and g[0].sym == 'ccg':
        c.words.rules1.append(('ccg', (t,), w))
        c.add(c.words.flen(g[0]) == c.words.length(w))


def _spine_part(which):
    def unfold(store, f):
        t, b = f.idx
        c = store.ctx
        if not entails(SPINE(t, b)):
            return None
        if entails(t == b):
            r = ()
        elif entails(z3.And(t != b, CCG.is_over(t))):
            on_spine(CCG.ores(t), b)
            r = (Factor(which, (z3.simplify(CCG.ores(t)), b), 0),)
            if which == 'ccgR':
                r = r + store.rotate(gword(z3.simplify(CCG.oarg(t))), -1)
        elif entails(z3.And(t != b, CCG.is_under(t))):
            on_spine(CCG.ures(t), b)
            r = (Factor(which, (z3.simplify(CCG.ures(t)), b), 0),)
            if which == 'ccgL':
                r = store.rotate(gword(z3.simplify(CCG.uarg(t))), 1) + r
        else:
            return None
        kk = ('unfolded', which, t.sexpr(), b.sexpr())
        if kk not in c.store:
            c.store[kk] = True
            c.add(store.flen(f._replace(rot=0)) == store.length(r))
        return r
    return unfold


words.UNFOLD['ccgL'] = _spine_part('ccgL')
words.UNFOLD['ccgR'] = _spine_part('ccgR')


def split(t, base):
    """Contract of CCGType.split (proved under P08): the parts around base,
    which must be on the result spine."""
    if not entails(SPINE(term(t), term(base))):
        raise Unsupported('split at something not known to be on the spine')
    on_spine(term(t), term(base))
    return (symg.ATy((left_of(term(t), term(base)),)), base.to_grammar(),
            symg.ATy((right_of(term(t), term(base)),)))


def context(t, old, new, repl, direction):
    """t is C[old] and new is C[repl] for a result context C with the slashes
    asked for (d for each, or d for the innermost and d' for the others, | for
    either): the wires around old in t are those around repl in new; there are
    none on the left (right) when only slashes to the right (left) are crossed."""
    c = ctx()
    c.store['contexts'] = c.store.get('contexts', ()) + ((t, old, new, repl, direction),)
    L, R = left_of(t, old), right_of(t, old)
    for a, b in ((t, old), (new, repl)):
        on_spine(a, b)
        c.add(a != b)
    for f, r, a in ((CCG.is_over, CCG.ores, CCG.oarg), (CCG.is_under, CCG.ures, CCG.uarg)):
        c.add(f(t) == f(new))
        c.add(z3.Implies(f(t), z3.And(a(t) == a(new), (r(t) == old) == (r(new) == repl))))
        if set(direction) == {'/' if f is CCG.is_over else '\\'}:
            c.add(f(t))
    c.words.rules1.append(('ccgL', (z3.simplify(new), z3.simplify(repl)), (L,)))
    c.words.rules1.append(('ccgR', (z3.simplify(new), z3.simplify(repl)), (R,)))
    c.add(c.words.flen(left_of(new, repl)) == c.words.flen(L), )
    c.add(c.words.flen(right_of(new, repl)) == c.words.flen(R))
    if set(direction) == {'/'}:
        c.add(c.words.flen(L) == 0)
    elif set(direction) == {'\\'}:
        c.add(c.words.flen(R) == 0)
    return L, R


def gword(t):
    """Wires of the grammar type of t."""
    t = z3.simplify(t)
    if z3.is_app_of(t, z3.Z3_OP_DT_CONSTRUCTOR):
        d = t.decl().name()
        if d == 'empty':
            return ()
        if d == 'over':
            return gword(t.arg(0)) + ctx().words.rotate(gword(t.arg(1)), -1)
        if d == 'under':
            return ctx().words.rotate(gword(t.arg(1)), 1) + gword(t.arg(0))
        if z3.is_string_value(t.arg(0)):
            return (Factor(('atom', t.arg(0).as_string()), (), 0),)
    return (Factor('ccg', (t,), 0),)


def _unfold(store, f):
    """Definition of the grammar type."""
    t = f.idx[0]
    c = store.ctx
    if entails(CCG.is_over(t)):
        r = gword(CCG.over(CCG.ores(t), CCG.oarg(t)))
    elif entails(CCG.is_under(t)):
        r = gword(CCG.under(CCG.ures(t), CCG.uarg(t)))
    elif entails(CCG.is_empty(t)):
        r = ()
    else:
        if entails(CCG.is_atom(t)):
            c.add(store.flen(f) == 1)
        return None
    kk = ('unfolded', t.sexpr())
    if kk not in c.store:
        c.store[kk] = True
        c.add(store.flen(f._replace(rot=0)) == store.length(r))
    return r


words.UNFOLD['ccg'] = _unfold


def fresh(name='c'):
    c = ctx()
    return SCat(z3.Const(c.fresh_name(name), CCG))


BAD = '/\\()'


def good(t, nonempty=True):
    """No empty type inside; atomic names are printable: nonempty, without
    slashes, brackets."""
    c = ctx()
    c.add(z3.Not(CCG.is_empty(t)))
    c.add(ctx().words.flen(Factor('ccg', (t,), 0)) >= 1)
    return t


def name_ok(nm, base, lo):
    """The name nm, which occupies base[lo:lo+len(nm)], has no special character."""
    c = ctx()
    c.add(z3.Length(nm) >= 1)
    c.store.setdefault('chars', [])
    c.store['chars'] = c.store['chars'] + [(base, z3.simplify(lo), z3.simplify(lo + z3.Length(nm)), BAD)]


def _eq(orig):
    def eq(self, o):
        if core.active() and isinstance(o, CCGType):
            return ctx().decide(term(self) == term(o))
        return orig(self, o)
    return eq


def same(a, b):
    if isinstance(a, CCGType) and isinstance(b, CCGType):
        return session.prove_bool(term(a) == term(b))


def havoc(name, val):
    if isinstance(val, CCGType):
        return fresh(name)
    if isinstance(val, symg.Ty):
        return symg.ATy((ctx().words.fresh(name),))


INSTALLED = []


def install():
    if INSTALLED:
        return
    INSTALLED.append(1)
    CCGType.__eq__ = _eq(CCGType.__eq__)
    session.SAME.insert(0, same)
    rt.HAVOC.append(havoc)

    def assume(a, b):
        if isinstance(a, CCGType) and isinstance(b, CCGType):
            ctx().add(term(a) == term(b))
            return True
    session.ASSUME.append(assume)
    rt.ISINST.append(lambda o, cls: True if isinstance(o, SCat) and cls is CCGType else None)


def g_ccg(self, name='c', depth=2):
    t = fresh(name)
    good(t.t)
    return t


def g_rccg(self, name='c'):
    """A real CCGType object: empty, atomic, or complex over arbitrary components."""
    k = self.choice('over', 'under', 'atomic', 'empty')
    if k == 'empty':
        return CCGType()
    if k == 'atomic':
        return CCGType(self.string(name))
    return CCGType(result=fresh(name), direction='/' if k == 'over' else '\\', argument=fresh(name))


symg.SymG.ccg = g_ccg
symg.SymG.rccg = g_rccg
