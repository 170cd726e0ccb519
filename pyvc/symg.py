"""Symbolic inputs for harnesses: abstract types, boxes and diagrams.

The abstract objects are subclasses of the real classes whose operations are
replaced by their *contracts* (proved for the real classes under P01/P03):
a type is a word of wires, a box has a domain and codomain word and rotates
and daggers like any box, a diagram has an arbitrary number of layers that
chain (well-typed)."""
from __future__ import annotations
import z3
from . import core, rt, num, session
from .core import (Unsupported, Infeasible, SymInt, SymBool, SymReal, SymStr, Sym, ctx,
                   zi, zb, mkint, mkbool, mkstr, concrete_int)
from .seqs import Chunk, SymList, as_symlist, mklist
from .words import Factor, rot_add, rot_neg

import lambeq.backend.grammar as G

Ty, Box, Layer, Diagram = G.Ty, G.Box, G.Layer, G.Diagram
STR = z3.StringSort()
I = z3.IntSort()


# ---------------------------------------------------------------- letters
def let_name(f):
    """Name of a one-wire factor."""
    if isinstance(f.sym, tuple):
        return z3.StringVal(f.sym[1]) if isinstance(f.sym[1], str) else f.sym[1]
    if f.idx:
        return z3.Function('NAME_' + f.sym, *[i.sort() for i in f.idx], STR)(*f.idx)
    return z3.String('NAME_' + f.sym)


def let_z(f):
    if isinstance(f.sym, tuple):
        return zi(f.rot)
    if f.idx:
        return z3.Function('Z_' + f.sym, *[i.sort() for i in f.idx], I)(*f.idx) + zi(f.rot)
    return z3.Int('Z_' + f.sym) + zi(f.rot)


def letter(f, i):
    """i-th wire of factor f (0 <= i < len)."""
    w = ctx().words
    if isinstance(f.sym, str) and f.sym.startswith('pow:') and len(w.powers[f.sym]) == 1:
        return w.rotate(w.powers[f.sym], f.rot)[0]
    if isinstance(f.sym, tuple) or ctx().entails(w.flen(f) == 1):
        return f
    i = z3.simplify(zi(i))
    if w.odd(f.rot):
        i = z3.simplify(w.flen(f) - 1 - i)
    if f.sym.startswith('sub:'):
        s = f.sym[4:]
        w.fixed_len['let_' + s] = 1
        return Factor('let_' + s, f.idx[:-2] + (z3.simplify(f.idx[-2] + i),), f.rot)
    g = Factor('let_' + f.sym, f.idx + (i,), f.rot)
    w.fixed_len['let_' + f.sym] = 1
    return g


# ---------------------------------------------------------------- types
class ATy(Ty):
    """Abstract type: a word of wires."""
    __pv_type__ = Ty

    def __init__(self, word=()):
        object.__setattr__(self, 'w', tuple(word))

    # -- structure
    def _len(self):
        return ctx().words.length(self.w)

    def __pv_len__(self):
        return mkint(self._len())

    def __len__(self):
        v = concrete_int(mkint(self._len()))
        if v is None:
            raise Unsupported('native len of an abstract type')
        return v

    def __bool__(self):
        return ctx().decide(self._len() > 0)

    @property
    def is_empty(self):
        return mkbool(self._len() == 0)

    @property
    def is_atomic(self):
        return mkbool(self._len() == 1)

    @property
    def is_complex(self):
        return mkbool(self._len() >= 2)

    def _one(self):
        c = ctx()
        w = c.words.drop_empty(c.words.norm(self.w))
        if len(w) == 1 and c.entails(c.words.flen(w[0]) == 1):
            return w[0]
        if len(w) > 1 and not any(isinstance(f.sym, tuple) for f in w) and c.entails(self._len() == 1):
            for f in w:
                if c.decide(c.words.flen(f) == 1):
                    return f
        return None

    @property
    def name(self):
        if not ctx().decide(self._len() == 1):
            return None
        f = self._one()
        if f is None:
            raise Unsupported('name of an abstract type')
        return mkstr(let_name(f))

    @property
    def z(self):
        if not ctx().decide(self._len() == 1):
            return 0
        f = self._one()
        if f is None:
            raise Unsupported('z of an abstract type')
        return mkint(let_z(f))

    @property
    def objects(self):
        if not ctx().decide(self._len() >= 2):
            return []
        return as_symlist(self)

    def __pv_items__(self):
        c = ctx()
        w = c.words.drop_empty(c.words.norm(self.w))
        n = concrete_int(mkint(self._len()))
        if n is not None and n <= 8:
            out, rest = [], w
            for _ in range(n):
                if len(rest) >= 1 and c.entails(c.words.flen(rest[0]) == 1):
                    a, rest = rest[:1], rest[1:]
                else:
                    a, rest = c.words.split(rest, z3.IntVal(1))
                a = c.words.drop_empty(c.words.norm(a))
                out.append(ATy(a))
            return iter(out)
        items = []
        for f in w:
            if c.entails(c.words.flen(f) == 1):
                items.append(ATy((f,)))
            else:
                items.append(Chunk(c.words.flen(f), lambda i, f=f: ATy((letter(f, i),))))
        return iter(items)

    def __iter__(self):
        return iter(as_symlist(self))

    def __getitem__(self, index):
        c = ctx()
        n = self._len()
        if isinstance(index, slice):
            if index.step not in (None, 1):
                raise Unsupported('type slice step')

            def norm(v, default):
                if v is None:
                    return default
                v = zi(v)
                if c.decide(v < 0):
                    v = z3.simplify(v + n)
                    return v if c.decide(v >= 0) else z3.IntVal(0)
                return v if c.decide(v <= n) else n
            a = norm(index.start, z3.IntVal(0))
            b = norm(index.stop, n)
            if not c.decide(a < b):
                return ATy(())
            _, r = c.words.split(self.w, a)
            m, _ = c.words.split(r, z3.simplify(b - a))
            return ATy(m)
        k = zi(index)
        if c.decide(k < 0):
            k = z3.simplify(k + n)
        if not c.decide(z3.And(k >= 0, k < n)):
            raise IndexError('list index out of range')
        _, r = c.words.split(self.w, k)
        m, _ = c.words.split(r, z3.IntVal(1))
        return ATy(c.words.drop_empty(c.words.norm(m)))

    # -- algebra
    def tensor(self, other, *rest):
        return ty_tensor(self, other, *rest)

    def __matmul__(self, rhs):
        return self.tensor(rhs)

    def __rmatmul__(self, lhs):
        if isinstance(lhs, Ty):
            return ty_tensor(lhs, self)
        return NotImplemented

    def rotate(self, z):
        return ATy(ctx().words.rotate(self.w, z.e if isinstance(z, SymInt) else z))

    def unwind(self):
        return self.rotate(-self.z)

    def replace(self, other, index):
        c = ctx()
        n, k = self._len(), zi(index)
        if not c.decide(z3.And(k >= 0, k < n)):
            raise Unsupported('Ty.replace outside its contract')
        a, r = c.words.split(self.w, k)
        _, b = c.words.split(r, z3.IntVal(1))
        return ATy(a + word(other) + b)

    def insert(self, other, index):
        c = ctx()
        n, k = self._len(), zi(index)
        if not c.decide(z3.And(k >= 0, k <= n)):
            raise Unsupported('Ty.insert outside its contract')
        a, b = c.words.split(self.w, k)
        return ATy(a + word(other) + b)

    def count(self, other):
        raise Unsupported('Ty.count on an abstract type')

    def repeat(self, times):
        t = concrete_int(times) if isinstance(times, SymInt) else times
        if t is None:
            if not ctx().decide(zi(times) >= 0):
                raise AssertionError
            if all(ctx().entails(ctx().words.flen(f) == 1) for f in self.w):
                return ATy(ctx().words.power(self.w, zi(times)))
            raise Unsupported('symbolic repetition of an abstract type')
        assert t >= 0
        return ATy(self.w * t)

    def __lshift__(self, rhs):
        return self @ rhs.l

    def __rshift__(self, rhs):
        return self.r @ rhs

    # -- comparison
    def __eq__(self, o):
        if not isinstance(o, Ty):
            return NotImplemented
        wo = word(o)
        if wo is None:
            raise Unsupported('comparison of abstract with representation type')
        c = ctx()
        k = ('eq', self.w, wo)
        return c.words.decide_eq(self.w, wo)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 7            # dictionaries fall back to __eq__, which decides

    def __repr__(self):
        return 'ATy(' + '.'.join(show(f) for f in self.w) + ')'
    __str__ = __repr__

    def __pv_str__(self):
        return 'T'

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling an abstract type')

    def to_json(self, is_top_level=True):
        return token('Ty', self, is_top_level)


def show(f):
    s = f.sym if isinstance(f.sym, str) else repr(f.sym[1])
    i = ('[' + ','.join(map(str, f.idx)) + ']') if f.idx else ''
    r = '' if isinstance(f.rot, int) and f.rot == 0 else f'^{f.rot}'
    return s + i + r


def word(t):
    """Word of a type, or None if it is in representation form."""
    if isinstance(t, ATy):
        return t.w
    d = t.__dict__
    objs = d.get('objects')
    if isinstance(objs, SymList):
        out = ()
        for s in objs.segs:
            if isinstance(s, Chunk):
                return None
            for x in s:
                w = word(x)
                if w is None:
                    return None
                out += w
        return out
    if objs:
        out = ()
        for x in objs:
            w = word(x)
            if w is None:
                return None
            out += w
        return out
    nm = d.get('name')
    if nm is None:
        return ()
    if d.get('label'):
        nm = d['label']             # qubits and bits
    z = d.get('z')
    if isinstance(nm, SymStr):
        return None
    return (Factor(('atom', nm, type(t).__name__) if type(t) is not Ty else ('atom', nm), (),
                   z.e if isinstance(z, SymInt) else z),)


def mkty(w, like=None):
    return ATy(w)


_orig_tensor = Ty.tensor


def ty_tensor(self, other, *rest):
    """Contract of Ty.tensor on abstract operands."""
    items = []
    if getattr(other, 'is_id', False) is True or isinstance(other, (Diagram, Box)):
        return NotImplemented
    if isinstance(other, Ty):
        items = [other]
    else:
        try:
            its = list(rt.iter_items(other))
        except TypeError:
            return NotImplemented
        if any(isinstance(x, Chunk) for x in its):
            h = rt.HOOKS.get('tensor_chunks')
            if h is not None:
                return h(self, its)
            raise Unsupported('tensor of an unknown number of types')
        items = its
    items += list(rest)
    if any(isinstance(x, Chunk) for x in items):
        h = rt.HOOKS.get('tensor_chunks')
        if h is not None:
            return h(self, items)
        raise Unsupported('tensor of an unknown number of types')
    w = word(self)
    for x in items:
        if not isinstance(x, Ty):
            return NotImplemented
        wx = word(x)
        if wx is None:
            raise Unsupported('mixing abstract and representation types')
        w = w + wx
    return ATy(w)


def probe(x):
    """(i, x_i) for an arbitrary index i of a bundle, or None if it is empty."""
    c = ctx()
    k = ('probe', id(x))
    if k not in c.store:
        v = None
        if c.decide(x.n > 0):
            i = c.int('w')
            c.add(z3.And(i >= 0, i < x.n))
            v = (i, x.get(i))
        c.store[k] = (x, v)
    return c.store[k][1]


def abstractable(t):
    return isinstance(t, ATy) or isinstance(t, Ty) and bool(t.__dict__.get('label'))


def _eq_quantum(orig):
    def eq(self, other):
        if isinstance(other, ATy):
            return other == self
        return orig(self, other)
    return eq


def _patched_tensor(self, other, *rest):
    if core.active():
        xs = (self, other) + rest
        if any(isinstance(x, ATy) for x in xs):
            return ty_tensor(self, other, *rest)
        if isinstance(other, (SymList, list, tuple)) or hasattr(other, '__next__'):
            its = list(rt.iter_items(other))
            if any(isinstance(x, ATy) for x in its) or any(isinstance(x, Chunk) and abstractable((probe(x) or (0, None))[1]) for x in its):
                return ty_tensor(self, its, *rest)
            other = SymList([x if isinstance(x, Chunk) else [x] for x in its])
            if not any(isinstance(x, Chunk) for x in its):
                other = its
    return _orig_tensor(self, other, *rest)


REPLACED = []      # contracts standing in for module functions
RAW = set()        # classes whose __new__ is executed rather than summarised
_orig_new = {}


def _rank(cls, *a):
    return all(isinstance(t, Ty) and (not isinstance(t, ATy) or ctx().entails(t._len() == 1)) for t in a)


def _summary(cls, dom, cod, *key, nonid=None):
    """Contract of Cup/Cap/Swap/Spider on composite types (proved in P04):
    a well-typed diagram of the given type, determined by its arguments."""
    c = ctx()
    k = ('summary', cls.__name__) + tuple(tuple((f.sym, tuple(i.sexpr() for i in f.idx), str(f.rot)) for f in x)
                                           if isinstance(x, tuple) else x for x in key)
    if k not in c.store:
        if nonid is None:
            n = None
        elif not nonid:
            return cls.category.Diagram.id(dom)
        else:
            n = c.int('n_' + cls.__name__)
            c.add(n >= 1)
        d = new_diagram(cls.__name__.lower() + 's', dom, cod, n, kind=cls)
        c.store[k] = (d, word(dom), word(cod))
        return d
    return c.store[k][0]


def _new_wrap(cls_base, kind):
    orig = cls_base.__dict__['__new__'].__func__
    _orig_new[cls_base] = orig

    def new(cls, *a, **kw):
        if not core.active() or cls_base in RAW or kind == 'spider' and not isinstance(a[0] if a else kw.get('type'), ATy):
            return orig(cls, *a, **kw)
        if kind == 'spider':
            args = dict(zip(('type', 'n_legs_in', 'n_legs_out'), a), **kw)
            t = args['type']
            if not isinstance(t, ATy) or rt.truth(t.is_atomic):
                return orig(cls, *a, **kw)
            ni, no = args['n_legs_in'], args['n_legs_out']
            return _summary(cls, t ** ni, t ** no, word(t), str(ni), str(no))
        args = dict(zip(('left', 'right', 'is_reversed'), a), **kw)
        l, r = args['left'], args['right']
        if not (isinstance(l, ATy) or isinstance(r, ATy)):
            return orig(cls, *a, **kw)
        if rt.truth(l.is_atomic) and rt.truth(r.is_atomic):
            return orig(cls, *a, **kw)
        if kind == 'swap':
            return _summary(cls, l @ r, r @ l, word(l), word(r),
                            nonid=not rt.truth(l.is_empty) and not rt.truth(r.is_empty))
        cls._check_adjoint(l, r, args.get('is_reversed', False))
        rev = rt.truth(args.get('is_reversed', False))
        if kind == 'cup':
            return _summary(cls, l @ r, ATy(()), word(l), word(r), rev, nonid=not rt.truth(l.is_empty))
        return _summary(cls, ATy(()), l @ r, word(l), word(r), rev, nonid=not rt.truth(l.is_empty))
    cls_base.__new__ = new


_orig_hash = Diagram.__hash__


def _diagram_hash(self):
    return 13 if core.active() else _orig_hash(self)


def _box_hash(orig):
    def h(self):
        return 17 if core.active() else orig(self)
    return h


def deepcopied(x):
    """Trusted: pickling and unpickling gives an equal value."""
    return x


def tensor_chunks(self, items):
    """Ty.tensor over the wires (or wire images) of a bundle of unknown length."""
    w = word(self)
    for x in items:
        if not isinstance(x, Chunk):
            w = w + word(x)
            continue
        w = w + chunk_word(x)
    return ATy(w)


def chunk_word(x):
    c = ctx()
    if probe(x) is None:
        return ()
    i, x_i = probe(x)
    cs = c.words.drop_empty(c.words.norm(word(x_i)))
    if not cs:
        return ()
    if not any(z3.eq(i, v) for f in cs for t in (*f.idx, *([] if isinstance(f.rot, int) else [f.rot])) for v in z3util_vars(t)) \
            and all(c.entails(c.words.flen(f) == 1) for f in cs):
        return c.words.power(cs, x.n)
    if len(cs) != 1 or isinstance(cs[0].sym, tuple):
        raise Unsupported('product of an unknown family of types')
    f = cs[0]
    pre = ''
    s = f.sym
    if s.startswith('F:'):
        pre, s = 'F:', s[2:]
    if not s.startswith('let_'):
        raise Unsupported('product of an unknown family of types')
    base, k = s[4:], f.idx[-1]
    odd = c.words.odd(f.rot)
    off = z3.simplify(k + i) if odd else z3.simplify(k - i)
    if any(z3.eq(i, v) for v in z3util_vars(off)):
        raise Unsupported(f'product over scattered wires {f} {i}')
    # wires off .. off+n-1 (or off-n+1 .. off reversed)
    a, b = (z3.simplify(off - x.n + 1), z3.simplify(off + 1)) if odd else (off, z3.simplify(off + x.n))
    whole = Factor(base, f.idx[:-1], 0)
    if c.entails(a == 0) and c.entails(c.words.flen(whole) == b):
        g = whole
    else:
        g = Factor('sub:' + base, f.idx[:-1] + (a, b), 0)
    return (Factor(pre + g.sym, g.idx, f.rot),)


def z3util_vars(e):
    out, todo = [], [e]
    while todo:
        t = todo.pop()
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        todo += t.children()
    return out


class InvCache(dict):
    """A dictionary known only through its invariant: every stored value is
    the right one (each store is an obligation; lookups may miss or hit)."""

    def __init__(self, right, label):
        self.right, self.label = right, label

    def __contains__(self, k):
        c = ctx()
        v = c.choose(2) == 0
        c.soft -= 1
        return v

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.right(k)

    def get(self, k, default=None):
        return self.right(k) if k in self else default

    def __setitem__(self, k, v):
        p = session.Prover(self.label)
        p.eq(v, self.right(k), 'cached value is the right one')

    def setdefault(self, k, v):
        if k in self:
            return self.right(k)
        self[k] = v
        return v


class TypesFunctor(G.Functor):
    """Functor applied to abstract types by contract (proved: on_types, type_laws)."""

    def ob_with_cache(self, ob):
        return functor_ty(ob) if isinstance(ob, ATy) else super().ob_with_cache(ob)


class SymFunctor(TypesFunctor):
    """Functor whose images of abstract boxes are given by the contract of
    ar_with_cache: a well-typed diagram from F(dom) to F(cod)."""

    def __call__(self, entity):
        if isinstance(entity, ATy):
            return functor_ty(entity)
        if isinstance(entity, ABox):
            return functor_box(entity)
        if type(entity) is Diagram and isinstance(entity.dom, ATy) and not as_symlist(entity.layers).segs:
            return Diagram.id(functor_ty(entity.dom))       # proved: on_identities
        return super().__call__(entity)


class KeptFunctor(G.Functor):
    """A functor that keeps atomic wires: types are kept (proved: P05
    type_laws, type_rotation), and an arbitrary box has an arbitrary image of
    its type."""
    def ob_with_cache(self, t):
        if not isinstance(t, ATy):
            return super().ob_with_cache(t)
        a = ATy((ctx().words.fresh('a', 1),))
        if self.ob(a) is not a:
            raise Unsupported('wires are not kept')
        return t

    def __call__(self, e):
        if isinstance(e, ATy):
            return self.ob_with_cache(e)
        if isinstance(e, ABox):
            k = ('kept', e.sym, tuple(x.sexpr() for x in e.idx), str(e.rot), e.dag)
            c = ctx()
            if k not in c.store:
                c.store[k] = new_diagram('K', e.dom, e.cod)
            return c.store[k]
        if type(e) is Diagram and isinstance(e.dom, ATy) and not as_symlist(e.layers).segs:
            return Diagram.id(e.dom)            # proved: P05 on_identities
        return super().__call__(e)


def functor_ty(t):
    from .words import functor_factor
    c = ctx()
    return ATy(tuple(functor_factor(f) for f in c.words.norm(word(t))))


def functor_box(b):
    c = ctx()
    k = ('F', b.sym, tuple(x.sexpr() for x in b.idx), str(b.rot), b.dag)
    if k not in c.store:
        c.store[k] = new_diagram('F' + b.sym.split('!')[0], functor_ty(b.dom), functor_ty(b.cod))
    return c.store[k]


def functor_image(b):
    if isinstance(b, ABox):
        return functor_box(b)
    c = ctx()
    k = ('Fimg', id(b))
    if k not in c.store:
        c.store[k] = (b, new_diagram('F', functor_ty(b.dom), functor_ty(b.cod)))
    return c.store[k][1]


def token(entity, x, is_top_level):
    """Contract of to_json: data that from_json of the same entity decodes to an equal object."""
    d = {'entity': entity, '__value__': x}
    if is_top_level:
        d['category'] = 'grammar'
    return d


def _decodes(cls, kind):
    orig = cls.__dict__['from_json'].__func__

    def from_json(c, data):
        if core.active() and isinstance(data, dict) and '__value__' in data and isinstance(data['__value__'], kind):
            if '__category__' in data or data['entity'] != c.__name__:
                raise Unsupported('decoding data of another entity')
            return data['__value__']
        return orig(c, data)
    cls.from_json = classmethod(from_json)


def install_patches():
    _decodes(Ty, ATy)
    _decodes(Box, ABox)
    rt.HOOKS['tensor_chunks'] = tensor_chunks
    Diagram.__hash__ = _diagram_hash
    for k in (Box, G.Word, G.Daggered, G.Cup, G.Cap, G.Swap, G.Spider, G.Frame, G.DaggeredFrame):
        k.__hash__ = _box_hash(k.__hash__)
    G.fast_deepcopy = deepcopied
    from lambeq.backend.symbol import Symbol
    Symbol.__hash__ = _box_hash(Symbol.__hash__)
    Ty.tensor = _patched_tensor
    from lambeq.backend import quantum
    quantum.Ty.__eq__ = _eq_quantum(quantum.Ty.__eq__)
    for cls, kind in ((G.Cup, 'cup'), (G.Cap, 'cap'), (G.Swap, 'swap'), (G.Spider, 'spider')):
        _new_wrap(cls, kind)


# ---------------------------------------------------------------- boxes
class ABox(Box):
    """Arbitrary box: domain, codomain, rotation and dagger only."""
    __pv_type__ = Box

    def __init__(self, sym, idx=(), rot=0, dag=False, dw=None, cw=None, kind=None):
        s = object.__setattr__
        s(self, 'sym', sym); s(self, 'idx', tuple(idx)); s(self, 'rot', rot)
        s(self, 'dag', dag); s(self, 'dw', dw); s(self, 'cw', cw); s(self, 'kind', kind)

    def _w(self, side):
        d = (side == 'dom') != self.dag
        w = self.dw if d else self.cw
        if w is None:
            w = (Factor(('bd:' if d else 'bc:') + self.sym, self.idx, 0),)
        return ctx().words.rotate(w, self.rot)

    @property
    def dom(self):
        return ATy(self._w('dom'))

    @property
    def cod(self):
        return ATy(self._w('cod'))

    @property
    def z(self):
        return mkint(self._f('bz', I) + zi(self.rot))

    @property
    def name(self):
        return mkstr(self._f('bname' + ('+' if self.dag else ''), STR))

    def _f(self, base, sort):
        if self.idx:
            return z3.Function(f'{base}_{self.sym}', *[i.sort() for i in self.idx], sort)(*self.idx)
        return z3.Const(f'{base}_{self.sym}', sort)

    def rotate(self, z):
        return ABox(self.sym, self.idx, rot_add(self.rot, z.e if isinstance(z, SymInt) else z),
                    self.dag, self.dw, self.cw, self.kind)

    def dagger(self):
        return ABox(self.sym, self.idx, self.rot, not self.dag, self.dw, self.cw, None)

    def unwind(self):
        return self.rotate(-self.z)

    def __eq__(self, o):
        if isinstance(o, ABox):
            if self.sym == o.sym and self.dag == o.dag and len(self.idx) == len(o.idx):
                c = ctx()
                if all(c.entails(a == b) for a, b in zip(self.idx, o.idx)):
                    if c.decide(zi(self.rot) == zi(o.rot)):
                        return True
            if ctx().choose(2) == 0:
                raise Unsupported('equality of two abstract boxes assumed')
            return False
        if isinstance(o, Box):
            raise Unsupported('abstract box compared with a concrete box')
        return NotImplemented

    def __hash__(self):
        return 11

    def __repr__(self):
        return f'ABox({self.sym}{list(self.idx) or ""}{"+" if self.dag else ""}^{self.rot})'
    __str__ = __repr__

    def __pv_str__(self):
        return 'B'

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('boxes', 'layers', 'is_id', 'then', 'tensor', 'id', 'cups', 'caps', 'swap', 'offsets',
                    'normal_form', 'then_at', 'transpose', 'curry', 'permuted'):
            return getattr(self.to_diagram(), name)
        raise Unsupported(f'attribute {name} of an arbitrary box')

    def __deepcopy__(self, memo):
        return self

    def apply_functor(self, functor):
        raise Unsupported('functor on an abstract box')

    def to_json(self, is_top_level=True):
        return token('Box', self, is_top_level)


def box_isinst(obj, cls):
    if isinstance(obj, ATy):
        cl = cls if isinstance(cls, tuple) else (cls,)
        return any(c is ATy or issubclass(Ty, c) for c in cl if isinstance(c, type))
    if isinstance(obj, ABox):
        cl = cls if isinstance(cls, tuple) else (cls,)
        if any(issubclass(Box, c) for c in cl if isinstance(c, type)):
            return True
        cl = [c for c in cl if isinstance(c, type) and issubclass(c, Box)]
        if not cl:
            return False
        if obj.kind is not None:
            return any(issubclass(obj.kind, k) for k in cl)
        c = ctx()
        key = ('isinst', obj.sym, tuple(x.sexpr() for x in obj.idx))
        known = c.store.get(key, {})
        for k in cl:
            nm = k.__name__ + ('+' if obj.dag else '')
            if nm not in known:
                known = dict(known)
                known[nm] = c.choose(2) == 0
                c.store[key] = known
            if known[nm]:
                return True
        return False
    return None


rt.ISINST.append(box_isinst)


class BindBox(ABox):
    """An arbitrary box whose lambdify is given by contract: the same box,
    bound, remembering what it was bound to."""
    given = None

    def __init__(self, sym, i):
        ABox.__init__(self, sym, (z3.simplify(zi(i)),))

    def lambdify(self, *symbols, **kw):
        def fn(*xs):
            b = BindBox(self.sym, self.idx[0])
            object.__setattr__(b, 'given', (symbols, xs))
            return b
        return fn

    def what(self):
        return [mkint(self.idx[0]), self.given is not None]


# ---------------------------------------------------------------- diagrams
def new_diagram(sym, w0=None, wn=None, n=None, kind=None, boxfn=None, cat=G):
    """Arbitrary well-typed diagram with n layers (n symbolic)."""
    c = ctx()
    sym = c.fresh_name(sym)
    if n is None:
        n = c.int('n_' + sym)
        c.add(n >= 0)
    n = zi(n)

    def W(i):
        return Factor('W:' + sym, (z3.simplify(zi(i)),), 0)

    def get(i):
        cc = ctx()
        i = z3.simplify(zi(i))
        L, R = Factor('L:' + sym, (i,), 0), Factor('R:' + sym, (i,), 0)
        b = ABox(sym, (i,), kind=kind) if boxfn is None else boxfn(SymInt(i))
        for w, j in ((word(b.dom), i), (word(b.cod), i + 1)):
            cc.words.add_group((L,) + w + (R,), (W(j),))
            cc.add(cc.words.length((L,) + w + (R,)) == cc.words.flen(W(j)))
        return cat.Layer(left=ATy((L,)), box=b, right=ATy((R,)))
    if w0 is not None:
        c.words.assume_eq((W(0),), word(w0))
    if wn is not None:
        c.words.assume_eq((W(n),), word(wn))
    return cat.Diagram(dom=ATy((W(0),)), cod=ATy((W(n),)),
                       layers=SymList([Chunk(n, get)]))


def all_layers(ls, ok):
    return all(ok(L) for s in ls.segs for L in (s if isinstance(s, list) else [s.get(z3.Int('any_layer'))]))


def raw_dom(layer):
    return word(layer.left) + word(layer.box.dom) + word(layer.right)


def raw_cod(layer):
    return word(layer.left) + word(layer.box.cod) + word(layer.right)


def weq(a, b):
    r = ctx().words.status(a, b)
    if r == 'yes':
        return session.YES, ''
    d = '.'.join(map(show, ctx().words.norm(a))) + '  vs  ' + '.'.join(map(show, ctx().words.norm(b)))
    return (session.NO, d) if r == 'no' and ctx().hard else (session.MAYBE, d)


def wt_status(D):
    """Prove D.dom = layer_0.dom, layer_i.cod = layer_{i+1}.dom, last = D.cod."""
    layers = as_symlist(D.layers)

    def chain():
        c = ctx()
        cur = word(D.dom)
        rs = []
        for s in layers.segs:
            if isinstance(s, list):
                for L in s:
                    rs.append(weq(cur, raw_dom(L)))
                    cur = raw_cod(L)
            else:
                if not c.decide(s.n > 0):
                    continue
                rs.append(weq(cur, raw_dom(s.get(z3.IntVal(0)))))
                cur = raw_cod(s.get(z3.simplify(s.n - 1)))
        rs.append(weq(cur, word(D.cod)))
        return session.combine(rs)

    rs = [session.nested(chain)]
    for s in layers.segs:
        if isinstance(s, Chunk):
            def step(s=s):
                c = ctx()
                k = c.int('k')
                c.add(z3.And(k >= 0, k + 1 < s.n))
                a, b = s.get(k), s.get(z3.simplify(k + 1))
                return weq(raw_cod(a), raw_dom(b))
            rs.append(session.nested(step))
    return session.combine(rs)


# ---------------------------------------------------------------- sameness
def same_hook(a, b):
    Y, N, M = session.YES, session.NO, session.MAYBE
    if isinstance(a, Ty) and isinstance(b, Ty):
        wa, wb = word(a), word(b)
        if wa is not None and wb is not None:
            return weq(wa, wb)
        return session.same_list(tyseq(a), tyseq(b))
    if isinstance(a, ABox) and isinstance(b, ABox):
        c = ctx()
        if a.sym == b.sym and a.dag == b.dag and len(a.idx) == len(b.idx):
            rs = [session.prove_bool(x == y) for x, y in zip(a.idx, b.idx)]
            rs.append(session.prove_bool(zi(a.rot) == zi(b.rot)))
            return session.combine(rs)
        return (N if c.hard else M), f'{a} vs {b}'
    if isinstance(a, Box) and isinstance(b, Box):
        if type(a) is not type(b) and not (isinstance(a, ABox) or isinstance(b, ABox)):
            return N, f'{type(a).__name__} vs {type(b).__name__}'
        if isinstance(a, ABox) or isinstance(b, ABox):
            return M, f'{a} vs {b}'
        da, db = a.__dict__, b.__dict__
        if set(da) != set(db):
            return N, f'fields {set(da)} {set(db)}'
        rs = []
        for k in da:
            s, d = session.same(da[k], db[k])
            rs.append((s, f'{k}: {d}'))
        return session.combine(rs)
    if isinstance(a, Layer) and isinstance(b, Layer):
        return session.combine([session.same(a.left, b.left), session.same(a.box, b.box),
                                session.same(a.right, b.right)])
    if isinstance(a, Diagram) and isinstance(b, Diagram):
        if type(a) is not type(b):
            return N, f'{type(a)} vs {type(b)}'
        return session.combine([session.same(a.dom, b.dom), session.same(a.cod, b.cod),
                                session.same_list(a.layers, b.layers)])
    return None


session.SAME.append(same_hook)


def assume_hook(a, b):
    if isinstance(a, Ty) and isinstance(b, Ty):
        ctx().words.assume_eq(word(a), word(b))
        return True
    return False


session.ASSUME.append(assume_hook)


# ---------------------------------------------------------------- representation types
def atoms_at(sym, i):
    nm = z3.Function('RN_' + sym, I, STR)(zi(i))
    z = z3.Function('RZ_' + sym, I, I)(zi(i))
    return nm, z


def rep_atom(sym):
    c = ctx()
    s = c.fresh_name(sym)
    return Ty(name=SymStr(z3.String('RN_' + s)), z=SymInt(z3.Int('RZ_' + s)))


def rep_ty(sym, form):
    """A real Ty: empty, atomic or complex (>= 2 atomic wires, any number)."""
    c = ctx()
    if form == 'empty':
        return Ty()
    if form == 'atomic':
        return rep_atom(sym)
    s = c.fresh_name(sym)
    n = z3.Int('RL_' + s)
    c.add(n >= 2)

    def get(i):
        nm, z = atoms_at(s, i)
        return Ty(name=SymStr(nm), z=SymInt(z))
    t = Ty.__new__(Ty)
    t.__dict__.update(name=None, objects=SymList([Chunk(n, get)]), z=0)
    return t


def tyseq(t):
    """The abstract view of a type: list of (name, z), for any representation."""
    if isinstance(t, ATy):
        return as_symlist(t).map(lambda x: (x.name, x.z))
    d = t.__dict__
    objs = d['objects']
    if isinstance(objs, SymList) or objs:
        return as_symlist(objs).map(lambda x: (x.name, x.z))
    if d['name'] is None:
        return SymList([])
    return SymList([[(d['name'], d['z'])]])


def restore():
    while REPLACED:
        mod, name, f = REPLACED.pop()
        if f is MISSING:
            delattr(mod, name)
        elif not isinstance(mod, dict):
            setattr(mod, name, f)
        elif f is None:
            mod.pop(name, None)
        else:
            mod[name] = f


MISSING = object()


class SymG:
    """Generator of arbitrary (symbolic) inputs."""
    symbolic = True

    def functor(self):
        """A functor given by an arbitrary map of atomic types and of boxes."""
        F = G.Functor(G.grammar, lambda f, t: functor_ty(t), lambda f, b: functor_image(b))
        F.ob_cache = InvCache(functor_ty, 'Functor.ob_cache')
        return F, functor_ty

    def types_functor(self):
        return TypesFunctor(G.grammar, lambda f, t: functor_ty(t), lambda f, b: functor_image(b)), functor_ty

    def outer_functor(self):
        """Same, applying the contract of the functor to abstract parts."""
        return SymFunctor(G.grammar, lambda f, t: functor_ty(t), lambda f, b: functor_image(b)), functor_ty

    def kept_functor(self, module=None):
        """Functors of this module that keep wires, by contract."""
        if module is None:
            return KeptFunctor
        self.contract(module, 'Functor', KeptFunctor)

    def cut(self, d, i):
        """Wires between layer i-1 and layer i of an arbitrary diagram."""
        for s in as_symlist(d.layers).segs:
            L = s.get(z3.IntVal(0))
            return ATy((Factor('W:' + L.box.sym, (z3.simplify(zi(i)),), 0),))

    def raw(self, *classes):
        """Execute the constructors of these classes instead of assuming their contract."""
        RAW.update(classes)

    def invariant(self, qual, spec):
        """Contract of a loop of the code under check (proof only)."""
        rt.LOOPS[qual] = spec

    # scalars
    def int(self, name='i', lo=None, hi=None, small=None):
        c = ctx()
        v = c.int(name)
        if lo is not None:
            c.add(v >= zi(lo))
        if hi is not None:
            c.add(v <= zi(hi))
        return SymInt(v)

    def nat(self, name='n', small=4):
        return self.int(name, 0)

    def bool(self, name='b'):
        return self.choice(True, False)

    def real(self, name='x', lo=None, hi=None):
        v = z3.Real(ctx().fresh_name(name))
        if lo is not None:
            ctx().add(v >= core.zr(lo))
        if hi is not None:
            ctx().add(v <= core.zr(hi))
        return SymReal(v)

    def string(self, name='s'):
        return SymStr(z3.String(ctx().fresh_name(name)))

    def choice(self, *opts):
        c = ctx()
        k = c.choose(len(opts))
        c.soft -= 1             # a genuine case split: every case is an input
        return opts[k]

    def assume(self, cond):
        if not rt.truth(cond):
            raise Infeasible

    def index(self, xs):
        """Arbitrary valid index of a list."""
        c = ctx()
        n = as_symlist(xs).zlen if isinstance(xs, (SymList, list, tuple)) else zi(rt.len(xs))
        k = c.int('ix')
        c.add(z3.And(k >= 0, k < n))
        if c.check() == z3.unsat:
            raise Infeasible
        return SymInt(k)

    # types
    def rty(self, name='t'):
        return rep_ty(name, self.choice('complex', 'atomic', 'empty'))

    def ratom(self, name='a'):
        return rep_atom(name)

    def ty(self, name='t', size=3):
        return ATy((ctx().words.fresh(name),))

    def aty(self, name='a'):
        return ATy((ctx().words.fresh(name, 1),))

    def rotation(self, name='z'):
        return self.int(name)

    # boxes
    def box(self, name='f', dom=None, cod=None):
        c = ctx()
        return ABox(c.fresh_name(name), (), 0, False, None if dom is None else word(dom),
                    None if cod is None else word(cod))

    def circuit(self, name='c', dom=None, cod=None, n=None):
        """An arbitrary well-typed circuit."""
        from lambeq.backend import quantum
        return new_diagram(name, dom, cod, n, cat=quantum)

    def diagram(self, name='d', dom=None, cod=None, n=None, boxfn=None):
        return new_diagram(name, dom, cod, n, boxfn=boxfn)

    def contract(self, module, name, fn):
        """Callers of module.name see the contract fn instead of the body (proof only)."""
        REPLACED.append((module, name, vars(module).get(name, MISSING)))
        setattr(module, name, fn)

    def module(self, name, fake):
        """An imported module by contract (proof only)."""
        import sys
        REPLACED.append((sys.modules, name, sys.modules.get(name)))
        sys.modules[name] = fake

    def bindable(self, i):
        return BindBox('b', i)

    def boxes(self, name='cs'):
        """Any number of arbitrary boxes."""
        c = ctx()
        s = c.fresh_name(name)
        n = c.int('n_' + s)
        c.add(n >= 0)
        return SymList([Chunk(n, lambda i: ABox(s, (z3.simplify(zi(i)),)))])

    def wires(self, t):
        return tyseq(t)

    # list of unknown length of arbitrary things made by f(index)
    def family(self, name='v'):
        """Arbitrary numbers, one per index."""
        F = z3.Function(ctx().fresh_name(name), z3.IntSort(), z3.IntSort())
        return lambda i: mkint(F(zi(i)))

    def names(self, name='nm'):
        """Distinct strings, one per index."""
        s = ctx().fresh_name(name)
        F = z3.Function(s, z3.IntSort(), STR)
        H = z3.Function(s + '~', STR, z3.IntSort())

        def get(i):
            i = zi(i)
            ctx().uninterp = True
            ctx().add(H(F(i)) == i)
            return mkstr(F(i))
        return get

    def strings(self, name='str'):
        """Arbitrary strings, one per index."""
        F = z3.Function(ctx().fresh_name(name), z3.IntSort(), STR)
        return lambda i: mkstr(F(zi(i)))

    def joined(self, xs, f, n):
        """xs followed by f(0), ..., f(n - 1)."""
        return SymList([*as_symlist(xs).segs, Chunk(zi(n), lambda j: f(mkint(zi(j))))])

    def spider(self, t, n_in, n_out):
        """A spider on one wire, with any number of legs."""
        s = object.__new__(G.Spider)
        s.__dict__.update(type=t, n_legs_in=n_in, n_legs_out=n_out, name='SPIDER', z=0,
                          dom=self.power(t, n_in), cod=self.power(t, n_out))
        return s

    def power(self, u, n):
        """The type u tensored n times."""
        w = ctx().words
        return ATy(w.power(w.drop_empty(w.norm(word(u))), zi(n)))

    def ints(self, name='k', lo=None):
        """Arbitrary integers (not below lo), one per index."""
        F = z3.Function(ctx().fresh_name(name), z3.IntSort(), z3.IntSort())

        def get(i):
            if lo is not None:
                ctx().add(F(zi(i)) >= lo)
            return mkint(F(zi(i)))
        return get

    def reals(self, name='r'):
        """Arbitrary real numbers, one per index."""
        F = z3.Function(ctx().fresh_name(name), z3.IntSort(), z3.RealSort())
        return lambda i: SymReal(F(zi(i)))

    def permutation(self, n, name='pi'):
        """An arbitrary permutation of range(n) and its inverse."""
        c = ctx()
        s = c.fresh_name(name)
        n = zi(n)
        fs = [z3.Function(s + x, z3.IntSort(), z3.IntSort()) for x in ('', '~')]

        def at(f, h):
            def get(i):
                i = zi(i)
                ctx().uninterp = True
                ctx().add(z3.Implies(z3.And(i >= 0, i < n), z3.And(f(i) >= 0, f(i) < n, h(f(i)) == i)))
                return mkint(f(i))
            return get
        return at(fs[0], fs[1]), at(fs[1], fs[0])

    def shuffles(self):
        """random.shuffle by contract: an arbitrary permutation, in place."""
        import random
        log = []

        def shuffle(xs):
            if not isinstance(xs, SymList):
                raise Unsupported('shuffling a list of known length')
            old = SymList(xs.segs)
            p, q = self.permutation(old.zlen)
            xs.segs = [Chunk(old.zlen, lambda i: old.at(zi(p(i))))]
            log.append((p, q))
        self.contract(random, 'shuffle', shuffle)
        return log

    # numbers with exact arithmetic (pyvc.num)
    def networks(self):
        """Tensor network nodes may carry symbolic names (proof only)."""
        import tensornetwork as tn
        Node = tn.Node
        self.contract(tn, 'Node', lambda a, name=None, **kw: Node(a, **kw))

    def phase(self, name='p'):
        return num.var(name)

    def cos(self, q, p=1):
        """cos(pi q p)"""
        return (num.num(q) * p * num.var('PI')).cos()

    def sin(self, q, p=1):
        return (num.num(q) * p * num.var('PI')).sin()

    def array(self, name, shape=(), real=False):
        import numpy as np
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            k = name + ''.join(f'_{j}' for j in i)
            a[i] = num.var(k + '.re') if real else num.var(k + '.re') + num.var(k + '.im') * 1j
        return a

    # vectors of unknown length (pyvc.vec)
    def numpy(self, *modules, **kw):
        """numpy by contract in these modules; returns the log of random draws."""
        from . import vec
        log = []
        vec.install()
        fake = vec.Numpy(random=vec.Random(log), **kw)
        for m in modules:
            self.contract(m, 'np', fake)
            self.contract(m, 'set', vec.SetType())
        return log

    def sets(self, *modules):
        """Sets known by membership in these modules."""
        from . import vec
        ctx().store['#sets'] = True
        vec.install()
        for m in modules:
            self.contract(m, 'set', vec.SetType())

    def symbol_set(self, make, name='syms'):
        """i -> an arbitrary set of elements make(name)."""
        from . import vec
        F = z3.Function(ctx().fresh_name(name), z3.IntSort(), STR, z3.BoolSort())

        def get(i):
            i = zi(i)

            def has(x):
                return mkbool(z3.And(F(i, core.zs(x.name)), core.zb(x == make(x.name))))
            return vec.Members(has, wrap=make)
        return get

    def union_of(self, xs, f):
        """The union of the sets f(x) for the elements of a list."""
        from . import vec
        xs = as_symlist(xs)
        return vec.Members(atoms=[vec.Union(xs.zlen, lambda i: f(xs.at(zi(i))))])

    def is_set(self, x):
        from . import vec
        return isinstance(x, (vec.Members, set))

    # chart cells
    def cell(self, cls, b, least):
        from . import shelf
        cell = cls(b)
        self.origin = z3.Function(ctx().fresh_name('offered'), z3.IntSort(), z3.BoolSort())
        base = shelf.Base()
        cell.trees, cell.trees_map = shelf.Shelf.of(base), shelf.ByCat(base)
        self._refine(cell, base, least)
        return cell, base

    def _refine(self, cell, base, least):
        from . import shelf
        c, b = ctx(), zi(cell.beam_size)
        org = self.origin
        last = shelf.SCORE(base.F(z3.simplify(b - 1)))
        base.extra = lambda i, t: [org(t), z3.Implies(i >= b, shelf.SCORE(t) == last)]
        base.at(b - 1)
        if c.decide(base.n >= b):
            cell.min_score = SymReal(last)
        else:
            cell.min_score = least

    def recell(self, cell, least):
        """The cell in any state that keeps its invariant."""
        from . import shelf
        base = shelf.Base()
        cell.trees.take(shelf.Shelf.of(base))
        cell.trees_map.take(shelf.ByCat(base))
        self._refine(cell, base, least)

    def offers(self, cell, which):
        """Trees offered; one arbitrary tree of the cell or of those offered."""
        from . import shelf
        c = ctx()
        xs, n = shelf.offered()
        q = c.int('q')
        get = xs.segs[0].get
        org = self.origin

        def known(i):
            t = get(i)
            ctx().add(z3.Implies(z3.And(zi(i) >= 0, zi(i) < n), org(t.e)))
            return t
        xs = SymList([Chunk(n, known)])
        c.add(q >= 0)
        if which == 'old':
            self.assume(mkbool(q < cell.trees.n))
            return xs, q, cell.trees[mkint(q)], None
        self.assume(mkbool(q < n))
        return xs, q, xs[mkint(q)], mkint(q)

    def where(self, L, q):
        """The turn at which the loop meets element q of the list it was given."""
        ch = L.chunk
        return ch.where(q) if hasattr(ch, 'where') else q

    def kept(self, cell, x):
        """A tree as good of the category of x is kept, or x is below the cut-off."""
        from . import shelf
        ts, d, b, k, sc = cell.trees, cell.trees_map, zi(cell.beam_size), x.cat.e, shelf.SCORE
        t = d.get_(k)
        return mkbool(z3.Or(z3.And(d.has(k), sc(t) >= sc(x.e)), z3.And(ts.n >= b, sc(x.e) < sc(ts.at(z3.simplify(b - 1))))))

    def in_order(self, ts):
        from . import shelf
        k, sc = ctx().int('k'), shelf.SCORE
        return mkbool(z3.Implies(z3.And(k >= 1, k < ts.n), sc(ts.at(z3.simplify(k - 1))) >= sc(ts.at(k))))

    def place(self, ts, score):
        """Any position at which a tree of that score keeps the order."""
        from . import shelf
        c, sc, x = ctx(), shelf.SCORE, core.zr(score)
        p = c.int('found')
        c.add(z3.And(p >= 0, p <= ts.n, z3.Implies(p > 0, sc(ts.at(z3.simplify(p - 1))) >= x), z3.Implies(p < ts.n, sc(ts.at(p)) <= x)))
        return mkint(p)

    def same_map(self, a, b):
        q = ctx().int('category')
        return mkbool(z3.And(a.has(q) == b.has(q), z3.Implies(a.has(q), a.get_(q) == b.get_(q))))

    def cell_claims(self, cell):
        """The invariant of a cell, one claim each."""
        from . import shelf
        c, ts, d, b, sc, cat = ctx(), cell.trees, cell.trees_map, zi(cell.beam_size), shelf.SCORE, shelf.CAT
        k, q = c.int('k'), c.int('category')
        t, r = ts.at(k), d.get_(q)
        here = z3.And(k >= 0, k < ts.n)
        last = sc(ts.at(z3.simplify(b - 1)))
        for label, f in (('sorted', z3.Implies(z3.And(here, k > 0), sc(ts.at(z3.simplify(k - 1))) >= sc(t))),
                         ('category known', z3.Implies(here, d.has(cat(t)))),
                         ('the only tree of its category', z3.Implies(here, d.get_(cat(t)) == t)),
                         ('a tree that was offered', z3.Implies(here, self.origin(t))),
                         ('only ties beyond the beam', z3.Implies(z3.And(here, k >= b), sc(t) == last)),
                         ('trees are listed under their category', z3.Implies(d.has(q), cat(r) == q)),
                         ('only trees of the cell', z3.Implies(d.has(q), ts.has(r)))):
            yield label, mkbool(f)

    def position(self, ts, t):
        return mkint(ts.pos(t.e))

    def on(self, ts, t):
        return mkbool(ts.has(t.e))

    def same(self, a, b):
        return a.__pv_is__(b)

    def known_tree(self, t):
        return mkbool(self.origin(t.e))

    def category(self):
        from . import shelf
        return shelf.ACat(ctx().int('category'))

    def without(self, d, ts, lo, hi):
        return d.without(ts, zi(lo), zi(hi))

    def torch(self, *modules):
        from . import vec
        for m in modules:
            self.contract(m, 'torch', vec.Torch())
            if 'sqrt' in vars(m):
                self.contract(m, 'sqrt', vec.sqrt)

    def pairing(self, module):
        """dict() of pairs of unknown number: kept as the list of pairs."""
        self.contract(module, 'dict', lambda *a, **kw: as_symlist(a[0]) if a and not isinstance(a[0], dict) else dict(*a, **kw))

    def mapping(self, name='map'):
        from . import maps
        return maps.Map.fresh(name)

    def merged(self, a, b, i):
        """Map a overwritten by the first i entries of map b."""
        return a.merged(b, i)

    def files(self, *modules, missing_dir=False):
        """Files and pickle by contract in these modules."""
        from . import maps
        fs = maps.Files(missing_dir)
        for m in modules:
            self.contract(m, 'open', fs.open)
            self.contract(m, 'pickle', maps.Pickle())
            self.contract(m, 'os', maps.Os(fs))
        return fs

    def floats(self, module):
        """float() keeps symbolic reals."""
        self.contract(module, 'float', lambda x=0.: x if isinstance(x, SymReal) else SymReal(z3.ToReal(x.e))
                      if isinstance(x, SymInt) else float(x))

    def vec(self, name, n, lo=None, hi=None):
        from . import vec
        f = self.reals(name)

        def get(i):
            x = f(i)
            for v, op in ((lo, lambda a, b: a <= b), (hi, lambda a, b: b <= a)):
                if v is not None:
                    ctx().add(zb(op(v.at(i) if hasattr(v, 'at') else v, x)))
            return x
        return vec.Vec(zi(n), get)

    def turns(self, name, n):
        """Weights that are angles, in full turns (exact trigonometry)."""
        from . import vec
        memo = []

        def get(i):
            i = zi(i)
            for k, v in memo:
                if z3.eq(k, i) or ctx().entails(k == i):
                    return v
            v = num.turn(ctx().fresh_name(name))
            memo.append((i, v))
            return v
        return vec.Vec(zi(n), get)

    def rows(self, n, c, name='sim', lo=None, hi=None):
        from . import vec

        def fact(x, i):
            if lo is not None:
                ctx().add(zb(lo.at(i) <= x))
                ctx().add(zb(x <= hi.at(i)))
        return vec.Rows.family(n, c, name, fact)

    def objective(self):
        """An arbitrary function of the contents of a vector (ghost tags)."""
        F = z3.Function(ctx().fresh_name('objective'), z3.IntSort(), z3.RealSort())
        return lambda v: SymReal(F(zi(v.tag)))

    def ite(self, c, a, b):
        from . import vec
        return vec.ite(c, a, b)

    def known(self, i):
        from . import vec
        vec.seen(i)

    def entries(self, n, f):
        from . import vec
        return vec.Vec(zi(n), f)

    def override(self, v, i, x):
        """v with entry (or row) i replaced by x."""
        v[i] = x
        return v

    def arctan2(self):
        return num.arctan2

    def amplitude(self, name='R'):
        """A positive number (symbolically a generator)."""
        return num.var(ctx().fresh_name(name))

    def bounds(self, n, ordered=True):
        from . import vec
        lo, hi = self.reals('lo'), self.reals('hi')

        def up(i):
            if ordered:
                ctx().add(zb(lo(i) <= hi(i)))
            return hi(i)
        return vec.Bounds(zi(n), lo, up)

    def at(self, v, i):
        return v.at(i) if hasattr(v, 'at') else v[i]

    def members(self, name='fs', xs=None):
        """An arbitrary set of names."""
        from . import vec
        F = z3.Function(ctx().fresh_name(name), STR, z3.BoolSort())
        return vec.Members(lambda x: mkbool(F(core.zs(x))))

    def isin(self, x, s):
        return s.has(x)

    def value(self, e):
        return mkint(zi(e))

    def unpacks(self, *classes):
        """Constructors called with an unpacked list that has one element."""
        def one(x):
            return x.get(z3.IntVal(0)) if isinstance(x, Chunk) and ctx().entails(x.n == 1) else x
        for cls in classes:
            if getattr(cls.__init__, 'unpacks', False):
                continue

            def init(self, *a, f=cls.__init__):
                return f(self, *map(one, a))
            init.unpacks = True
            self.contract(cls, '__init__', init)

    def made(self, name, box):
        """A box of the arbitrary circuit introduced under this name."""
        return isinstance(box, ABox) and box.sym.split('!')[0] == name

    def sure(self, cond):
        return cond if isinstance(cond, bool) else ctx().entails(zb(cond))

    def pieces(self, xs):
        """(None, element) or (number, element by index) from left to right."""
        out = []
        for s in as_symlist(xs).segs:
            if isinstance(s, Chunk):
                out.append((mkint(s.n), lambda j, s=s: s.get(zi(j))))
            else:
                out += [(None, x) for x in s]
        return out

    def z(self, i):
        """The index itself."""
        return zi(i)

    # categories
    def hashes(self):
        from . import cats
        REPLACED.append((rt.HOOKS, 'hash', rt.HOOKS.get('hash')))
        rt.HOOKS['hash'] = cats.hashed

    def variables(self, n):
        from . import cats
        return self.list(lambda i: cats.Member(i), 'vars', n=n)

    def growing(self):
        from . import cats
        return cats.Growing(self)

    def passed(self, d, n):
        d.upto, d.also = zi(n), []

    def whole(self, parts):
        """A category of any form; its parts are seen through contracts."""
        from . import cats
        self.hashes()
        d = self.choice('\0', '/', '\\')
        if d == '\0':
            c = cats.Category(cats.atom(), cats.feature())
        else:
            rs = []
            for nm in ('result', 'argument'):
                rs.append(cats.Part(nm, parts))
                parts.append(rs[-1])
            c = cats.Category(cats.Atom.NONE, cats.Feature.NONE, 0, None, d, *rs)
        c.var = SymInt(ctx().int('var'))
        return c

    def printed(self, d, var, relation):
        """A category of two parts that are printed by contract."""
        from . import cats
        self.hashes()
        r = cats.Printed(self, 'result')
        a = cats.Printed(self, 'argument', [r])
        c = cats.Category(cats.Atom.NONE, cats.Feature.NONE, 0, relation, d, r, a)
        c.var = var
        return c

    def text(self, *segs):
        from . import cats
        return sum((x if isinstance(x, cats.Text) else cats.Text([x]) for x in segs), cats.Text([]))

    def words_of(self, part, full):
        """The text of a part as an operand."""
        from . import cats
        w = cats.Words(part, full)
        return cats.Text([w]) if w.closed else cats.Text(['(', w, ')'])

    def read_by_contract(self, lexicon):
        """Regular expressions and the parser on texts of parts."""
        from . import cats
        own = vars(lexicon)['_parse']

        def _parse(string, var, pos=0, slots=0, in_result=True):
            u = string.unit(pos) if isinstance(string, cats.Text) else None
            if u is None:
                return own(string, var, pos, slots, in_result)
            return u[0], u[1], slots + 1
        if not hasattr(own, 'contract'):
            _parse.contract = True
            self.contract(lexicon, '_parse', _parse)
        for nm in ('VAR_SLOT_REGEX', 'CAT_REGEX'):
            r = vars(lexicon)[nm]
            if not isinstance(r, cats.Regex):
                self.contract(lexicon, nm, cats.Regex(r))

    def some_feature(self):
        from . import cats
        return cats.feature()

    def part_matches(self, a, b):
        from . import cats
        return mkbool(cats.MATCH(a.e, b.e))

    def part_equal(self, a, b):
        from . import cats
        return mkbool(cats.EQ(a.e, b.e))

    def some_category(self, name):
        from . import cats
        return cats.Lazy(self, name)

    def moved(self, c, var_map, feature):
        from . import cats
        return cats.Moved(c, var_map, feature)

    def moved_from(self, c):
        """What a category was translated from, and how."""
        from . import cats
        return (c.of, c.var_map, c.to) if isinstance(c, cats.Moved) else None

    def total(self, name):
        from . import cats
        return cats.Total(name)

    def partial(self, value):
        from . import cats
        return cats.Partial(self, value)

    def some_member(self, cls):
        from . import cats
        return cats.Rule(cls)

    def list(self, f, name='xs', minlen=0, n=None):
        c = ctx()
        n = c.int('n_' + name) if n is None else zi(n)
        c.add(n >= minlen)
        return SymList([Chunk(n, lambda i: f(SymInt(zi(i)) if not isinstance(i, int) else i))])


class View:
    """Specification-side helpers (same interface in concrete mode)."""
    @staticmethod
    def wires(t):
        return tyseq(t)

    @staticmethod
    def wt(d):
        return wt_status(d)


def prover_wt(self, D, label=''):
    r = wt_status(D.to_diagram() if not isinstance(D, Diagram) else D)
    return self._rec(label, r, 'words+z3')


session.Prover.wt = prover_wt


def _wires(self, t):
    return tyseq(t)


session.Prover.wires = _wires
