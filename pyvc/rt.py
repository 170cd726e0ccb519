"""Runtime used by instrumented lambeq code (bound to the global __pv__)."""
from __future__ import annotations
import builtins as B
import sys
import types
from . import core
import z3
from .core import (Unsupported, EndPath, Infeasible, SymInt, SymBool, SymReal,
                   SymStr, Sym, zi, zb, mkint, mkbool, concrete_int)
from .seqs import Chunk, SymList, to_segs, mklist, has_chunk, as_symlist

LOOPS = {}          # qualname or (qualname, ordinal) -> loop contract
ISINST = []         # hooks: f(obj, cls) -> bool | None
GETITEM = []


def iter_items(x):
    """Iterate; unknown-length parts appear as Chunk markers."""
    if isinstance(x, Chunk):
        return B.iter((x,))
    if isinstance(x, SymList):
        out = []
        for s in x.segs:
            if isinstance(s, list):
                out.extend(s)
            else:
                out.append(s)
        return B.iter(out)
    f = getattr(type(x), '__pv_items__', None)
    if f is not None:
        return f(x)
    return B.iter(x)


def iter_(x, *a):
    if a or not core.active():
        return B.iter(x, *a)
    return iter_items(x)


def truth(x):
    if isinstance(x, (bool, SymBool)):
        return bool(x)
    if not core.active():
        return bool(x)
    t = type(x)
    if isinstance(x, (Sym, SymList)) or hasattr(t, '__bool__'):
        return bool(x)
    if t in (list, tuple) and B.any(type(y) is Chunk for y in x):
        return bool(as_symlist(x).sym_len() != 0)
    if hasattr(t, '__len__') and t.__module__.startswith('lambeq'):
        n = t.__len__(x)
        return bool(n != 0) if not isinstance(n, int) else n != 0
    return bool(x)


# ------------------------------------------------------------- builtins
def len(x):
    if isinstance(x, SymList):
        return x.sym_len()
    if isinstance(x, SymStr):
        return mkint(z3.Length(x.e))
    f = getattr(type(x), '__pv_len__', None)
    if f is not None:
        return f(x)
    if type(x) in (list, tuple) and core.active() and B.any(type(t) is Chunk for t in x):
        return as_symlist(x).sym_len()
    if core.active() and type(x).__module__.startswith(('lambeq', 'contracts')) and hasattr(type(x), '__len__'):
        return type(x).__len__(x)
    return B.len(x)


def isinstance_(x, cls):
    if isinstance(x, Sym):
        cl = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cl:
            flat += list(getattr(c, '__args__', (c,))) if not isinstance(c, type) else [c]
        if isinstance(x, SymInt):
            return B.any(c in (int, object) for c in flat) or B.any(getattr(c, '__name__', '') in ('Number', 'Integral', 'Real') for c in flat)
        if isinstance(x, SymBool):
            return B.any(c in (int, bool, object) for c in flat)
        if isinstance(x, SymReal):
            return B.any(c in (float, object) for c in flat) or B.any(getattr(c, '__name__', '') in ('Number', 'Real', 'Complex') for c in flat)
        if isinstance(x, SymStr):
            return B.any(c in (str, object) for c in flat)
    if isinstance(x, SymList):
        cl = cls if isinstance(cls, tuple) else (cls,)
        return B.any(isinstance(c, type) and issubclass(x.kind, c) for c in cl) or \
            B.any(getattr(c, '__name__', '') in ('Sequence', 'Iterable', 'Collection', 'MutableSequence') and c is not list for c in cl if isinstance(c, type))
    for h in ISINST:
        r = h(x, cls)
        if r is not None:
            return r
    return isinstance(x, cls)


def range_(*a):
    if not B.any(isinstance(x, (Sym,)) for x in a):
        return B.range(*a)
    a = [concrete_int(x) if isinstance(x, SymInt) and concrete_int(x) is not None else x for x in a]
    if not B.any(isinstance(x, Sym) for x in a):
        return B.range(*a)
    c = core.ctx()
    lo, hi, step = (0, a[0], 1) if B.len(a) == 1 else (a[0], a[1], 1) if B.len(a) == 2 else a
    lo, hi = zi(lo), zi(hi)
    if isinstance(step, int) and step == 1:
        n = z3.If(hi - lo > 0, hi - lo, z3.IntVal(0))
        if c.decide(hi <= lo):
            return []
        n = z3.simplify(hi - lo)
        return SymList([Chunk(n, lambda i: mkint(lo + zi(i)))])
    if isinstance(step, int) and step == -1:
        if c.decide(hi >= lo):
            return []
        return SymList([Chunk(z3.simplify(lo - hi), lambda i: mkint(lo - zi(i)))])
    st = zi(step)
    if c.decide(st == 0):
        raise ValueError('range() arg 3 must not be zero')
    if not c.decide(st > 0):
        raise Unsupported('negative symbolic step')
    if c.decide(hi <= lo):
        return []
    # n = ceil((hi-lo)/step), characterised without division
    n = c.int('nsteps')
    c.add(n >= 1)
    c.add((n - 1) * st < hi - lo)
    c.add(hi - lo <= n * st)
    return SymList([Chunk(n, lambda i: mkint(lo + zi(i) * st))])


def list_(*a):
    if not a:
        return []
    if not core.active():
        return list(*a)
    return mklist(to_segs(a[0]), list)


def tuple_(*a):
    if not a:
        return ()
    if not core.active():
        return tuple(*a)
    return mklist(to_segs(a[0]), tuple)


def set_(*a):
    if not a and core.active() and core.ctx().store.get('#sets'):
        from .vec import Members
        return Members()
    if not a or not core.active():
        return set(*a)
    if type(a[0]).__name__ == 'Members':
        return a[0].union()
    segs = to_segs(a[0])
    if has_chunk(segs):
        from .vec import Members
        return Members.of(SymList(segs))
    items = [x for s in segs for x in s]
    if B.any(isinstance(x, Sym) for x in items):
        from .vec import Members
        return Members.of(items)
    return set(items)


def reversed_(x):
    if isinstance(x, SymList):
        return x.reversed()
    if core.active():
        f = getattr(type(x), '__pv_items__', None)
        if f is not None:
            return as_symlist(x).reversed()
        t = type(x)
        if t.__module__.startswith('lambeq') and hasattr(t, '__getitem__') and not hasattr(t, '__reversed__'):
            s = as_symlist(x)
            if has_chunk(s.segs):
                return s.reversed()
    return B.reversed(x)


def enumerate_(x, start=0):
    if not core.active():
        return B.enumerate(x, start)

    def gen():
        off = zi(start)
        for it in iter_items(x):
            if isinstance(it, Chunk):
                yield Chunk(it.n, lambda i, it=it, off=off: (mkint(off + zi(i)), it.get(i)))
                off = z3.simplify(off + it.n)
            else:
                yield (mkint(off), it)
                off = z3.simplify(off + 1)
    return gen()


def zip_(*xs, strict=False):
    if not core.active():
        return B.zip(*xs, strict=strict)
    segs = [to_segs(x) for x in xs]
    if not B.any(has_chunk(s) for s in segs):
        return B.zip(*[[y for s in sg for y in s] for sg in segs], strict=strict)
    c = core.ctx()
    Ls = [SymList(s) for s in segs]
    n = Ls[0].zlen
    for L in Ls[1:]:
        if c.decide(L.zlen < n):
            n = L.zlen
    return SymList([Chunk(n, lambda i: tuple(L.at(i) for L in Ls))])


def map_(f, *xs):
    if not core.active():
        return B.map(f, *xs)
    if B.len(xs) == 1:
        return comp('gen', xs[0], lambda it: [f(x) for x in it], False)
    return comp('gen', zip_(*xs), lambda it: [f(*x) for x in it], False)


def filter_(f, x):
    if not core.active():
        return B.filter(f, x)
    if f is None:
        return comp('gen', x, lambda it: [y for y in it if truth(y)], True)
    return comp('gen', x, lambda it: [y for y in it if truth(f(y))], True)


def _chunk_bool(ch, f):
    """[(cond, bool)] of truth(get(i)) at a fresh index i, with i."""
    c = core.ctx()
    i = c.int('ix')
    res = []
    soft = False

    def th():
        cc = core.ctx()
        base = B.len(cc.facts)
        cc.add(z3.And(i >= 0, i < ch.n))
        v = truth(ch.get(i))
        return (cc.facts[base:], v)
    for o in core.explore(th):
        if o.kind == 'exc':
            return i, None
        if o.ctx.soft:
            soft = True
        res.append((z3.And(*o.value[0]) if o.value[0] else z3.BoolVal(True), o.value[1]))
    if soft and not B.all(v for _, v in res) and not B.all(not v for _, v in res):
        return i, [(None, v) for _, v in res]
    return i, res


def any_(x):
    if not core.active():
        return B.any(x)
    c = core.ctx()
    for it in iter_items(x):
        if isinstance(it, Chunk):
            i, res = _chunk_bool(it, truth)
            if res is None:
                raise Unsupported('exception inside any() over unknown length')
            if B.all(not v for _, v in res):
                continue
            softres = B.any(p is None for p, v in res)
            hit = None if softres else z3.Or(*[p for p, v in res if v])
            if c.choose(2) == 0:
                k = c.int('wit')
                c.add(z3.And(k >= 0, k < it.n))
                if not truth(it.get(k)):
                    raise Infeasible
                return True
            if not softres:
                c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it.n), z3.Not(hit))))
            c.store['universals'] = c.store.get('universals', []) + [('any', it)]
        elif truth(it):
            return True
    return False


def all_(x):
    if not core.active():
        return B.all(x)
    neg = comp('gen', x, lambda it: [not truth(y) for y in it], False)
    return not any_(neg)


class SumTerm:
    pass


def sum_(x, start=0):
    if not core.active():
        return B.sum(x, start)
    c = core.ctx()
    tot = start
    for it in iter_items(x):
        if isinstance(it, Chunk):
            i = z3.Int('kappa')
            outs = []
            filt = isinstance(it, Filtered)
            base_chunk = it.base if filt else it

            def th():
                cc = core.ctx()
                cc.add(z3.And(i >= 0, i < base_chunk.n))
                base = B.len(cc.facts)
                if filt:
                    vs = it.inner((base_chunk.get(i),))
                    v = vs[0] if vs else 0
                else:
                    v = it.get(i)
                return cc.facts[base:], v
            for o in core.explore(th):
                if o.kind != 'ret' or o.ctx.soft:
                    raise Unsupported('sum() over unknown length')
                outs.append(o.value)
            e = z3.IntVal(0)
            for conds, v in outs:
                e = z3.If(z3.And(*conds) if conds else z3.BoolVal(True), zi(v), e)
            e = z3.simplify(e)
            t = bigsum(z3.simplify(base_chunk.n), e, i)
            if not z3.is_int_value(t) and _occurs(i, e):
                s0 = z3.Solver()
                s0.add(z3.Or(e < 0, e > 1))
                if s0.check() == z3.unsat:
                    c.add(z3.And(t >= 0, t <= base_chunk.n))
            tot = tot + mkint(t)
        else:
            tot = tot + it
    return tot


SUMS = []


def bigsum(n, e, i):
    """SUM_{0<=i<n} e  -- uninterpreted, one function per summand (summands
    that the solver proves equal share their function)."""
    if z3.is_int_value(e) and e.as_long() == 0:
        return z3.IntVal(0)
    if not _occurs(i, e):
        return n * e
    core.ctx().uninterp = True
    for e2, fn in SUMS:
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(e != e2)
        if z3.eq(e, e2) or s.check() == z3.unsat:
            return fn(n)
    fn = z3.Function(f'SUM{B.len(SUMS)}', z3.IntSort(), z3.IntSort())
    SUMS.append((e, fn))
    return fn(n)


def _occurs(v, e):
    st = [e]
    while st:
        t = st.pop()
        if z3.eq(t, v):
            return True
        st.extend(t.children())
    return False


def _minmax(name, a, kw):
    f = getattr(B, name)
    if not core.active():
        return f(*a, **kw)
    xs = a[0] if B.len(a) == 1 else a
    segs = to_segs(xs)
    if has_chunk(segs):
        raise Unsupported(f'{name} over unknown length')
    items = [y for s in segs for y in s]
    key = kw.get('key') or (lambda v: v)
    if not B.any(isinstance(key(v), Sym) for v in items):
        return f(items, **kw)
    best = items[0]
    for v in items[1:]:
        kv, kb = key(v), key(best)
        if truth(kv < kb if name == 'min' else kv > kb):
            best = v
    return best


def min_(*a, **kw):
    return _minmax('min', a, kw)


def max_(*a, **kw):
    return _minmax('max', a, kw)


def sorted_(x, *, key=None, reverse=False):
    if not core.active():
        return B.sorted(x, key=key, reverse=reverse)
    segs = to_segs(x)
    if has_chunk(segs):
        from .vec import ordered
        return ordered(segs, key, reverse)
    items = [y for s in segs for y in s]
    ks = [key(v) if key else v for v in items]
    if not B.any(isinstance(k, Sym) for k in ks):
        return B.sorted(items, key=key, reverse=reverse)
    # stable insertion sort with symbolic comparisons
    out = []
    for v, k in B.zip(items, ks):
        p = B.len(out)
        while p > 0 and truth((k < out[p - 1][1]) if not reverse else (out[p - 1][1] < k)):
            p -= 1
        out.insert(p, (v, k))
    return [v for v, _ in out]


HOOKS = {}


SYMTYPE = {SymInt: int, SymBool: bool, SymReal: float, SymStr: str}


def type_(*a, **kw):
    if B.len(a) == 1 and not kw:
        t = type(a[0])
        if t is SymList:
            return a[0].kind
        return SYMTYPE.get(t) or getattr(t, '__pv_type__', t)
    return type(*a, **kw)


def int_(*a):
    if B.len(a) == 1:
        x = a[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return mkint(zi(x))
        if isinstance(x, SymReal):
            # truncation toward zero
            t = z3.ToInt(x.e)
            return mkint(z3.If(x.e >= 0, t, -z3.ToInt(-x.e)))
    return int(*a)


def bool_(*a):
    if a:
        if isinstance(a[0], SymBool):
            return a[0]
        if isinstance(a[0], SymInt):
            return mkbool(a[0].e != 0)
        return truth(a[0])
    return False


def abs_(x):
    return B.abs(x)


def hash_(x):
    if core.active():
        h = HOOKS.get('hash')
        if h:
            return h(x)
    return B.hash(x)


def str_(*a):
    if a and isinstance(a[0], SymStr):
        return a[0]
    return str(*a)


def contains(x, xs):
    if isinstance(x, SymStr) and type(xs) is str:
        return mkbool(z3.Contains(z3.StringVal(xs), x.e) if not xs or not core.ctx().entails(z3.Length(x.e) == 1)
                      else z3.Or(*[x.e == z3.StringVal(ch) for ch in sorted(set(xs))]))
    return x in xs


def is_(a, b):
    f = getattr(type(a), '__pv_is__', None)
    return f(a, b) if f is not None else a is b


def strformat(o, *a, **kw):
    if type(o) is str and core.active() and B.any(isinstance(x, SymStr) for x in a):
        import string
        acc, auto = '', 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            acc = acc + lit
            if field is None:
                continue
            if spec or conv or not (field == '' or field.isdigit()):
                raise Unsupported('format field ' + field)
            k = auto if field == '' else B.int(field)
            auto += 1
            acc = acc + (a[k] if isinstance(a[k], (str, SymStr)) else str(a[k]))
        return acc
    return o.format(*a, **kw)


def index(obj, v):
    if core.active() and type(obj) in (list, tuple) and B.any(type(t) is Chunk for t in obj):
        return as_symlist(obj, type(obj)).index(v)
    return obj.index(v)


def getitem(obj, idx):
    if core.active() and type(obj) in (list, tuple, str):
        sym = isinstance(idx, Sym) or (isinstance(idx, slice) and B.any(
            isinstance(t, Sym) for t in (idx.start, idx.stop, idx.step)))
        if sym:
            if type(obj) is str:
                return SymStr(z3.StringVal(obj))[idx]
            return as_symlist(obj, type(obj))[idx]
        if type(obj) is not str and B.any(type(t) is Chunk for t in obj):
            return as_symlist(obj, type(obj))[idx]
    return obj[idx]


def _grow(x, y, refs):
    """x.extend(y) for a native list x: becomes symbolic when y is."""
    segs = to_segs(y)
    if not has_chunk(segs):
        x.extend([z for s in segs for z in s])
        return x
    if refs > 4:
        raise Unsupported('aliased list extended by an unknown number of elements')
    return SymList([list(x)] + segs)


def extend(x, y):
    if core.active() and type(x) is list:
        return _grow(x, y, sys.getrefcount(x))
    x.extend(y)
    return x


def iadd(x, y):
    if core.active() and type(x) is list:
        return _grow(x, y, sys.getrefcount(x))
    x += y
    return x


def listdisp(kind, *parts):
    if not core.active():
        out = []
        for star, v in parts:
            if star:
                out.extend(v)
            else:
                out.append(v)
        return list(out) if kind == 'list' else tuple(out)
    segs = []
    for star, v in parts:
        if star:
            segs += to_segs(v)
        else:
            segs.append([v])
    return mklist(segs, list if kind == 'list' else tuple)


def star(x):
    """Argument unpacking: unknown-length parts travel as Chunk markers."""
    if not core.active():
        return x
    segs = to_segs(x)
    out = []
    for s in mklist(segs, list).segs if has_chunk(segs) and isinstance(mklist(segs, list), SymList) else [mklist(segs, list)]:
        if isinstance(s, list):
            out += s
        else:
            out.append(s)
    return out


def fstr(*parts):
    """f-string pieces: (value, conversion, spec) or constant strings."""
    if not core.active():
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec))
        return ''.join(out)
    acc = ''
    for p in parts:
        if isinstance(p, str):
            acc = acc + p
            continue
        v, conv, spec = p
        if isinstance(v, SymStr) and not spec:
            acc = acc + v
        elif isinstance(v, SymInt) and not spec:
            acc = acc + SymStr(z3.Function('DEC', z3.IntSort(), z3.StringSort())(v.e))
        elif isinstance(v, Sym):
            acc = acc + SymStr(z3.String(core.ctx().fresh_name('text')))
        else:
            f = getattr(type(v), '__pv_str__', None)
            if f is not None:
                acc = acc + f(v)
                continue
            try:
                if conv == 114:
                    v = repr(v)
                elif conv == 115 or not spec and type(v).__format__ is object.__format__:
                    own = type(v).__str__
                    v = own(v) if isinstance(own, types.FunctionType) else str(v)
                acc = acc + (v if isinstance(v, SymStr) and not spec else format(v, spec))
            except (Unsupported, TypeError):
                # text of a symbolic object: an arbitrary string
                acc = acc + SymStr(z3.String(core.ctx().fresh_name('text')))
    return acc


# ------------------------------------------------------------- comprehensions
class Filtered(Chunk):
    """Chunk of unknown length m<=n whose elements satisfy a filter."""
    __slots__ = ('base', 'inner')


def comp(kind, it, inner, filt):
    """[inner] maps an iterable of one element to a list of 0/1 results."""
    if not core.active():
        if kind == 'gen':
            return (y for y in inner(it))
        return inner(it)
    if kind == 'gen':
        return _gencomp(it, inner, filt)
    segs = to_segs(_gencomp(it, inner, filt))
    if kind == 'list':
        return mklist(segs, list)
    if kind == 'set':
        return set_(SymList(segs))
    raise Unsupported('comprehension kind')


def freeze(f):
    """Lists read by a comprehension body are read as they are now."""
    d = f.__defaults__
    if d and B.any(type(x) is list or isinstance(x, (SymList, dict)) for x in d):
        import types
        f = types.FunctionType(f.__code__, f.__globals__, f.__name__, tuple(
            x.copy() if type(x) in (list, dict) or isinstance(x, SymList) else x for x in d), f.__closure__)
    return f


def _gencomp(it, inner, filt):
    for item in iter_items(it):
        if isinstance(item, Chunk):
            yield map_chunk(item, inner, filt)
        else:
            yield from inner((item,))


def map_chunk(ch, inner, filt):
    c = core.ctx()
    i = c.int('el')

    elems = type(ch).__name__ == 'Elements'

    def th():
        core.ctx().add(z3.And(i >= 0, i < ch.n))
        x = ch.get(i)
        r = inner((x,))
        return r, not elems or B.len(r) == 1 and (r[0] is x or truth(r[0] == x))
    keeps = set()
    exc = None
    for o in core.explore(th):
        if o.kind == 'exc':
            exc = o
        elif o.kind == 'ret':
            r, same = o.value
            elems = elems and same
            keeps.add(B.len(r))
    if exc is not None:
        # some element may raise: branch
        if c.choose(2) == 0:
            c.add(z3.And(i >= 0, i < ch.n))
            inner((ch.get(i),))
            raise Infeasible       # this branch is for the raising case only
    if elems:
        return ch                  # the elements of a set, as they are
    inner = freeze(inner)
    if filt and keeps == {0, 1}:
        h = HOOKS.get('filter')
        if h:
            return h(ch, inner)
        m = c.int('nfilt')
        c.add(z3.And(m >= 0, m <= ch.n))
        src = z3.Function(c.fresh_name('src'), z3.IntSort(), z3.IntSort())

        def get(j):
            cc = core.ctx()
            k = src(zi(j))
            cc.add(z3.And(k >= 0, k < ch.n))
            r = inner((ch.get(k),))
            if not r:
                raise Infeasible
            return r[0]
        f = Filtered(m, get)
        object.__setattr__(f, 'base', ch)
        object.__setattr__(f, 'inner', inner)
        return f
    if filt and keeps <= {0}:
        return Chunk(0, lambda j: None)
    return Chunk(ch.n, lambda j: inner((ch.get(j),))[0])


def flat(kind, it, inner):
    """Nested comprehension: inner yields lists, flattened one level."""
    def gen():
        for item in iter_items(it):
            if isinstance(item, Chunk):
                yield flat_chunk(item, inner)
            else:
                for sub in inner((item,)):
                    yield from iter_items(sub)
    if kind == 'gen':
        return gen()
    if kind == 'set' and core.active():
        from .vec import Members, Union
        inner = freeze(inner)

        def one(x):
            return Members.of(as_symlist([y for sub in inner((x,)) for y in iter_items(sub)]))
        got, plain = Members(), []
        for item in iter_items(it):
            if isinstance(item, Chunk):
                got.atoms.append(Union(item.n, lambda i, item=item: one(item.get(zi(i)))))
            else:
                for sub in inner((item,)):
                    plain += iter_items(sub)
        if not got.atoms:
            return set_(SymList(as_symlist(plain).segs))
        return got.union(set_(SymList(as_symlist(plain).segs))) if plain else got
    segs = to_segs(gen())
    if kind == 'set':
        return set_(SymList(segs)) if core.active() else set(x for s in segs for x in s)
    return mklist(segs, list)


def flat_chunk(ch, inner):
    h = HOOKS.get('flat')
    if h:
        r = h(ch, inner)
        if r is not None:
            return r
    c = core.ctx()
    inner = freeze(inner)
    i = c.int('el')

    def one(j):
        out = []
        for sub in inner((ch.get(j),)):
            for y in iter_items(sub):
                out.append(y)
        return out

    def th():
        core.ctx().add(z3.And(i >= 0, i < ch.n))
        return one(i)
    lens = set()
    for o in core.explore(th):
        if o.kind == 'exc':
            raise Unsupported('exception inside a nested comprehension')
        if o.kind == 'ret':
            lens.add(B.len(o.value) if not B.any(isinstance(y, Chunk) for y in o.value) else -1)
    if lens <= {0}:
        return Chunk(0, lambda j: None)
    if lens == {1}:
        return Chunk(ch.n, lambda j: one(j)[0])
    raise Unsupported('flattening an unknown number of lists')


# ------------------------------------------------------------- loops
class PlainLoop:
    act = False
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return B.iter(self.it)


def loop(qual, k, it):
    if not core.active():
        return PlainLoop(it)
    return Loop(qual, k, it)


def find_spec(qual, k):
    return LOOPS.get((qual, k)) or LOOPS.get(qual)


class Loop:
    """for-loop driver: concrete items are iterated, chunks are cut."""

    def __init__(self, qual, k, it):
        self.qual, self.k = qual, k
        self.items = iter_items(it)
        self.act = False
        self.pending = None
        self.state = 'idle'
        self.done = z3.IntVal(0)      # items already consumed
        self.hist = []

    def __iter__(self):
        return self

    def __next__(self):
        if self.state == 'iter':
            # end of the arbitrary iteration: invariant must be re-established
            loc = sys._getframe(1).f_locals
            self.spec.check(self, loc, z3.simplify(self.i + 1), 'preserve')
            raise EndPath
        self.act = self.pending is not None
        try:
            item = B.next(self.items)
        except StopIteration:
            self.act = self.pending is not None
            raise
        if not isinstance(item, Chunk):
            self.done = z3.simplify(self.done + 1)
            self.hist.append([item])
            return item
        c = core.ctx()
        loc = sys._getframe(1).f_locals
        if self.pending is not None:
            raise Unsupported('two consecutive symbolic segments in one loop')
        spec = find_spec(self.qual, self.k)
        if spec is None:
            raise Unsupported(f'loop {self.qual}#{self.k} over unknown length has no invariant')
        self.spec = spec if not isinstance(spec, type) else spec()
        self.chunk = item
        self.n = item.n
        self.spec.begin(self, loc)
        self.spec.check(self, loc, z3.IntVal(0), 'init')
        if c.choose(2) == 0:
            self.i = c.int('it')
            c.add(z3.And(self.i >= 0, self.i < item.n))
            self.state = 'iter'
            self.pending = self.i
            self.act = True
            return item.get(self.i)
        self.i = item.n
        self.pending = item.n
        self.hist.append(item)
        self.done = z3.simplify(self.done + item.n)
        return self.__next__()

    def pro(self, loc, names=None):
        if self.pending is None:
            return {}
        i, self.pending = self.pending, None
        self.act = False
        core.ctx().uninterp = True       # state known only through the invariant
        return self.spec.havoc(self, dict(loc), i)

    epi = pro


class LoopSpec:
    """Loop contract: override havoc_var / inv.

    inv(L, env, i, m) states the invariant through m.eq / m.true / m.same,
    which prove it (init, preserve) or assume it (after havoc)."""
    names = None

    def begin(self, L, loc):
        self.entry = dict(loc)

    def modified(self, L):
        return L.names

    def havoc_var(self, L, name, val, i):
        return auto_havoc(name, val)

    def inv(self, L, env, i, m):
        pass

    def check(self, L, loc, i, stage):
        from .session import Prover
        p = Prover(f'{L.qual}.loop{L.k}.{stage}')
        p.soft = True            # an invariant is an auxiliary claim
        self.inv(L, dict(loc), i, p)

    def havoc(self, L, loc, i):
        from .session import Assumer
        new = {}
        for nm in self.modified(L):
            if nm in loc:
                v = self.havoc_var(L, nm, loc[nm], i)
                if v is not KEEP:
                    new[nm] = v
        env = dict(loc)
        env.update(new)
        self.inv(L, env, i, Assumer())
        return new


KEEP = object()
HAVOC = []      # extra hooks: f(name, val) -> value or None


def auto_havoc(name, val):
    c = core.ctx()
    for h in HAVOC:
        r = h(name, val)
        if r is not None:
            return r
    if isinstance(val, (bool, SymBool)):
        return SymBool(c.bool(name))
    if isinstance(val, (int, SymInt)):
        return SymInt(c.int(name))
    if isinstance(val, (float, SymReal)):
        return SymReal(z3.Real(c.fresh_name(name)))
    raise Unsupported(f'cannot havoc loop variable {name} of type {type(val).__name__}')


class WLoop:
    """while-loop driver."""

    def __init__(self, qual, k, names):
        self.qual, self.k, self.names = qual, k, names
        self.spec = None
        self.visits = 0
        self.act = False

    def head(self, loc):
        if not core.active():
            return {}
        if self.visits == 0:
            self.visits = 1
            s = find_spec(self.qual, self.k)
            if s is None:
                self.visits = 10
                return {}
            self.spec = s if not isinstance(s, type) else s()
            self.i = z3.IntVal(0)
            self.spec.begin(self, loc)
            if getattr(self.spec, 'inactive', None) and self.spec.inactive(self, loc):
                self.spec = None
                self.visits = 10
                return {}
            self.spec.check(self, loc, z3.IntVal(0), 'init')
            self.i = core.ctx().int('it')
            core.ctx().add(self.i >= 0)
            core.ctx().uninterp = True
            return self.spec.havoc(self, dict(loc), self.i)
        if self.spec is not None:
            self.spec.check(self, loc, z3.simplify(self.i + 1), 'preserve')
            raise EndPath
        self.visits += 1
        if self.visits > 60:
            raise Unsupported(f'while loop {self.qual}#{self.k} without invariant does not terminate on this path')
        return {}


def wloop(qual, k, names):
    return WLoop(qual, k, names)


def setnames(L, names):
    L.names = names
    return L


def active_loop(L):
    return type(L) is Loop


def symbols_of(f):
    out, seen, todo = set(), set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        todo += t.children()
    return out


def formula(th):
    """The truth of th() as one formula (paths joined).  Facts that only
    introduce new names unrelated to the condition are left out."""
    c = core.ctx()
    base = B.len(c.facts)
    known = set()
    for f in c.facts:
        known |= symbols_of(f)
    cases = []
    for o in core.explore(th):
        if o.kind != 'ret':
            raise Unsupported('exception in a condition')
        e = core.zb(o.value)
        e = z3.BoolVal(e) if isinstance(e, bool) else e
        keep, rest = [], [(f, symbols_of(f)) for f in o.ctx.facts[base:]]
        live = known | symbols_of(e)
        more = True
        while more:
            more = [(f, s) for f, s in rest if s & live or not s]
            rest = [(f, s) for f, s in rest if not (s & live or not s)]
            for f, s in more:
                keep.append(f)
                live |= s
        cases.append(z3.And(*keep, e))
    return z3.Or(*cases)
