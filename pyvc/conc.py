"""Concrete side of the contracts: the same harnesses run on real objects.

Used (a) to replay / search a failing input for an obligation the verifier
does not accept and (b) as the labelled, bounded stand-in for functions out
of the verifier's reach.  Runs the un-instrumented code of /repo."""
from __future__ import annotations
import random
import signal
import time
import traceback


class Skip(Exception):
    """The drawn input does not satisfy the precondition."""


class Failed(AssertionError):
    def __init__(self, label, detail):
        super().__init__(f'{label}: {detail}')
        self.label, self.detail = label, detail


class ConcG:
    symbolic = False
    NAMES = ('n', 's', 'p')

    def __init__(self, seed, size=3):
        self.r = random.Random(seed)
        self.draws = []
        self.size = size
        self.uid = 0

    def invariant(self, qual, spec):
        pass

    def contract(self, module, name, fn):
        pass

    def types_functor(self):
        return self.functor()

    def functor(self, target=None):
        """Random functor: atomic types to types of length 0-2, boxes to boxes."""
        from lambeq.backend.grammar import Functor, grammar, Box, Ty
        ob = {n: self.mkty(self.r.choice([0, 1, 1, 2])) for n in self.NAMES}
        obs = {n: Ty().tensor([x.unwind() for x in t]) for n, t in ob.items()}
        self.note('ob', obs)

        def fty(t):
            out = Ty()
            for x in t:
                out = out @ obs[x.name].rotate(x.z)
            return out
        salt = self.r.randrange(3)

        def ar(f, b):
            d, c = fty(b.dom), fty(b.cod)
            k = (len(b.name) + salt) % 3
            if k == 0 or len(d) == 0 and len(c) == 0:
                return Box(b.name, d, c)
            if k == 1:
                return Box(b.name + '0', d, d @ c) >> Box(b.name + '1', d @ c, c)
            return (Box(b.name + '0', d, Ty()) @ Box(b.name + '1', Ty(), c))
        return Functor(grammar, lambda f, t: obs[t.name], ar), fty

    outer_functor = functor

    def cut(self, d, i):
        return d.layers[i].dom if i < len(d.layers) else d.cod

    def raw(self, *classes):
        pass

    def shuffle(self, xs):
        self.r.shuffle(xs)
        self.note('order', list(xs))

    def pick(self, xs):
        return self.note('pick', self.r.choice(xs))

    def note(self, name, v):
        self.draws.append((name, v))
        return v

    # scalars
    def int(self, name='i', lo=None, hi=None, small=4):
        a = lo if lo is not None else (-small if hi is None else min(-small, hi))
        b = hi if hi is not None else max(small, a + small)
        b = min(b, a + 40)
        return self.note(name, self.r.randint(a, b))

    def nat(self, name='n', small=4):
        return self.note(name, self.r.randint(0, small))

    def bool(self, name='b'):
        return self.note(name, self.r.random() < .5)

    def real(self, name='x', lo=None, hi=None):
        r = self.r
        k = r.random()
        a = -3.0 if lo is None else lo
        b = (a + 6.0 if lo is not None else 3.0) if hi is None else hi
        if k < .15:
            v = a
        elif k < .3:
            v = b
        elif k < .5 and a <= 0 <= b:
            v = 0.0
        elif k < .7:
            v = round(r.uniform(a, b) * 4) / 4
            v = min(max(v, a), b)
        else:
            v = r.uniform(a, b)
        return self.note(name, float(v))

    def networks(self):
        pass

    def numpy(self, *modules, **kw):
        import numpy as np
        np.random.seed(self.r.randrange(2 ** 31))
        return []

    def vec(self, name, n, lo=None, hi=None):
        import numpy as np
        get = lambda b, i: None if b is None else float(b[i]) if hasattr(b, '__len__') else b
        return self.note(name, np.array([self.real(f'{name}{i}', get(lo, i), get(hi, i)) for i in range(n)], dtype=float))

    def known(self, i):
        pass

    def same(self, a, b):
        return a is b

    def known_tree(self, t):
        return id(t) in self.offered

    def files(self, *modules, missing_dir=False):
        pass

    def sets(self, *modules):
        pass

    def pairing(self, module):
        pass

    def torch(self, *modules):
        pass

    def turns(self, name, n):
        return self.vec(name, n)

    def arctan2(self):
        pass

    def amplitude(self, name='R'):
        return self.real(name, .1, 2)

    def bounds(self, n, ordered=True):
        import numpy as np
        out = []
        for i in range(n):
            a, b = self.r.choice([0., -1., self.r.uniform(-2, 1)]), self.r.choice([0., 1., self.r.uniform(0, 2)])
            if self.r.random() < .1:
                b = a
            out.append([a, b] if a <= b or not ordered else [b, a])
        return self.note('bounds', np.array(out).reshape(n, 2))

    def at(self, v, i):
        return v[i]

    def members(self, name='fs', xs=None):
        return self.note(name, {x for x in xs if self.r.random() < .6})

    def isin(self, x, s):
        return x in s

    def phase(self, name='p'):
        return self.real(name)

    def cos(self, q, p=1):
        import math
        return math.cos(math.pi * q * p)

    def sin(self, q, p=1):
        import math
        return math.sin(math.pi * q * p)

    def array(self, name, shape=(), real=False):
        import numpy as np
        n = int(np.prod(shape))
        v = np.array([self.r.choice([0, 1, self.r.uniform(-1, 1), self.r.uniform(-1, 1)]) + (
            0 if real else 1j * self.r.choice([0, self.r.uniform(-1, 1), self.r.uniform(-1, 1)])) for _ in range(n)])
        return self.note(name, v.reshape(shape))

    def string(self, name='s'):
        return self.note(name, self.r.choice(['a', 'b', 'n', 's', 'ab', 'x0']))

    def choice(self, *opts):
        v = self.r.choice(opts)
        return v

    def assume(self, cond):
        if not cond:
            raise Skip

    def index(self, xs):
        n = len(xs)
        if n == 0:
            raise Skip
        return self.note('ix', self.r.randrange(n))

    # types
    def _len(self, mx):
        return self.r.choice([0, 1, 1, 2, 2, 3, mx])

    def _atom(self):
        from lambeq.backend.grammar import Ty
        return Ty(self.r.choice(self.NAMES)).rotate(self.r.choice([0, 0, 0, 0, -1, 1, -2, 2]))

    def mkty(self, n):
        from lambeq.backend.grammar import Ty
        xs = [self._atom() for _ in range(n)]
        return Ty() if n == 0 else xs[0] if n == 1 else Ty(objects=xs)

    def rty(self, name='t'):
        return self.note(name, self.mkty(self._len(4)))

    def ratom(self, name='a'):
        return self.note(name, self._atom())

    def ty(self, name='t', size=None):
        return self.note(name, self.mkty(min(self._len(3), size if size is not None else 9)))

    aty = ratom

    def rotation(self, name='z'):
        return self.note(name, self.r.choice([-3, -2, -1, 0, 1, 2, 3]))

    # CCG types
    def _ccg(self, depth, names=('n', 's', 'np', 'conj', 'punc', 'p', 'N[x]', 'a b')):
        from lambeq.text2diagram.ccg_type import CCGType
        if depth == 0 or self.r.random() < .25:
            return CCGType(self.r.choice(names))
        return CCGType(result=self._ccg(depth - 1, names), direction=self.r.choice('/\\'), argument=self._ccg(depth - 1, names))

    def ccg(self, name='c', depth=2):
        return self.note(name, self._ccg(self.r.choice([0, 1, depth])))

    def rccg(self, name='c'):
        from lambeq.text2diagram.ccg_type import CCGType
        return self.note(name, CCGType() if self.r.random() < .1 else self._ccg(self.r.choice([0, 1, 2, 3]), ('n', 's', 'p')))

    # boxes
    def box(self, name='f', dom=None, cod=None):
        from lambeq.backend.grammar import Box, Word, Ty, Swap, Cup, Cap, Spider, Daggered, Frame
        r = self.r
        if dom is None and cod is None and r.random() < .55:
            a = self._atom()
            k = r.randrange(7)
            if k == 0:
                b = Swap(a, self._atom())
            elif k == 1:
                b = r.choice([Cup(a, a.r), Cup(a, a.l, is_reversed=True)])
            elif k == 2:
                b = r.choice([Cap(a, a.l), Cap(a, a.r, is_reversed=True)])
            elif k == 3:
                b = Spider(a, r.randrange(3), r.randrange(3))
            elif k == 4:
                b = Word(self._nm('w'), self.mkty(r.randrange(3)))
            elif k == 5:
                b = Daggered(Box(self._nm('g'), self.mkty(r.randrange(3)), self.mkty(r.randrange(3))))
            else:
                t = self.mkty(r.randrange(3))
                comps = [Box(self._nm('c'), t, t) for _ in range(r.randrange(1, 4))]
                b = Frame(self._nm('F'), t, t, components=comps)
            return self.note(name, b)
        d = self.mkty(self._len(2)) if dom is None else dom
        c = self.mkty(self._len(2)) if cod is None else cod
        b = Box(self._nm(name), d, c)
        if r.random() < .15:
            b = Daggered(Box(self._nm(name), c, d))
        elif r.random() < .2:
            z = r.choice([-1, 1, 2])
            b = Box(self._nm(name), d.rotate(-z), c.rotate(-z)).rotate(z)
        return self.note(name, b)

    def _nm(self, base):
        return f'{base}{self.r.randrange(4)}'

    def layers(self, cur, n):
        from lambeq.backend.grammar import Box, Word, Swap, Cup, Cap, Spider, Layer, Ty
        r = self.r
        out = []
        for _ in range(n):
            k = r.randrange(8)
            L = len(cur)
            i = r.randint(0, L)
            j = r.randint(i, min(L, i + 2))
            if k == 0 and L >= 2:
                i = r.randrange(L - 1); j = i + 2
                box = Swap(cur[i], cur[i + 1])
            elif k == 1 and L >= 2:
                i = r.randrange(L - 1); j = i + 2
                a, b = cur[i], cur[i + 1]
                if a.r == b:
                    box = Cup(a, b)
                elif a.l == b:
                    box = Cup(a, b, is_reversed=True)
                else:
                    box = Box(self._nm('h'), cur[i:j], self.mkty(r.randrange(3)))
            elif k == 2:
                j = i
                a = self._atom()
                box = r.choice([Cap(a, a.l), Cap(a, a.r, is_reversed=True)])
            elif k == 3:
                j = i
                box = Word(self._nm('w'), self.mkty(r.randrange(1, 3)))
            elif k == 4 and L >= 1:
                i = r.randrange(L); j = i + 1
                box = Spider(cur[i], 1, r.randrange(3))
            elif k == 5:
                box = Box(self._nm('g'), self.mkty(r.randrange(3)), cur[i:j]).dagger()
            else:
                box = Box(self._nm('h'), cur[i:j], self.mkty(r.randrange(3)))
            out.append(Layer(left=cur[:i], box=box, right=cur[j:]))
            cur = cur[:i] @ box.cod @ cur[j:]
        return out, cur

    def diagram(self, name='d', dom=None, cod=None):
        from lambeq.backend.grammar import Diagram, Layer, Box, Ty
        d0 = self.mkty(self._len(2)) if dom is None else dom
        ls, cur = self.layers(d0, self.r.choice([0, 1, 1, 2, 3]))
        if cod is not None and wires(cur) != wires(cod):
            ls.append(Layer(left=Ty(), box=Box(self._nm('k'), cur, cod), right=Ty()))
            cur = cod
        return self.note(name, Diagram(dom=d0, cod=cur, layers=ls))

    def boxes(self, name='cs'):
        return [self.diagram() if self.r.random() < .4 else self.box() for _ in range(self.r.choice([0, 1, 2, 3]))]

    def wires(self, t):
        return wires(t)

    def list(self, f, name='xs', minlen=0):
        n = self.r.choice([0, 1, 1, 2, 3, 4])
        n = max(n, minlen)
        return self.note(name, [f(i) for i in range(n)])


def wires(t):
    """Abstract view of a type, independent of the class' own methods."""
    out = []
    for x in (t.objects if t.objects else ([] if t.name is None else [t])):
        out.append((x.name, x.z) + ((type(x).__name__,) if type(x).__name__ != 'Ty' else ()))
    return out


def plain(x, depth=0):
    """Structure-only view used to compare results."""
    if depth > 60:
        return '...'
    mod = type(x).__module__
    if mod.startswith('lambeq.backend'):
        names = [k.__name__ for k in type(x).__mro__]
        if 'Ty' in names:
            dim = x.__dict__.get('dim')
            return ('Ty', tuple(wires(x))) + ((tuple(dim),) if dim is not None else ())
        if 'Diagram' in names:
            return ('Diagram', plain(x.dom), plain(x.cod), [plain(l, depth + 1) for l in x.layers])
        if 'Layer' in names:
            return ('Layer', plain(x.left), plain(x.box, depth + 1), plain(x.right))
        if 'Box' in names:
            return (type(x).__name__,) + tuple((k, plain(v, depth + 1)) for k, v in sorted(x.__dict__.items()))
    if type(x).__name__ == 'CCGType':
        return ('ccg', plain(x.result, depth + 1), x.direction, plain(x.argument, depth + 1)) if x.is_over or x.is_under \
            else ('ccg', x.name if x.is_atomic else None)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(y, depth + 1) for y in x])
    if isinstance(x, dict):
        return {k: plain(v, depth + 1) for k, v in x.items()}
    if type(x).__name__ == 'ndarray':
        return ('array', x.shape, x.tolist())
    return x


def close(a, b, tol=1e-8):
    import numpy as np
    if isinstance(a, float) or isinstance(b, float) or isinstance(a, complex):
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        try:
            if object in (a.dtype, b.dtype):
                a, b = a.astype(complex), b.astype(complex)
        except (TypeError, ValueError):
            a, b = a.astype(object), b.astype(object)
        return a.shape == b.shape and (a.dtype == object and all(
            close(x, y) for x, y in zip(a.ravel(), b.ravel())) or a.dtype != object
            and bool(np.allclose(a, b, atol=1e-7)))
    return plain(a) == plain(b)


class ConcM:
    symbolic = False

    def __init__(self, name):
        self.prefix = name
        self.claims = 0

    def _rec(self, label, ok, detail):
        self.claims += 1
        if not ok:
            raise Failed(f'{self.prefix}:{label}' if label else self.prefix, detail)
        return True

    def eq(self, a, b, label=''):
        ok = close(a, b)
        return self._rec(label, ok, '' if ok else f'got {a!r}\n   expected {b!r}')

    def true(self, f, label=''):
        return self._rec(label, bool(f), f'claim is {f!r}')

    def fail(self, label, detail=''):
        self._rec(label, False, detail)
    bad = fail

    def ok(self, label):
        self.claims += 1
        return True

    def all(self, n, f, label=''):
        for i in range(n):
            f(i, self)

    def wires(self, t):
        return wires(t)

    def wt(self, D, label=''):
        D = D.to_diagram()
        cur = wires(D.dom)
        for i, L in enumerate(D.layers):
            d = wires(L.left) + wires(L.box.dom) + wires(L.right)
            if d != cur:
                return self._rec(label, False, f'layer {i} expects {d}, gets {cur} in {D!r}')
            cur = wires(L.left) + wires(L.box.cod) + wires(L.right)
        return self._rec(label, cur == wires(D.cod), f'ends in {cur}, cod {wires(D.cod)} of {D!r}')


PER_CASE = 40        # seconds; drawn inputs take milliseconds


class Late(Exception):
    pass


def late(*_):
    raise Late(f'no result after {PER_CASE} s')


def run_concrete(name, fn, n, seed, deadline, gcls=None):
    """Run a harness on n drawn inputs; returns dict(cases, failure)."""
    gcls = gcls or ConcG
    cases = claims = skipped = 0
    t0 = time.time()
    signal.signal(signal.SIGALRM, late)
    for k in range(n):
        if time.time() > deadline:
            break
        s = f'{seed}:{name}:{k}'
        g, m = gcls(s), ConcM(name)
        try:
            signal.alarm(PER_CASE)
            try:
                fn(g, m)
            finally:
                signal.alarm(0)
            cases += 1
            claims += m.claims
        except Skip:
            skipped += 1
        except Failed as e:
            return dict(cases=cases + 1, claims=claims, skipped=skipped, wall_s=time.time() - t0,
                        failure=dict(harness=name, seed=s, obligation=e.label, detail=e.detail[:4000],
                                     inputs=[(a, repr(b)[:600]) for a, b in g.draws]))
        except Exception as e:
            tb = traceback.format_exc()
            return dict(cases=cases + 1, claims=claims, skipped=skipped, wall_s=time.time() - t0,
                        failure=dict(harness=name, seed=s, obligation=f'{name}:no-exception',
                                     detail=tb[-4000:],
                                     inputs=[(a, repr(b)[:600]) for a, b in g.draws]))
    return dict(cases=cases, claims=claims, skipped=skipped, wall_s=round(time.time() - t0, 3), failure=None)
