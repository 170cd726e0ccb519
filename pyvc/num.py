"""Exact symbolic numbers: polynomials with Gaussian rational coefficients in
real generators, modulo r2^2 = 2 and s_k^2 = 1 - c_k^2.

The generators stand for arbitrary reals (array entries, half-angle cosines and
sines of a parameter, pi), so an identity between such values holds for every
real input exactly when its normal form vanishes: the leading terms r2^2, s_k^2
are pairwise coprime, so the relations are a Groebner basis, and the ideal is
real.  This is the back end "polynomial normal form".

Floats: a float within 1e-12 (relative) of q, q*sqrt(2), q*pi with a small
rational q is read as that number (machine arithmetic as mathematical); any
other float is the rational it denotes.
"""
from __future__ import annotations
from fractions import Fraction as F
import math
import numbers
import numpy as np
from .core import Unsupported, SymReal, SymInt
from . import core, session

PI = ('PI',)
R2 = ('r2',)


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        d[g] = d.get(g, 0) + e
    return tuple(sorted(d.items()))


def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def _add(p, m, c):
    o = p.get(m)
    if o is not None:
        c = (o[0] + c[0], o[1] + c[1])
    if c[0] == 0 and c[1] == 0:
        p.pop(m, None)
    else:
        p[m] = c


def _reduce(p):
    """Normal form."""
    todo, out = list(p.items()), {}
    while todo:
        m, c = todo.pop()
        for i, (g, e) in enumerate(m):
            if e >= 2 and g == R2:
                rest = dict(m)
                rest[g] = e - 2
                if not rest[g]:
                    del rest[g]
                todo.append((tuple(sorted(rest.items())), (2 * c[0], 2 * c[1])))
                break
            if e >= 2 and g[0] == 'sin':
                rest = dict(m)
                rest[g] = e - 2
                if not rest[g]:
                    del rest[g]
                todo.append((tuple(sorted(rest.items())), c))
                cg = ('cos',) + g[1:]
                rest[cg] = rest.get(cg, 0) + 2
                todo.append((tuple(sorted(rest.items())), (-c[0], -c[1])))
                break
        else:
            _add(out, m, c)
    return out


def _small(x):
    f = F(x).limit_denominator(4096)
    return f if abs(float(f) - x) <= 1e-13 * max(1, abs(x)) else None


def of_float(x):
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('nan or infinity as a symbolic number')
    f = F(x)
    if f.denominator <= 2 ** 24:
        return {(): (f, F(0))}
    s = _small(x)
    if s is not None:
        return {(): (s, F(0))}
    s = _small(x / math.sqrt(2))
    if s is not None:
        return {((R2, 1),): (s, F(0))}
    s = _small(x / math.pi)
    if s is not None:
        return {((PI, 1),): (s, F(0))}
    if abs(x) < 1e-14:          # rounding of an exact zero such as cos(pi / 2)
        return {}
    return {(): (f, F(0))}


def _canon(p):
    return _reduce(p)


def num(x):
    """Number -> Num, or None."""
    if isinstance(x, Num):
        return x
    if isinstance(x, np.ndarray) and x.shape == ():
        return num(x.item())
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, F)):
        return Num({(): (F(x), F(0))} if x else {})
    if isinstance(x, float):
        return Num(of_float(x))
    if isinstance(x, complex):
        p = dict(of_float(x.real))
        for m, c in of_float(x.imag).items():
            _add(p, m, (-c[1], c[0]))
        return Num(p)
    return None


# gen -> (base q0, cos(pi q0 gen), sin(pi q0 gen)); default: half angles
TRIG = {}


def base_angle(g):
    if g in TRIG:
        return TRIG[g]
    return (F(1, 2), Num({((('cos', g), 1),): (F(1), F(0))}), Num({((('sin', g), 1),): (F(1), F(0))}))


def turn(name):
    """A number of full turns: its cosine and sine are generators."""
    v = var(name)
    g = (name,)
    TRIG[g] = (F(2), Num({((('cos', g), 1),): (F(1), F(0))}), Num({((('sin', g), 1),): (F(1), F(0))}))
    return v


def whole(name):
    """An integer (its full turns have no effect)."""
    TRIG[(name,)] = (F(2), num(1), num(0))
    return var(name)


def divide_out(p, g, c):
    """p / (c g), where every monomial of p has g."""
    out = {}
    for m, k in p.nf().p.items():
        d = dict(m)
        if not d.get(g):
            raise Unsupported('not a multiple')
        d[g] -= 1
        if not d[g]:
            del d[g]
        out[tuple(sorted(d.items()))] = (k[0] / c, k[1] / c)
    return Num(out)


def arctan2(y, x):
    """The angle t with y = r sin t, x = r cos t, r >= 0, as 2 pi turns; r must be a
    multiple of one generator standing for a non-negative number."""
    y, x = num(y), num(x)
    r2 = (x * x + y * y).nf().p
    if not r2:
        return num(0)
    (m, c), *more = r2.items()
    if more or c[1] or len(m) != 1 or m[0][1] != 2:
        raise Unsupported('arctan2: radius')
    root = F(math.isqrt(c[0].numerator), math.isqrt(c[0].denominator))
    if root * root != c[0]:
        raise Unsupported('arctan2: radius')
    name = core.ctx().fresh_name('angle')
    TRIG[(name,)] = (F(2), divide_out(x, m[0][0], root), divide_out(y, m[0][0], root))
    return var(name) * 2 * var('PI')


class Num:
    __slots__ = ('p',)
    __array_priority__ = 2000

    def __init__(self, p):
        self.p = p

    def _coerce(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return None
        return num(o)

    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        p = dict(self.p)
        for m, c in o.p.items():
            _add(p, m, c)
        return Num(p)
    __radd__ = __add__

    def __neg__(self):
        return Num({m: (-c[0], -c[1]) for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else self + -o

    def __rsub__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o + -self

    def __mul__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        p = {}
        for m, c in self.p.items():
            for n, d in o.p.items():
                _add(p, _mono_mul(m, n), _cmul(c, d))
        return Num(_reduce(p))
    __rmul__ = __mul__

    def inverse(self):
        if len(self.p) == 1:
            (m, c), = self.p.items()
            d = c[0] * c[0] + c[1] * c[1]
            ci = (c[0] / d, -c[1] / d)
            if m == ():
                return Num({(): ci})
            if m == ((R2, 1),):
                return Num({m: (ci[0] / 2, ci[1] / 2)})
        raise Unsupported('division by a symbolic number')

    def __truediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if o.p.keys() == {((PI, 1),)} and all(dict(m).get(PI) for m in self.p):
            q = o.p[((PI, 1),)]
            inv = Num({(): q}).inverse()
            out = {}
            for m, c in self.p.items():
                d = dict(m)
                d[PI] -= 1
                if not d[PI]:
                    del d[PI]
                out[tuple(sorted(d.items()))] = c
            return Num(out) * inv
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, k):
        if isinstance(k, (int, np.integer)) and k >= 0:
            r = num(1)
            for _ in range(int(k)):
                r = r * self
            return r
        if isinstance(k, (int, np.integer)):
            return (self ** -k).inverse()
        if k == .5 and set(self.p) <= {()} and (not self.p or self.p[()][1] == 0 and self.p[()][0] > 0):
            return num(float(self.p.get((), (0, 0))[0]) ** .5)
        raise Unsupported(f'power {k} of a symbolic number')

    def __rpow__(self, base):
        if isinstance(base, (float, np.floating)) and base == math.e:
            return self.exp()
        raise Unsupported('symbolic exponent')

    def conjugate(self):
        return Num({m: (c[0], -c[1]) for m, c in self.p.items()})

    @property
    def real(self):
        return Num({m: (c[0], F(0)) for m, c in self.p.items() if c[0]})

    @property
    def imag(self):
        return Num({m: (c[1], F(0)) for m, c in self.p.items() if c[1]})

    # trigonometry: arguments pi * (sum_k q_k p_k + q)
    def _angle(self):
        out = {}
        for m, c in self.p.items():
            if c[1]:
                raise Unsupported('complex angle')
            d = dict(m)
            if d.pop(PI, 0) != 1 or len(d) > 1 or any(e != 1 for e in d.values()):
                raise Unsupported(f'angle {self}')
            out[next(iter(d), None)] = c[0]
        return out

    def _cis(self):
        co, si = num(1), num(0)
        for g, q in self._angle().items():
            if g is None:
                k = q * 4
                if k.denominator != 1:
                    raise Unsupported(f'angle {q} pi')
                r, o, h = num(0), num(1), num(math.sqrt(.5))
                c1, s1 = [(o, r), (h, h), (r, o), (-h, h), (-o, r), (-h, -h), (r, -o), (h, -h)][int(k) % 8]
            else:
                q0, *b = base_angle(g)
                k = q / q0
                if k.denominator != 1:
                    raise Unsupported(f'angle {q} pi times a parameter')
                c1, s1 = num(1), num(0)
                for _ in range(abs(int(k))):
                    c1, s1 = c1 * b[0] - s1 * b[1], s1 * b[0] + c1 * b[1]
                if k < 0:
                    s1 = -s1
            co, si = co * c1 - si * s1, si * c1 + co * s1
        return co, si

    def cos(self):
        return self._cis()[0]

    def sin(self):
        return self._cis()[1]

    def exp(self):
        a = self * -1j
        c, s = a._cis()
        return c + s * 1j

    def __abs__(self):
        if set(self.p) <= {()} and not any(c[1] for c in self.p.values()):
            return self if self.p.get((), (0, 0))[0] >= 0 else -self
        return self if core.ctx().choose(2) == 0 else -self

    def __mod__(self, o):
        if o == 1:
            return self - whole(core.ctx().fresh_name('whole'))
        raise Unsupported('modulus')

    def reshape(self, *shape):          # as numpy scalars do
        a = np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)

    def nf(self):
        return Num(_canon(self.p))

    def __eq__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        d = (self - o).nf().p
        if not d:
            return True
        if set(d) <= {(), ((R2, 1),), ((PI, 1),)}:
            return False
        raise Unsupported(f'comparison {self} == {o}')

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return self != 0

    def __hash__(self):
        return 11

    def __float__(self):
        if set(self.p) <= {()}:
            return float(self.p.get((), (0, 0))[0])
        raise Unsupported('float() of a symbolic number')

    def __repr__(self):
        def mo(m):
            return '*'.join('.'.join(map(str, _flat(g))) + (f'^{e}' if e > 1 else '') for g, e in m)
        return ' + '.join(f'({c[0]}{"+" + str(c[1]) + "i" if c[1] else ""})' + ('*' + mo(m) if m else '')
                          for m, c in sorted(self.p.items(), key=str)) or '0'

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self


def _flat(g):
    for x in g:
        if isinstance(x, tuple):
            yield from _flat(x)
        else:
            yield x


def var(name):
    return Num({(((name,), 1),): (F(1), F(0))})


def has_num(x):
    return isinstance(x, Num) or isinstance(x, np.ndarray)


def zero(x):
    x = num(x)
    return not x.nf().p


def same_num(a, b):
    """session.SAME hook: arrays and numbers, entry by entry."""
    if not (has_num(a) or has_num(b)):
        return None
    A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if A.shape != B.shape:
        return session.NO, f'shapes {A.shape} and {B.shape}'
    for i in np.ndindex(*A.shape):
        x, y = num(A[i]), num(B[i])
        if x is None or y is None:
            return session.MAYBE, f'entry {A[i]!r}, {B[i]!r}'
        d = (x - y).nf()
        if d.p:
            return session.NO, f'entry {i}: {x} differs from {y} by {d}'
    return session.YES, ''


def install():
    if same_num not in session.SAME:
        session.SAME.append(same_num)
