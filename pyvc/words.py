"""Decision procedure for wire-type words.

The abstract view of a type is a word over wire variables.  A factor is a
variable (possibly indexed by integer terms, e.g. the wires left of layer i)
raised to a rotation (winding-number shift).  Equations between words are kept
as rewrite rules; lengths live in the SMT solver.  Soundness: every rewrite
step replaces equals by equals in the free monoid with the anti-automorphism
  (u v)^k = u^k v^k  (k even)   |   v^k u^k  (k odd),   (u^j)^k = u^(j+k)
which is exactly the contract of Ty.rotate / Ty.tensor (proved under P01).
"""
from __future__ import annotations
from collections import namedtuple
from . import core
import z3
from .core import Unsupported, Infeasible, zi

Factor = namedtuple('Factor', 'sym idx rot')


def rot_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    e = z3.simplify(zi(a) + zi(b))
    return e.as_long() if z3.is_int_value(e) else e


def rot_neg(a):
    return -a if isinstance(a, int) else z3.simplify(-a)


def functor_factor(f):
    """Image of a wire bundle under the functor under consideration."""
    if isinstance(f.sym, tuple):
        return Factor('F:@' + repr(f.sym), f.idx, f.rot)
    return Factor('F:' + f.sym, f.idx, f.rot)


ENTAILS = {}        # decision procedures for the sorts of indices
UNFOLD = {}         # defining equations of word-valued functions


class WordStore:
    def __init__(self, ctx, parent=None):
        self.ctx = ctx
        self.loose = False          # match groups up to empty members
        self.rules1 = list(parent.rules1) if parent else []
        self.rulesN = list(parent.rulesN) if parent else []
        self.diseqs = list(parent.diseqs) if parent else []
        self.known_len = set(parent.known_len) if parent else set()
        self.fixed_len = dict(parent.fixed_len) if parent else {}
        self.merged = set(parent.merged) if parent else set()
        self.powers = dict(parent.powers) if parent else {}

    # ---- variables
    def fresh(self, base='t', length=None):
        name = self.ctx.fresh_name(base)
        if length is not None:
            self.fixed_len[name] = length
        return Factor(name, (), 0)

    def var(self, name, *idx):
        return Factor(name, tuple(z3.simplify(zi(i)) for i in idx), 0)

    def flen(self, f):
        if isinstance(f.sym, tuple):            # concrete atom
            return z3.IntVal(1)
        if f.sym.startswith('sub:'):            # wires a..b-1 of a bundle
            return z3.simplify(f.idx[-1] - f.idx[-2])
        if f.sym.startswith('pow:'):            # u u ... u
            return z3.simplify(len(self.powers[f.sym]) * f.idx[0])
        if f.sym in self.fixed_len:
            return zi(self.fixed_len[f.sym])
        if f.idx:
            fn = z3.Function('len_' + f.sym, *[i.sort() for i in f.idx], z3.IntSort())
            t = fn(*f.idx)
        else:
            t = z3.Int('len_' + f.sym)
        k = t.sexpr()
        if k not in self.known_len:
            self.known_len.add(k)
            self.ctx.add(t >= 0)
        return t

    def length(self, w):
        if not w:
            return z3.IntVal(0)
        return z3.simplify(z3.Sum([self.flen(f) for f in w]) if len(w) > 1 else self.flen(w[0]))

    # ---- powers
    def power(self, u, n):
        """u repeated n >= 0 times (u is a word of single wires)."""
        n = z3.simplify(zi(n))
        u = tuple(u)
        for k, v in self.powers.items():
            if len(u) == len(v) and all(self.same(f, g) for f, g in zip(u, v)):
                break
        else:
            k = f'pow:{self.ctx.fresh_name("u")}'
            self.powers[k] = u
        return (Factor(k, (n,), 0),)

    def fold_powers(self, w):
        """Powers swallow the copies next to them; known powers are expanded."""
        for i, f in enumerate(w):
            if not (isinstance(f.sym, str) and f.sym.startswith('pow:')):
                continue
            n, u = f.idx[0], self.powers[f.sym]
            k = n.as_long() if z3.is_int_value(n) else \
                next((j for j in (0, 1, 2) if self.ctx.entails(n == j)), None)
            if k is not None:
                return w[:i] + list(self.rotate(u * k, f.rot)) + w[i + 1:]
            u = self.rotate(u, f.rot)
            a = i - len(u)
            if a >= 0 and all(self.same(x, y) for x, y in zip(w[a:i], u)):
                return w[:a] + [f._replace(idx=(z3.simplify(n + 1),))] + w[i + 1:]
            if i + len(u) < len(w) + 0 and all(self.same(x, y) for x, y in zip(w[i + 1:i + 1 + len(u)], u)) \
                    and len(w) >= i + 1 + len(u):
                return w[:i] + [f._replace(idx=(z3.simplify(n + 1),))] + w[i + 1 + len(u):]
            if i + 1 < len(w) and w[i + 1].sym == f.sym and self.same_rot(f.rot, w[i + 1].rot):
                return w[:i] + [f._replace(idx=(z3.simplify(n + w[i + 1].idx[0]),))] + w[i + 2:]
        return None

    # ---- rotation
    def odd(self, k):
        if isinstance(k, int):
            return k % 2 == 1
        return self.ctx.decide(k % 2 == 1)

    def rotate(self, w, k):
        if isinstance(k, core.SymInt):
            k = k.e
        if isinstance(k, int) and k == 0 or not w:
            return tuple(w)
        if len(w) > 1 and self.odd(k):
            w = reversed(w)
        return tuple(Factor(f.sym, f.idx, rot_add(f.rot, k)) for f in w)

    # ---- equality of factors
    def same_ref(self, f, g):
        if f.sym != g.sym or len(f.idx) != len(g.idx):
            return False
        return all(z3.eq(a, b) or a.sort() == b.sort() and ENTAILS.get(a.sort().name(), self.ctx.entails)(a == b)
                   for a, b in zip(f.idx, g.idx))

    def same_rot(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return self.ctx.entails(zi(a) == zi(b))

    def same(self, f, g):
        if f.sym != g.sym and isinstance(f.sym, str) and isinstance(g.sym, str):
            for x, y in ((f, g), (g, f)):       # the only wire of a one-wire bundle
                if x.sym == 'let_' + y.sym and all(self.ctx.entails(a == b) for a, b in zip(x.idx, y.idx)) \
                        and self.ctx.entails(self.flen(y) == 1):
                    return self.same_rot(f.rot, g.rot)
        return self.same_ref(f, g) and self.same_rot(f.rot, g.rot)

    # ---- normal form
    def norm(self, w, depth=0):
        if any(isinstance(f.sym, str) and f.sym.startswith('F:') for f in w):
            out, run = [], []
            for f in list(w) + [None]:
                if f is not None and isinstance(f.sym, str) and f.sym.startswith('F:'):
                    run.append(f._replace(sym=f.sym[2:]))
                    continue
                if run:
                    out += [('F', self.norm(run), tuple(run))]
                    run = []
                if f is not None:
                    out.append(f)
            w = []
            for x in out:
                if isinstance(x, Factor):
                    w.append(x)
                else:
                    w += [functor_factor(f) for f in x[1]]
                    if tuple(x[1]) != x[2]:
                        k = ('Flen', repr(x[1]), repr(x[2]))
                        if k not in self.known_len:
                            self.known_len.add(k)
                            self.ctx.add(self.length([functor_factor(f) for f in x[1]])
                                         == self.length([functor_factor(f) for f in x[2]]))
            w = tuple(w)
            if any(not (isinstance(f.sym, str) and f.sym.startswith('F:')) for f in w) \
                    or any(isinstance(f[0], str) and f[0].startswith('F:') for f in self.rules1) \
                    or self.loose or any(str(f.sym).startswith('F:') for l, _ in self.rulesN for f in l):
                v = self.norm1(w)
                return v if v == w or depth > 20 else self.norm(v, depth + 1)
            return w
        return self.norm1(w)

    def norm1(self, w):
        w = list(w)
        fuel = 400
        changed = True
        while changed:
            changed = False
            if self.powers:
                v = self.fold_powers(w)
                if v is not None:
                    w, changed, fuel = v, True, fuel - 1
                    if fuel < 0:
                        raise Unsupported('powers do not settle')
                    continue
            for i, f in enumerate(w):
                if isinstance(f.sym, str) and f.sym.startswith('sub:') \
                        and self.ctx.entails(f.idx[-1] == f.idx[-2] + 1):
                    w[i:i + 1] = self.rotate((self.single(f.sym[4:], f.idx[:-2], f.idx[-2]),), f.rot)
                    changed = True
                    break
                for (sym, idx, rhs) in self.rules1:
                    if f.sym == sym and self.same_ref(f, Factor(sym, idx, 0)) \
                            and not any(self.same_ref(r, f) for r in rhs):
                        w[i:i + 1] = self.rotate(rhs, f.rot)
                        changed = True
                        break
                if not changed and f.sym in UNFOLD:
                    rhs = UNFOLD[f.sym](self, f)
                    if rhs is not None:
                        w[i:i + 1] = self.rotate(rhs, f.rot)
                        changed = True
                if changed:
                    break
            if not changed:
                rules = self.rulesN
                if self.loose and any(str(f.sym).startswith('F:') for f in w):
                    rules = rules + [(tuple(map(functor_factor, self.expand1(l))), tuple(map(functor_factor, r)))
                                     for l, r in rules if not any(str(f.sym).startswith('F:') for f in l)]
                if self.loose:
                    rules = sorted(((self.drop_empty(self.expand1(l)), r) for l, r in rules), key=lambda x: -len(x[0]))
                for lhs, rhs in rules:
                    if not self.loose:
                        lhs = self.expand1(lhs)
                    if len(lhs) < (1 if self.loose else 2) or len(lhs) == len(rhs) == 1 and self.same_ref(lhs[0], rhs[0]):
                        continue
                    hit = self._find(w, lhs)
                    if hit is not None:
                        i, k = hit
                        w[i:i + len(lhs)] = self.rotate(rhs, k)
                        changed = True
                        break
            fuel -= 1
            if fuel < 0 or len(w) > 80:
                import os
                if os.environ.get('PYVC_DEBUG'):
                    print(w, '\nR1', self.rules1, '\nRN', self.rulesN, self.ctx.facts)
                raise Unsupported('word normalisation does not terminate')
        return tuple(w)

    def expand1(self, w):
        """Apply the single-factor rules only."""
        w = list(w)
        i = 0
        fuel = 200
        while i < len(w):
            for (sym, idx, rhs) in self.rules1:
                if w[i].sym == sym and self.same_ref(w[i], Factor(sym, idx, 0)) \
                        and not any(self.same_ref(r, w[i]) for r in rhs):
                    w[i:i + 1] = self.rotate(rhs, w[i].rot)
                    fuel -= 1
                    if fuel < 0:
                        raise Unsupported('word expansion does not terminate')
                    break
            else:
                i += 1
        return tuple(w)

    def _find(self, w, lhs):
        """Find lhs^k as contiguous subword of w; returns (pos, k)."""
        n = len(lhs)
        syms = sorted(str(f.sym) for f in lhs)
        for i in range(len(w) - n + 1):
            if sorted(str(f.sym) for f in w[i:i + n]) != syms:
                continue
            for order in (0, 1):
                l = lhs if order == 0 else tuple(reversed(lhs))
                if any(l[j].sym != w[i + j].sym for j in range(n)):
                    continue
                k = rot_add(w[i].rot, rot_neg(l[0].rot))
                if isinstance(k, int):
                    if (k % 2 == 1) != (order == 1):
                        continue
                elif not self.ctx.entails(k % 2 == order):
                    continue
                if all(self.same_ref(l[j], w[i + j])
                       and self.same_rot(rot_add(l[j].rot, k), w[i + j].rot)
                       for j in range(n)):
                    return i, k
        return None

    def strip(self, a, b):
        a, b = list(self.norm(a)), list(self.norm(b))
        while a and b and self.same(a[0], b[0]):
            a.pop(0); b.pop(0)
        while a and b and self.same(a[-1], b[-1]):
            a.pop(); b.pop()
        return tuple(a), tuple(b)

    def drop_empty(self, w):
        return tuple(f for f in w if isinstance(f.sym, tuple) or not self.empty(f))

    def empty(self, f):
        if f.sym.startswith('F:') and not f.sym.startswith('F:@') \
                and self.ctx.entails(self.flen(f._replace(sym=f.sym[2:])) == 0):
            return True
        return self.ctx.entails(self.flen(f) == 0)

    def atomic_rotfree(self, f):
        return isinstance(f.sym, tuple) or self.ctx.entails(self.flen(f) == 1)

    def saturate(self):
        """Two rules for what turned out to be the same bundle."""
        by = {}
        for sym, idx, rhs in self.rules1:
            if idx and sym.startswith('W:'):
                by.setdefault(sym, []).append((idx, rhs))
        for sym, rs in by.items():
            for i in range(len(rs)):
                for j in range(i):
                    k = (sym, tuple(x.sexpr() for x in rs[i][0]), tuple(x.sexpr() for x in rs[j][0]))
                    if k in self.merged:
                        continue
                    if self.same_ref(Factor(sym, rs[i][0], 0), Factor(sym, rs[j][0], 0)):
                        self.merged.add(k)
                        self.assume_eq(rs[i][1], rs[j][1])

    def status(self, a, b):
        """'yes' | 'no' | ('maybe', a', b')"""
        self.saturate()
        if not a and not b:
            return 'yes'
        a, b = self.strip(a, b)
        if not a and not b:
            return 'yes'
        a, b = self.strip(self.drop_empty(a), self.drop_empty(b))
        if not a and not b:
            return 'yes'
        if self.ctx.entails(self.length(a) != self.length(b)):
            return 'no'
        if not self.loose and self.rulesN:
            self.loose = True
            try:
                x, y = self.strip(a, b)
            finally:
                self.loose = False
            if not x and not y:
                return 'yes'
        # split aligned prefixes of equal known length
        if a and b:
            f, g = a[0], b[0]
            if isinstance(f.sym, tuple) and isinstance(g.sym, tuple):
                if f.sym != g.sym:
                    return 'no'
                if self.ctx.entails(zi(f.rot) != zi(g.rot)):
                    return 'no'
            f, g = a[-1], b[-1]
            if isinstance(f.sym, tuple) and isinstance(g.sym, tuple):
                if f.sym != g.sym:
                    return 'no'
                if self.ctx.entails(zi(f.rot) != zi(g.rot)):
                    return 'no'
        for (x, y) in self.diseqs:
            x, y = self.strip(x, y)
            if (self._idw(x, a) and self._idw(y, b)) or (self._idw(x, b) and self._idw(y, a)):
                return 'no'
        return ('maybe', a, b)

    def _idw(self, x, a):
        return len(x) == len(a) and all(self.same(f, g) for f, g in zip(x, a))

    def proves_eq(self, a, b):
        r = self.status(a, b)
        return r == 'yes'

    # ---- assumptions
    def assume_eq(self, a, b):
        r = self.status(a, b)
        if r == 'yes':
            return
        if r == 'no':
            raise Infeasible
        _, a, b = r
        self.ctx.add(self.length(a) == self.length(b))
        while a and b and len(a) + len(b) > 2:
            f, g = a[0], b[0]
            if self.ctx.entails(self.flen(f) == self.flen(g)):
                self._unify1(f, g)
                return self.assume_eq(a[1:], b[1:])
            f, g = a[-1], b[-1]
            if self.ctx.entails(self.flen(f) == self.flen(g)):
                self._unify1(f, g)
                return self.assume_eq(a[:-1], b[:-1])
            break
        if not a or not b:
            for f in (a or b):
                self.ctx.add(self.flen(f) == 0)
            return
        if len(a) == 1 and len(b) == 1:
            return self._unify1(a[0], b[0])
        cands = []
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and not isinstance(x[0].sym, tuple) and self._orients(x[0], y):
                cands.append((x[0], y))
        if cands:
            cands.sort(key=lambda c: (bool(c[0].idx), -_seq(c[0].sym)))
            f, w = cands[0]
            self.rules1.append((f.sym, f.idx, self.rotate(w, rot_neg(f.rot))))
            return
        if len(a) < len(b):
            a, b = b, a
        if len(a) >= 2:
            self.rulesN.append((a, b))

    def _orients(self, f, w):
        same = [g for g in w if g.sym == f.sym]
        if not same:
            return True
        if f.sym not in UNFOLD:
            return False
        return all(any(z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED and i.sexpr() not in j.sexpr()
                       for i, j in zip(f.idx, g.idx)) for g in same)

    def _unify1(self, f, g):
        if self.same(f, g):
            return
        ft, gt = isinstance(f.sym, tuple), isinstance(g.sym, tuple)
        if ft and gt:
            if f.sym != g.sym:
                raise Infeasible
            self.ctx.add(zi(f.rot) == zi(g.rot))
            return
        if self.same_ref(f, g):
            self.ctx.add(z3.Or(self.flen(f) == 0, zi(f.rot) == zi(g.rot)))
            return
        if f.sym == g.sym:
            # same family, different index: directed rule by index
            pass
        if ft or (not gt and _seq(f.sym) < _seq(g.sym)):
            f, g = g, f
        self.ctx.add(self.flen(f) == self.flen(g))
        self.rules1.append((f.sym, f.idx, (Factor(g.sym, g.idx, rot_add(g.rot, rot_neg(f.rot))),)))

    def decide_eq(self, a, b):
        r = self.status(a, b)
        if r == 'yes':
            return True
        if r == 'no':
            return False
        _, x, y = r
        # single atomic wires with the same reference: equal iff rotations equal
        if len(x) == len(y) == 1 and self.same_ref(x[0], y[0]):
            d = zi(x[0].rot) == zi(y[0].rot)
            return self.ctx.decide(z3.Or(self.flen(x[0]) == 0, d))
        if not self.ctx.decide(self.length(x) == self.length(y)):
            return False
        r = self.status(x, y)
        if r == 'yes':
            return True
        if r == 'no':
            return False
        import os
        if os.environ.get('PYVC_DEBUG'):
            print('UNDECIDED EQ', x, y, '\nR1', self.rules1, '\nRN', self.rulesN, self.ctx.facts)
        if self.ctx.choose(2) == 0:
            self.assume_eq(a, b)
            for (p, q) in self.diseqs:
                if self.status(p, q) == 'yes':
                    raise Infeasible
            return True
        self.ctx.add(self.length(x) > 0)        # of the same length and different
        self.diseqs.append((x, y))
        return False

    # ---- splitting
    def add_group(self, lhs, rhs):
        """Definitional rule lhs -> rhs (single factor)."""
        lhs = tuple(lhs)
        if len(lhs) == 1:
            f = lhs[0]
            self.rules1.append((f.sym, f.idx, self.rotate(rhs, rot_neg(f.rot))))
            return
        for l, r in self.rulesN:
            if len(l) == len(lhs) and all(self.same(x, y) for x, y in zip(l, lhs)) \
                    and self._idw(r, rhs):
                return
        self.rulesN.append((lhs, tuple(rhs)))

    def split(self, w, n):
        """Split word w at position n, 0 <= n <= len(w) (must hold)."""
        c = self.ctx
        n = z3.simplify(zi(n))
        w = self.norm(w)
        p = z3.IntVal(0)
        pos = [p]
        for f in w:
            p = z3.simplify(p + self.flen(f))
            pos.append(p)
        for i, q in enumerate(pos):
            if z3.eq(q, n) or c.entails(q == n):
                return w[:i], w[i:]
        for i, f in enumerate(w):
            if c.decide(n <= pos[i + 1]):
                if c.decide(n == pos[i + 1]):
                    return w[:i + 1], w[i + 1:]
                m = z3.simplify(n - pos[i])
                l, r = self.split_factor(f, m)
                return w[:i] + l, r + w[i + 1:]
        raise Infeasible

    def piece(self, sym, idx, a, b):
        if self.ctx.entails(b == a + 1):
            return self.single(sym[4:], idx, a)
        return Factor(sym, idx + (z3.simplify(a), z3.simplify(b)), 0)

    def single(self, base, idx, a):
        self.fixed_len['let_' + base] = 1
        return Factor('let_' + base, idx + (z3.simplify(a),), 0)

    def split_factor(self, f, m):
        c = self.ctx
        if isinstance(f.sym, str) and f.sym.startswith('pow:'):     # 0 < m < flen
            u = self.rotate(self.powers[f.sym], f.rot)
            if len(u) == 1:
                return (f._replace(idx=(m,)),), (f._replace(idx=(z3.simplify(f.idx[0] - m),)),)
            if not z3.is_int_value(m) or m.as_long() > 12:
                raise Unsupported('splitting a power at an unknown place')
            m, k = m.as_long(), 0
            out = []
            while len(out) < m:
                out += u
                k += 1
            return tuple(out[:m]), tuple(out[m:]) + (f._replace(idx=(z3.simplify(f.idx[0] - k),)),)
        if isinstance(f.sym, str) and f.sym.startswith('F:'):
            base = f._replace(sym=f.sym[2:])
            for lhs, rhs in self.rulesN:
                lhs = self.expand1(lhs)
                if len(rhs) == 1 and self.same_ref(rhs[0], base._replace(rot=0)):
                    lw = [functor_factor(g) for g in self.rotate(lhs, rot_add(f.rot, rot_neg(rhs[0].rot)))]
                    p = z3.IntVal(0)
                    for i, g in enumerate(lw):
                        if c.entails(p == m):
                            return tuple(lw[:i]), tuple(lw[i:])
                        p = z3.simplify(p + self.flen(g))
            raise Unsupported('splitting the image of a wire bundle')
        # known decomposition of this wire bundle?
        for lhs, rhs in self.rulesN:
            lhs = self.expand1(lhs)
            if len(rhs) == 1 and self.same_ref(rhs[0], Factor(f.sym, f.idx, 0)):
                lw = self.rotate(lhs, rot_add(f.rot, rot_neg(rhs[0].rot)))
                p = z3.IntVal(0)
                for i, g in enumerate(lw):
                    if c.entails(p == m):
                        return tuple(lw[:i]), tuple(lw[i:])
                    p = z3.simplify(p + self.flen(g))
        odd = self.odd(f.rot)
        ln = self.flen(f)
        cut = z3.simplify(ln - m) if odd else m
        if f.sym.startswith('sub:'):
            sym, idx, a, b = f.sym, f.idx[:-2], f.idx[-2], f.idx[-1]
        else:
            sym, idx, a, b = 'sub:' + f.sym, f.idx, z3.IntVal(0), ln
        cut = z3.simplify(a + cut)
        c.add(z3.And(a <= cut, cut <= b))
        P, Q = self.piece(sym, idx, a, cut), self.piece(sym, idx, cut, b)
        self.rules1.append((f.sym, f.idx, (P, Q)))
        w = self.rotate((P, Q), f.rot)
        return w[:1], w[1:]


def _seq(sym):
    if isinstance(sym, tuple):
        return -1
    try:
        return int(sym.rsplit('!', 1)[1].replace('.', ''))
    except Exception:
        return 0
