"""Obligations: recording, proving and assuming claims."""
from __future__ import annotations
import re
import traceback
import time
import z3
from . import core
from .core import (Unsupported, EndPath, Infeasible, SymInt, SymBool, SymReal, SymStr, Sym,
                   zi, zb, zr, zs, mkint, mkbool)
from .seqs import SymList, Chunk, as_symlist


class Ledger:
    """All verification conditions of one harness run."""

    def __init__(self):
        self.obs = {}          # label -> dict(status, vcs, detail)
        self.vcs = 0
        self.by = {'z3': 0, 'words': 0, 'structure': 0}

    def record(self, label, status, detail='', by='z3'):
        o = self.obs.setdefault(label, {'status': 'proved', 'vcs': 0, 'detail': ''})
        o['vcs'] += 1
        self.vcs += 1
        self.by[by] = self.by.get(by, 0) + 1
        rank = {'proved': 0, 'undecided': 1, 'refuted': 2}
        if rank[status] > rank[o['status']]:
            o['status'] = status
            o['detail'] = str(detail)[:1500]


LEDGER: Ledger | None = None


class Maybe(Exception):
    """Equality neither proved nor refuted."""


YES, NO, MAYBE = 'proved', 'refuted', 'undecided'


def worst(*rs):
    for s in (NO, MAYBE):
        if s in rs:
            return s
    return YES


def prove_bool(f):
    c = core.ctx()
    if isinstance(f, bool):
        f = z3.BoolVal(f)
    f = z3.simplify(f)
    if z3.is_true(f):
        return YES, ''
    r = c.check(z3.Not(f))
    if r == z3.unsat:
        return YES, ''
    if r == z3.sat:
        m = c.last.model()
        if not c.hard:
            return MAYBE, f'not provable: {f}; model {m}'
        return NO, f'{f} fails for {m}'
    if second_opinion(c, f):
        return YES, ''
    return MAYBE, f'solver unknown: {f}'


SOLVERS = [['cvc5', '--tlimit=20000', '--strings-exp'], ['z3-new', '-T:20']]


def second_opinion(c, f):
    """Other solvers on a query the first one gave up on: unsat or nothing."""
    import os
    import shutil
    import subprocess
    import tempfile
    import time
    t = time.time()
    s = z3.Solver()
    s.add(*c.facts)
    s.add(z3.Not(f))
    fd, path = tempfile.mkstemp(suffix='.smt2')
    ps = []
    try:
        with os.fdopen(fd, 'w') as fh:
            fh.write('(set-logic ALL)\n' + s.to_smt2())
        ps = [subprocess.Popen([*a, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
              for a in SOLVERS if shutil.which(a[0])]
        left = list(ps)
        while left and time.time() - t < 25:
            for p in list(left):
                if p.poll() is not None:
                    left.remove(p)
                    if p.stdout.read().strip() == 'unsat':
                        core.Stats.second += 1
                        return True
            time.sleep(0.02)
        return False
    finally:
        for p in ps:
            p.kill()
            p.wait()
        os.unlink(path)
        core.Stats.solver_s += time.time() - t


SAME = []       # hooks f(a, b) -> (status, detail) | None


def same(a, b):
    """Prove structural equality of two values; (status, detail)."""
    c = core.ctx()
    if a is b:
        return YES, ''
    for h in SAME:
        r = h(a, b)
        if r is not None:
            return r
    if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
        return prove_bool(zr(a) == zr(b))
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return prove_bool(zb(a) == zb(b))
    if isinstance(a, (int, SymInt, bool, SymBool)) and isinstance(b, (int, SymInt, bool, SymBool)):
        return prove_bool(zi(a) == zi(b))
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return prove_bool(zs(a) == zs(b))
    if isinstance(a, (SymList, list, tuple)) and isinstance(b, (SymList, list, tuple)):
        ka = a.kind if isinstance(a, SymList) else type(a)
        kb = b.kind if isinstance(b, SymList) else type(b)
        if (issubclass(ka, tuple)) != (issubclass(kb, tuple)):
            return NO, f'list/tuple mismatch {ka} {kb}'
        return same_list(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if any(isinstance(k, Sym) for k in list(a) + list(b)):
            return MAYBE, 'symbolic dict'
        if set(a) != set(b):
            return NO, f'keys {sorted(map(str, a))} vs {sorted(map(str, b))}'
        return combine([same(a[k], b[k]) for k in a])
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return prove_bool(a == b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return NO if type(a) is not type(b) else MAYBE, f'{a!r} vs {b!r}'
    if type(a) is not type(b):
        return NO, f'{type(a)} vs {type(b)}: {a!r} {b!r}'
    try:
        r = a == b
    except Unsupported as e:
        return MAYBE, str(e)
    if isinstance(r, bool):
        return (YES, '') if r else (NO, f'{a!r} != {b!r}')
    return MAYBE, f'{a!r} == {b!r} gave {type(r)}'


def combine(rs):
    st, de = YES, ''
    for s, d in rs:
        if worst(st, s) != st:
            st, de = s, d
    return st, de


def nested(f):
    """Run f on all (sub)paths; f returns (status, detail)."""
    rs = []
    try:
        outs = core.explore(f)
    except Unsupported as e:
        return MAYBE, f'unsupported: {e}'
    for o in outs:
        if o.kind == 'ret':
            s, d = o.value
            if s == NO and not o.ctx.hard:
                s = MAYBE
            rs.append((s, d))
        elif o.kind == 'exc':
            rs.append((MAYBE, 'exception in specification: ' + ''.join(
                traceback.format_exception(o.value))[-800:]))
    return combine(rs)


def same_list(a, b):
    A, B = as_symlist(a), as_symlist(b)

    def th():
        c = core.ctx()
        s, d = prove_bool(A.zlen == B.zlen)
        if s != YES:
            return s, 'lengths: ' + d
        n = core.concrete_int(mkint(A.zlen))
        if n is not None:
            return combine([same(A.at(z3.IntVal(i)), B.at(z3.IntVal(i))) for i in range(n)])
        k = c.int('k')
        c.add(z3.And(k >= 0, k < A.zlen))
        return same(A.at(k), B.at(k))
    return nested(th)


def about_engine(e):
    """The exception comes from a symbolic value not supporting an operation."""
    if isinstance(e, AttributeError) and (type(getattr(e, 'obj', None)).__module__ or '').startswith('pyvc'):
        return True
    return isinstance(e, (TypeError, AttributeError)) and re.search(r"\b(Sym[A-Z]\w*|ATy|ABox|Chunk|SCat|NoneIter)\b", str(e)) is not None


class Prover:
    def __init__(self, prefix=''):
        self.prefix = prefix

    soft = False            # refutations are not definite (auxiliary claims)

    def _rec(self, label, r, by):
        if r[0] == NO and (self.soft or not core.ctx().hard):
            r = (MAYBE, r[1])
        LEDGER.record(f'{self.prefix}:{label}' if label else self.prefix, r[0], r[1], by)
        return r[0] == YES

    def eq(self, a, b, label=''):
        r = nested(lambda: same(a, b))
        by = 'z3' if isinstance(a, (Sym, int, float)) else 'words+z3'
        return self._rec(label, r, by)

    def true(self, f, label=''):
        if isinstance(f, Sym):
            f = zb(f)
        if not isinstance(f, (bool, z3.ExprRef)):
            f = bool(f)
        return self._rec(label, prove_bool(f), 'z3')

    def fail(self, label, detail=''):
        """This point must be unreachable."""
        c = core.ctx()
        r = c.check()
        if r == z3.unsat:
            return self._rec(label, (YES, ''), 'z3')
        st = NO if r == z3.sat and c.hard else MAYBE
        return self._rec(label, (st, detail), 'z3')

    def ok(self, label):
        return self._rec(label, (YES, ''), 'structure')

    def check(self, st, detail, label):
        return self._rec(label, (st, detail), 'words+z3')

    def bad(self, label, detail=''):
        """Definite structural mismatch on a feasible path."""
        return self.fail(label, detail)

    def all(self, n, f, label=''):
        """forall 0 <= i < n: f(i, m) (f makes claims on a sub-prover)."""
        def th():
            c = core.ctx()
            i = c.int('u')
            c.add(z3.And(i >= 0, i < zi(n)))
            f(SymInt(i), self)
            return YES, ''
        r = nested(th)
        if r[0] != YES:
            self._rec(label, r, 'z3')

    symbolic = True


ASSUME = []      # hooks


class Assumer:
    symbolic = True

    def eq(self, a, b, label=''):
        c = core.ctx()
        for h in ASSUME:
            if h(a, b):
                return
        if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
            c.add(zr(a) == zr(b))
        elif isinstance(a, (int, Sym)) and isinstance(b, (int, Sym)):
            if isinstance(a, (str, SymStr)):
                c.add(zs(a) == zs(b))
            else:
                c.add(zi(a) == zi(b))
        else:
            raise Unsupported(f'cannot assume equality of {type(a)}')

    def true(self, f, label=''):
        if isinstance(f, bool):
            if not f:
                raise Infeasible
            return
        core.ctx().add(zb(f))

    def all(self, n, f, label=''):
        raise Unsupported('assumed quantifier')


def origin(exc):
    """Module file of the innermost frame of an exception."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last or ''


def run_harness(name, fn, deadline=None):
    """Symbolically execute one harness over all paths. Returns dict."""
    global LEDGER
    from .symg import SymG
    LEDGER = led = Ledger()
    t0 = time.time()
    q0, s0, u0, x0 = core.Stats.queries, core.Stats.solver_s, core.Stats.unknowns, core.Stats.second
    stats = {'paths': 0, 'live': 0}
    err = None

    def thunk():
        if deadline is not None and time.time() > deadline:
            raise Unsupported('time budget exhausted')
        g, m = SymG(), Prover(name)
        fn(g, m)

    def outcome(o):
        stats['paths'] += 1
        if o.kind == 'ret':
            if stats['live'] < 3 and o.ctx.check() == z3.sat:
                stats['live'] += 1
        elif o.kind == 'exc':
            core.CTX = o.ctx
            e = o.value
            where = origin(e)
            if about_engine(e):
                where = '/pyvc/'
            txt = ''.join(traceback.format_exception(e))[-1200:]
            if '/pyvc/' in where or '/contracts/' in where:
                led.record(f'{name}:no-exception', MAYBE, 'engine: ' + txt, 'z3')
                return
            r = o.ctx.check()
            if r == z3.unsat:
                return
            st = NO if r == z3.sat and o.ctx.hard else MAYBE
            led.record(f'{name}:no-exception', st, f'raises {type(e).__name__}: {e}\n' + txt, 'z3')

    try:
        core.explore(thunk, on_outcome=outcome)
        led.record(f'{name}:no-exception', YES, '', 'z3')
    except Unsupported as e:
        err = f'{e}'
        tb = traceback.format_exc()
        led.record(f'{name}:within-subset', MAYBE, f'{e}\n{tb[-1200:]}')
    except core.EndPath:
        pass
    finally:
        core.CTX = None
    vac = stats['live'] == 0 and err is None
    if vac:
        led.record(f'{name}:non-vacuous', MAYBE, 'no feasible path reaches the end of the harness')
    return {'name': name, 'obligations': led.obs, 'vcs': led.vcs, 'by': led.by,
            'paths': stats['paths'], 'error': err, 'wall_s': round(time.time() - t0, 3),
            'queries': core.Stats.queries - q0, 'solver_s': round(core.Stats.solver_s - s0, 3),
            'unknowns': core.Stats.unknowns - u0, 'second': core.Stats.second - x0}
