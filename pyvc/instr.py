"""Mechanical extraction: instrument lambeq source on import.

The source text is read from /repo on every run, parsed, and rewritten so that
constructs CPython would execute natively on concrete data (loops, builtins,
comprehensions, truth tests, star-arguments, f-strings) go through pyvc.rt.
On concrete data the rewritten code behaves as the original (checked by
running the repository's tests under instrumentation: tools/selftest.sh).
Dropped by the extraction: nothing but source positions and laziness of
nested generator expressions.
"""
from __future__ import annotations
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import pathlib

REPO = pathlib.Path('/repo')

BUILTINS = {
    'len': 'len', 'isinstance': 'isinstance_', 'range': 'range_', 'list': 'list_',
    'tuple': 'tuple_', 'set': 'set_', 'reversed': 'reversed_', 'enumerate': 'enumerate_',
    'zip': 'zip_', 'map': 'map_', 'filter': 'filter_', 'any': 'any_', 'all': 'all_',
    'sum': 'sum_', 'min': 'min_', 'max': 'max_', 'sorted': 'sorted_', 'int': 'int_',
    'bool': 'bool_', 'abs': 'abs_', 'hash': 'hash_', 'str': 'str_', 'iter': 'iter_',
    'type': 'type_',
}
MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'add', 'update', 'clear', 'setdefault',
       'appendleft', 'popleft', 'discard', 'sort', 'reverse'}


def pv(name):
    return ast.Attribute(ast.Name('__pv__', ast.Load()), name, ast.Load())


def call(f, *args):
    return ast.Call(f, list(args), [])


def const(v):
    return ast.Constant(v)


class Modified(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def addn(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.addn(n.id)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name):
            self.addn(n.func.value.id)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            self.addn(n.value.id)
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            self.addn(n.value.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.addn(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)
    visit_SetComp = visit_GeneratorExp = visit_ListComp


def targets_of(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


class Instr(ast.NodeTransformer):
    def __init__(self, modname, shadow):
        self.mod = modname
        self.qual = []
        self.infn = 0
        self.counter = [0]
        self.shadow = [set(shadow)]
        self.uid = 0
        self.frzstack = 0
        self.deffn = [set()]

    # -- scopes
    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        save, self.infn = self.infn, 0
        n.body = [self.visit(x) for x in n.body]
        n.body = [y for x in n.body for y in (x if isinstance(x, list) else [x])]
        self.infn = save
        self.qual.pop()
        return n

    def visit_FunctionDef(self, n):
        self.qual.append(n.name)
        self.counter.append(0)
        sh = {a.arg for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs}
        if n.args.vararg:
            sh.add(n.args.vararg.arg)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                sh.add(x.id)
            if isinstance(x, (ast.FunctionDef,)) and x is not n:
                sh.add(x.name)
        self.shadow.append(sh)
        self.deffn.append({x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n})
        glob = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        self.deffn[-1] |= glob
        save_frz, self.frzstack = self.frzstack, 0
        self.infn += 1
        body = []
        for x in n.body:
            r = self.visit(x)
            body.extend(r if isinstance(r, list) else [r] if r is not None else [])
        n.body = body
        self.infn -= 1
        self.frzstack = save_frz
        self.deffn.pop()
        self.shadow.pop()
        self.counter.pop()
        self.qual.pop()
        return n

    def q(self):
        return '.'.join(self.qual)

    def shadowed(self, name):
        return any(name in s for s in self.shadow)

    # -- statements
    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r] if r is not None else [])
        return out

    def restore(self, L, meth, names):
        """if L.act: _d = L.meth(locals()); if 'x' in _d: x = _d['x'] ..."""
        d = f'_pvD{self.uid}'
        body = [ast.Assign([ast.Name(d, ast.Store())],
                           call(ast.Attribute(ast.Name(L, ast.Load()), meth, ast.Load()),
                                call(ast.Name('locals', ast.Load()))))]
        for nm in names:
            body.append(ast.If(ast.Compare(const(nm), [ast.In()], [ast.Name(d, ast.Load())]),
                               [ast.Assign([ast.Name(nm, ast.Store())],
                                           ast.Subscript(ast.Name(d, ast.Load()), const(nm), ast.Load()))], []))
        return body

    def visit_For(self, n):
        if not self.infn:
            return self.generic_visit(n)
        k = self.counter[-1]
        self.counter[-1] += 1
        self.uid += 1
        L = f'_pvL{self.uid}'
        m = Modified()
        for s in n.body:
            m.visit(s)
        tg = targets_of(n.target)
        names = [x for x in m.names if x not in tg]
        it = self.visit(n.iter)
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        act = ast.Attribute(ast.Name(L, ast.Load()), 'act', ast.Load())
        pro = ast.If(act, self.restore(L, 'pro', names), [])
        epi = ast.If(act, self.restore(L, 'epi', names), [])
        setn = ast.Assign([ast.Name(L, ast.Store())], call(pv('loop'), const(self.q()), const(k), it))
        setn2 = ast.If(call(pv('active_loop'), ast.Name(L, ast.Load())), [ast.Expr(call(pv('setnames'), ast.Name(L, ast.Load()), ast.Tuple([const(x) for x in names], ast.Load())))], [])
        n.iter = ast.Name(L, ast.Load())
        n.body = [pro] + body
        n.orelse = [epi] + orelse
        return [setn, setn2, n]

    def visit_While(self, n):
        if not self.infn:
            return self.generic_visit(n)
        k = self.counter[-1]
        self.counter[-1] += 1
        self.uid += 1
        L = f'_pvL{self.uid}'
        m = Modified()
        for s in n.body:
            m.visit(s)
        m.visit(n.test)
        names = m.names
        ex = f'_pvX{self.uid}'
        test = self.test(n.test)
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        setn = ast.Assign([ast.Name(L, ast.Store())],
                          call(pv('wloop'), const(self.q()), const(k),
                               ast.Tuple([const(x) for x in names], ast.Load())))
        out = [setn]
        if orelse:
            out.append(ast.Assign([ast.Name(ex, ast.Store())], const(False)))
        stop = ([ast.Assign([ast.Name(ex, ast.Store())], const(True))] if orelse else []) + [ast.Break()]
        w = ast.While(const(True),
                      self.restore(L, 'head', names)
                      + [ast.If(ast.UnaryOp(ast.Not(), test), stop, [])] + body, [])
        out.append(w)
        if orelse:
            out.append(ast.If(ast.Name(ex, ast.Load()), orelse, []))
        return out

    def test(self, e):
        if isinstance(e, ast.BoolOp):
            return ast.BoolOp(e.op, [self.test(v) for v in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ast.UnaryOp(ast.Not(), self.test(e.operand))
        return call(pv('truth'), self.visit(e))

    def visit_If(self, n):
        if not self.infn:
            return self.generic_visit(n)
        n.test = self.test(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n

    def visit_Assert(self, n):
        if not self.infn:
            return n
        n.test = self.test(n.test)
        if n.msg is not None:
            n.msg = self.visit(n.msg)
        return n

    def visit_IfExp(self, n):
        if not self.infn:
            return n
        n.test = self.test(n.test)
        n.body = self.visit(n.body)
        n.orelse = self.visit(n.orelse)
        return n

    def visit_UnaryOp(self, n):
        if self.infn and isinstance(n.op, ast.Not):
            n.operand = self.test(n.operand)
            return n
        return self.generic_visit(n)

    def local(self, name):
        return (self.infn and len(self.shadow) > 1 and name in self.shadow[-1]
                and name not in self.deffn[-1])

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if self.infn and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and self.local(n.target.id):
            return ast.Assign([n.target], call(pv('iadd'), ast.Name(n.target.id, ast.Load()), n.value))
        return n

    def visit_Expr(self, n):
        v = n.value
        if (self.infn and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'extend'
                and isinstance(v.func.value, ast.Name) and self.local(v.func.value.id)
                and len(v.args) == 1 and not v.keywords and not isinstance(v.args[0], ast.Starred)):
            x = v.func.value.id
            return ast.Assign([ast.Name(x, ast.Store())],
                              call(pv('extend'), ast.Name(x, ast.Load()), self.visit(v.args[0])))
        if self.infn and isinstance(n.value, ast.YieldFrom):
            v = f'_pvY{self.uid}'
            self.uid += 1
            return ast.For(ast.Name(v, ast.Store()), call(pv('iter_items'), self.visit(n.value.value)),
                           [ast.Expr(ast.Yield(ast.Name(v, ast.Load())))], [])
        return self.generic_visit(n)

    # -- expressions
    def visit_Call(self, n):
        if not self.infn:
            return self.generic_visit(n)
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in BUILTINS and not self.shadowed(n.func.id):
            n.func = pv(BUILTINS[n.func.id])
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and not any(isinstance(a, ast.Starred) for a in n.args):
            n.args = [n.func.value] + n.args
            n.func = pv('strformat')
        if (isinstance(n.func, ast.Attribute) and n.func.attr == 'index' and len(n.args) == 1 and not n.keywords
                and not isinstance(n.args[0], ast.Starred)):
            n.args = [n.func.value] + n.args
            n.func = pv('index')
        n.args = [ast.Starred(call(pv('star'), a.value), ast.Load()) if isinstance(a, ast.Starred) else a
                  for a in n.args]
        return n

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if self.infn and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            e = call(pv('contains'), n.left, n.comparators[0])
            return e if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), call(pv('truth'), e))
        if (self.infn and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot))
                and not any(isinstance(x, ast.Constant) for x in (n.left, n.comparators[0]))):
            e = call(pv('is_'), n.left, n.comparators[0])
            return e if isinstance(n.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), call(pv('truth'), e))
        return n

    def visit_List(self, n):
        n = self.generic_visit(n)
        if self.infn and isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return self.disp('list', n)
        return n

    def visit_Tuple(self, n):
        n = self.generic_visit(n)
        if self.infn and isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return self.disp('tuple', n)
        return n

    def disp(self, kind, n):
        return call(pv('listdisp'), const(kind),
                    *[ast.Tuple([const(isinstance(e, ast.Starred)),
                                 e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in n.elts])

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if self.infn and isinstance(n.ctx, ast.Load):
            sl = n.slice
            if isinstance(sl, ast.Slice):
                arg = call(ast.Name('slice', ast.Load()), sl.lower or const(None), sl.upper or const(None), sl.step or const(None))
                return call(pv('getitem'), n.value, arg)
            if isinstance(sl, ast.Constant):
                return n
            if has(sl, ast.Slice, ast.Starred):
                return n
            return call(pv('getitem'), n.value, sl)
        return n

    def visit_JoinedStr(self, n):
        if not self.infn:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const('')
                parts.append(ast.Tuple([self.visit(v.value), const(v.conversion), spec], ast.Load()))
        return call(pv('fstr'), *parts)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    def compn(self, kind, n):
        if not self.infn or has(n, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom) or \
                any(g.is_async for g in n.generators) or has(n, ast.Call) and any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals')
                    for x in ast.walk(n)):
            return self.generic_visit(n)
        self.frzstack += 1
        elt = self.visit(n.elt)
        self.frzstack -= 1
        return self._comp(kind, elt, n.generators)

    def _comp(self, kind, elt, gens):
        g = gens[0]
        it = self.visit(g.iter)
        self.frzstack += 1
        conds = [self.test(c) for c in g.ifs]
        self.frzstack -= 1
        self.uid += 1
        v = f'_pvI{self.uid}'
        frz = self.frozen(elt, gens)
        if len(gens) == 1:
            inner = ast.Lambda(_args(v, frz), ast.ListComp(elt, [ast.comprehension(g.target, ast.Name(v, ast.Load()), conds, 0)]))
            return call(pv('comp'), const(kind), it, inner, const(bool(conds)))
        self.frzstack += 1
        sub = self._comp('list', elt, gens[1:])
        self.frzstack -= 1
        inner = ast.Lambda(_args(v, frz), ast.ListComp(sub, [ast.comprehension(g.target, ast.Name(v, ast.Load()), conds, 0)]))
        return call(pv('flat'), const(kind), it, inner)

    def frozen(self, elt, gens):
        """Locals read by a comprehension body (bound when it is created)."""
        if self.frzstack:
            return []
        loads, stores = [], set()
        nodes = [elt] + [g.target for g in gens] + [c for g in gens for c in g.ifs] + [g.iter for g in gens[1:]]
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    if isinstance(x.ctx, ast.Load):
                        loads.append(x.id)
                    else:
                        stores.add(x.id)
                elif isinstance(x, ast.arg):
                    stores.add(x.arg)
        loc = self.shadow[-1] if len(self.shadow) > 1 else set()
        out = []
        for x in loads:
            if x in loc and x not in stores and x not in out and x not in self.deffn[-1]:
                out.append(x)
        return out

    def visit_ListComp(self, n): return self.compn('list', n)
    def visit_GeneratorExp(self, n): return self.compn('gen', n)

    def visit_SetComp(self, n):
        return self.compn('set', n)


def _args(v, frz=()):
    return ast.arguments(posonlyargs=[], args=[ast.arg(v)] + [ast.arg(x) for x in frz], kwonlyargs=[],
                         kw_defaults=[], defaults=[ast.Name(x, ast.Load()) for x in frz])


class StripAnn(ast.NodeVisitor):
    pass


def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    shadow = set()
    for x in tree.body:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            shadow.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                shadow.add((a.asname or a.name).split('.')[0])
        elif isinstance(x, ast.Assign):
            for t in x.targets:
                shadow.update(targets_of(t))
    tree = Instr(modname, shadow).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


SKIP = ('lambeq.bobcat.tagger', 'lambeq.oncilla', 'lambeq.cli')


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = pathlib.Path(path).read_text()
        return instrument(src, fullname, path)

    def exec_module(self, module):
        from . import rt
        module.__dict__['__pv__'] = rt
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in ('lambeq', 'contracts'):
            return None
        if name == 'contracts':
            return None
        if any(name.startswith(s) for s in SKIP):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(repo='/repo'):
    global REPO
    REPO = pathlib.Path(repo)
    if any(isinstance(f, Finder) for f in sys.meta_path):
        return
    if sys.path[:1] != [str(repo)]:
        sys.path.insert(0, str(repo))
    sys.meta_path.insert(0, Finder())
