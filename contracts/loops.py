"""Loop contracts stated by role, not by name: the loop builds up a diagram."""
from pyvc.rt import LoopSpec, KEEP, auto_havoc
from lambeq.backend.grammar import Diagram


class Builds(LoopSpec):
    """After i iterations the diagram under construction goes from dom to
    cod(i), is well-typed, has at least least(i) layers, and consists either of
    exactly the layers layer(0..i-1) or of boxes of the given class."""

    def __init__(self, dom, cod, layer=None, kind=None, least=lambda i: i, more=None, exact=False):
        self.exact = exact
        self.dom, self.cod, self.layer, self.kind, self.least, self.more = dom, cod, layer, kind, least, more

    at = None

    def havoc(self, L, loc, i):
        self.at = i
        return super().havoc(L, loc, i)

    def havoc_var(self, L, name, val, i):
        from pyvc.core import mkint, ctx, zi
        from pyvc.seqs import SymList, Chunk
        from pyvc.symg import new_diagram
        if isinstance(val, Diagram):
            k = mkint(i)
            if self.layer is not None:
                return type(val)(dom=self.dom, cod=self.cod(k),
                                 layers=SymList([Chunk(zi(i), lambda j: self.layer(mkint(zi(j))))]))
            n = ctx().int('n_' + name)
            ctx().add(n == zi(self.least(k)) if self.exact else n >= zi(self.least(k)))
            return new_diagram(name, self.dom, self.cod(k), n, kind=self.kind)
        if self.more is not None:
            r = self.more(name, val, i)
            if r is not None:
                return r
        return auto_havoc(name, val)

    def inv(self, L, env, i, m):
        from pyvc.core import mkint
        k = mkint(i)
        for nm in self.modified(L):
            d = env.get(nm)
            if not isinstance(d, Diagram):
                continue
            if not hasattr(m, '_rec'):
                continue                  # havoc_var already satisfies the contract
            m.eq(d.dom, self.dom, 'domain')
            m.eq(d.cod, self.cod(k), 'codomain')
            if self.layer is not None:
                from pyvc.seqs import SymList, Chunk
                from pyvc.core import zi
                m.eq(d.layers, SymList([Chunk(zi(i), lambda j: self.layer(mkint(zi(j))))]), 'layers')
            else:
                m.wt(d, 'well-typed')
                if self.exact:
                    m.eq(slen(d.layers), self.least(k), 'layer count')
                else:
                    m.true(slen(d.layers) >= self.least(k), 'layer count')
                if self.kind is not None:
                    only(m, d, self.kind, 'boxes')


def slen(x):
    from pyvc import rt
    return rt.len(x)


def only(m, d, kinds, label):
    """Every box of d is of one of the given classes (and atomic)."""
    if not m.symbolic:
        m.true(all(isinstance(b, kinds) for b in d.boxes), label)
        return
    from pyvc.seqs import as_symlist
    from pyvc import symg, session
    ls = as_symlist(d.layers)

    def ok(b):
        if isinstance(b, symg.ABox):
            return b.kind is not None and issubclass(b.kind, kinds)
        return isinstance(b, kinds)

    good = symg.all_layers(ls, lambda L: ok(L.box))
    m.check(session.YES if good else session.MAYBE, 'a box of another class', label)
