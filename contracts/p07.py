"""P07: interchange, snake removal and normal form."""
from collections import Counter
from contracts.reg import ob
from contracts.loops import Builds
from contracts.semantics import evaluate
from lambeq.backend import snake_removal as S
from lambeq.backend.snake_removal import interchange, normalize, snake_removal, InterchangerError
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Layer, Ty, Id, Word

M = 'lambeq.backend.snake_removal.'
D = 'lambeq.backend.grammar.Diagram.'


def around(g, x, y, ls):
    """Any well-typed diagram with the given layers (from x to y) at i, i+1."""
    pre = g.diagram('pre', cod=x)
    post = g.diagram('post', dom=y)
    d = Diagram(dom=pre.dom, cod=post.cod, layers=pre.layers + ls + post.layers)
    return pre, post, d, len(pre.layers)


def swapped(m, d, r, i, pre, post, label):
    m.wt(r, label + ' well-typed')
    m.eq([r.dom, r.cod], [d.dom, d.cod], label + ' types')
    m.eq(len(r.layers), len(d.layers), label + ' layer count')
    m.eq(r.layers[:i], pre.layers, label + ' layers before')
    m.eq(r.layers[i + 2:], post.layers, label + ' layers after')
    m.eq([r.layers[i].box, r.layers[i + 1].box], [d.layers[i + 1].box, d.layers[i].box], label + ' boxes exchanged')


@ob('P07', M + 'interchange', D + 'interchange')
def adjacent_right(g, m):
    """The upper box is to the right of the lower one."""
    l, mid, r, f, h, left = g.ty('l'), g.ty('m'), g.ty('r'), g.box('f'), g.box('h'), g.bool('left')
    a = Layer(left=l @ h.dom @ mid, box=f, right=r)
    b = Layer(left=l, box=h, right=mid @ f.cod @ r)
    pre, post, d, i = around(g, l @ h.dom @ mid @ f.dom @ r, l @ h.cod @ mid @ f.cod @ r, [a, b])
    for p, q in ((i, i + 1), (i + 1, i)):
        x = interchange(d, p, q, left=left)
        swapped(m, d, x, i, pre, post, 'interchange')


@ob('P07', M + 'interchange')
def adjacent_left(g, m):
    """The upper box is to the left of the lower one."""
    l, mid, r, f, h, left = g.ty('l'), g.ty('m'), g.ty('r'), g.box('f'), g.box('h'), g.bool('left')
    a = Layer(left=l, box=f, right=mid @ h.dom @ r)
    b = Layer(left=l @ f.cod @ mid, box=h, right=r)
    pre, post, d, i = around(g, l @ f.dom @ mid @ h.dom @ r, l @ f.cod @ mid @ h.cod @ r, [a, b])
    for p, q in ((i, i + 1), (i + 1, i)):
        x = interchange(d, p, q, left=left)
        swapped(m, d, x, i, pre, post, 'interchange')


@ob('P07', M + 'interchange')
def adjacent_connected(g, m):
    """Boxes sharing a wire are never exchanged."""
    l, r, f, left = g.ty('l'), g.ty('r'), g.box('f'), g.bool('left')
    k = g.choice('inside', 'sticks out left', 'sticks out right', 'covers')
    u, v = g.ty('u'), g.ty('v')
    if k == 'inside':           # the input of h is part of the output of f
        x = g.ty('x')
        f = g.box('f', cod=u @ x @ v)
        h = g.box('h', dom=x)
        a, b = Layer(left=l, box=f, right=r), Layer(left=l @ u, box=h, right=v @ r)
    elif k == 'covers':
        x = f.cod
        h = g.box('h', dom=u @ f.cod @ v)
        a, b = Layer(left=l @ u, box=f, right=v @ r), Layer(left=l, box=h, right=r)
    else:
        x = g.ty('x')
        if k == 'sticks out left':
            f, h = g.box('f', cod=x @ v), g.box('h', dom=u @ x)
            a, b = Layer(left=l @ u, box=f, right=r), Layer(left=l, box=h, right=v @ r)
        else:
            f, h = g.box('f', cod=u @ x), g.box('h', dom=x @ v)
            a, b = Layer(left=l, box=f, right=v @ r), Layer(left=l @ u, box=h, right=r)
    g.assume(len(x) > 0)
    pre, post, d, i = around(g, a.dom, b.cod, [a, b])
    try:
        interchange(d, i, i + 1, left=left)
    except InterchangerError:
        m.ok('refused')
    else:
        m.fail('connected boxes are refused')


@ob('P07', M + 'interchange')
def interchange_bounds(g, m):
    d, i, j = g.diagram('d'), g.int('i'), g.int('j')
    n = len(d.layers)
    if 0 <= i and i < n and 0 <= j and j < n:
        g.assume(i == j)
        m.eq(interchange(d, i, j), d, 'nothing to do')
        return
    try:
        interchange(d, i, j)
    except IndexError:
        m.ok('refused')
    else:
        m.fail('indices out of range are refused')


def step(self, a, b, left=False):
    """Contract of an adjacent interchange (proved: adjacent_*)."""
    from pyvc import symg, core, rt
    ctx = core.ctx()
    n = rt.len(self.layers)
    assert ctx.entails(core.zb(core.mkbool(core.zi(b) - core.zi(a) == 1))) or \
        ctx.entails(core.zb(core.mkbool(core.zi(a) - core.zi(b) == 1))), 'adjacent'
    if not (0 <= a and a < n and 0 <= b and b < n):
        raise IndexError
    if ctx.choose(2) == 0:
        ctx.soft -= 1
        raise InterchangerError(None, None)
    ctx.soft -= 1
    import z3
    A, B = core.zi(a), core.zi(b)

    def boxfn(p):
        p = core.zi(p)
        q = z3.simplify(z3.If(p == A, B, z3.If(p == B, A, p)))
        return self.layers[core.SymInt(q)].box
    return symg.new_diagram('x', self.dom, self.cod, n, boxfn=boxfn)


class Moves(Builds):
    """After k steps the box started with sits k places further."""
    def __init__(self, d, i, up):
        super().__init__(d.dom, lambda k: d.cod, least=lambda k: len(d.layers), exact=True)
        self.d, self.i, self.up = d, i, up

    def source(self, p, k):
        import z3
        from pyvc.core import zi
        i = zi(self.i)
        at = zi(p)
        if self.up:
            return z3.simplify(z3.If(at == i - zi(k), i, z3.If(z3.And(at > i - zi(k), at <= i), at - 1, at)))
        return z3.simplify(z3.If(at == i + zi(k), i, z3.If(z3.And(at < i + zi(k), at >= i), at + 1, at)))

    def box(self, k):
        from pyvc.core import SymInt
        return lambda p: self.d.layers[SymInt(self.source(p, k))].box

    def havoc_var(self, L, name, val, i):
        from pyvc.symg import new_diagram
        from pyvc.core import mkint
        if isinstance(val, Diagram):
            return new_diagram(name, self.d.dom, self.d.cod, len(self.d.layers), boxfn=self.box(mkint(i)))
        return super().havoc_var(L, name, val, i)

    def inv(self, L, env, i, m):
        from pyvc.core import mkint
        super().inv(L, env, i, m)
        if not hasattr(m, '_rec'):
            return
        for nm in self.modified(L):
            x = env.get(nm)
            if isinstance(x, Diagram):
                moved(m, self.d, x, self.box(mkint(i)), 'boxes')


def moved(m, d, r, box, label):
    m.all(len(d.layers), lambda p, m: m.eq(r.layers[p].box, box(p), label), label)


def moving(up):
    def h(g, m):
        d, left = g.diagram('d'), g.bool('left')
        if not m.symbolic:              # longer examples
            d = (d @ g.diagram('e')) @ g.diagram('e2')
        g.assume(len(d.layers) > 2)
        i, j = g.int('i', lo=0, hi=len(d.layers) - 1), g.int('j', lo=0, hi=len(d.layers) - 1)
        g.assume(i - j > 1 if up else j - i > 1)
        g.contract(S, 'interchange', step)
        spec = Moves(d, i, up)
        g.invariant('interchange', spec)
        try:
            r = interchange(d, i, j, left=left)
        except InterchangerError:
            return
        m.wt(r, 'well-typed')
        m.eq([r.dom, r.cod], [d.dom, d.cod], 'types')
        m.eq(len(r.layers), len(d.layers), 'layer count')
        if m.symbolic:
            moved(m, d, r, spec.box(i - j if up else j - i), 'box i moved to j, the others in order')
        else:
            bs = list(d.boxes)
            bs.insert(j, bs.pop(i))
            m.eq(r.boxes, bs, 'box i moved to j, the others in order')
            same_array(m, d, r, 'meaning')
    return h


ob('P07', M + 'interchange', name='move_up', n=400)(moving(True))
ob('P07', M + 'interchange', name='move_down', n=400)(moving(False))


def same_array(m, d, r, label):
    a, b = evaluate(d), evaluate(r)
    if a is not None and b is not None:
        m.eq(b, a, label)


class Steps(Builds):
    def __init__(self, d):
        super().__init__(d.dom, lambda k: d.cod, least=lambda k: len(d.layers), exact=True)


def adjacent(self, a, b, left=False):
    """Contract of interchange on adjacent boxes, types only."""
    from pyvc import symg, core, rt
    ctx = core.ctx()
    n = rt.len(self.layers)
    if not (0 <= a and a < n and 0 <= b and b < n):
        raise IndexError
    return symg.new_diagram('x', self.dom, self.cod, n)


@ob('P07', M + 'normalize')
def normalise(g, m):
    d, left = g.diagram('d'), g.bool('left')
    g.contract(S, 'interchange', adjacent)
    g.invariant(('normalize', 0), Steps(d))
    g.invariant(('normalize', 1), Steps(d))
    bound = 0
    for r in normalize(d, left=left):
        m.wt(r, 'well-typed')
        m.eq([r.dom, r.cod], [d.dom, d.cod], 'types')
        m.eq(len(r.layers), len(d.layers), 'layer count')
        if not m.symbolic:
            m.eq(Counter(map(repr, r.boxes)), Counter(map(repr, d.boxes)), 'boxes')
            same_array(m, d, r, 'meaning')
            bound += 1
            if bound > 12:
                break
    m.ok('finished')


def snaky(g):
    """Diagrams with straight and crooked snakes and other boxes in between."""
    d = g.diagram('d')
    for _ in range(g.int('snakes', lo=0, hi=2)):
        p = g.int('p', lo=0, hi=len(d))
        cut = d.layers[p].dom if p < len(d) else d.cod
        if len(cut) == 0:
            continue
        w = g.int('w', lo=0, hi=len(cut) - 1)
        x = cut[w]
        l, r = cut[:w], cut[w + 1:]
        k = g.choice(0, 1, 2, 3)
        if k == 0:
            s = Id(x) @ Cap(x.r, x) >> Cup(x, x.r) @ Id(x)
        elif k == 1:
            s = Id(x) @ Cap(x.l, x, is_reversed=True) >> Cup(x, x.l, is_reversed=True) @ Id(x)
        elif k == 2:
            s = Cap(x, x.l) @ Id(x) >> Id(x) @ Cup(x.l, x)
        else:
            s = Cap(x, x.r, is_reversed=True) @ Id(x) >> Id(x) @ Cup(x.r, x, is_reversed=True)
        top = d[:p]
        if g.bool():
            e = g.diagram('e', dom=r)
            back = Box('back', e.cod, r)
            s, r2 = s @ e, r
            d = top >> (Id(l) @ s) >> (Id(l @ x) @ back) >> d[p:]
        else:
            d = top >> (Id(l) @ s @ Id(r)) >> d[p:]
    if g.bool() and len(d.cod):      # a snake that may change the winding of its wire
        w = g.int('w', lo=0, hi=len(d.cod) - 1)
        y = d.cod[w]
        l, r = d.cod[:w], d.cod[w + 1:]
        a, b = g.bool(), g.bool()
        if g.bool():
            c = y.l if a else y.r
            e = c.r if b else c.l
            s = Id(y) @ Cap(c, e, is_reversed=b) >> Cup(y, c, is_reversed=a) @ Id(e)
        else:
            c = y.r if a else y.l
            e = c.l if b else c.r
            s = Cap(e, c, is_reversed=b) @ Id(y) >> Id(e) @ Cup(c, y, is_reversed=a)
        d = d >> (Id(l) @ s @ Id(r))
    if g.bool():
        d = d @ g.diagram('u')
    for _ in range(g.int('mix', lo=0, hi=6)):
        if len(d) < 2:
            break
        i = g.index(d.layers[1:])
        try:
            d = interchange(d, i, i + 1, left=g.bool())
        except InterchangerError:
            pass
    return d


def rest(d):
    return Counter(repr(b) for b in d.boxes if not isinstance(b, (Cup, Cap)))


@ob('P07', M + 'snake_removal', D + 'remove_snakes', sym=False, n=500)
def snakes(g, m):
    d = snaky(g)
    prev = d
    for r in snake_removal(d, left=g.bool()):
        m.wt(r, 'well-typed')
        m.eq([r.dom, r.cod], [d.dom, d.cod], 'types')
        m.eq(rest(r), rest(d), 'boxes other than cups and caps')
        m.true(len(r) == len(prev) or len(r) == len(prev) - 2, 'a step moves a box or removes one cap and one cup')
        same_array(m, prev, r, 'meaning')
        prev = r
    m.eq(d.remove_snakes(), Diagram.remove_snakes(d), 'deterministic')
    straight(m, d.remove_snakes())


def straight(m, d):
    """No adjacent yankable cap and cup left."""
    for a, b in zip(d.layers, d.layers[1:]):
        if isinstance(a.box, Cap) and isinstance(b.box, Cup):
            if len(b.left) + 1 == len(a.left):
                m.true(b.box.left != a.box.right, 'no straight left snake left')
            if len(b.left) == len(a.left) + 1:
                m.true(b.box.right != a.box.left, 'no straight right snake left')


@ob('P07', D + 'normal_form', D + 'pregroup_normal_form', sym=False, n=400)
def normal_forms(g, m):
    d = snaky(g)
    for f in (lambda: d.normal_form(left=g.bool()), d.pregroup_normal_form):
        try:
            r = f()
        except NotImplementedError:
            continue
        m.wt(r, 'well-typed')
        m.eq([r.dom, r.cod], [d.dom, d.cod], 'types')
        m.eq(rest(r), rest(d), 'boxes other than cups and caps')
        same_array(m, d, r, 'meaning')


@ob('P07', D + 'pregroup_normal_form', D + 'normal_form', sym=False, n=200)
def sentences(g, m):
    words = g.list(lambda i: Word(g.string('w'), g.ty('t', size=2)), minlen=1)
    d = Id().tensor(*words)
    for _ in range(3):
        for w in range(len(d.cod) - 1):
            a, b = d.cod[w], d.cod[w + 1]
            if b == a.r or b == a.l:
                d = d >> (Id(d.cod[:w]) @ Cup(a, b, is_reversed=b == a.l) @ Id(d.cod[w + 2:]))
                break
    d = Id(g.ty('extra', size=1)) @ d if g.bool() else d
    try:
        r = d.pregroup_normal_form()
    except NotImplementedError:
        return
    m.wt(r, 'well-typed')
    m.eq([r.dom, r.cod], [d.dom, d.cod], 'types')
    if not d.dom and all(w.cod for w in words):
        m.eq([b for b in r.boxes if isinstance(b, Word)], words, 'words in order')
    m.eq(rest(r), rest(d), 'boxes other than cups and caps')
    same_array(m, d, r, 'meaning')
