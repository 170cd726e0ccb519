"""P04: structural maps on arbitrary types."""
from contracts.reg import ob
from contracts.loops import Builds, only
from lambeq.backend.grammar import (Box, Diagram, Layer, Ty, Cup, Cap, Swap, Spider, Word)

M = 'lambeq.backend.grammar.'


def shape(m, d, dom, cod, label):
    m.wt(d, label + ' well-typed')
    m.eq(d.dom, dom, label + ' domain')
    m.eq(d.cod, cod, label + ' codomain')


def cup_layer(l, r, rev):
    n = len(l)
    return lambda k: Layer(left=l[:n - 1 - k], box=Cup(l[n - 1 - k], r[k], rev), right=r[k + 1:])


def cap_layer(l, r, rev):
    n = len(l)
    return lambda k: Layer(left=l[:k], box=Cap(l[k], r[n - 1 - k], rev), right=r[n - k:])


@ob('P04', M + 'Cup.__new__', M + 'Cup._check_adjoint', M + 'Diagram.cups')
def cups(g, m):
    r, rev = g.ty('r'), g.bool('rev')
    l = r.r if rev else r.l
    g.assume(len(r) != 1)
    g.raw(Cup)
    n = len(r)
    g.invariant('Cup.__new__', Builds(l @ r, lambda i: l[:n - i] @ r[i:], layer=cup_layer(l, r, rev)))
    d = Diagram.cups(l, r, is_reversed=rev)
    shape(m, d, l @ r, Ty(), 'cups')
    m.eq(len(d.layers), n, 'one cup per wire')
    i = g.index(d.layers)
    m.eq(d.layers[i], cup_layer(l, r, rev)(i), 'nested cups join the wires pairwise')


@ob('P04', M + 'Cap.__new__', M + 'Cap._check_adjoint', M + 'Diagram.caps')
def caps(g, m):
    l, rev = g.ty('l'), g.bool('rev')
    r = l.r if rev else l.l
    g.assume(len(l) != 1)
    g.raw(Cap)
    n = len(l)
    g.invariant('Cap.__new__', Builds(Ty(), lambda i: l[:i] @ r[n - i:], layer=cap_layer(l, r, rev)))
    d = Diagram.caps(l, r, is_reversed=rev)
    shape(m, d, Ty(), l @ r, 'caps')
    m.eq(len(d.layers), n, 'one cap per wire')
    i = g.index(d.layers)
    m.eq(d.layers[i], cap_layer(l, r, rev)(i), 'nested caps join the wires pairwise')


@ob('P04', M + 'Cup.__new__', M + 'Cap.__new__', M + 'Cup.__post_init__', M + 'Cap.__post_init__')
def atomic_cups(g, m):
    a, rev = g.aty('a'), g.bool('rev')
    b = a.l if rev else a.r
    c = Cup(a, b, rev)
    m.true(isinstance(c, Cup), 'a single cup')
    m.eq(c.dom, a @ b, 'cup domain')
    m.eq(c.cod, Ty(), 'cup codomain')
    m.eq(c.z % 2 == 1, rev, 'cup orientation')
    c = Cap(b, a, rev)
    m.true(isinstance(c, Cap), 'a single cap')
    m.eq(c.cod, b @ a, 'cap codomain')
    m.eq(c.dom, Ty(), 'cap domain')
    m.eq(c.z % 2 == 1, rev, 'cap orientation')


@ob('P04', M + 'Cup.__new__', M + 'Cup._check_adjoint', n=300)
def cup_refusal(g, m):
    l, r, rev = g.ty('l'), g.ty('r'), g.bool('rev')
    try:
        Cup(l, r, rev)
    except ValueError:
        m.true(not (l == (r.r if rev else r.l)), 'cups of adjoints are accepted')
    else:
        m.eq(l, r.r if rev else r.l, 'only adjoints have cups')


@ob('P04', M + 'Cap.__new__', M + 'Cap._check_adjoint', n=300)
def cap_refusal(g, m):
    l, r, rev = g.ty('l'), g.ty('r'), g.bool('rev')
    try:
        Cap(l, r, rev)
    except ValueError:
        m.true(not (l == (r.l if rev else r.r)), 'caps of adjoints are accepted')
    else:
        m.eq(l, r.l if rev else r.r, 'only adjoints have caps')


@ob('P04', M + 'Cup.to_left', M + 'Cup.to_right', M + 'Cap.to_left', M + 'Cap.to_right')
def one_sided(g, m):
    t, rev = g.ty('t'), g.bool('rev')
    shape(m, Cup.to_right(t, rev).to_diagram(), t @ (t.l if rev else t.r), Ty(), 'cup to the right')
    shape(m, Cup.to_left(t, rev).to_diagram(), (t.r if rev else t.l) @ t, Ty(), 'cup to the left')
    shape(m, Cap.to_right(t, rev).to_diagram(), Ty(), t @ (t.r if rev else t.l), 'cap to the right')
    shape(m, Cap.to_left(t, rev).to_diagram(), Ty(), (t.l if rev else t.r) @ t, 'cap to the left')


@ob('P04', M + 'Swap.__new__', M + 'Diagram.swap')
def swaps(g, m):
    l, r = g.ty('l'), g.ty('r')
    g.assume(not (len(l) == 1 and len(r) == 1))
    g.raw(Swap)
    n = len(l)
    if n == 0:
        n = 0
    outer = Builds(l @ r, lambda s: r[:s] @ l @ r[s:], kind=Swap, least=lambda s: s if n else 0)

    class Inner(Builds):
        def begin(self, L, loc):
            super().begin(L, loc)
            s = outer_index()
            self.cod = lambda j: r[:s] @ l[:n - j] @ r[s:s + 1] @ l[n - j:] @ r[s + 1:]

    def outer_index():
        from pyvc.core import mkint
        return mkint(outer.at)

    g.invariant(('Swap.__new__', 0), outer)
    g.invariant(('Swap.__new__', 1), Inner(l @ r, None, kind=Swap, least=lambda j: outer_index() + j))
    d = Diagram.swap(l, r).to_diagram()
    shape(m, d, l @ r, r @ l, 'swap')
    only(m, d, Swap, 'made of atomic swaps only')


@ob('P04', M + 'Swap.__new__', M + 'Swap.__post_init__')
def atomic_swap(g, m):
    a, b = g.aty('a'), g.aty('b')
    x = Swap(a, b)
    m.true(isinstance(x, Swap), 'a single swap')
    m.eq(x.dom, a @ b, 'domain')
    m.eq(x.cod, b @ a, 'codomain')


@ob('P04', M + 'Spider.__post_init__', M + 'Spider.__new__')
def atomic_spider(g, m):
    a = g.aty('a')
    i, o = g.choice(0, 1, 2, 3), g.choice(0, 1, 2, 3)
    x = Spider(a, i, o)
    m.true(isinstance(x, Spider), 'a single spider')
    m.eq(x.dom, a ** i, 'domain')
    m.eq(x.cod, a ** o, 'codomain')


def wiring(m, d):
    """Position of every input wire after a diagram of swaps (concrete)."""
    pos = list(range(len(d.dom)))
    for layer in d.layers:
        k = len(layer.left)
        if not isinstance(layer.box, Swap):
            return None
        pos[k], pos[k + 1] = pos[k + 1], pos[k]
    return pos


@ob('P04', M + 'Diagram.permutation', M + 'Diagram.permuted', sym=False, n=400)
def permutations(g, m):
    t = g.ty('t', size=4) @ g.ty('u', size=3)
    p = list(range(len(t)))
    g.shuffle(p)
    d = Diagram.permutation(t, p)
    out = Ty()
    for k in p:
        out = out @ t[k]
    shape(m, d, t, out, 'permutation')
    m.eq(wiring(m, d), p, 'output k is input p[k]')
    e = g.diagram('e', cod=t)
    r = e.permuted(p)
    shape(m, r, e.dom, out, 'permuted')
    m.eq(r, e >> d, 'permuted composes')


@ob('P04', M + 'Diagram.permutation', sym=False, n=200)
def permutation_refusal(g, m):
    t = g.ty('t', size=3)
    n = len(t)
    p = [g.int('p', -1, 3) for _ in range(g.choice(0, 1, 2, 3, 4))]
    good = sorted(p) == list(range(n))
    try:
        Diagram.permutation(t, p)
    except ValueError:
        m.true(not good, 'a permutation is accepted')
    else:
        m.true(good, 'anything else is refused')


@ob('P04', M + 'Swap.__new__', sym=False, n=100)
def swap_wiring(g, m):
    l, r = g.ty('l'), g.ty('r')
    d = Diagram.swap(l, r).to_diagram()
    n, k = len(l), len(r)
    m.eq(wiring(m, d), [n + i for i in range(k)] + list(range(n)), 'block swap')


@ob('P04', M + 'Spider.__new__', sym=False, n=200)
def spiders(g, m):
    t = g.ty('t')
    i, o = g.int('i', 0, 3), g.int('o', 0, 3)
    d = Diagram.special_boxes['spider'](t, i, o).to_diagram()
    shape(m, d, t ** i, t ** o, 'spider')
    # every leg of wire k of the type meets spider k
    ids = [[k] for _ in range(i) for k in range(len(t))]
    cur = [k for _ in range(i) for k in range(len(t))]
    nxt = 0
    for layer in d.layers:
        s = len(layer.left)
        b = layer.box
        if isinstance(b, Swap):
            cur[s], cur[s + 1] = cur[s + 1], cur[s]
        else:
            m.true(isinstance(b, Spider), 'swaps and spiders only')
            inn = cur[s:s + b.n_legs_in]
            m.true(len(set(inn)) <= 1, 'a spider joins the legs of one wire')
            if inn:
                k = inn[0]
            else:
                k, nxt = nxt, nxt + 1
            m.true(b.n_legs_in == i and b.n_legs_out == o, 'all legs of the wire')
            cur[s:s + b.n_legs_in] = [k] * b.n_legs_out
    m.eq(cur, [k for _ in range(o) for k in range(len(t))], 'legs come out in type order')


@ob('P04', M + 'Diagram.create_pregroup_diagram')
def pregroup_small(g, m):
    words = [Word(g.string('w'), g.ty('t')) for _ in range(g.choice(0, 1, 2))]
    flat = Ty()
    for w in words:
        flat = flat @ w.cod
    morphs = [(g.choice(Cup, Swap), g.index(flat), g.index(flat)) for _ in range(g.choice(0, 1))]
    try:
        d = Diagram.create_pregroup_diagram(words, morphs)
    except ValueError:
        return
    m.wt(d, 'well-typed')
    m.eq(d.dom, Ty(), 'empty domain')
    m.eq(d.boxes[:len(words)], words, 'words first, in order')
    m.eq(len(d.boxes), len(words) + len(morphs), 'one box per word and morphism')


@ob('P04', M + 'Diagram.create_pregroup_diagram')
def pregroup_one_cup(g, m):
    x, a, y = g.ty('x'), g.aty('a'), g.ty('y')
    z, w = g.ty('z'), g.ty('w')
    kind = g.choice(Cup, Swap)
    b = a.r if kind is Cup else g.aty('b')
    w1, w2 = Word('w1', x @ a), Word('w2', b @ w)
    i = len(x)
    d = Diagram.create_pregroup_diagram([w1, w2], [(kind, i, i + 1)])
    shape(m, d, Ty(), x @ w if kind is Cup else x @ b @ a @ w, 'pregroup diagram')
    m.eq(d.layers[2], Layer(left=x, box=kind(a, b), right=w), 'on the requested wires')


@ob('P04', M + 'Diagram.create_pregroup_diagram', sym=False, n=300)
def pregroup(g, m):
    """Words with random types; cups given by positions of the words' wires."""
    words = [Word(f'w{i}', g.ty(f't{i}')) for i in range(g.choice(1, 2, 3, 4))]
    flat = [x for w in words for x in w.cod]
    live = list(range(len(flat)))
    morphs, boxes = [], []
    for _ in range(g.choice(0, 1, 2, 3)):
        ok = [k for k in range(len(live) - 1) if flat[live[k]].r == flat[live[k + 1]]]
        if not ok:
            break
        k = g.pick(ok)
        morphs.append((Cup, live[k], live[k + 1]))
        boxes.append(Cup(flat[live[k]], flat[live[k + 1]]))
        del live[k:k + 2]
    d = Diagram.create_pregroup_diagram(words, morphs)
    out = Ty()
    for k in live:
        out = out @ flat[k]
    shape(m, d, Ty(), out, 'pregroup diagram')
    m.eq(d.boxes, words + boxes, 'words then morphisms')
    # follow the wires
    cur = list(range(len(flat)))
    for layer, (_, s, e) in zip(d.layers[len(words):], morphs):
        k = len(layer.left)
        m.eq(cur[k:k + 2], [s, e], 'each cup on the wires requested')
        del cur[k:k + 2]
    m.eq(cur, live, 'remaining wires')
