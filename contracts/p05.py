"""P05: functors preserve the structure of diagrams."""
from contracts.reg import ob
from contracts.loops import Builds
from lambeq.backend.grammar import (Box, Diagram, Layer, Ty, Cup, Cap, Swap, Spider, Word, Daggered,
                                    Frame, Functor, grammar)

M = 'lambeq.backend.grammar.'
F = M + 'Functor.'


def typed(m, F, fty, x, label):
    r = F(x)
    m.wt(r, label + ' image well-typed')
    m.eq(r.dom, fty(x.dom), label + ' image domain')
    m.eq(r.cod, fty(x.cod), label + ' image codomain')
    return r


@ob('P05', F + '__call__', F + 'ob_with_cache', F + 'ob', M + 'Ty.apply_functor')
def on_types(g, m):
    F, fty = g.functor()
    t = g.ty('t')
    m.eq(F(t), fty(t), 'image of a type')
    m.eq(F(t), fty(t), 'image again')
    m.eq(F(Ty()), Ty(), 'image of the empty type')


@ob('P05', F + 'ob_with_cache', M + 'Ty.apply_functor')
def type_laws(g, m):
    F, fty = g.functor()
    s, t = g.ty('s'), g.ty('t')
    m.eq(F(s @ t), fty(s) @ fty(t), 'tensor preserved')


@ob('P05', F + 'ob_with_cache', M + 'Ty.apply_functor')
def type_rotation(g, m):
    F, fty = g.functor()
    t, a = g.ty('t'), g.rotation('a')
    m.eq(F(t.rotate(a)), fty(t).rotate(a), 'winding numbers commute')


@ob('P05', F + '__call__', F + 'ar_with_cache', F + 'ar', M + 'Box.apply_functor')
def on_boxes(g, m):
    F, fty = g.types_functor()
    b = Box(g.string('name'), g.ty('x'), g.ty('y'), 0)
    typed(m, F, fty, b, 'box')
    z = g.int('z')
    typed(m, F, fty, b.rotate(z), 'rotated box')
    m.eq(F(b.rotate(z)).to_diagram(), F(b).to_diagram().rotate(z), 'rotation preserved')


@ob('P05', M + 'Daggered.apply_functor')
def on_daggers(g, m):
    F, fty = g.types_functor()
    b = Box(g.string('name'), g.ty('x'), g.ty('y'), 0)
    r = typed(m, F, fty, b.dagger(), 'dagger')
    m.eq(r, F(b).dagger(), 'dagger preserved')


@ob('P05', M + 'Box.apply_functor')
def on_words(g, m):
    F, fty = g.types_functor()
    b = Word(g.string('name'), g.ty('y'), z=0)
    r = typed(m, F, fty, b, 'word')
    z = g.int('z')
    typed(m, F, fty, b.rotate(z), 'rotated word')
    m.eq(F(b.rotate(z)).to_diagram(), F(b).to_diagram().rotate(z), 'rotation preserved')


@ob('P05', M + 'Cup.apply_functor', M + 'Cap.apply_functor')
def on_cups(g, m):
    F, fty = g.types_functor()
    t, rev = g.aty('t'), g.bool('rev')
    l = t.r if rev else t.l
    r = typed(m, F, fty, Cup(l, t, rev), 'cup')
    m.eq(r, Diagram.cups(fty(l), fty(t), is_reversed=rev), 'cup preserved')
    r = typed(m, F, fty, Cap(t, l, rev), 'cap')
    m.eq(r, Diagram.caps(fty(t), fty(l), is_reversed=rev), 'cap preserved')


@ob('P05', M + 'Swap.apply_functor')
def on_swaps(g, m):
    F, fty = g.types_functor()
    s, t = g.aty('s'), g.aty('t')
    r = typed(m, F, fty, Swap(s, t), 'swap')
    m.eq(r, Diagram.swap(fty(s), fty(t)), 'swap preserved')


@ob('P05', M + 'Spider.apply_functor')
def on_spiders(g, m):
    F, fty = g.types_functor()
    t = g.aty('t')
    i, o = g.choice(0, 1, 2), g.choice(0, 1, 2)
    r = typed(m, F, fty, Spider(t, i, o), 'spider')
    m.eq(r, Diagram.special_boxes['spider'](fty(t), i, o), 'spider preserved')


@ob('P05', F + 'ar_with_cache')
def on_identities(g, m):
    F, fty = g.types_functor()
    t = g.ty('t')
    m.eq(F(Diagram.id(t)), Diagram.id(fty(t)), 'identity preserved')


@ob('P05', F + 'ar_with_cache', M + 'Diagram.apply_functor')
def on_diagrams(g, m):
    F, fty = g.outer_functor()
    d = g.diagram('d')
    g.invariant('Diagram.apply_functor', Builds(fty(d.dom), lambda i: fty(g.cut(d, i)), least=lambda i: 0))
    typed(m, F, fty, d, 'diagram')


@ob('P05', M + 'Diagram.apply_functor')
def layer_by_layer(g, m):
    """Every layer is replaced by its image, in order."""
    F, fty = g.outer_functor()
    x, f, y, w = g.ty('x'), g.box('f'), g.ty('y'), g.ty('w')
    where = g.choice('on top', 'left', 'right')
    if where == 'on top':
        h = g.box('h', dom=f.cod)
        a, b = Layer(x, f, y), Layer(x, h, y)
    else:
        h = g.box('h')
        if where == 'right':
            a, b = Layer(x, f, y @ h.dom @ w), Layer(x @ f.cod @ y, h, w)
        else:
            a, b = Layer(x @ h.dom @ y, f, w), Layer(x, h, y @ f.cod @ w)
    d = Diagram(dom=a.dom, cod=b.cod, layers=[a, b])
    r = F(d)
    m.wt(r, 'image of two layers well-typed')
    one = Diagram.id(fty(a.left)) @ F(f) @ Diagram.id(fty(a.right))
    two = Diagram.id(fty(b.left)) @ F(h) @ Diagram.id(fty(b.right))
    m.eq(r, one >> two, 'composition and tensor preserved')


@ob('P05', F + 'ar_with_cache')
def ill_typed_image(g, m):
    b = Box(g.string('name'), g.ty('x'), g.ty('y'), 0)
    F, fty = g.types_functor()
    img = g.diagram('img')
    F.custom_ar = lambda f, bb: img
    good = img.dom == fty(b.dom) and img.cod == fty(b.cod)
    for k in (0, 1):
        try:
            r = F(b)
        except TypeError:
            m.true(not good, f'call {k}: well-typed images are accepted')
        else:
            m.true(good, f'call {k}: ill-typed images are refused')
            if good:
                m.eq(r, img, f'call {k}: image')


@ob('P05', F + '__call__', M + 'Diagram.apply_functor', sym=False, n=300)
def laws(g, m):
    F, fty = g.types_functor()
    d = g.diagram('d')
    e = g.diagram('e', dom=d.cod)
    h = g.diagram('h')
    r = typed(m, F, fty, d, 'diagram')
    m.eq(F(d), r, 'repeated application')
    m.eq(F(d >> e).to_diagram(), F(d) >> F(e), 'composition preserved')
    m.eq(F(d @ h).to_diagram(), F(d) @ F(h), 'tensor preserved')
    m.eq(F(Diagram.id(d.dom)), Diagram.id(fty(d.dom)), 'identity preserved')
    if not any(isinstance(b, (Swap, Spider)) for b in d.boxes):
        m.eq(F(d.dagger()), F(d).dagger(), 'dagger preserved')
        a = g.rotation('a')
        s = F(d.rotate(a))
        m.wt(s, 'image of a rotated diagram')
        m.eq([s.dom, s.cod], [fty(d.dom).rotate(a), fty(d.cod).rotate(a)], 'rotation preserved on types')


@ob('P05', F + '__call__', sym=False, n=200)
def any_box(g, m):
    F, fty = g.types_functor()
    b = g.box('b')
    typed(m, F, fty, b, 'box')
    typed(m, F, fty, b.dagger(), 'dagger of a box')
    typed(m, F, fty, b.rotate(g.rotation('a')), 'rotated box')
    m.eq(F(b), F(b), 'repeated application')
