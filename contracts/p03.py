"""P03: dagger and rotation laws of every kind of box, layer and diagram."""
from contracts.reg import ob
from lambeq.backend.grammar import (Box, Diagram, Layer, Ty, Cup, Cap, Swap, Spider, Word, Daggered,
                                    Frame, DaggeredFrame)

M = 'lambeq.backend.grammar.'


def laws(g, m, x, label, dagger=True):
    """Laws every arrow obeys."""
    a, b = g.rotation('a'), g.rotation('b')
    ra = x.rotate(a)
    m.eq(ra.dom, x.dom.rotate(a), label + ': rotation rotates the domain')
    m.eq(ra.cod, x.cod.rotate(a), label + ': rotation rotates the codomain')
    m.eq(ra.rotate(b), x.rotate(a + b), label + ': rotations add up')
    m.eq(x.rotate(0), x, label + ': rotating by zero')
    m.eq(x.l, x.rotate(-1), label + ': left adjoint')
    m.eq(x.r, x.rotate(1), label + ': right adjoint')
    m.eq(x.l.r, x, label + ': adjoints are inverse')
    d = x.dagger()
    m.eq(d.dom, x.cod, label + ': dagger domain')
    m.eq(d.cod, x.dom, label + ': dagger codomain')
    m.eq(d.dagger(), x, label + ': dagger twice')
    m.eq(d.rotate(a), ra.dagger(), label + ': dagger commutes with rotation')


def wind(m, x, a, label):
    m.eq(x.rotate(a).z, x.z + a, label + ': winding number')


@ob('P03', M + 'Box.rotate', M + 'Box.dagger', M + 'Box.l', M + 'Box.r', M + 'Daggered.__post_init__',
    M + 'Daggered.rotate', M + 'Daggered.dagger')
def box_laws(g, m):
    x = Box(g.string('name'), g.ty('x'), g.ty('y'), g.int('z'))
    laws(g, m, x, 'box')
    laws(g, m, x.dagger(), 'daggered box')
    a = g.rotation('a')
    wind(m, x, a, 'box')
    wind(m, x.dagger(), a, 'daggered box')
    m.eq(x.rotate(a).name, x.name, 'name unchanged')


@ob('P03', M + 'Box.unwind')
def unwind(g, m):
    x = Box(g.string('name'), g.ty('x'), g.ty('y'), g.int('z'))
    u = x.unwind()
    m.eq(u.z, 0, 'unwound')
    m.eq(u.rotate(x.z), x, 'winds back')


@ob('P03', M + 'Daggered.__post_init__', M + 'Daggered.rotate', M + 'Daggered.dagger')
def daggered_any_box(g, m):
    f = g.box('f')
    x = Daggered(f)
    m.eq(x.dom, f.cod, 'domain')
    m.eq(x.cod, f.dom, 'codomain')
    m.eq(x.z, f.z, 'winding number')
    m.eq(x.dagger(), f, 'undone')


@ob('P03', M + 'Word.__post_init__', M + 'Word.rotate', M + 'Word.dagger')
def word_laws(g, m):
    x = Word(g.string('name'), g.ty('t'), z=g.int('z'))
    laws(g, m, x, 'word')
    laws(g, m, x.dagger(), 'daggered word')
    a = g.rotation('a')
    wind(m, x, a, 'word')
    m.eq(x.rotate(a).name, x.name, 'name unchanged')


@ob('P03', M + 'Cup.__post_init__', M + 'Cup.rotate', M + 'Cup.dagger', M + 'Cup._check_adjoint')
def cup_laws(g, m):
    t, rev = g.aty('t'), g.bool('rev')
    x = Cup(t, t.l if rev else t.r, is_reversed=rev)
    laws(g, m, x, 'cup')
    m.eq(x.dom, t @ (t.l if rev else t.r), 'cup domain')
    m.eq(x.cod, Ty(), 'cup codomain')


@ob('P03', M + 'Cap.__post_init__', M + 'Cap.rotate', M + 'Cap.dagger', M + 'Cap._check_adjoint')
def cap_laws(g, m):
    t, rev = g.aty('t'), g.bool('rev')
    x = Cap(t, t.r if rev else t.l, is_reversed=rev)
    laws(g, m, x, 'cap')
    m.eq(x.cod, t @ (t.r if rev else t.l), 'cap codomain')
    m.eq(x.dom, Ty(), 'cap domain')


@ob('P03', M + 'Swap.__post_init__', M + 'Swap.rotate', M + 'Swap.dagger')
def swap_laws(g, m):
    s, t = g.aty('s'), g.aty('t')
    laws(g, m, Swap(s, t), 'swap')


@ob('P03', M + 'Spider.__post_init__', M + 'Spider.rotate', M + 'Spider.dagger')
def spider_laws(g, m):
    t = g.aty('t')
    i, o = g.choice(0, 1, 2, 3), g.choice(0, 1, 2, 3)
    laws(g, m, Spider(t, i, o), 'spider')


@ob('P03', M + 'Frame.rotate', M + 'Frame.dagger', M + 'DaggeredFrame.__post_init__', M + 'DaggeredFrame.rotate',
    M + 'DaggeredFrame.dagger')
def frame_laws(g, m):
    x = Frame(g.string('name'), g.ty('x'), g.ty('y'), components=g.boxes('cs'), z=g.int('z'))
    laws(g, m, x, 'frame')
    laws(g, m, x.dagger(), 'daggered frame')
    wind(m, x, g.rotation('a'), 'frame')


@ob('P03', M + 'Frame.rotate', M + 'DaggeredFrame.__post_init__')
def frame_components(g, m):
    cs = g.boxes('cs')
    x = Frame(g.string('name'), g.ty('x'), g.ty('y'), components=cs, z=g.int('z'))
    a = g.rotation('a')
    n = len(cs)
    i = g.index(cs)
    y = x.rotate(a)
    m.eq(len(y.components), n, 'as many components')
    m.eq(y.components[n - 1 - i if a % 2 == 1 else i], cs[i].rotate(a), 'components rotate in order')
    d = x.dagger()
    m.eq(d.components[i], cs[i].dagger(), 'components are daggered')
    m.eq(x.components, cs, 'the frame keeps its components')


@ob('P03', M + 'Layer.rotate', M + 'Layer.dagger')
def layer_laws(g, m):
    f, u, v = g.box('f'), g.ty('u'), g.ty('v')
    x = Layer(left=u, box=f, right=v)
    a, b = g.rotation('a'), g.rotation('b')
    ra = x.rotate(a)
    m.eq(ra.dom, x.dom.rotate(a), 'rotated layer domain')
    m.eq(ra.cod, x.cod.rotate(a), 'rotated layer codomain')
    m.eq(ra.rotate(b), x.rotate(a + b), 'layer rotations add up')
    m.eq(x.rotate(0), x, 'layer rotation by zero')
    d = x.dagger()
    m.eq(d.dom, x.cod, 'dagger layer domain')
    m.eq(d.cod, x.dom, 'dagger layer codomain')
    m.eq(d.dagger(), x, 'dagger layer twice')
    m.eq(d.box, f.dagger(), 'dagger layer box')


@ob('P03', M + 'Diagram.dagger', M + 'Diagram.rotate', M + 'Diagram.l', M + 'Diagram.r')
def diagram_laws(g, m):
    d = g.diagram('d')
    laws(g, m, d, 'diagram')


@ob('P03', M + 'Diagram.dagger')
def dagger_typed(g, m):
    d = g.diagram('d')
    e = d.dagger()
    m.wt(e, 'dagger well-typed')
    n = len(d.layers)
    m.eq(len(e.layers), n, 'as many layers')
    i = g.index(d.layers)
    m.eq(e.layers[n - 1 - i], d.layers[i].dagger(), 'layers daggered in reverse order')
    m.eq(d.layers[i].box, d.boxes[i], 'original untouched')


@ob('P03', M + 'Diagram.dagger')
def dagger_functorial(g, m):
    d = g.diagram('d')
    e = g.diagram('e', dom=d.cod)
    m.eq((d >> e).dagger(), e.dagger() >> d.dagger(), 'dagger reverses composition')
    t = g.ty('t')
    m.eq(Diagram.id(t).dagger(), Diagram.id(t), 'dagger of identity')


@ob('P03', M + 'Diagram.rotate')
def rotate_typed(g, m):
    d = g.diagram('d')
    a = g.rotation('a')
    e = d.rotate(a)
    m.wt(e, 'rotation well-typed')
    m.eq(len(e.layers), len(d.layers), 'as many layers')
    i = g.index(d.layers)
    m.eq(e.layers[i], d.layers[i].rotate(a), 'layers rotated in order')


@ob('P03', M + 'Diagram.rotate')
def rotate_functorial(g, m):
    d = g.diagram('d')
    e = g.diagram('e', dom=d.cod)
    a = g.rotation('a')
    m.eq((d >> e).rotate(a), d.rotate(a) >> e.rotate(a), 'rotation distributes over composition')
    t = g.ty('t')
    m.eq(Diagram.id(t).rotate(a), Diagram.id(t.rotate(a)), 'rotation of identity')


@ob('P03', M + 'Diagram.transpose')
def transposes(g, m):
    d = g.diagram('d')
    l, r = d.transpose(left=True), d.transpose()
    m.wt(l, 'left transpose well-typed')
    m.wt(r, 'right transpose well-typed')
    m.eq(l.dom, d.cod.l, 'left transpose domain')
    m.eq(l.cod, d.dom.l, 'left transpose codomain')
    m.eq(r.dom, d.cod.r, 'right transpose domain')
    m.eq(r.cod, d.dom.r, 'right transpose codomain')


@ob('P03', M + 'Box.dagger', M + 'Box.rotate', sym=False, n=300)
def any_box_laws(g, m):
    laws(g, m, g.box('f'), 'any box')
