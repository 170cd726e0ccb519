"""P06: JSON round trips of types, boxes, layers, frames and diagrams."""
import json
from contracts.reg import ob
from lambeq.backend.grammar import (Box, Diagram, Layer, Ty, Cup, Cap, Swap, Spider, Word, Daggered,
                                    Frame, DaggeredFrame, grammar)

M = 'lambeq.backend.grammar.'


def snap(x):
    return {k: snap(v) for k, v in x.items()} if isinstance(x, dict) else x


def trip(m, x, label):
    """Decoding what encoding gives yields an equal object and leaves the data alone."""
    for top in (True, False):
        data = x.to_json() if top else x.to_json(is_top_level=False)
        before = snap(data)
        y = type(x).from_json(data)
        m.eq(type(y), type(x), label + ': kind')
        m.eq(y, x, label + ': decoded object')
        m.eq(data, before, label + ': data unchanged')
        m.eq(type(x).from_json(data), x, label + ': decoded again')
    m.eq(x.to_json()['category'], 'grammar', label + ': category recorded')
    y = grammar.from_json(x.to_json())
    m.eq(type(y), type(x), label + ': kind by category')
    m.eq(y, x, label + ': decoded by category')


@ob('P06', M + 'Ty.to_json', M + 'Ty.from_json', M + 'Category.from_json')
def types(g, m):
    t = g.rty('t')
    trip(m, t, 'type')


@ob('P06', M + 'Box.to_json', M + 'Box.from_json')
def boxes(g, m):
    trip(m, Box(g.string('name'), g.ty('x'), g.ty('y'), g.int('z')), 'box')


@ob('P06', M + 'Word.to_json', M + 'Word.from_json')
def words(g, m):
    trip(m, Word(g.string('name'), g.ty('y'), z=g.int('z')), 'word')


@ob('P06', M + 'Daggered.to_json', M + 'Daggered.from_json')
def daggered_boxes(g, m):
    trip(m, Box(g.string('name'), g.ty('x'), g.ty('y'), g.int('z')).dagger(), 'daggered box')
    trip(m, Word(g.string('name'), g.ty('y'), z=g.int('z')).dagger(), 'daggered word')


@ob('P06', M + 'Cup.to_json', M + 'Cup.from_json')
def cups(g, m):
    t, rev = g.aty('t'), g.bool('rev')
    trip(m, Cup(t, t.l if rev else t.r, is_reversed=rev), 'cup')


@ob('P06', M + 'Cap.to_json', M + 'Cap.from_json')
def caps(g, m):
    t, rev = g.aty('t'), g.bool('rev')
    trip(m, Cap(t, t.r if rev else t.l, is_reversed=rev), 'cap')


@ob('P06', M + 'Swap.to_json', M + 'Swap.from_json')
def swaps(g, m):
    trip(m, Swap(g.aty('s'), g.aty('t')), 'swap')


@ob('P06', M + 'Spider.to_json', M + 'Spider.from_json')
def spiders(g, m):
    trip(m, Spider(g.aty('t'), g.choice(0, 1, 2, 3), g.choice(0, 1, 2, 3)), 'spider')


def any_kind(g):
    """A box of every kind the grammar category knows."""
    x, y, t, s = g.ty('x'), g.ty('y'), g.aty('t'), g.aty('s')
    n, z = g.string('name'), g.int('z')
    k = g.choice(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
    if k == 0:
        return Box(n, x, y, z)
    if k == 1:
        return Word(n, y, z=z)
    if k == 2:
        return Daggered(Box(n, x, y, z))
    if k == 3:
        return Daggered(Word(n, y, z=z))
    if k == 4:
        return Cup(t, t.r)
    if k == 5:
        return Cap(t, t.l)
    if k == 6:
        return Swap(s, t)
    if k == 7:
        return Spider(t, 1, 2)
    f = Frame(n, x, y, z=z, components=[])
    return f if k == 8 else DaggeredFrame(f)


@ob('P06', M + 'Layer.to_json', M + 'Layer.from_json', n=300)
def layers(g, m):
    trip(m, Layer(g.ty('l'), any_kind(g), g.ty('r')), 'layer')


@ob('P06', M + 'Diagram.to_json', M + 'Diagram.from_json')
def diagrams(g, m):
    trip(m, g.diagram('d'), 'diagram')


@ob('P06', M + 'Frame.to_json', M + 'Frame.from_json', n=300)
def frames(g, m):
    comps = g.boxes('cs')
    which = g.choice('boxes', 'one of a kind', 'a diagram')
    if which == 'one of a kind':
        comps = [any_kind(g)]
    elif which == 'a diagram':
        comps = [g.diagram('d')] + comps
    trip(m, Frame(g.string('name'), g.ty('x'), g.ty('y'), z=g.int('z'), components=comps), 'frame')


@ob('P06', M + 'DaggeredFrame.to_json', M + 'DaggeredFrame.from_json')
def daggered_frames(g, m):
    f = Frame(g.string('name'), g.ty('x'), g.ty('y'), z=g.int('z'), components=g.boxes('cs'))
    trip(m, f.dagger(), 'daggered frame')


@ob('P06', M + 'Category.from_json', sym=False, n=400)
def strings(g, m):
    """Through a JSON string."""
    d = g.diagram('d')
    for _ in range(g.nat('depth', small=2)):
        f = Frame(g.string('name'), d.dom, d.cod, components=[d] + list(g.boxes('cs')))
        d = (f if g.bool() else f.dagger()).to_diagram()
    if g.bool():
        d = d.rotate(g.rotation('a'))
    s = json.dumps(d.to_json())
    y = Diagram.from_json(s)
    m.eq(type(y), type(d), 'kind')
    m.eq(y, d, 'from a string')
    m.eq([type(b) for b in y.boxes], [type(b) for b in d.boxes], 'kinds of boxes')
    m.eq(grammar.from_json(s), d, 'by category')
    m.eq(d.to_json(), json.loads(s), 'encoding is plain JSON')
    for t in (d.dom, d.cod):
        m.eq(Ty.from_json(json.dumps(t.to_json())), t, 'type from a string')
