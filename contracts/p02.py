"""P02: composing diagrams keeps them well-typed.

wt(d): d.dom = dom of the first layer, each layer's output is the next one's
input, the last one's output is d.cod (for the identity: dom = cod)."""
from contracts.reg import ob
from lambeq.backend.grammar import Box, Diagram, Layer, Ty, Id

D = 'lambeq.backend.grammar.Diagram.'
B = 'lambeq.backend.grammar.Box.'
L = 'lambeq.backend.grammar.Layer.'


def shape(g, m, d, dom, cod, label):
    m.wt(d, label + ' well-typed')
    m.eq(d.dom, dom, label + ' domain')
    m.eq(d.cod, cod, label + ' codomain')


def padded(ls, left, right):
    return [Layer(left=left @ l.left, box=l.box, right=l.right @ right) for l in ls]


@ob('P02', L + 'dom', L + 'cod', L + 'extend', L + 'unpack', L + '__iter__')
def layer_ops(g, m):
    a, f, b = g.ty('a'), g.box('f'), g.ty('b')
    u, v = g.ty('u'), g.ty('v')
    l = Layer(left=a, box=f, right=b)
    m.eq(l.dom, a @ f.dom @ b, 'dom')
    m.eq(l.cod, a @ f.cod @ b, 'cod')
    e = l.extend(u, v)
    m.eq(e, Layer(left=u @ a, box=f, right=b @ v), 'extend both')
    m.eq(l.extend(left=u), Layer(left=u @ a, box=f, right=b), 'extend left')
    m.eq(l.extend(right=v), Layer(left=a, box=f, right=b @ v), 'extend right')
    m.eq(l.extend(), l, 'extend by nothing')
    x, y, z = l
    m.eq([x, y, z], [a, f, b], 'unpacking')
    m.eq([l.left, l.right], [a, b], 'extend leaves the layer alone')


@ob('P02', D + 'id', D + 'is_id', 'lambeq.backend.grammar.Ty.to_diagram')
def identity(g, m):
    t = g.ty('t')
    i = Diagram.id(t)
    shape(g, m, i, t, t, 'identity')
    m.true(i.is_id, 'is_id')
    m.eq(len(i), 0, 'no layers')
    shape(g, m, t.to_diagram(), t, t, 'type as diagram')
    shape(g, m, Diagram.id(), Ty(), Ty(), 'empty identity')


@ob('P02', B + 'to_diagram')
def box_diagram(g, m):
    f = g.box('f')
    d = f.to_diagram()
    shape(g, m, d, f.dom, f.cod, 'box')
    m.eq(d.boxes, [f], 'single box')
    m.eq(len(d), 1, 'single layer')


@ob('P02', D + 'then', D + '__rshift__', D + 'lift', D + 'to_diagram')
def then_typed(g, m):
    d, e = g.diagram('d'), g.diagram('e')
    try:
        r = d >> e
    except ValueError:
        m.true(not (d.cod == e.dom), 'refused only when types differ')
        return
    m.eq(d.cod, e.dom, 'accepted only when types agree')
    shape(g, m, r, d.dom, e.cod, 'composite')
    m.eq(r.layers, d.layers + e.layers, 'layers')


@ob('P02', D + 'then', D + '__rshift__')
def then_composable(g, m):
    d = g.diagram('d')
    e = g.diagram('e', dom=d.cod)
    f = g.diagram('f', dom=e.cod)
    r = d.then(e, f)
    shape(g, m, r, d.dom, f.cod, 'composite of three')
    m.eq(r.layers, d.layers + e.layers + f.layers, 'layers of three')
    m.eq((d >> e) >> f, d >> (e >> f), 'associative')
    m.eq(d >> Diagram.id(d.cod), d, 'right identity')
    m.eq(Diagram.id(d.dom) >> d, d, 'left identity')
    m.eq(d.then(), d, 'nothing composed')


@ob('P02', D + 'then')
def then_frame(g, m):
    d = g.diagram('d')
    e = g.diagram('e', dom=d.cod)
    before = d.layers + []
    x, y = d.dom, d.cod
    d >> e
    m.eq(d.layers, before, 'operand layers untouched')
    m.eq([d.dom, d.cod], [x, y], 'operand types untouched')
    d @ e
    m.eq(d.layers, before, 'operand layers untouched by tensor')


@ob('P02', D + 'tensor', D + '__matmul__', D + 'lift')
def tensor_typed(g, m):
    d, e = g.diagram('d'), g.diagram('e')
    r = d @ e
    shape(g, m, r, d.dom @ e.dom, d.cod @ e.cod, 'tensor')
    m.eq(r.layers, padded(d.layers, Ty(), e.dom) + padded(e.layers, d.cod, Ty()), 'layers')


@ob('P02', D + 'tensor')
def tensor_three(g, m):
    d, e, f = g.diagram('d'), g.diagram('e'), g.diagram('f')
    r = d.tensor(e, f)
    shape(g, m, r, d.dom @ e.dom @ f.dom, d.cod @ e.cod @ f.cod, 'tensor of three')
    m.eq(r, (d @ e) @ f, 'associates to the left')
    m.eq(r, d @ (e @ f), 'associates to the right')
    m.eq(d @ Diagram.id(), d, 'right unit')
    m.eq(Diagram.id() @ d, d, 'left unit')


@ob('P02', D + 'tensor', 'lambeq.backend.grammar.Ty.tensor', D + '__rmatmul__', B + '__matmul__', B + '__rmatmul__')
def tensor_with_types(g, m):
    d, f, t = g.diagram('d'), g.box('f'), g.ty('t')
    shape(g, m, d @ t, d.dom @ t, d.cod @ t, 'diagram @ type')
    shape(g, m, f @ t, f.dom @ t, f.cod @ t, 'box @ type')
    shape(g, m, f @ d, f.dom @ d.dom, f.cod @ d.cod, 'box @ diagram')
    shape(g, m, d @ f, d.dom @ f.dom, d.cod @ f.cod, 'diagram @ box')
    shape(g, m, f @ f, f.dom @ f.dom, f.cod @ f.cod, 'box @ box')
    shape(g, m, d.__rmatmul__(t), t @ d.dom, t @ d.cod, 'type @ diagram')


@ob('P02', B + '__rshift__', D + '__rshift__')
def box_then(g, m):
    f = g.box('f')
    h = g.box('h', dom=f.cod)
    d = g.diagram('d', dom=f.cod)
    e = g.diagram('e', cod=f.dom)
    shape(g, m, f >> h, f.dom, h.cod, 'box >> box')
    shape(g, m, f >> d, f.dom, d.cod, 'box >> diagram')
    shape(g, m, e >> f, e.dom, f.cod, 'diagram >> box')


@ob('P02', D + 'then_at')
def then_at(g, m):
    a, b = g.ty('a'), g.ty('b')
    e = g.diagram('e')
    d = g.diagram('d', cod=a @ e.dom @ b)
    r = d.then_at(e, len(a))
    shape(g, m, r, d.dom, a @ e.cod @ b, 'then_at')
    m.eq(r.layers, d.layers + padded(e.layers, a, b), 'layers')


@ob('P02', D + 'then_at')
def then_at_any(g, m):
    e = g.diagram('e')
    d = g.diagram('d')
    i = g.nat('i')
    try:
        r = d.then_at(e, i)
    except ValueError:
        return
    m.wt(r, 'accepted then_at is well-typed')
    m.eq(r.dom, d.dom, 'domain')


@ob('P02', D + '__getitem__')
def slices(g, m):
    d = g.diagram('d')
    i = g.nat('i')
    j = g.nat('j')
    g.assume(i <= j and j <= len(d.layers))
    r = d[i:j]
    m.wt(r, 'slice well-typed')
    m.eq(r.layers, d.layers[i:j], 'slice layers')
    p, q = d[:i], d[i:]
    shape(g, m, p, d.dom, q.dom, 'prefix')
    shape(g, m, q, p.cod, d.cod, 'suffix')
    m.eq(p >> q, d, 'cutting and composing')


def clamp(i, n):
    if i < 0:
        i = i + n
        if i < 0:
            return 0
    return i if i <= n else n


@ob('P02', D + '__getitem__', n=400)
def any_slice(g, m):
    d = g.diagram('d')
    i, j = g.int('i', small=5), g.int('j', small=5)
    n = len(d.layers)
    a, b = clamp(i, n), clamp(j, n)
    r = d[i:j]
    m.wt(r, 'slice well-typed')
    if a < b:
        m.eq(r.layers, d.layers[a:b], 'slice layers')
        m.eq([r.dom, r.cod], [g.cut(d, a), g.cut(d, b)], 'slice types')
    else:
        m.eq(len(r.layers), 0, 'empty slice')
        m.eq(r.dom, g.cut(d, a), 'empty slice is the identity where it starts')


@ob('P02', D + '__getitem__')
def single_layers(g, m):
    d = g.diagram('d')
    i = g.index(d.layers)
    m.wt(d[i], 'layer as diagram')
    m.eq(d[i].layers, [d.layers[i]], 'that layer')
    k = i - len(d.layers)
    m.eq(d[k], d[i], 'negative index')


@ob('P02', D + '__getitem__')
def index_range(g, m):
    d = g.diagram('d')
    i = g.int('i')
    n = len(d.layers)
    try:
        d[i]
        ok = True
    except IndexError:
        ok = False
    m.true(ok == (-n <= i and i < n), 'layer index refused exactly out of range')


@ob('P02', D + '__getitem__')
def reversed_slice(g, m):
    d = g.diagram('d')
    r = d[::-1]
    shape(g, m, r, d.cod, d.dom, 'reversed')
    m.eq(r, d.dagger(), 'reversal is the dagger')


@ob('P02', D + '__getitem__', n=200)
def partial_reversed_slice(g, m):
    d = g.diagram('d')
    g.assume(len(d.layers) >= 1)
    i = g.index(d.layers)
    r = d[i::-1]
    m.wt(r, 'partially reversed slice well-typed')
    m.eq(r, d[:i + 1].dagger(), 'reverses the first layers')


@ob('P02', D + 'boxes', D + 'offsets', D + '__iter__', D + '__len__')
def observers(g, m):
    d = g.diagram('d')
    m.eq(len(d), len(d.layers), 'len')
    m.eq(len(d.boxes), len(d.layers), 'as many boxes')
    m.eq(len(d.offsets), len(d.layers), 'as many offsets')
    i = g.index(d.layers)
    m.eq(d.boxes[i], d.layers[i].box, 'boxes')
    m.eq(d.offsets[i], len(d.layers[i].left), 'offsets')


@ob('P02', D + 'transpose')
def transpose(g, m):
    x, y = g.ty('x'), g.ty('y')
    d = g.diagram('d', dom=x, cod=y)
    shape(g, m, d.transpose(left=True), y.l, x.l, 'left transpose')
    shape(g, m, d.transpose(), y.r, x.r, 'right transpose')


@ob('P02', D + 'curry')
def curry(g, m):
    x, y, z = g.ty('x'), g.ty('y'), g.ty('z')
    d = g.diagram('d', dom=x @ y, cod=z)
    g.assume(len(y) >= 1)
    shape(g, m, d.curry(len(y)), x, z @ y.l, 'left curry')


@ob('P02', D + 'curry')
def curry_right(g, m):
    x, y, z = g.ty('x'), g.ty('y'), g.ty('z')
    d = g.diagram('d', dom=x @ y, cod=z)
    g.assume(len(x) >= 1)
    shape(g, m, d.curry(len(x), left=False), y, x.r @ z, 'right curry')


@ob('P02', D + 'fa', D + 'ba', D + 'fc', D + 'bc', D + 'fx', D + 'bx', D + 'swap', D + 'cups', D + 'caps')
def ccg_helpers(g, m):
    x, y, z = g.ty('x'), g.ty('y'), g.ty('z')
    shape(g, m, Diagram.fa(x, y), x @ y.l @ y, x, 'fa')
    shape(g, m, Diagram.ba(x, y), x @ x.r @ y, y, 'ba')
    shape(g, m, Diagram.fc(x, y, z), x @ y.l @ y @ z.l, x @ z.l, 'fc')
    shape(g, m, Diagram.bc(x, y, z), x.r @ y @ y.r @ z, x.r @ z, 'bc')


@ob('P02', D + 'fx', D + 'bx')
def ccg_crossed(g, m):
    x, y, z = g.ty('x'), g.ty('y'), g.ty('z')
    shape(g, m, Diagram.fx(x, y, z), x @ y.l @ z.r @ y, z.r @ x, 'fx')
    shape(g, m, Diagram.bx(x, y, z), y @ x.l @ y.r @ z, z @ x.l, 'bx')


@ob('P02', D + 'lift', D + 'tensor', D + 'then', sym=False, n=60)
def foreign_operands_refused(g, m):
    from lambeq.backend import quantum, tensor
    d = g.diagram('d')
    other = g.choice(quantum.H, tensor.Box('b', tensor.Dim(2), tensor.Dim(2)), 3, 'x', None)
    for op in (lambda: d @ other, lambda: d >> other):
        try:
            op()
        except Exception:
            m.ok('refused')
        else:
            m.fail('operand of another category accepted', repr(other))
