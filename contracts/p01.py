"""P01: Ty is the free monoid with adjoints.

Contracts over the abstract view  wires(t) = [(name, z), ...]."""
from contracts.reg import ob
from lambeq.backend.grammar import Ty

F = 'lambeq.backend.grammar.Ty.'


def valid(m, t, label):
    """Class invariant of Ty: never exactly one nested object."""
    m.true(len(t.objects) != 1, label + ' invariant: not one object')
    m.true(not (len(t.objects) > 1 and t.name is not None), label + ' invariant: complex has no name')
    if not (len(t.objects) == 0 and t.name is not None):
        m.eq(t.z, 0, label + ' invariant: only atoms wind')


def rot(ws, k):
    out = [(n, z + k) for (n, z) in ws]
    return out[::-1] if k % 2 == 1 else out


@ob('P01', F + '__post_init__', F + 'is_empty', F + 'is_atomic', F + 'is_complex', F + '__len__')
def ty_queries(g, m):
    t = g.rty()
    n = len(m.wires(t))
    m.eq(len(t), n, 'len')
    m.true(t.is_empty == (n == 0), 'is_empty')
    m.true(t.is_atomic == (n == 1), 'is_atomic')
    m.true(t.is_complex == (n > 1), 'is_complex')


@ob('P01', F + '__iter__', F + '__getitem__')
def ty_index(g, m):
    t = g.rty()
    ws = m.wires(t)
    i = g.index(ws)
    x = t[i]
    m.eq(m.wires(x), [ws[i]], 'item')
    y = t[i - len(ws)]
    m.eq(m.wires(y), [ws[i]], 'item from the end')
    m.eq(m.wires(Ty()._fromiter(iter(t))), ws, 'iteration yields the wires')


@ob('P01', F + '__getitem__', F + '_fromiter')
def ty_slice(g, m):
    t = g.rty()
    ws = m.wires(t)
    form = g.choice(0, 1, 2)
    a, b = g.int('a', 0), g.int('b', 0)
    if form == 0:
        s = t[a:b]
        e = ws[a:b]
    elif form == 1:
        s = t[a:]
        e = ws[a:]
    else:
        s = t[:b]
        e = ws[:b]
    m.eq(m.wires(s), e, 'slice')
    valid(m, s, 'slice')


@ob('P01', F + '__getitem__')
def ty_slice_negative(g, m):
    t = g.rty()
    ws = m.wires(t)
    a = g.int('a')
    m.eq(m.wires(t[a:]), ws[a:], 'suffix')
    m.eq(m.wires(t[:a]), ws[:a], 'prefix')


@ob('P01', F + '__getitem__')
def ty_index_range(g, m):
    t = g.rty()
    i = g.int('i')
    n = len(m.wires(t))
    try:
        t[i]
        ok = True
    except IndexError:
        ok = False
    m.true(ok == (-n <= i and i < n), 'refused exactly out of range')


@ob('P01', F + 'tensor', F + '__matmul__', F + '_fromiter')
def ty_tensor(g, m):
    s, t = g.rty('s'), g.rty('t')
    u = s @ t
    m.eq(m.wires(u), m.wires(s) + m.wires(t), 'concatenation')
    valid(m, u, 'tensor')


@ob('P01', F + 'tensor', F + '_fromiter')
def ty_tensor_many(g, m):
    s, t, u = g.rty('s'), g.rty('t'), g.rty('u')
    m.eq(m.wires(s.tensor(t, u)), m.wires(s) + m.wires(t) + m.wires(u), 'varargs')
    m.eq(m.wires(s.tensor([t, u])), m.wires(s) + m.wires(t) + m.wires(u), 'iterable')
    m.eq(m.wires(s.tensor([])), m.wires(s), 'no factors')


@ob('P01', F + '__eq__', F + 'tensor')
def ty_monoid(g, m):
    s, t, u = g.rty('s'), g.rty('t'), g.rty('u')
    m.eq((s @ t) @ u, s @ (t @ u), 'associative')
    m.eq(s @ Ty(), s, 'right unit')
    m.eq(Ty() @ s, s, 'left unit')


@ob('P01', F + '__eq__')
def ty_equality(g, m):
    s, t = g.rty('s'), g.rty('t')
    if s == t:
        m.eq(len(m.wires(s)), len(m.wires(t)), 'equal types have equal length')
    m.true(s == s, 'reflexive')
    a, b = g.ratom('a'), g.ratom('b')
    (n1, z1), = m.wires(a)
    (n2, z2), = m.wires(b)
    m.true((a == b) == (n1 == n2 and z1 == z2), 'atoms equal iff name and winding agree')
    m.true((s @ a == s @ b) == (a == b), 'cancellation')


@ob('P01', F + 'rotate', F + 'l', F + 'r')
def ty_rotate(g, m):
    t = g.rty()
    k = g.rotation()
    r = t.rotate(k)
    m.eq(m.wires(r), rot(m.wires(t), k), 'rotation')
    valid(m, r, 'rotate')
    m.eq(m.wires(t.l), rot(m.wires(t), -1), 'left adjoint')
    m.eq(m.wires(t.r), rot(m.wires(t), 1), 'right adjoint')


@ob('P01', F + 'rotate', F + 'l', F + 'r')
def ty_adjoint_laws(g, m):
    s, t = g.rty('s'), g.rty('t')
    j, k = g.rotation('j'), g.rotation('k')
    m.eq(t.l.r, t, 'l then r')
    m.eq(t.r.l, t, 'r then l')
    m.eq(t.rotate(j).rotate(k), t.rotate(j + k), 'rotations add')
    m.eq((s @ t).l, t.l @ s.l, 'left adjoint of a product')
    m.eq((s @ t).r, t.r @ s.r, 'right adjoint of a product')


@ob('P01', F + 'rotate', F + 'unwind')
def ty_unwind(g, m):
    t = g.ratom()
    (n, z), = m.wires(t)
    m.eq(m.wires(t.unwind()), [(n, 0)], 'unwind has winding zero')


@ob('P01', F + '__lshift__', F + '__rshift__')
def ty_over_under(g, m):
    s, t = g.rty('s'), g.rty('t')
    m.eq(m.wires(s << t), m.wires(s) + rot(m.wires(t), -1), 'over')
    m.eq(m.wires(s >> t), rot(m.wires(s), 1) + m.wires(t), 'under')


@ob('P01', F + 'replace', F + '_fromiter')
def ty_replace(g, m):
    t, u = g.rty('t'), g.rty('u')
    ws = m.wires(t)
    i = g.index(ws)
    m.eq(m.wires(t.replace(u, i)), ws[:i] + m.wires(u) + ws[i + 1:], 'replace one wire')


@ob('P01', F + 'insert', F + '_fromiter')
def ty_insert(g, m):
    t, u = g.rty('t'), g.rty('u')
    ws = m.wires(t)
    i = g.nat('i')
    g.assume(i <= len(ws))
    r = t.insert(u, i)
    m.eq(m.wires(r), ws[:i] + m.wires(u) + ws[i:], 'insert before a position')
    valid(m, r, 'insert')


@ob('P01', F + 'insert', F + 'replace')
def ty_insert_range(g, m):
    t, u = g.rty('t'), g.rty('u')
    n = len(m.wires(t))
    i = g.int('i')
    g.assume(i > n)
    for op in (0, 1):
        try:
            (t.insert if op else t.replace)(u, i)
            m.fail('index past the end accepted')
        except IndexError:
            m.ok('index past the end refused')


@ob('P01', F + 'count')
def ty_count(g, m):
    t, a = g.rty('t'), g.ratom('a')
    b = g.ratom('b')
    k = t.count(a)
    m.true(k >= 0 and k <= len(t), 'bounded by the length')
    m.eq((t @ b).count(a), k + (1 if b == a else 0), 'one more wire')
    m.eq(Ty().count(a), 0, 'empty')


@ob('P01', F + 'repeat', F + '__pow__')
def ty_repeat(g, m):
    t = g.rty('t')
    k = g.choice(0, 1, 2, 3)
    e = []
    for _ in range(k):
        e = e + m.wires(t)
    m.eq(m.wires(t ** k), e, 'k-fold product')


@ob('P01', F + 'repeat', F + '__pow__')
def ty_repeat_atom(g, m):
    t = g.ratom('t')
    k = g.nat('k')
    r = t ** k
    w, = m.wires(t)
    m.eq(len(m.wires(r)), k, 'length')
    if k > 0:
        i = g.index(m.wires(r))
        m.eq(m.wires(r)[i], w, 'every wire')
    valid(m, r, 'repeat')
