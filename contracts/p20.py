"""P20: pregroup trees."""
import contextlib
import io
import itertools
from contracts.reg import ob
from pyvc.rt import LoopSpec, KEEP
from lambeq.backend.grammar import Ty, Word, Cup, Swap
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode
from lambeq.text2diagram import pregroup_tree_converter as PC

N = 'lambeq.text2diagram.pregroup_tree.PregroupTreeNode.'
C = 'lambeq.text2diagram.pregroup_tree_converter.'


# ------------------------------------------------------- concrete trees
def some_type(g, wide):
    n, s = Ty('n'), Ty('s')
    return g.r.choice([n, s, Ty('p')] + ([n.r @ s, s @ s.l, n @ n, n.r.r, s.r @ n.r.r] if wide else []))


def grow(g, lo, hi, wide):
    """A tree without crossings over the words lo..hi-1."""
    root = g.r.randrange(lo, hi)

    def split(a, b):
        out = []
        while a < b:
            c = g.r.randrange(a + 1, b + 1)
            out.append(grow(g, a, c, wide))
            a = c
        return out
    kids = split(lo, root) + split(root + 1, hi)
    g.r.shuffle(kids)
    return PregroupTreeNode(f'w{root}', root, some_type(g, wide), children=kids)


def from_parents(parents, types, shuffle=lambda xs: None):
    def make(i):
        kids = [make(c) for c, p in enumerate(parents) if p == i]
        shuffle(kids)
        return PregroupTreeNode(f'w{i}', i, types[i], children=kids)
    return make(parents.index(-1))


def tree_parents(g, k):
    order = list(range(k))
    g.r.shuffle(order)
    parents = [-1] * k
    for j, i in enumerate(order[1:], 1):
        parents[i] = g.r.choice(order[:j])
    return parents


def some_tree(g, hi=6, wide=True):
    k = g.r.randrange(1, hi + 1)
    if g.r.random() < .5:
        t = grow(g, 0, k, wide)
    else:
        t = from_parents(tree_parents(g, k), [some_type(g, wide) for _ in range(k)], g.r.shuffle)
    g.note('tree', picture(t))
    return t, k


def picture(t):
    return (t.word, t.ind, str(t.typ), [picture(c) for c in t.children])


def below(t):
    """Every node with its depth."""
    yield t, 0
    for c in t.children:
        for x, d in below(c):
            yield x, d + 1


def plain(t):
    return (t.word, t.ind, str(t.typ), sorted((plain(c) for c in t.children), key=lambda c: c[1]))


def linked(m, t, label):
    for x, _ in below(t):
        for c in x.children:
            m.true(c.parent is x, label + ': parents')


@ob('P20', N + 'height', N + 'get_depth', N + 'get_root', N + 'get_nodes', N + '_get_nodes_flat', N + 'get_words', N + 'get_types',
    N + 'get_parents', N + 'get_word_indices', N + '__post_init__', sym=False, n=300, bound='trees of at most six words')
def reports(g, m):
    """What a tree reports about itself agrees with its shape."""
    t, k = some_tree(g)
    linked(m, t, 'made')
    nodes = sorted(below(t), key=lambda x: x[0].ind)
    m.eq(t.height, 1 + max(d for _, d in nodes), 'height')
    m.eq([[x for x in xs] for xs in t.get_nodes()], [[x] for x, _ in nodes], 'nodes in sentence order')
    m.true(all(xs[0] is x for xs, (x, _) in zip(t.get_nodes(), nodes)), 'the nodes themselves')
    m.eq(t.get_words(), [x.word for x, _ in nodes], 'words')
    m.eq(t.get_word_indices(), list(range(k)), 'positions')
    m.eq(t.get_types(), [[str(x.typ)] for x, _ in nodes], 'types as text')
    m.eq(t.get_types(as_str=False), [[x.typ] for x, _ in nodes], 'types')
    m.eq(t.get_parents(), [[x.parent.ind if x.parent else -1] for x, _ in nodes], 'parents')
    for x, d in nodes:
        m.eq(x.get_depth(), d, 'depth')
        m.true(x.get_root() is t, 'root')
    x = g.r.choice(nodes)[0]
    inside = {id(y): d for y, d in below(x)}
    for y, _ in nodes:
        m.eq(y.get_depth(x), inside.get(id(y), -1), 'depth below a node')
    m.eq(x.height, 1 + max(inside.values()), 'height of a part')
    # words that are not a span
    m.eq(x.get_word_indices(), sorted(y.ind for y, _ in below(x)), 'positions of a part')


@ob('P20', N + '__eq__', N + '__lt__', N + '__gt__', N + 'is_same_word', sym=False, n=400, bound='trees of at most five words')
def equality(g, m):
    """Equal: the same words, positions and types in the same shape."""
    k = g.r.randrange(1, 6)
    parents, types = tree_parents(g, k), [some_type(g, False) for _ in range(k)]
    a = from_parents(parents, types, g.r.shuffle)
    b = from_parents(parents, types, g.r.shuffle)
    g.note('tree', picture(a))
    m.true(a == b and b == a, 'children in any order')
    p2, t2 = list(parents), list(types)
    if g.r.random() < .5:
        t2[g.r.randrange(k)] = some_type(g, False)
    elif g.r.random() < .5:
        p2 = tree_parents(g, k)
    c = from_parents(p2, t2, g.r.shuffle)
    if g.r.random() < .3:
        x = g.r.choice(list(below(c)))[0]
        x.word += '!'
    g.note('other', picture(c))
    m.eq(a == c, plain(a) == plain(c), 'equality')
    m.eq(a != c, plain(a) != plain(c), 'inequality')
    m.true(a != 'a' and a != (), 'other things')
    repeated(g, c)
    repeated(g, a)
    x, y = g.r.choice(list(below(a)))[0], g.r.choice(list(below(c)) + list(below(a)))[0]
    m.eq(x.is_same_word(y), (x.word, x.ind) == (y.word, y.ind), 'same word')
    m.eq((x < y, x > y), (x.ind < y.ind, x.ind > y.ind), 'order')


@ob('P20', N + 'merge', N + 'height', sym=False, n=300, bound='trees of at most six words')
def merging(g, m):
    """Merging joins a word and its only child, if they are neighbours of the
    same type, and keeps everything else."""
    k = g.r.randrange(1, 7)
    t = from_parents(tree_parents(g, k), [some_type(g, False) if g.r.random() < .3 else Ty('n') for _ in range(k)])
    if g.r.random() < .5 and k > 1:
        t = grow(g, 0, k, False)
        for x, _ in below(t):
            x.typ = Ty('n')
    g.note('tree', picture(t))
    x = g.r.choice([x for x, _ in below(t) if len(x.children) == 1] or [t])
    g.note('at', x.ind)
    t.height, t._tree_repr, x.height      # looked at before
    before, kids = plain(t), list(x.children)
    fits = len(kids) == 1 and kids[0].typ == x.typ and abs(kids[0].ind - x.ind) == 1
    rest = list(kids[0].children) if fits else kids
    word, ind, typ = x.word, x.ind, x.typ
    with contextlib.redirect_stdout(io.StringIO()):
        x.merge()
    if not fits:
        m.eq(plain(t), before, 'left alone')
        return
    c = kids[0]
    m.eq(x.word, f'{word} {c.word}' if ind < c.ind else f'{c.word} {word}', 'words joined in sentence order')
    m.eq(x.ind, min(ind, c.ind), 'position')
    m.eq(x.typ, typ, 'type')
    m.true(len(x.children) == len(rest) and all(a is b for a, b in zip(x.children, rest)), 'the children of the child')
    m.true(c.parent is None, 'child cut off')
    linked(m, t, 'merged')
    m.eq(t.height, 1 + max(d for _, d in below(t)), 'height afterwards')
    m.eq(x.height, 1 + max(d for _, d in below(x)), 'height afterwards')

    def expect(p):
        if p[1] == ind:
            p = (x.word, x.ind, p[2], p[3][0][3])
        return (*p[:3], sorted((expect(q) if q[1] != x.ind or p[1] != x.ind else q for q in p[3]), key=lambda q: q[1]))
    m.eq(sorted(y.word for y, _ in below(t) if y is not x), sorted(y[0] for y in flat(before) if y[1] not in (ind, c.ind)), 'other words')


def flat(p):
    return [p] + [y for q in p[3] for y in flat(q)]


def repeated(g, t):
    """Let some words occur more than once in the sentence."""
    nodes = [x for x, _ in below(t)]
    if g.r.random() < .5:
        for x in nodes:
            if g.r.random() < .7:
                x.word = f'w{g.r.randrange(2)}'
    for x in nodes:
        x.__post_init__()


def with_copies(g, t):
    """Hang copies of words below others (dependencies with two heads)."""
    nodes = [x for x, _ in below(t)]
    repeated(g, t)
    for _ in range(g.r.randrange(1, 4)):
        x, y = g.r.choice(nodes), g.r.choice(nodes)
        z = PregroupTreeNode(x.word, x.ind, some_type(g, False), parent=y)
        y.children.insert(g.r.randrange(len(y.children) + 1), z)
        if g.r.random() < .3:
            nodes.append(z)


@ob('P20', N + 'remove_self_cycles', sym=False, n=300, bound='trees of at most eight nodes')
def self_cycles(g, m):
    t, k = some_tree(g, 5, False)
    with_copies(g, t)
    g.note('copies', picture(t))
    t.height

    def keep(t):
        return (t.word, t.ind, str(t.typ), [keep(c) for c in t.children if (c.word, c.ind) != (t.word, t.ind)])
    want = keep(t)
    gone = [c for x, _ in below(t) for c in x.children if (c.word, c.ind) == (x.word, x.ind)]
    above = {id(c): any(c is y for d in gone if d is not c for y, _ in below(d)) for c in gone}
    m.true(t.remove_self_cycles() is None, 'in place')
    m.eq(picture(t), want, 'every other word and dependency stays')
    linked(m, t, 'kept')
    m.true(all(c.parent is None for c in gone if not above[id(c)]), 'cut off')
    m.eq(t.height, 1 + max(d for _, d in below(t)), 'height afterwards')


@ob('P20', C + 'remove_cycles', sym=False, n=300, bound='trees of at most eight nodes')
def cycles(g, m):
    """Afterwards each word occurs once; only extra copies have gone."""
    t, k = some_tree(g, 5, False)
    repeated(g, t)
    nodes = [x for x, _ in below(t)]
    for _ in range(g.r.randrange(4)):     # copies are leaves
        x, y = g.r.choice(nodes), g.r.choice(nodes)
        if x is t or x.children or any(c.ind == x.ind for c in y.children):
            continue
        y.children.append(PregroupTreeNode(x.word, x.ind, some_type(g, False), parent=y))
    g.note('copies', picture(t))
    deepest = {}
    for x, d in below(t):
        deepest[x.ind] = max(d, deepest.get(x.ind, 0))
    if any(x.children and d < deepest[x.ind] for x, d in below(t)):
        return      # a diagram gives trees whose shallower copies are leaves
    edges = {(x.ind, c.ind) for x, _ in below(t) for c in x.children}
    alone = [x for x, _ in below(t) if len([1 for y, _ in below(t) if y.ind == x.ind]) == 1]
    depths = {}
    for x, d in below(t):
        if not (x.parent and x.is_same_word(x.parent)):
            depths.setdefault(x.ind, []).append(d)
    PC.remove_cycles(t)
    left = [x for x, _ in below(t)]
    m.eq(sorted(x.ind for x in left), list(range(k)), 'every word once')
    m.true({(x.ind, c.ind) for x in left for c in x.children} <= edges, 'only dependencies that were there')
    m.true(all(any(x is y for y in left) for x in alone), 'words without copies stay')
    linked(m, t, 'kept')
    for x, d in below(t):
        m.eq(d, max(depths[x.ind]), 'the deepest copy stays')


@ob('P20', C + 'tree2diagram', C + 'diagram2tree', C + '_construct_tree', N + 'to_diagram', sym=False, n=400,
    bound='trees of at most seven words without crossing dependencies')
def planar(g, m):
    """The diagram of a tree is well-typed, holds the words in sentence order
    and gives the tree back."""
    k = g.r.randrange(1, 8)
    t = grow(g, 0, k, g.r.random() < .5)
    g.note('tree', picture(t))
    converts(g, m, t, [f'w{i}' for i in range(k)])


def converts(g, m, t, tokens):
    before = plain(t)
    d = PC.tree2diagram(t, tokens)
    m.eq(plain(t), before, 'tree left alone')
    m.wt(d, 'well-typed')
    m.eq(d.dom, Ty(), 'no input')
    m.eq(d.cod, t.typ, 'output')
    m.eq([b.name for b in d.boxes if isinstance(b, Word)], tokens, 'words in sentence order')
    m.eq([b.name for b in d.boxes[:len(tokens)]], tokens, 'words first')
    m.true(all(isinstance(b, (Word, Cup, Swap)) for b in d.boxes), 'words, cups and swaps')
    m.eq(plain(PC.diagram2tree(d)), before, 'back')
    m.true(t.to_diagram(tokens) == d, 'method')
    w = PC.tree2diagram(t, tokens, no_morphisms=True)
    m.eq(w.boxes, d.boxes[:len(tokens)], 'words alone')


BAD = [(2, 3, -1, 0, 1), (3, 2, -1, 1, 1), (3, 3, -1, 2, 1), (3, 4, -1, 1, 2)]


@ob('P20', C + 'tree2diagram', C + 'diagram2tree', sym=False, n=300, bound='trees of at most five words, one wire per dependency')
def crossing(g, m):
    k = g.r.randrange(1, 6)
    parents = tree_parents(g, k)
    if tuple(parents) in BAD:
        return
    t = from_parents(parents, [some_type(g, False) for _ in range(k)], g.r.shuffle)
    g.note('tree', picture(t))
    converts(g, m, t, [f'w{i}' for i in range(k)])


@ob('P20', C + 'tree2diagram', sym=False, n=1, bound='four trees of five words')
def crossing_thrice(g, m):
    """Three mutually crossing dependencies."""
    failed = []
    for parents in BAD:
        t = from_parents(list(parents), [Ty('n')] * 5)
        try:
            PC.tree2diagram(t, [f'w{i}' for i in range(5)])
        except ValueError:
            failed.append(parents)
    m.true(failed == [], f'misplaced swaps {failed}')


@ob('P20', C + 'generate_tree', C + 'str_to_type', C + 'has_out_of_bounds_parents', C + 'has_self_as_parents', C + 'build_nx_graph',
    sym=False, n=250, bound='trees of at most six words')
def generated(g, m):
    """A tree comes back from its words, types and parents."""
    t, k = some_tree(g)
    words, types, parents = t.get_words(), t.get_types(), t.get_parents()
    roots, nodes = PC.generate_tree(words, types, parents)
    m.eq([plain(r) for r in roots], [plain(t)], 'the tree')
    linked(m, roots[0], 'generated')
    m.true(roots[0].parent is None, 'root')
    m.eq([[x.ind for x in xs] for xs in nodes], [[i] for i in range(k)], 'nodes by word')
    i = g.r.randrange(k)
    for bad in (i, k, k + 3, -2):
        p = [list(x) for x in parents]
        p[i] = [bad]
        try:
            PC.generate_tree(words, types, p)
            m.fail('refused', p)
        except ValueError:
            m.ok('refused')


# --------------------------------------------------- any number of children
class Heap:
    """Which of the nodes of a row were last given the attribute asked for."""
    def __init__(self, g):
        self.g, self.upto, self.writes = g, 0, []

    def write(self, i, right):
        self.writes.append((i, right))

    def passed(self, n):
        self.upto, self.writes = n, []

    def holds(self, j):
        out = bool(j < self.upto)
        for i, right in self.writes:
            if j == i:
                out = right
        return out


class Row:
    """A row of nodes of which nothing is known but their number."""
    def __init__(self, g, name, owner=None):
        self.g, self.owner = g, owner
        self.n = g.int('n_' + name, lo=0)
        self.words, self.inds = g.strings('words'), g.ints('positions')
        self.parents, self.cleaned = Heap(g), Heap(g)

    def __call__(self, i):
        return Kid(self, i)

    def list(self):
        return self.g.list(self, 'kids', n=self.n)


class Kid(PregroupTreeNode):
    """One of them."""
    def __init__(self, row, i):
        self.__dict__.update(row=row, i=row.g.value(i))

    @property
    def word(self):
        return self.row.words(self.i)

    @property
    def ind(self):
        return self.row.inds(self.i)

    @property
    def parent(self):
        raise NotImplementedError('parent of a child read')

    @parent.setter
    def parent(self, p):
        self.row.parents.write(self.i, p is self.row.owner)

    def __pv_is__(self, o):
        return isinstance(o, Kid) and self.row is o.row and self.i == o.i

    def remove_self_cycles(self):
        self.row.cleaned.write(self.i, True)


class Adopts(LoopSpec):
    """The children passed so far have the right parent."""
    def __init__(self, g, row):
        self.g, self.row = g, row

    def modified(self, L):
        return ()

    def havoc(self, L, loc, i):
        self.row.parents.passed(self.g.value(i))
        return {}

    def inv(self, L, env, i, m):
        if hasattr(m, '_rec'):
            j = self.g.int('j', lo=0)
            if j < self.g.value(i):
                m.true(self.row.parents.holds(j), 'parent of those passed')


def adopts(g, row):
    class Spec(Adopts):
        def __init__(self):
            Adopts.__init__(self, g, row)
    return Spec


@ob('P20', N + '__post_init__', n=50)
def made(g, m):
    """The children of a new node have it as parent, however many."""
    if not g.symbolic:
        return reports(g, m)
    row = Row(g, 'kids')
    t = object.__new__(PregroupTreeNode)
    t.word, t.ind, t.typ, t.children, t.typ_indxs, t._children_words = g.string('w'), g.int('i', lo=0), Ty('n'), row.list(), [], []
    t.parent = g.choice(None, PregroupTreeNode('v', 0, Ty('n')))
    row.owner = t
    g.invariant('PregroupTreeNode.__post_init__', adopts(g, row))
    t.__post_init__()
    j = g.int('j', lo=0)
    if j < row.n:
        m.true(row.parents.holds(j), 'parent')


@ob('P20', N + 'is_same_word', N + '__lt__', N + '__gt__', n=50)
def words(g, m):
    """Same word: same text at the same position, whatever the tree."""
    if not g.symbolic:
        return equality(g, m)
    x = PregroupTreeNode(g.string('w'), g.int('i', lo=0), Ty('n'))
    y = PregroupTreeNode(g.string('w'), g.int('i', lo=0), Ty(g.choice('n', 's')))
    how = g.choice('apart', 'parent', 'child', 'siblings')
    if how == 'parent':
        x.parent, y.children = y, [x]
    elif how == 'child':
        y.parent, x.children = x, [y]
    elif how == 'siblings':
        PregroupTreeNode(g.string('w'), g.int('i', lo=0), Ty('n'), children=[x, y])
    same = bool(x.word == y.word and x.ind == y.ind)
    m.eq(bool(x.is_same_word(y)), same, 'same word')
    m.eq(bool(x < y), bool(x.ind < y.ind), 'before')
    m.eq(bool(x > y), bool(x.ind > y.ind), 'after')
    m.true(x.is_same_word('w') is NotImplemented, 'other things')


@ob('P20', N + 'merge', n=50)
def merge(g, m):
    """A child with any number of children; any other number of children."""
    if not g.symbolic:
        return merging(g, m)
    row = Row(g, 'kids')
    x = PregroupTreeNode(g.string('w'), g.int('i', lo=0), g.ty('t'))
    n = g.choice(0, 1, 2)
    word, ind, typ = x.word, x.ind, x.typ
    if n != 1:
        x.children = kids = [] if n == 0 else row.list()
        g.assume(n == 0 or row.n > 1)
        x.merge()
        m.true(x.children is kids and x.word == word and x.ind == ind, 'left alone')
        return
    c = PregroupTreeNode(g.string('w'), g.int('i', lo=0), typ if g.choice(True, False) else g.ty('u'))
    c.parent, x.children, c.children = x, [c], row.list()
    kids, cword, cind = x.children, c.word, c.ind
    fits = bool(typ == c.typ) and bool(cind == ind + 1 or cind == ind - 1)
    row.owner = x
    g.invariant('PregroupTreeNode.merge', adopts(g, row))
    x.merge()
    m.true(x.typ == typ, 'type')
    if not fits:
        m.true(x.children is kids and c.parent is x, 'tree left alone')
        m.eq(x.word, word, 'word left alone')
        m.eq(x.ind, ind, 'position left alone')
        return
    m.eq(x.word, word + ' ' + cword if ind < cind else cword + ' ' + word, 'words joined in sentence order')
    m.eq(x.ind, ind if ind < cind else cind, 'position')
    m.true(c.parent is None, 'child cut off')
    m.eq(len(x.children), row.n, 'number of children')
    j = g.int('j', lo=0)
    if j < row.n:
        k = x.children[j]
        m.true(isinstance(k, Kid) and k.row is row, 'the children of the child')
        m.eq(k.i, j, 'in order')
        m.true(row.parents.holds(j), 'parent of the children of the child')


class Kept:
    """The children that are other words, counted from the left."""
    def __init__(self, g, x, row):
        self.g, self.x, self.row = g, x, row
        self.count, self.source = g.ints('kept before', lo=0), g.ints('source')

    def other(self, j):
        return not (self.row.words(j) == self.x.word and self.row.inds(j) == self.x.ind)

    def step(self, j):
        """What the count and the source are at j."""
        g = self.g
        g.assume(self.count(0) == 0)
        if self.other(j):
            g.assume(self.count(j + 1) == self.count(j) + 1)
            g.assume(self.source(self.count(j)) == j)
        else:
            g.assume(self.count(j + 1) == self.count(j))

    def kids(self, n):
        return self.g.list(lambda k: Kid(self.row, self.source(self.g.value(k))), 'kept', n=n)

    def claim(self, m, xs, n):
        """xs are the children kept among the first n."""
        at = 0
        for size, x in self.g.pieces(xs):
            if size is None:
                m.true(isinstance(x, Kid) and x.row is self.row, 'one of the children')
                m.eq(x.i, self.source(at), 'child kept')
                at = at + 1
            else:
                j = self.g.int('k', lo=0)
                if j < size:
                    m.eq(x(j).i, self.source(at + j), 'children kept')
                at = at + size
        m.eq(at, self.count(n), 'number kept')


class Sieves(LoopSpec):
    """Of the children passed so far the other words are kept in order; the
    copies are cut off."""
    def __init__(self, g, kept):
        self.g, self.kept = g, kept

    def havoc_var(self, L, name, val, i):
        return self.kept.kids(self.kept.count(self.g.value(i))) if isinstance(val, list) else KEEP

    def havoc(self, L, loc, i):
        i = self.g.value(i)
        self.kept.row.parents.passed(i)
        self.kept.step(i)
        return LoopSpec.havoc(self, L, loc, i)

    def inv(self, L, env, i, m):
        if not hasattr(m, '_rec'):
            return
        g, i = self.g, self.g.value(i)
        g.assume(self.kept.count(0) == 0)
        for nm in self.modified(L):
            if isinstance(env.get(nm), list):
                self.kept.claim(m, env[nm], i)
        cut_off(g, m, self.kept, i)


def cut_off(g, m, kept, n):
    """The copies among the first n, and no others, have lost their parent."""
    j = g.int('j', lo=0)
    if j < n:
        if kept.other(j):
            if not kept.row.parents.upto:
                m.true(not kept.row.parents.holds(j), 'others keep their parent')
        else:
            m.true(kept.row.parents.holds(j), 'copies are cut off')
    for i, right in kept.row.parents.writes:
        m.true(right and not kept.other(i), 'only copies are cut off')


class Cleans(LoopSpec):
    def __init__(self, g, row, kept):
        self.g, self.row, self.kept = g, row, kept

    def modified(self, L):
        return ()

    def havoc(self, L, loc, i):
        self.row.cleaned.passed(self.g.value(i))
        return {}

    def inv(self, L, env, i, m):
        if hasattr(m, '_rec'):
            cleaned(self.g, m, self.row, self.kept, self.g.value(i))


def cleaned(g, m, row, kept, n):
    """The first n of the children kept are cleaned (heap indexed by rank)."""
    j = g.int('j', lo=0)
    if j < n:
        m.true(row.cleaned.upto > j or any(bool(i == kept.source(j)) for i, _ in row.cleaned.writes), 'cleaned below')


@ob('P20', N + 'remove_self_cycles', n=50)
def remove_self_cycles(g, m):
    """Any number of children: the copies of the word go, the others stay in
    order and are cleaned in turn."""
    if not g.symbolic:
        return self_cycles(g, m)
    row = Row(g, 'kids')
    x = PregroupTreeNode(g.string('w'), g.int('i', lo=0), Ty('n'))
    x.children = row.list()
    kept = Kept(g, x, row)

    class First(Sieves):
        def __init__(self):
            Sieves.__init__(self, g, kept)

    class Second(Cleans):
        def __init__(self):
            Cleans.__init__(self, g, row, kept)
    g.invariant('PregroupTreeNode.remove_self_cycles', First)
    g.invariant(('PregroupTreeNode.remove_self_cycles', 1), Second)
    x.remove_self_cycles()
    kept.claim(m, x.children, row.n)
    cut_off(g, m, kept, row.n)
    cleaned(g, m, row, kept, kept.count(row.n))


# ------------------------------------------------------------- any ancestors
class Line:
    """A node and its ancestors."""
    def __init__(self, g):
        self.g, self.last = g, g.int('ancestors', lo=0)

    def __call__(self, k):
        return Anc(self, k)


class Anc(PregroupTreeNode):
    """The k-th ancestor of a node (distinct ones differ)."""
    def __init__(self, line, k):
        self.__dict__.update(line=line, k=line.g.value(k))

    @property
    def parent(self):
        return None if self.k == self.line.last else Anc(self.line, self.k + 1)

    def __pv_is__(self, o):
        return isinstance(o, Anc) and self.line is o.line and self.k == o.k

    def __eq__(self, o):
        return isinstance(o, Anc) and self.line is o.line and self.k == o.k

    def __ne__(self, o):
        return not (self == o)
    __hash__ = None

    def get_root(self):
        return Anc(self.line, self.line.last)


class Climbs(LoopSpec):
    """After k steps the k-th ancestor is looked at, and it was not met before."""
    def __init__(self, g, line, goal=None):
        self.g, self.line, self.goal = g, line, goal

    def havoc(self, L, loc, i):
        g, line, new = self.g, self.line, {}
        nodes = [nm for nm in self.modified(L) if isinstance(loc.get(nm), Anc)]
        counts = [nm for nm in self.modified(L) if isinstance(loc.get(nm), int) and not isinstance(loc.get(nm), bool)]
        k = g.int('steps', lo=0)
        over = self.goal is not None and g.choice(False, True)
        g.assume(k == line.last + 1 if over else k <= line.last)
        for nm in nodes:
            new[nm] = None if over else line(k)
        for nm in counts:
            new[nm] = k
        if self.goal is not None and self.goal.k is not None:
            g.assume(k <= self.goal.k)
        return new

    def inv(self, L, env, i, m):
        if not hasattr(m, '_rec'):
            return
        steps = [env[nm] for nm in self.modified(L) if isinstance(env.get(nm), int) and not isinstance(env.get(nm), bool)]
        for nm in self.modified(L):
            x = env.get(nm)
            if isinstance(x, Anc):
                m.true(x.k <= self.line.last, 'an ancestor')
                for k in steps:
                    m.eq(x.k, k, 'as many steps')
        for nm in self.modified(L):
            if nm in env and env[nm] is None:
                for k in steps:
                    m.eq(k, self.line.last + 1, 'all passed')
        if self.goal is not None and self.goal.k is not None:
            for k in steps:
                m.true(k <= self.goal.k, 'not passed')


@ob('P20', N + 'get_root', n=50)
def get_root(g, m):
    if not g.symbolic:
        return reports(g, m)
    line = Line(g)
    g.invariant('PregroupTreeNode.get_root', Climbs(g, line))
    m.true(PregroupTreeNode.get_root(line(0)) is line(line.last), 'the topmost ancestor')


class Elsewhere(PregroupTreeNode):
    """A node that is no ancestor."""
    k = None

    def __init__(self):
        pass

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o
    __hash__ = None


@ob('P20', N + 'get_depth', n=50)
def get_depth(g, m):
    """The number of steps up to the node given (the root), or -1."""
    if not g.symbolic:
        return reports(g, m)
    line = Line(g)
    how = g.choice('root', 'above', 'elsewhere')
    if how == 'elsewhere':
        node = goal = Elsewhere()
    elif how == 'above':
        node = goal = line(g.int('k', lo=0))
        g.assume(goal.k <= line.last)
    else:
        node, goal = None, line(line.last)
    g.invariant('PregroupTreeNode.get_depth', Climbs(g, line, goal))
    got = line(0).get_depth(node)
    m.eq(got, -1 if goal.k is None else goal.k, 'depth')


# -------------------------------------------------- what is read off the nodes
class Sorted:
    """The nodes by word, at least one of each."""
    def __init__(self, g):
        self.g, self.n = g, g.int('words', lo=1)
        self.copies, self.position, self.above = g.ints('copies', lo=1), g.ints('position', lo=0), g.ints('above', lo=-1)
        self.text = g.strings('text')

    def at(self, i, j):
        """Node j of word i."""
        t = PregroupTreeNode(self.text(i), self.position(i), Ty('n'))
        t.mark = g_index(self.g, i, j)
        up = self.above(t.mark)
        if up >= 0:
            t.parent = PregroupTreeNode('p', up, Ty('s'))
        return t

    def lists(self):
        return self.g.list(lambda i: self.g.list(lambda j: self.at(self.g.value(i), self.g.value(j)), 'same', n=self.copies(i)), 'nodes', n=self.n)


def g_index(g, i, j):
    return g.value(i) * 1000003 + g.value(j)


@ob('P20', N + 'get_words', N + 'get_word_indices', N + 'get_parents', n=50)
def read_off(g, m):
    """Words, positions and parents are those of the nodes in their order."""
    if not g.symbolic:
        return reports(g, m)
    nodes = Sorted(g)
    t = PregroupTreeNode('w', 0, Ty('n'))
    g.contract(PregroupTreeNode, 'get_nodes', lambda self: nodes.lists())
    i = g.int('i', lo=0)
    g.assume(i < nodes.n)
    words, inds, parents = t.get_words(), t.get_word_indices(), t.get_parents()
    for xs in (words, inds, parents):
        m.eq(len(xs), nodes.n, 'one for every word')
    m.eq(words[i], nodes.text(i), 'word')
    m.eq(inds[i], nodes.position(i), 'position')
    m.eq(len(parents[i]), nodes.copies(i), 'a parent for every copy')
    j = g.int('j', lo=0)
    g.assume(j < nodes.copies(i))
    m.eq(parents[i][j], nodes.above(g_index(g, i, j)), 'position of the parent, -1 for none')
