"""P15: the chart parser."""
from contracts.reg import ob
from pyvc.rt import LoopSpec, KEEP
from lambeq.bobcat import parser as PA
from lambeq.bobcat import rules as RS, tree as TS
from lambeq.bobcat.parser import Cell, Chart, NEGATIVE_INFINITY

B = 'lambeq.bobcat.'
CE = B + 'parser.Cell.'


# --------------------------------------------------------------------- cells
class Halving(LoopSpec):
    """Binary search: everything before lo scores more, from hi on less."""
    def __init__(self, g, cell, score):
        self.g, self.cell, self.score = g, cell, score

    def inv(self, L, env, i, m):
        lo, hi, ts = env['lo'], env['hi'], self.cell.trees
        m.true(lo >= 0, 'lo')
        m.true(lo <= hi, 'lo before hi')
        m.true(hi <= len(ts), 'hi')
        if lo > 0:
            m.true(ts[lo - 1].score > self.score, 'more before lo')
        if hi < len(ts):
            m.true(ts[hi].score < self.score, 'less from hi on')

    def modified(self, L):
        return [nm for nm in L.names if nm in ('lo', 'hi')]


def fits(g, m, ts, p, score):
    """A position at which a tree of that score keeps the order."""
    m.true(0 <= p, 'not negative')
    m.true(p <= len(ts), 'within the list')
    if p > 0:
        m.true(ts[p - 1].score >= score, 'not more than those before')
    if p < len(ts):
        m.true(ts[p].score <= score, 'not less than those after')


@ob('P15', CE + 'find', n=200)
def find(g, m):
    cell, _ = a_cell(g)
    s = g.real('score')
    g.invariant('Cell.find', Halving(g, cell, s) if g.symbolic else None)
    fits(g, m, cell.trees, cell.find(s), s)


class Tree:
    """Concrete stand-in: score and category."""
    left = None

    def __init__(self, score, cat):
        self.score, self.cat = score, cat

    def __repr__(self):
        return f'{self.cat}:{self.score}'


def some_tree(g):
    return Tree(g.r.choice([0., .5, 1., 1.5, 2., 3.]), g.choice(*'ABCDEF'))


def a_cell(g):
    """Any cell that keeps the invariant."""
    b = g.int('beam', lo=1, hi=None if g.symbolic else 4)
    if g.symbolic:
        return g.cell(Cell, b, NEGATIVE_INFINITY)
    cell = Cell(b)
    for _ in range(g.r.choice([0, 0, 1, 3, 6])):
        t = some_tree(g)
        if cell.trees and t.score > cell.trees[-1].score:
            continue
        if t.cat in cell.trees_map or len(cell.trees) >= b and t.score < cell.trees[b - 1].score:
            continue
        cell.trees.append(t)
        cell.trees_map[t.cat] = t
        if len(cell.trees) >= b:
            cell.min_score = cell.trees[b - 1].score
    g.note('cell', (b, list(cell.trees)))
    return cell, None


class Search(LoopSpec):
    """The positions passed so far do not hold the tree looked for."""
    def __init__(self, g, up):
        self.g, self.up = g, up

    def modified(self, L):
        return ()

    def inv(self, L, env, i, m):
        g = self.g
        ts, old, start, i = env['trees'], env['old_tree'], env['old_index'], g.value(i)
        p = g.position(ts, old)
        m.true(g.on(ts, old), 'still there')
        if self.up:
            m.true(p < start or p >= start + i, 'not among those passed')
        else:
            m.true(p < start - i, 'not among those passed')


class Forgets(LoopSpec):
    """The categories of the trees cut off are forgotten one by one."""
    def __init__(self, g):
        self.g = g

    def begin(self, L, loc):
        self.entry = dict(loc)
        self.map, self.trees = loc['trees_map'].snap(), loc['trees'].snap()

    def modified(self, L):
        return ()

    def state(self, L, i):
        b = self.entry['b']
        return self.g.without(self.map, self.trees, b, b + self.g.value(i))

    def havoc(self, L, loc, i):
        loc['trees_map'].take(self.state(L, i))
        return {}

    def inv(self, L, env, i, m):
        if hasattr(m, '_rec'):
            g, new, want = self.g, env['trees_map'], self.state(L, i)
            m.true(g.same_map(new, want), 'trees left')


class Offers(LoopSpec):
    """The invariant of the cell after every tree offered."""
    def __init__(self, g, cell, x, since):
        self.g, self.cell, self.x, self.q, self.since = g, cell, x, since, None

    def begin(self, L, loc):
        self.entry = dict(loc)
        if self.q is not None:
            self.since = self.g.where(L, self.q)

    def modified(self, L):
        return [nm for nm in L.names if nm == 'added']

    def havoc(self, L, loc, i):
        g, cell = self.g, self.cell
        g.recell(cell, NEGATIVE_INFINITY)
        if self.since is None or self.since < g.value(i):
            g.assume(settled(g, cell, self.x))
        return LoopSpec.havoc(self, L, loc, i)

    def check(self, L, loc, i, stage):
        from pyvc.session import Prover
        m = Prover(f'{L.qual}.{stage}')
        m.soft = True
        proper(self.g, m, self.cell)
        if self.since is None or self.since < self.g.value(i):
            m.true(settled(self.g, self.cell, self.x), 'best of its category or below the cut-off')


def settled(g, cell, x):
    """A tree as good of the category of x is kept, or x is below the cut-off."""
    if g.symbolic:
        return g.kept(cell, x)
    if x.cat in cell.trees_map:
        if cell.trees_map[x.cat].score >= x.score:
            return True
    b = cell.beam_size
    return len(cell.trees) >= b and x.score < cell.trees[b - 1].score


def proper(g, m, cell):
    """Sorted, one tree per category, ties only beyond the beam."""
    ts, b, n = cell.trees, cell.beam_size, len(cell.trees)
    if g.symbolic:
        for label, claim in g.cell_claims(cell):
            m.true(claim, label)
    else:
        for k, t in enumerate(ts):
            m.true(k == 0 or ts[k - 1].score >= t.score, 'sorted')
            m.true(t.cat in cell.trees_map, 'category known')
            m.true(g.same(cell.trees_map[t.cat], t), 'the only tree of its category')
            m.true(g.known_tree(t), 'a tree that was offered')
            m.true(k < b or t.score == ts[b - 1].score, 'only ties beyond the beam')
        m.eq(len(cell.trees_map), n, 'only trees of the cell')
    if n >= b:
        m.eq(cell.min_score, ts[b - 1].score, 'lowest score needed')
    else:
        m.true(cell.min_score == NEGATIVE_INFINITY, 'anything is accepted below the beam size')


@ob('P15', CE + 'add', n=500)
def add(g, m):
    """Whatever is offered in whatever order, the cell keeps its invariant and
    nothing not worse than the cut-off is lost but for a better tree."""
    cell, old = a_cell(g)
    if not g.symbolic:
        old = list(cell.trees)
        seen = list(old)
        for _ in range(g.choice(1, 2, 3)):
            new = [some_tree(g) for _ in range(g.choice(1, 1, 2, 4))]
            g.note('offered', new)
            seen += new
            g.offered = {id(t) for t in seen}
            cell.add(new)
            proper(g, m, cell)
            for x in seen:
                m.true(settled(g, cell, x), 'best of its category or below the cut-off')
        return
    trees, q, x, since = g.offers(cell, g.choice('old', 'new'))
    g.contract(Cell, 'find', find_contract(g, m))
    g.invariant('Cell.add', Offers(g, cell, x, since))
    g.invariant(('Cell.add', 1), Search(g, True))
    g.invariant(('Cell.add', 2), Search(g, False))
    g.invariant(('Cell.add', 3), Forgets(g))
    cell.add(trees)
    proper(g, m, cell)
    m.true(settled(g, cell, x), 'best of its category or below the cut-off')


def find_contract(g, m):
    def find(self, score):
        m.true(g.in_order(self.trees), 'find needs a sorted list')
        return g.place(self.trees, score)
    return find


# ---------------------------------------------------------------- categories
def kinds():
    from lambeq.bobcat import lexicon
    return lexicon


def random_category(g, depth, marked=False):
    """A category string and what it stands for."""
    Lx = kinds()
    if depth <= 0 or g.r.random() < .35:
        atom = g.r.choice(['S', 'S', 'S', 'NP', 'N', 'PP'] if depth < 3 else ['S', 'NP', 'N', 'PP', 'conj', ',', '.', ';'])
        feat = g.r.choice(['', 'X', 'dcl', 'b', 'ng']) if atom == 'S' else g.r.choice(['', '', '', 'nb']) if atom == 'NP' else ''
        return atom + (f'[{feat}]' if feat else ''), (atom, feat)
    a, x = random_category(g, depth - 1)
    b, y = random_category(g, depth - 1)
    d = g.r.choice('/\\')
    return f'({a}{d}{b})', (d, x, y)


def shape(c):
    """What a category object stands for."""
    if c.dir == '\0':
        return str(c.atom), str(c.feature)
    return c.dir, shape(c.result), shape(c.argument)


def written(s, outer=True):
    if len(s) == 2:
        return s[0] + (f'[{s[1]}]' if s[1] else '')
    r = written(s[1], False) + s[0] + written(s[2], False)
    return r if outer else f'({r})'


def equal(a, b):
    if len(a) != len(b):
        return False
    if len(a) == 3:
        return a[0] == b[0] and equal(a[1], b[1]) and equal(a[2], b[2])
    return a[0] == b[0] and (a[1] == b[1] or a[0] == 'S' and a[1] in ('', 'X') and b[1] in ('', 'X'))


def matching(a, b):
    if len(a) != len(b):
        return False
    if len(a) == 3:
        return a[0] == b[0] and matching(a[1], b[1]) and matching(a[2], b[2])
    return a[0] == b[0] and a[1] in ('', b[1])


def unifier(a, b, out):
    """Whether the two have the same form; the features the X are matched with."""
    if len(a) != len(b):
        return False
    if len(a) == 3:
        return a[0] == b[0] and unifier(a[1], b[1], out) and unifier(a[2], b[2], out)
    if a[0] != b[0]:
        return False
    if a[0] == 'S':
        if a[1] == 'X':
            out.add(b[1])
        elif b[1] == 'X':
            out.add(a[1])
        elif a[1] != b[1]:
            return False
    return True


def instance(s, f):
    """With f for every X (if there is an f)."""
    if len(s) == 2:
        return (s[0], f) if s[1] == 'X' and f else s
    return s[0], instance(s[1], f), instance(s[2], f)


def near(g, s, p=.3):
    """A variation: some features changed."""
    if len(s) == 2:
        return (s[0], g.r.choice(['', 'X', 'dcl', 'b'])) if s[0] == 'S' and g.r.random() < p else s
    return s[0], near(g, s[1], p), near(g, s[2], p)


LX = B + 'lexicon.'


@ob('P15', LX + 'Category._str', LX + 'parse', LX + '_parse', LX + 'Category._equals', LX + 'Category._matches', LX + 'Category._hash',
    sym=False, n=400, bound='categories of depth at most 4')
def categories(g, m):
    """Printing, parsing, equality, hashing and matching agree."""
    from lambeq.bobcat.lexicon import Category
    text, s = random_category(g, g.r.choice([0, 1, 2, 3, 4]))
    g.note('category', text)
    c = Category.parse(text)
    m.eq(shape(c), s, 'parsing')
    m.eq(str(c), written(s), 'printing')
    m.eq(shape(Category.parse(str(c))), s, 'parsing what is printed')
    m.true(Category.parse(str(c)) == c and hash(Category.parse(str(c))) == hash(c), 'equal to what is printed')
    t = near(g, s, .4) if g.r.random() < .6 else random_category(g, 2)[1]
    g.note('other', written(t))
    d = Category.parse(written(t))
    m.eq(c == d, equal(s, t), 'equality')
    m.true(not equal(s, t) or hash(c) == hash(d), 'equal categories hash alike')
    m.eq(c.matches(d), s == t or matching(s, t), 'matching')
    m.true(c != text and not c.matches(text), 'not its text')
    f = c.slash('/', d, 2)
    m.eq(shape(f), ('/', s, t), 'slash')
    m.true(f.fwd and not f.bwd and f.complex and not f.atomic, 'direction')
    m.eq(f.vars, {2} | c.vars | d.vars, 'variables')


# ------------------------------------------------- categories: any, by induction
def free(f):
    from lambeq.bobcat.lexicon import Feature
    return f == Feature.NONE or f == Feature.X


def alike(g, a, b):
    """Equal, if the parts that are equal are."""
    from lambeq.bobcat.lexicon import Atom
    if a.atomic or b.atomic:
        if not (a.atomic and b.atomic and a.atom == b.atom):
            return False
        return bool(a.feature == b.feature) or bool(a.atom == Atom.S and free(a.feature) and free(b.feature))
    return a.dir == b.dir and bool(g.part_equal(a.result, b.result) and g.part_equal(a.argument, b.argument))


@ob('P15', LX + 'Category._equals', LX + 'Category._hash', LX + 'Category.__eq__', LX + 'Category.__hash__', LX + 'Category.__post_init__', n=100)
def equality(g, m):
    """Equality is what it should be whatever the parts, and equal categories
    hash alike."""
    if not g.symbolic:
        return categories(g, m)
    parts = []
    c, d = g.whole(parts), g.whole(parts)
    same = alike(g, c, d)
    m.eq(bool(c == d), same, 'equality')
    m.eq(bool(d == c), same, 'either way round')
    m.true(c == c, 'with itself')
    m.true(not same or c.hash == d.hash, 'equal categories hash alike')
    m.true(c != 'NP', 'not its text')


@ob('P15', LX + 'Category._equals', n=30)
def transitivity(g, m):
    if not g.symbolic:
        return categories(g, m)
    parts = []
    c, d, e = g.whole(parts), g.whole(parts), g.whole(parts)
    if c == d and d == e:
        m.true(c == e, 'equal to an equal one')


@ob('P15', LX + 'Category._matches', LX + 'Category.matches', n=30)
def matches(g, m):
    if not g.symbolic:
        return categories(g, m)
    from lambeq.bobcat.lexicon import Feature
    parts = []
    c, d = g.whole(parts), g.whole(parts)
    if c.atomic or d.atomic:
        want = bool(c.atomic and d.atomic and c.atom == d.atom and (c.feature == Feature.NONE or c.feature == d.feature))
    else:
        want = c.dir == d.dir and bool(g.part_matches(c.result, d.result) and g.part_matches(c.argument, d.argument))
    m.eq(bool(c.matches(d)), want, 'matching')
    m.true(c.matches(c), 'with itself')
    m.true(not c.matches('NP'), 'not its text')


@ob('P15', LX + 'Category.translate', LX + 'Category.slash', n=60)
def translate(g, m):
    """The form is kept; variables and free features are replaced throughout."""
    if not g.symbolic:
        return markup(g, m)
    from lambeq.bobcat.lexicon import Feature
    c, f, tr = g.whole([]), g.some_feature(), g.total('new')
    e = c.translate(tr, f)
    m.eq(e.dir, c.dir, 'direction')
    m.eq(e.var, tr[c.var], 'variable')
    m.true(e.relation is c.relation, 'slot')
    if c.atomic:
        m.true(e.atomic, 'atomic')
        m.eq(e.atom, c.atom, 'atom')
        m.eq(e.feature, f if c.feature == Feature.X and f != Feature.NONE else c.feature, 'feature')
    else:
        for x, y, what in ((c.result, e.result, 'result'), (c.argument, e.argument, 'argument')):
            of = g.moved_from(y)
            m.true(of is not None and of[0] is x and of[1] is tr, what)
            m.eq(of[2], f, 'the same feature for every free one')


class Cache:
    """Nothing parsed before; what is kept is what was parsed."""
    def __init__(self):
        self.kept = []

    def __getitem__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        self.kept.append((k, v))


@ob('P15', LX + 'Category._str', LX + 'parse', LX + '_parse', LX + 'Category.__repr__', LX + 'Category.__str__', n=100)
def printing(g, m):
    """A category of any parts is printed as written by hand, with its
    variables and slots if asked for, and parsing what is printed gives it back."""
    if not g.symbolic:
        return markup(g, m)
    Lx = kinds()
    full = g.choice(False, True)
    var = g.choice(0, 1, 11)
    relation = g.choice(None, Lx.Relation('r', 1))
    d = g.choice('/', '\\')
    c = g.printed(d, var, relation)
    text, count = c._str(full)
    body = g.text(g.words_of(c.result, full), d, g.words_of(c.argument, full))
    if full and (var or relation):
        body = g.text('(', body, ')')
        if var:
            body = g.text(body, '{' + Lx.VARIABLES[var] + '}')
        if relation:
            body = g.text(body, f'<{count}>')
    m.true(text == body, 'printed')
    m.true(full or not text.endswith(('}', '>')), 'marks only if asked for')
    g.read_by_contract(Lx)
    cache = Cache()
    g.contract(Lx, 'CATEGORIES', cache)
    e = Lx.parse(text, '+')
    m.eq(e.dir, d, 'direction')
    m.true(e.result is c.result, 'result')
    m.true(e.argument is c.argument, 'argument')
    m.eq(e.var, var if full else 0, 'variable')
    m.eq(e.relation is not None, full and relation is not None, 'slot')
    m.true(len(cache.kept) <= 1 and all(k[0] is text and v is e for k, v in cache.kept), 'remembered')


@ob('P15', LX + 'Category._str', LX + 'parse', LX + '_parse', n=100)
def atoms(g, m):
    """Every atom with every feature, variable and slot, at every place of a
    longer text."""
    if not g.symbolic:
        return categories(g, m)
    Lx = kinds()
    g.hashes()
    for atom in Lx.Atom.values[1:]:
        for feat in Lx.Feature.values:
            for var in (0, 1, 11):
                for relation in (None, Lx.Relation('r', 1)):
                    c = Lx.Category(Lx.Atom(atom), Lx.Feature(feat), var, relation)
                    plain, full = c._str()[0], c._str(True)[0]
                    want = atom + (f'[{feat}]' if feat else '')
                    marks = ('{' + Lx.VARIABLES[var] + '}' if var else '') + ('<1>' if relation else '')
                    if plain != want or full != want + marks:
                        m.fail('printed', f'{plain} {full}')
                    for before in ('', '('):
                        for after in ('', '/', '\\', ')'):
                            for text, v, r in ((plain, 0, False), (full, var, relation is not None)):
                                e, pos, _ = Lx._parse(before + text + after, 0, len(before))
                                if not (e.atomic and e.atom == c.atom and e.feature == c.feature and e.var == v
                                        and (e.relation is not None) == r and pos == len(before + text)):
                                    m.fail('parsed', before + text + after)
    m.ok('printed')
    m.ok('parsed')


def marked(g, s, k):
    """The category written with variables (on every part) and slots."""
    v = '{' + g.r.choice('_YZWV') + '}'
    if len(s) == 2:
        out = written(s)
    else:
        out = f'({marked(g, s[1], k)}{s[0]}{marked(g, s[2], k)})'
    if g.r.random() < .3:
        k[0] += 1
        return out + v + f'<{k[0]}>'
    return out + v


def listing(c):
    """Variables and slots of every part of a category."""
    r = [(c.var, bool(c.relation))]
    if c.complex:
        r += listing(c.result) + listing(c.argument)
    return r


@ob('P15', LX + 'Category._str', LX + 'parse', LX + '_parse', LX + 'Category.translate', sym=False, n=250, bound='categories of depth at most 3')
def markup(g, m):
    """Marked-up categories keep their variables and slots through printing."""
    from lambeq.bobcat.lexicon import Category, Feature
    _, s = random_category(g, 3)
    text = marked(g, s, [0])
    g.note('category', text)
    c = Category.parse(text)
    m.eq(shape(c), s, 'parsing')
    d = Category.parse(repr(c))
    m.eq(listing(d), listing(c), 'variables and slots')
    m.eq(shape(d), s, 'parsing what is printed')
    m.eq(repr(d), repr(c), 'printing')
    tr = {v: 2 * v + 1 for v in c.vars | {0}}
    f = g.r.choice(['', 'X', 'dcl', 'b'])
    e = c.translate(tr, Feature(f))
    m.eq(shape(e), instance(s, f), 'features of the translation')
    m.eq(listing(e), [(tr[v], r) for v, r in listing(c)], 'variables of the translation')


# --------------------------------------------------------------------- rules
def leaf(g, s, i):
    from lambeq.bobcat.lexicon import Category
    from lambeq.bobcat.tree import Lexical
    text = marked(g, s, [0])
    return Lexical(Category.parse(text), f'w{i}', i)


def pair(g, kinds=range(13)):
    """Two categories that some rule may combine."""
    r = lambda d: random_category(g, d)[1]
    x, y, z, w, v = r(1), r(1), r(1), r(1), r(1)
    k = g.r.choice(kinds)
    if k == 12:
        dcl = ('S', 'dcl')
        return ('\\', ('\\', dcl, dcl), z), ('\\', x, g.r.choice([dcl, ('S', 'X'), ('S', '')]))
    if g.r.random() < (.8 if 5 <= k <= 8 else .3):
        y = ('\\', ('S', g.r.choice(['', 'dcl', 'X'])), ('NP', ''))
    y2 = near(g, y)
    d, e = g.r.choice('/\\'), g.r.choice('/\\')
    fwd, bwd = ('/', x, y), ('\\', x, y)
    if k == 0:
        return fwd, y2
    if k == 1:
        return y2, bwd
    if k == 2:
        return ('\\', y2, z), bwd
    if k == 3:
        return fwd, ('/', y2, z)
    if k == 4:
        return ('/', y2, z), bwd
    if k == 5:
        return fwd, ('/', (d, y2, z), w)
    if k == 6:
        return ('/', (d, y2, z), w), bwd
    if k == 7:
        return fwd, ('/', ('/', (d, y2, z), w), v)
    if k == 8:
        return ('/', ('/', (e, y2, z), w), v), bwd
    if k == 9:
        return ('conj', ''), x
    if k == 10:
        return (g.r.choice(',;.:'), ''), x
    return x, (g.r.choice(',.:'), '')


def replaced(s, depth, x):
    """The result `depth` arguments down replaced."""
    return x if depth == 0 else (s[0], replaced(s[1], depth - 1, x), s[2])


def result_at(s, depth):
    for _ in range(depth):
        if len(s) != 3:
            return None
        s = s[1]
    return s


def prescribed(rule, left, right, changed):
    """Every category the rule allows for these two, as (form, features)."""
    def join(arg, res, depth, direction=None):
        inner = result_at(arg, depth)
        out = set()
        if len(res) == 3 and inner is not None and unifier(inner, res[2], out):
            s = replaced(arg, depth, res[1])
            return [instance(s, f) for f in out or {''}]
        return []
    if rule == 'FA':
        return join(right, left, 0) if left[0] == '/' else []
    if rule == 'BA':
        return join(left, right, 0) if right[0] == '\\' else []
    if rule == 'FC':
        return join(right, left, 1) if left[0] == '/' and right[0] == '/' else []
    if rule == 'BC':
        return join(left, right, 1) if left[0] == '\\' and right[0] == '\\' else []
    if rule == 'BX':
        return join(left, right, 1) if left[0] == '/' and right[0] == '\\' else []
    if rule == 'GFC':
        return join(right, left, 2) + join(right, left, 3) if left[0] == '/' else []
    if rule == 'GBX':
        return join(left, right, 2) + join(left, right, 3) if right[0] == '\\' else []
    if rule == 'GBC':
        return [left] if join(left, right, 2) else []
    if rule == 'CONJ':
        return [('\\', right, right)]
    if rule == 'ADJ_CONJ':
        return [right]
    if rule == 'LP':
        return [right] + changed
    if rule == 'RP':
        return [left] + changed
    return []


def grammar(g, pairs, extra=()):
    from lambeq.bobcat.grammar import Grammar
    cats = {}
    for a, b in pairs:
        for s in (a, b):
            cats[written(s)] = written(s)
    change = [(1, 'N', None, 'NP', False), (2, ',', 'NP', 'S/S', False), (3, 'NP', ',', '(S\\NP)', False)]
    cats.update({'NP': 'NP{_}', 'S/S': '(S{_}/S{_}){_}', '(S\\NP)': '(S{_}\\NP{Y}){_}'})
    raise_ = [('NP', '(S[X]{Y}/(S[X]{Y}\\NP{_}){Y}){Y}', '+'), ('NP', '(S[X]{Y}\\(S[X]{Y}/NP{_}){Y}){Y}', '+')]
    return Grammar(cats, [(written(a), written(b)) for a, b in pairs], change, raise_)


RU = B + 'rules.Rules.'
TR = B + 'tree.'


@ob('P15', RU + 'combine', RU + 'application', RU + 'composition', RU + 'gc2', RU + 'gc3', RU + 'coordination', RU + 'left_punct', RU + 'right_punct',
    TR + 'Unify.unify', TR + 'Unify.unify_recursive', TR + 'BinaryCombinator', sym=False, n=700, bound='categories of depth at most 5, trees of at most three words')
def combining(g, m):
    """Only what unifies is combined, and the category is the one prescribed."""
    combined(g, m, *pair(g))


@ob('P15', RU + 'combine', RU + 'generalised_forward_composition', RU + 'generalised_backward_cross_composition', RU + 'gc2', RU + 'gc3',
    sym=False, n=500, bound='categories of depth at most 6, trees of at most three words')
def generalised(g, m):
    """Composition into categories with two or three arguments."""
    combined(g, m, *pair(g, [5, 6, 7, 7, 8, 8]))


def combined(g, m, a, b):
    from lambeq.bobcat.rules import Rules
    g.note('categories', (written(a), written(b)))
    enf = g.r.random() < .5
    rules = Rules(enf, grammar(g, [(a, b)]), Cats())
    left, right = leaf(g, a, 1), leaf(g, b, 2)
    got = rules.combine(left, right)
    changed = {'LP': [shape(r.category) for r in lookup(rules.left_punct_type_changing_rules, left, right)],
               'RP': [shape(r.category) for r in lookup(rules.right_punct_type_changing_rules, right, left)]}
    for t in got:
        sound(g, m, t, left, right, changed.get(t.rule.name, []))
    m.eq(Rules(enf, grammar(g, []), Cats()).combine(left, right), [], 'pairs that are not in the grammar')
    if not got:
        return
    # a step further: the result with another word
    t = g.r.choice(got)
    c = shape(t.cat)
    k = g.r.randrange(4)
    y = near(g, c)
    x = random_category(g, 1)[1]
    other = [('/', x, y), ('\\', x, y)][k % 2] if k < 2 or len(c) == 2 else near(g, c[2])
    if k == 3:
        other = ('/', near(g, c[2]), x) if len(c) == 3 else ('/', x, y)
    o = leaf(g, other, 3)
    first = other[0] == '/' and k < 2
    two = (o, t) if first else (t, o)
    g.note('then', (t.rule, written(shape(two[0].cat)), written(shape(two[1].cat))))
    rules = Rules(enf, grammar(g, [(shape(two[0].cat), shape(two[1].cat))]), Cats())
    for u in rules.combine(*two):
        sound(g, m, u, *two, [shape(r.category) for r in lookup(rules.right_punct_type_changing_rules, two[1], two[0])])
        if enf:
            m.true(not (u.rule.name in ('FA', 'FC') and two[0].rule.name in ('FC', 'GFC')), 'normal form forwards')
            m.true(not (u.rule.name in ('BA', 'BC') and two[1].rule.name in ('BC', 'GBC')), 'normal form backwards')
        m.true(not (u.rule.name == 'FA' and two[1].coordinated_or_type_raised), 'no application to a raised argument')
        m.true(not (u.rule.name == 'BA' and two[0].coordinated_or_type_raised), 'no application to a raised argument')


class Cats(dict):
    def __missing__(self, k):
        from lambeq.bobcat.lexicon import Category
        return Category.parse({'NP': 'NP{_}', 'S/S': '(S{_}/S{_}){_}', '(S\\NP)': '(S{_}\\NP{Y}){_}'}[k])


def lookup(table, key, cat):
    rules = table.get(key.cat, {})
    for k, v in rules.items():
        if k == cat.cat:
            return v
    for k, v in rules.items():
        if k.matches(cat.cat):
            return v
    return []


def sound(g, m, t, left, right, changed):
    m.true(t.left is left and t.right is right, 'children')
    allowed = prescribed(t.rule.name, shape(left.cat), shape(right.cat), changed)
    m.true(any(shape(t.cat) == s for s in allowed),
           f'category of {t.rule.name}: {t.cat} from {left.cat} and {right.cat}')


@ob('P15', RU + 'type_raise', RU + 'type_change', B + 'rules.match_rule', sym=False, n=100, bound='categories of depth at most 1')
def unary(g, m):
    from lambeq.bobcat.rules import Rules
    rules = Rules(True, grammar(g, []), Cats())
    ts = [leaf(g, random_category(g, 1)[1], i) for i in range(g.r.randrange(4))]
    up = rules.type_raise(ts)
    want = [(t, s) for t in ts if t.cat.atomic and str(t.cat.atom) == 'NP' for s in
            (('/', ('S', 'X'), ('\\', ('S', 'X'), ('NP', ''))), ('\\', ('S', 'X'), ('/', ('S', 'X'), ('NP', ''))))]
    m.eq(len(up), len(want), 'raised')
    for u, (t, s) in zip(up, want):
        m.true(u.left is t and u.right is None and shape(u.cat) == s, 'raised category')
        m.eq(u.rule.name, 'FTR' if s[0] == '/' else 'BTR', 'rule')
    ch = rules.type_change(ts)
    want = [t for t in ts if str(t.cat.atom) == 'N']
    m.eq([(u.left, shape(u.cat)) for u in ch], [(t, ('NP', '')) for t in want], 'changed')


# ------------------------------------------------------- rules: any categories
UNIFY_RECURSIVE = TS.Unify.unify_recursive


class Some:
    """A variable of which nothing is known."""
    fillers = ()

    filler = None

    def __init__(self, g):
        self.g, self.known = g, None

    @property
    def filled(self):
        if self.known is None:
            self.known = self.g.choice(True, False)
        return self.known

    def as_filled(self, filled):
        return self


def some_tree_of(g, cat):
    """Any tree of that category."""
    t = TS.ParseTree(TS.Rule.L, cat, None, None, [], [], g.partial(lambda: Some(g)))
    t.rule = g.some_member(TS.Rule)
    return t


@ob('P15', TR + 'Unify.unify_recursive', n=200)
def unification(g, m):
    """What unifies has the same form up to free features, and the feature
    noted is one that a free feature was matched with."""
    if not g.symbolic:
        return combining(g, m)
    from lambeq.bobcat.lexicon import Atom, Feature
    parts, calls = [], []
    a, b = g.whole(parts), g.whole(parts)
    u = TS.Unify(some_tree_of(g, a), some_tree_of(g, b), g.choice(True, False))
    u.feature = before = g.some_feature()
    u.num_variables = g.int('variables', lo=1)
    for nm in ('trans_left', 'trans_right', 'old_left', 'old_right'):
        setattr(u, nm, g.partial(lambda: g.int('v')))

    def by_contract(self, x, y):
        ok, new = g.choice(True, False), g.choice(True, False)
        f = None
        if new:
            self.feature = f = g.some_feature()
        self.num_variables = g.int('variables', lo=1)
        calls.append((x, y, ok, f))
        return ok
    g.contract(TS.Unify, 'unify_recursive', by_contract)
    if not UNIFY_RECURSIVE(u, a, b):
        return
    f = u.feature
    if a.atomic or b.atomic:
        m.true(a.atomic and b.atomic, 'both atomic')
        m.eq(a.atom, b.atom, 'the same atom')
        if a.atom == Atom.S:
            x, y = a.feature, b.feature
            if x == Feature.X and y == Feature.X:
                m.true(f == Feature.X or f == before, 'still free')
            elif x == Feature.X or y == Feature.X:
                m.eq(f, y if x == Feature.X else x, 'feature matched')
            else:
                m.eq(x, y, 'the same feature')
                m.eq(f, before, 'feature kept')
        else:
            m.eq(f, before, 'feature kept')
        return
    m.eq(a.dir, b.dir, 'the same direction')
    for x, y, what in ((a.result, b.result, 'results unify'), (a.argument, b.argument, 'arguments unify')):
        m.true(any(p is x and q is y and ok for p, q, ok, _ in calls), what)
    new = [h for p, q, ok, h in calls if h is not None]
    if new:
        m.true(any(bool(f == h) for h in new), 'feature of a part')
    else:
        m.eq(f, before, 'feature kept')


class Covers(LoopSpec):
    """The variables passed so far are translated."""
    def __init__(self, g, u):
        self.g, self.u = g, u

    def modified(self, L):
        return ()

    def havoc(self, L, loc, i):
        self.g.passed(loc['trans'], self.g.value(i))
        self.u.num_variables = self.g.int('variables', lo=1)
        return {}

    def inv(self, L, env, i, m):
        if hasattr(m, '_rec'):
            m.true(env['trans'].covers(self.g.value(i)), 'translated')


@ob('P15', TR + 'Unify.unify', TR + 'Unify.add_vars', TR + 'Unify.__init__', n=100)
def unify(g, m):
    """The parts are compared left with right, and every variable of the two
    categories is translated afterwards."""
    if not g.symbolic:
        return combining(g, m)
    a, b = g.some_category('left'), g.some_category('right')
    sizes = [g.int('n', lo=0), g.int('n', lo=0)]
    for c, n in zip((a, b), sizes):
        c.__dict__['vars'] = g.variables(n)
    of_left = g.choice(True, False)
    left, right = some_tree_of(g, a), some_tree_of(g, b)
    u = TS.Unify(left, right, of_left)
    m.true(u.left is left and u.right is right, 'trees')
    m.true(u.res is (a if of_left else b) and u.arg is (b if of_left else a), 'functor and argument')
    same = u.trans_res is u.trans_left and u.trans_arg is u.trans_right, u.trans_arg is u.trans_left and u.trans_res is u.trans_right
    m.true(same[0 if of_left else 1], 'translations')
    new = {id(u.trans_left): g.growing(), id(u.trans_right): g.growing()}
    for nm in ('trans_left', 'trans_right', 'trans_res', 'trans_arg'):
        setattr(u, nm, new[id(getattr(u, nm))])
    u.old_left = u.old_right = g.partial(lambda: None)
    calls = []

    def by_contract(self, x, y):
        calls.append((x, y))
        return answer
    answer = g.choice(True, False)
    g.contract(TS.Unify, 'unify_recursive', by_contract)

    class Spec(Covers):
        def __init__(self):
            Covers.__init__(self, g, u)
    g.invariant('Unify.add_vars', Spec)
    x, y = (a, b) if not of_left else (b, a)
    m.eq(bool(u.unify(x, y)), answer, 'answer')
    m.true(len(calls) == 1 and calls[0][0] is a and calls[0][1] is b, 'left with right')
    if answer:
        m.true(u.trans_left.covers(sizes[0]), 'variables of the left category')
        m.true(u.trans_right.covers(sizes[1]), 'variables of the right category')


def part_of(c, whole):
    if whole is None:
        return False
    if c is whole:
        return True
    f = whole.__dict__.get('form')
    return bool(f) and (part_of(c, f['result']) or part_of(c, f['argument']))


class Table:
    """Rules by category: some or none."""
    def __init__(self, g, m, key, rules):
        self.g, self.m, self.key, self.rules = g, m, key, rules

    def __getitem__(self, k):
        self.m.true(k is self.key, 'rules of the punctuation mark')
        if self.g.choice(True, False):
            raise KeyError(k)
        return self.rules


class Instances:
    """The pairs that may be combined."""
    def __init__(self, g, m, left, right):
        self.g, self.m, self.pair, self.answer = g, m, (left, right), None

    def __contains__(self, p):
        self.m.true(p[0] is self.pair[0].cat and p[1] is self.pair[1].cat, 'pair looked up')
        if self.answer is None:
            self.answer = self.g.choice(True, False)
        return self.answer


DEPTHS = {'FA': (0,), 'BA': (0,), 'FC': (1,), 'BC': (1,), 'BX': (1,), 'GFC': (2, 3), 'GBX': (2, 3), 'GBC': (2,)}


@ob('P15', RU + 'combine', RU + 'application', RU + 'composition', RU + 'gc2', RU + 'gc3', RU + 'coordination', RU + 'adjectival_conj', RU + 'left_punct', RU + 'right_punct',
    RU + 'generalised_forward_composition', RU + 'generalised_backward_composition', RU + 'generalised_backward_cross_composition',
    RU + 'backward_application', RU + 'forward_application', RU + 'backward_composition', RU + 'forward_composition', RU + 'backward_cross_composition',
    B + 'rules.CatKind.of', TR + 'Coordination', TR + 'PassThrough', TR + 'LeftPunct', TR + 'RightPunct', TR + 'AdjectivalConj', n=300)
def combine(g, m):
    """Whatever the two categories, every tree made has the category its rule
    prescribes, from parts that were unified."""
    if not g.symbolic:
        return generalised(g, m)
    g.hashes()
    left, right = some_tree_of(g, g.some_category('left')), some_tree_of(g, g.some_category('right'))
    left.var_map = {left.cat.var: Some(g)}
    log, made, changed = [], {}, []

    def unify(self, arg, res):
        if arg is None or res is None:
            raise AttributeError('no category')
        m.true(part_of(arg, self.arg) and part_of(res, self.res), 'parts of the two categories')
        ok = g.choice(True, False)
        self.trans_left, self.trans_right = g.total('left'), g.total('right')
        self.trans_res, self.trans_arg = (self.trans_left, self.trans_right) if self.result_is_left else (self.trans_right, self.trans_left)
        log.append((self, arg, res, ok))
        return ok

    def translated(side):
        def f(self, c):
            if c is None:
                raise AttributeError('no category')
            m.true(any(v is self and ok for v, _, _, ok in log), 'translated after unifying')
            m.true(part_of(c, getattr(self, side)), 'part of the category translated')
            return g.moved(c, self, side)
        return f

    def binary(rule, cat, l, r, u):
        t = TS.ParseTree(rule, cat, l, r, [], [], {})
        made[id(t)] = u, t
        return t

    def change(self, rule, cat, l, r, rules):
        m.true(rules is (lp if rule == TS.Rule.LP else rp), 'rules of that side')
        m.true(cat is (r if rule == TS.Rule.LP else l).cat, 'the category changed')
        if g.choice(True, False):
            return []
        t = TS.ParseTree(rule, object(), l, r, [], [], {})
        changed.append(t)
        return [t]
    g.contract(TS.Unify, 'unify', unify)
    g.contract(TS.Unify, 'translate_arg', translated('arg'))
    g.contract(TS.Unify, 'translate_res', translated('res'))
    g.contract(RS, 'BinaryCombinator', binary)
    g.contract(RS.Rules, 'type_change_cat', change)
    rules = RS.Rules(g.int('normal_form', lo=0, hi=1) == 1, grammar(g, []), Cats())
    rules.rule_instances = pairs = Instances(g, m, left, right)
    lp, rp = object(), object()
    rules.left_punct_type_changing_rules = Table(g, m, left.cat, lp)
    rules.right_punct_type_changing_rules = Table(g, m, right.cat, rp)
    got = rules.combine(left, right)
    m.true(pairs.answer or not got, 'only pairs of the grammar')
    for t in got:
        m.true(t.left is left and t.right is right, 'children')
        name = t.rule.name
        if any(t is c for c in changed):
            m.true(name in ('LP', 'RP'), 'rule of a changed category')
        elif name in DEPTHS:
            built(g, m, t, name, left.cat, right.cat, made, log)
        elif name == 'CONJ':
            m.true(t.cat.dir == '\\' and t.cat.result is right.cat and t.cat.argument is right.cat, 'category of a coordination')
        else:
            m.true(name in ('ADJ_CONJ', 'LP', 'RP'), 'rule')
            m.true(t.cat is (left if name == 'RP' else right).cat, 'category passed through')


def built(g, m, t, name, left, right, made, log):
    forwards = name in ('FA', 'FC', 'GFC')
    res, arg = (left, right) if forwards else (right, left)
    m.true(id(t) in made, 'made from a unification')
    u = made[id(t)][0]
    unified = [(a, r) for v, a, r, ok in log if v is u and ok]
    m.true(len(unified) > 0, 'only what unifies')
    if not unified:
        return
    a, r = unified[-1]
    m.true(u.res is res and u.arg is arg, 'functor and argument')
    m.eq(res.dir, '/' if forwards else '\\', 'direction of the functor')
    m.true(r is res.argument, 'unified with the argument of the functor')
    if name in ('FC', 'BC', 'BX'):
        m.eq(arg.dir, '\\' if name == 'BC' else '/', 'direction of the argument')
    inner, depth = arg, None
    for d in range(4):
        if depth is None and inner is a and d in DEPTHS[name]:
            depth = d
        if inner is not None and depth is None:
            inner = inner.result
    m.true(depth is not None, 'unified at the depth of the rule')
    if depth is None:
        return
    if name == 'GBC':
        m.true(t.cat is left, 'category kept')
        return
    c, x = t.cat, arg
    for _ in range(depth):
        if g.moved_from(c) is not None:
            m.fail('argument kept', 'too few arguments')
            return
        m.eq(c.dir, x.dir, 'direction kept')
        of = g.moved_from(c.argument)
        m.true(of is not None and of[0] is x.argument and of[1] is u and of[2] == 'arg', 'argument kept')
        c, x = c.result, x.result
    of = g.moved_from(c)
    m.true(of is not None and of[0] is res.result and of[1] is u and of[2] == 'res', 'result of the functor')


class Good:
    """A tree that was shown to be as it should."""


class Gathers(LoopSpec):
    """The trees gathered so far are as they should."""
    def __init__(self, g, m, check):
        self.g, self.m, self.verify = g, m, check

    def havoc_var(self, L, name, val, i):
        return self.g.list(lambda k: Good(), name) if isinstance(val, list) else KEEP

    def inv(self, L, env, i, m):
        if not hasattr(m, '_rec'):
            return
        for nm in self.modified(L):
            if isinstance(env.get(nm), list):
                gathered(self.g, m, env[nm], self.verify)


def gathered(g, m, xs, check):
    for n, x in g.pieces(xs):
        x = x if n is None else x(0)
        if not isinstance(x, Good):
            check(m, x, n)


class Kind:
    """A category known by the tree or rule it belongs to."""
    fwd = complex = False
    var = type_raising_dep_var = 0
    atomic, relation, argument = True, None, None

    def __init__(self, of):
        self.of = of


def kind_tree(g, i):
    t = TS.ParseTree(TS.Rule.L, Kind(g.value(i)), None, None, [], [], g.partial(lambda: Some(g)))
    t.at = g.value(i)
    return t


@ob('P15', RU + 'type_raise', TR + 'TypeRaising', n=60)
def type_raise(g, m):
    """Every tree made has a category the rules give for one of the trees."""
    if not g.symbolic:
        return unary(g, m)
    rules = RS.Rules(True, grammar(g, []), Cats())
    rules.type_raising_rules = table = {}
    trees = g.list(lambda i: kind_tree(g, i), 'trees')

    def match(rs, cat):
        m.true(rs is table, 'type-raising rules')
        return g.list(lambda k: raised_kind(g, cat.of), 'found')

    def check(m, x, n):
        m.true(n is None, 'one at a time')
        m.true(x.right is None, 'one child')
        m.eq(x.cat.of, x.left.at, 'raised as the rules say')
        m.eq(x.rule.name, 'FTR' if x.cat.fwd else 'BTR', 'rule')
    g.contract(RS, 'match_rule', match)

    class Spec(Gathers):
        def __init__(self):
            Gathers.__init__(self, g, m, check)
    g.invariant('Rules.type_raise', Spec)
    g.invariant(('Rules.type_raise', 1), Spec)
    gathered(g, m, rules.type_raise(trees), check)


def raised_kind(g, of):
    c = Kind(of)
    c.fwd = g.choice(True, False)
    return c


@ob('P15', RU + 'type_change', RU + 'type_change_cat', TR + 'TypeChanging', n=60)
def type_change(g, m):
    if not g.symbolic:
        return unary(g, m)
    rules = RS.Rules(True, grammar(g, []), Cats())
    rules.unary_rules = table = {}

    class Change:
        rule_id = 1

        def __init__(self, of):
            self.category = Kind(of)
            self.category.argument = Kind(None)
            self.replace = g.choice(True, False)

    def match(rs, cat):
        m.true(rs is table, 'rules asked for')
        return g.list(lambda k: Change(cat.of), 'found')
    g.contract(RS, 'match_rule', match)
    if g.choice(True, False):
        a, b = kind_tree(g, 1), kind_tree(g, 2)
        first = g.choice(True, False)
        rule = TS.Rule.RP if first else TS.Rule.LP
        cat = (a if first else b).cat

        def check(m, x, n):
            m.true(n is None, 'one at a time')
            m.true(x.left is a and x.right is b, 'children')
            m.true(x.rule == rule, 'rule')
            m.eq(x.cat.of, cat.of, 'changed as the rules say')
        got = lambda: rules.type_change_cat(rule, cat, a, b, table)
    else:
        def check(m, x, n):
            m.true(n is None, 'one at a time')
            m.true(x.right is None, 'one child')
            m.true(x.rule == TS.Rule.U, 'rule')
            m.eq(x.cat.of, x.left.at, 'changed as the rules say')
        got = lambda: rules.type_change(g.list(lambda i: kind_tree(g, i), 'trees'))

        def change(self, rule, cat, l, r, rs):
            m.true(rs is table and r is None and rule == TS.Rule.U, 'unary rules')
            m.eq(cat.of, l.at, 'category of the tree')
            return g.list(lambda k: Good(), 'changed')
        g.contract(RS.Rules, 'type_change_cat', change)

    class Spec(Gathers):
        def __init__(self):
            Gathers.__init__(self, g, m, check)
    g.invariant('Rules.type_change_cat', Spec)
    g.invariant('Rules.type_change', Spec)
    gathered(g, m, got(), check)


class Lists:
    """Rules by category; the categories are patterns."""
    def __init__(self, g, n):
        self.g, self.n, self.exact, self.fits = g, n, object(), g.ints('matches', lo=0)

    def __getitem__(self, cat):
        if self.g.choice(True, False):
            raise KeyError(cat)
        return self.exact

    def items(self):
        return self.g.list(lambda i: (Pattern(self, i), Rows(i)), 'rules', n=self.n)


class Pattern:
    def __init__(self, lists, i):
        self.lists, self.i = lists, i

    def matches(self, cat):
        return self.lists.fits(self.i) == 1


class Rows:
    def __init__(self, i):
        self.i = i


class Nothing(LoopSpec):
    def modified(self, L):
        return ()


@ob('P15', B + 'rules.match_rule', n=60)
def match_rule(g, m):
    """The rules of the category itself, or of a pattern it matches."""
    if not g.symbolic:
        return unary(g, m)
    rules = Lists(g, g.int('n', lo=0))
    g.invariant('match_rule', Nothing)
    got = RS.match_rule(rules, object())
    if isinstance(got, Rows):
        m.true(rules.fits(got.i) == 1, 'a pattern that matches')
    elif got is not rules.exact:
        m.eq(got, [], 'none')
