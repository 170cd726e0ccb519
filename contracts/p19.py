"""P19: readers."""
from contracts.reg import ob
from pyvc.rt import LoopSpec, KEEP
from lambeq.backend.grammar import Box, Cup, Diagram, Id, Layer, Spider, Ty, Word
from lambeq.core.types import AtomicType
import sys
from lambeq.text2diagram.linear_reader import LinearReader, cups_reader, stairs_reader
from lambeq.text2diagram.spiders_reader import SpidersReader, spiders_reader
from lambeq.text2diagram.tree_reader import TreeReader, TreeReaderMode
from lambeq.text2diagram.ccg_rule import CCGRule

S = AtomicType.SENTENCE
M = 'lambeq.text2diagram.'


class Beside(LoopSpec):
    """Loop of Diagram.tensor over words of one type: after i of them the
    wires on the left are theirs and their layers are there, in order."""

    def __init__(self, g, t, layer):
        self.g, self.t, self.layer = g, t, layer

    def grown(self, name):
        return name == 'left'

    def wires(self, name, i):
        t0 = self.entry[name]
        return t0 @ self.g.power(self.t, i) if self.grown(name) else t0

    def stack(self, i):
        g = self.g
        return g.joined(self.entry['layers'], self.layer, i)

    def havoc_var(self, L, name, val, i):
        if isinstance(val, Ty):
            return self.wires(name, self.g.value(i))
        if name == 'layers':
            return self.stack(self.g.value(i))
        return KEEP

    def inv(self, L, env, i, m):
        if not hasattr(m, '_rec'):
            return
        i = self.g.value(i)
        for nm in self.modified(L):
            if nm not in env or nm not in self.entry:
                continue
            if isinstance(env[nm], Ty) and isinstance(self.entry[nm], Ty):
                m.eq(env[nm], self.wires(nm, i), f'wires {nm}')
            if nm == 'layers':
                m.eq(env[nm], self.stack(i), 'layers')


class Combines(LoopSpec):
    """After k combining steps: the words, then k combining boxes at the very
    left, one output wire fewer for every step."""

    def __init__(self, g, cod, words, combine, most):
        self.g, self.cod, self.words, self.combine, self.most = g, cod, words, combine, most

    def value(self, k):
        g = self.g
        return Diagram(dom=Ty(), cod=self.cod(k), layers=g.joined(self.words, self.combine, k))

    def havoc_var(self, L, name, val, i):
        return self.value(self.g.value(i)) if isinstance(val, Diagram) else KEEP

    def inv(self, L, env, i, m):
        k = self.g.value(i)
        m.true(k <= self.most, 'no more steps than words')
        if not hasattr(m, '_rec'):
            return
        for nm in self.modified(L):
            if isinstance(env.get(nm), Diagram):
                m.eq(env[nm], self.value(k), 'words and combining boxes so far')


def tokens(g):
    """A non-empty tokenised sentence."""
    if g.symbolic:
        n = g.int('n', lo=1)
        return g.list(g.strings('token'), 'sentence', n=n), n
    n = g.int('n', lo=1, hi=9)
    return g.note('sentence', [g.r.choice(['a', 'b', 'the', 'cat', 'a.b', 'ё', '']) for _ in range(n)]), n


def check_linear(g, m, d, sentence, n, start, t, box, drop):
    """Exactly: the start layers, one layer per word in order, one combining box per pair."""
    m.eq(d.dom, Ty(), 'no input')
    m.wt(d, 'well-typed')


@ob('P19', M + 'linear_reader.LinearReader.sentence2diagram', 'lambeq.backend.grammar.Diagram.tensor', n=300)
def stairs(g, m):
    """Any one-wire word type, any box that combines two wires into one."""
    sentence, n = tokens(g)
    if g.choice(True, False):
        a, reader = S, stairs_reader
        box = Box('STAIR', S @ S, S)
    else:
        a = g.aty('a')
        box = g.box('c', a @ a, a)
        reader = LinearReader(box.to_diagram(), a)
    if g.symbolic:
        def word(j):
            return Layer(left=g.power(a, j), box=Word(sentence[j], a), right=Ty())

        def combine(j):
            return Layer(left=Ty(), box=box, right=g.power(a, n - 2 - j))
        g.invariant(('Diagram.tensor', 0), Beside(g, a, word))
        g.invariant('LinearReader.sentence2diagram',
                    Combines(g, lambda k: g.power(a, n - k), g.joined([], word, n), combine, n - 1))
        d = reader.sentence2diagram(sentence, tokenised=True)
        m.eq(d.dom, Ty(), 'no input')
        m.eq(d.cod, a, 'one output')
        m.eq(d.layers, g.joined(g.joined([], word, n), combine, n - 1), 'the words in order, then one box per pair')
        m.wt(d, 'well-typed')
        return
    d = reader.sentence2diagram(sentence, tokenised=True)
    m.eq([d.dom, d.cod], [Ty(), a], 'type')
    m.wt(d, 'well-typed')
    m.eq(d.boxes, [Word(w, a) for w in sentence] + [box] * (n - 1), 'the words in order, then one box per pair')
    m.eq(d.offsets, list(range(n)) + [0] * (n - 1), 'places')


@ob('P19', M + 'linear_reader.LinearReader.sentence2diagram', 'lambeq.backend.grammar.Diagram.tensor', n=300)
def cups(g, m):
    """Words of type A.r @ A after a start word of type A, joined by cups, for any wire A."""
    sentence, n = tokens(g)
    if g.choice(True, False):
        a, reader = S, cups_reader
        start = Word('START', S)
    else:
        a = g.aty('a')
        start = Word('GO', a)
        reader = LinearReader(Cup(a, a.r).to_diagram(), a >> a, start.to_diagram())
    t = a.r @ a
    box = Cup(a, a.r)
    if g.symbolic:
        def word(j):
            return Layer(left=a @ g.power(t, j), box=Word(sentence[j], t), right=Ty())

        def combine(j):
            return Layer(left=Ty(), box=box, right=a @ g.power(t, n - 1 - j))
        first = [Layer(left=Ty(), box=start, right=Ty())]
        g.invariant(('Diagram.tensor', 0), Beside(g, t, word))
        words = g.joined(first, word, n)
        g.invariant('LinearReader.sentence2diagram', Combines(g, lambda k: a @ g.power(t, n - k), words, combine, n))
        d = reader.sentence2diagram(sentence, tokenised=True)
        m.eq(d.dom, Ty(), 'no input')
        m.eq(d.cod, a, 'one output')
        m.eq(d.layers, g.joined(words, combine, n), 'the words in order, then one cup per word')
        m.wt(d, 'well-typed')
        return
    d = reader.sentence2diagram(sentence, tokenised=True)
    m.eq([d.dom, d.cod], [Ty(), a], 'type')
    m.wt(d, 'well-typed')
    m.eq(d.boxes, [start] + [Word(w, t) for w in sentence] + [box] * n, 'the words in order, then one cup per word')


@ob('P19', M + 'spiders_reader.SpidersReader.sentence2diagram', 'lambeq.backend.grammar.Diagram.tensor', n=200)
def spiders(g, m):
    sentence, n = tokens(g)
    if g.symbolic:
        def word(j):
            return Layer(left=g.power(S, j), box=Word(sentence[j], S), right=Ty())
        g.invariant(('Diagram.tensor', 0), Beside(g, S, word))
        g.contract(sys.modules[SpidersReader.__module__], 'Spider', g.spider)
        d = SpidersReader().sentence2diagram(sentence, tokenised=True)
        m.eq(d.dom, Ty(), 'no input')
        m.eq(d.cod, S, 'one output')
        m.eq(len(d.layers), n + 1, 'words and one spider')
        i = g.index(sentence)
        m.eq(d.layers[i], word(i), 'the words in order')
        last = d.layers[n]
        m.true(isinstance(last.box, Spider), 'a spider')
        m.eq(last.box.dom, g.power(S, n), 'joins all the words')
        m.eq(last.left, Ty(), 'from the first')
        m.eq(last.right, Ty(), 'to the last')
        m.wt(d, 'well-typed')
        return
    d = spiders_reader.sentence2diagram(sentence, tokenised=True)
    m.eq([d.dom, d.cod], [Ty(), S], 'type')
    m.wt(d, 'well-typed')
    words = [Word(w, S) for w in sentence]
    m.eq(d.boxes, words + [Spider(S, n, 1)], 'the words in order and a spider')


class Node:
    """A derivation tree node: rule, text and children (contract of subtrees in proofs)."""
    def __init__(self, rule, text=None, children=(), height=0, biclosed_type='T', diagram=None):
        self.rule, self.text, self.children, self.height = rule, text, list(children), height
        self.biclosed_type = biclosed_type
        self.diagram = diagram

    def _resolved(self):
        return self


@ob('P19', M + 'tree_reader.TreeReader._tree2diagram', M + 'tree_reader.TreeReader.tree2diagram', n=1)
def tree_nodes(g, m):
    """One node of any derivation: its subtrees by induction (well-typed, no
    input, one output, and the words of the subtree)."""
    if not g.symbolic:
        return
    mode = g.choice(*TreeReaderMode)
    a = g.aty('a')
    k = g.choice(0, 1, 2)
    if k == 0:
        text = g.string('word')
        d = TreeReader.tree2diagram(Node(CCGRule.LEXICAL, text), mode, a)
        m.eq(d.dom, Ty(), 'no input')
        m.eq(d.cod, a, 'one output')
        m.eq(len(d.layers), 1, 'one box')
        m.eq(d.layers[0].box, Word(text, a), 'the word')
        m.wt(d, 'well-typed')
        return
    subs = [Node(None, diagram=g.diagram(f'sub{i}', dom=Ty(), cod=a)) for i in range(k)]
    rule = g.choice(CCGRule.FORWARD_APPLICATION, CCGRule.UNARY, CCGRule.CONJUNCTION, CCGRule.UNKNOWN)
    node = Node(rule, None, subs, g.int('height', lo=1))
    real = TreeReader._tree2diagram
    seen = []

    def by_contract(tree, mode_=TreeReaderMode.NO_TYPE, type_=S):
        if tree.diagram is None:
            return real(tree, mode_, type_)
        seen.append((tree, mode_))
        m.eq(type_, a, 'the same word type below')
        m.true(mode_ is mode, 'the same mode below')
        return tree.diagram
    g.contract(TreeReader, '_tree2diagram', staticmethod(by_contract))
    d = TreeReader.tree2diagram(node, mode, a)
    m.true(len(seen) == k and all(x is y for (x, _), y in zip(seen, subs)), 'every subtree once, in order')
    m.eq(d.dom, Ty(), 'no input')
    m.eq(d.cod, a, 'one output')
    m.wt(d, 'well-typed')
    box = d.layers[-1].box
    m.eq(box.dom, a if k == 1 else a @ a, 'the box takes all subtrees')
    m.eq(box.cod, a, 'and gives one wire')
    n = 0
    for i, s in enumerate(subs):
        c = len(s.diagram.layers)
        left, right = (Ty() if i == 0 else a), Ty()
        if c > 0:
            j = g.index(s.diagram.layers)
            x, y = s.diagram.layers[j], d.layers[n + j]
            m.eq(y.box, x.box, 'boxes of the subtree, in order')
            m.eq(y.left, left @ x.left, 'beside the others')
            m.eq(y.right, x.right, 'beside the others')
        n = n + c
    m.eq(len(d.layers), n + 1, 'one combining box')


def random_tree(g, n):
    from lambeq.text2diagram.ccg_tree import CCGTree
    N, P = (__import__('lambeq.text2diagram.ccg_type', fromlist=['x']).CCGType(x) for x in ('n', 'p'))
    words = [f'w{g.r.randrange(4)}' for _ in range(n)]

    def build(ws):
        if len(ws) == 1:
            t = CCGTree(ws[0], biclosed_type=g.r.choice([N, P, N << N, P >> N]))
        else:
            k = g.r.randint(1, len(ws) - 1)
            l, r = build(ws[:k]), build(ws[k:])
            x = g.r.choice([N, P])
            if g.r.random() < .5:
                l = retype(l, x << r.biclosed_type)
                t = CCGTree(rule=CCGRule.FORWARD_APPLICATION, biclosed_type=x, children=[l, r])
            else:
                r = retype(r, l.biclosed_type >> x)
                t = CCGTree(rule=CCGRule.BACKWARD_APPLICATION, biclosed_type=x, children=[l, r])
        if g.r.random() < .2:
            t = CCGTree(rule=CCGRule.UNARY, biclosed_type=g.r.choice([N, P]), children=[t])
        return t

    def retype(t, x):
        return CCGTree(t.text, biclosed_type=x) if t.rule == CCGRule.LEXICAL else CCGTree(
            rule=CCGRule.UNARY, biclosed_type=x, children=[t])
    return build(words), words


@ob('P19', M + 'tree_reader.TreeReader.tree2diagram', M + 'tree_reader.TreeReader.sentence2diagram', sym=False, n=300)
def trees(g, m):
    from lambeq.text2diagram.ccg_parser import CCGParser
    tree, words = random_tree(g, g.int('n', lo=1, hi=7))
    mode = g.choice(*TreeReaderMode)
    a = g.choice(S, Ty('x'), Ty('x') @ Ty('y'), Ty('n').l)

    class Parser(CCGParser):
        def __init__(self):
            pass

        def sentences2trees(self, sentences, tokenised=False, suppress_exceptions=False, verbose=None):
            m.eq([sentences, tokenised], [[words], True], 'the sentence is passed on')
            return [tree]
    d = TreeReader(Parser(), mode, a).sentence2diagram(words, tokenised=True,
                                                       collapse_noun_phrases=g.choice(True, False))
    m.eq([d.dom, d.cod], [Ty(), a], 'type')
    m.wt(d, 'well-typed')
    got = [b for b in d.boxes if isinstance(b, Word)]
    m.eq([b.name for b in got], words, 'words in order')
    m.true(all(b.cod == a for b in got), 'word types')

    def nodes(t):
        return 1 + sum(map(nodes, t.children)) if t.rule != CCGRule.LEXICAL else 0
    m.eq(len(d.boxes), len(words) + nodes(tree._resolved()), 'one box per combining step')


@ob('P19', M + 'linear_reader.LinearReader.sentence2diagram', M + 'spiders_reader.SpidersReader.sentence2diagram', sym=False, n=300)
def sentences(g, m):
    """Whole sentences: splitting at white space, the tokenised flag and batches."""
    r = g.r
    words = [r.choice(['a', 'bc', 'x,', 'é', 'a']) for _ in range(r.randint(1, 7))]
    text = r.choice(['', ' ', '\n']) + ''.join(w + r.choice([' ', '  ', '\t', ' \n']) for w in words)
    reader = r.choice([cups_reader, stairs_reader, spiders_reader])
    d = reader.sentence2diagram(text)
    m.eq(d, reader.sentence2diagram(words, tokenised=True), 'tokenised and untokenised agree')
    m.wt(d, 'well-typed')
    m.eq([d.dom, d.cod], [Ty(), S], 'type')
    m.eq([b.name for b in d.boxes if isinstance(b, Word) and b.name != 'START'], words, 'words')
    m.eq(reader.sentences2diagrams([text, words[0]]), [d, reader.sentence2diagram(words[0])], 'batches')
    for s, flag in ((text, True), (words, False), (words + [3], True), (tuple(words), True), (None, False)):
        try:
            reader.sentence2diagram(s, tokenised=flag)
        except ValueError:
            m.ok('refused')
        else:
            m.fail('a sentence that contradicts the flag is refused', f'{s!r} {flag}')


@ob('P19', M + 'linear_reader.LinearReader.sentence2diagram', M + 'spiders_reader.SpidersReader.sentence2diagram')
def refusals(g, m):
    """Any string is refused as tokenised, any list of tokens as untokenised."""
    sentence, n = tokens(g)
    flag = g.choice(True, False)
    reader = g.choice(cups_reader, stairs_reader, spiders_reader)
    s = (g.string('text') if flag else sentence)
    try:
        reader.sentence2diagram(s, tokenised=flag)
    except ValueError:
        m.ok('refused')
    else:
        m.fail('a sentence that contradicts the flag is refused')
