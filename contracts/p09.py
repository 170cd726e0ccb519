"""P09: CCG rules and derivation trees."""
from contracts.reg import ob
from lambeq.backend.grammar import Cup, Diagram, Id, Swap, Ty, Word
from lambeq.text2diagram.ccg_rule import CCGRule, CCGRuleUseError
from lambeq.text2diagram.ccg_tree import CCGTree
from lambeq.text2diagram.ccg_type import CCGType

R = 'lambeq.text2diagram.ccg_rule.CCGRule.'
T = 'lambeq.text2diagram.ccg_tree.CCGTree.'
PUNC = CCGType.PUNCTUATION


def in_context(g, a, b, dirs, name='C'):
    """(C[a], C[b]) for an arbitrary result context C (at least one argument)
    with the given slashes: dirs as for CCGType.replace_result."""
    if g.symbolic:
        from pyvc import ccg
        t, u = ccg.fresh(name), ccg.fresh(name + '2')
        ccg.good(t.t), ccg.good(u.t)
        ccg.context(t.t, ccg.term(a), u.t, ccg.term(b), dirs)
        return t, u
    for i in range(1 + g.nat('depth', small=2)):
        d = dirs[0 if i == 0 else -1]
        d, z = g.choice('/', '\\') if d == '|' else d, g.ccg('z')
        a, b = a.slash(d, z), b.slash(d, z)
    return a, b


def use(g, rule, x=None):
    """Arbitrary input and output types the rule admits."""
    x = g.ccg('x') if x is None else x
    y, z = g.ccg('y'), g.ccg('z')
    r = CCGRule
    if rule == r.FORWARD_APPLICATION:
        return [x << y, y], x
    if rule == r.BACKWARD_APPLICATION:
        return [y, y >> x], x
    if rule == r.FORWARD_COMPOSITION:
        return [x << y, y << z], x << z
    if rule == r.BACKWARD_COMPOSITION:
        return [z >> y, y >> x], z >> x
    if rule == r.FORWARD_CROSSED_COMPOSITION:
        return [x << y, z >> y], z >> x
    if rule == r.BACKWARD_CROSSED_COMPOSITION:
        return [y << z, y >> x], x << z
    if rule == r.GENERALIZED_FORWARD_COMPOSITION:
        cy, cx = in_context(g, y, x, '/')
        return [x << y, cy], cx
    if rule == r.GENERALIZED_BACKWARD_COMPOSITION:
        cy, cx = in_context(g, y, x, '\\')
        return [cy, y >> x], cx
    if rule == r.GENERALIZED_FORWARD_CROSSED_COMPOSITION:
        cy, cx = in_context(g, y, x, '\\|')
        return [x << y, cy], cx
    if rule == r.GENERALIZED_BACKWARD_CROSSED_COMPOSITION:
        cy, cx = in_context(g, y, x, '/|')
        return [cy, y >> x], cx
    if rule == r.FORWARD_TYPE_RAISING:
        return [y], x.over(x.under(y))
    if rule == r.BACKWARD_TYPE_RAISING:
        return [y], x.under(x.over(y))
    if rule == r.UNARY:
        return [x], x
    if rule == r.REMOVE_PUNCTUATION_LEFT:
        return [PUNC, x], x
    if rule == r.REMOVE_PUNCTUATION_RIGHT:
        return [x, PUNC], x


APPLICABLE = [r for r in CCGRule if r not in (CCGRule.UNKNOWN, CCGRule.LEXICAL, CCGRule.CONJUNCTION)]
COMPOSING = [r for r in APPLICABLE if r not in (CCGRule.UNARY, CCGRule.REMOVE_PUNCTUATION_LEFT,
                                                CCGRule.REMOVE_PUNCTUATION_RIGHT)]
BINARY = [r for r in COMPOSING if 'TYPE_RAISING' not in r.name]


def wires(rule, dom):
    """The wires a rule takes: punctuation has none."""
    if rule == CCGRule.REMOVE_PUNCTUATION_LEFT:
        dom = dom[1:]
    elif rule == CCGRule.REMOVE_PUNCTUATION_RIGHT:
        dom = dom[:1]
    return Ty().tensor(*[t.to_grammar() for t in dom])


def applies(m, rule, dom, cod, label=''):
    d = rule.apply(dom, cod)
    m.wt(d, label + 'well-typed')
    m.eq(d.dom, wires(rule, dom), label + 'from the input types')
    m.eq(d.cod, cod.to_grammar(), label + 'to the output type')
    return d


def each(rules, *args, **kw):
    """One harness per rule."""
    def deco(fn):
        for r in rules:
            def h(g, m, r=r):
                return fn(g, m, r)
            h.__doc__ = fn.__doc__
            ob(*args, name=f'{fn.__name__}[{r.name}]', **kw)(h)
        return fn
    return deco


@each(APPLICABLE, 'P09', R + 'apply', R + '__call__', n=40)
def application(g, m, rule):
    dom, cod = use(g, rule)
    applies(m, rule, dom, cod)
    if not m.symbolic:
        d = rule(dom, cod)
        m.eq(d, rule.apply(dom, cod), 'call')


@each(APPLICABLE, 'P09', R + 'resolve', n=40)
def resolution(g, m, rule):
    """Resolving to the type the rule gives anyway changes nothing."""
    dom, cod = use(g, rule)
    m.eq(list(rule.resolve(dom, cod)), dom, 'unchanged')


@each(BINARY + [CCGRule.UNARY, CCGRule.REMOVE_PUNCTUATION_LEFT, CCGRule.REMOVE_PUNCTUATION_RIGHT],
      'P09', R + 'resolve', R + 'apply', n=40)
def resolution_changes(g, m, rule):
    """Resolving to another type of the same form gives inputs the rule admits."""
    dom, cod = use(g, rule)
    new = g.ccg('new') if m.symbolic and 'GENERALIZED' in rule.name else use(g, rule)[1]
    try:
        res = list(rule.resolve(dom, new))
    except AssertionError:      # a generalised composition: no such result inside
        m.true('GENERALIZED' in rule.name, 'resolves')
        return
    m.eq(len(res), len(dom), 'as many inputs')
    applies(m, rule, res, new, 'after resolution ')


@ob('P09', R + 'resolve', n=40)
def resolution_conjunction(g, m):
    x, y, c = g.ccg('x'), g.ccg('y'), CCGType(g.choice('conj', 'punc'))
    if g.bool('left'):
        m.eq(list(CCGRule.CONJUNCTION.resolve([c, x], y)), [y << x, x], 'conjunction on the left')
    else:
        g.assume(not x.is_conjoinable)
        m.eq(list(CCGRule.CONJUNCTION.resolve([x, c], y)), [x, x >> y], 'conjunction on the right')


# rules whose output type the inference does not check
LOOSE = (CCGRule.UNARY, CCGRule.REMOVE_PUNCTUATION_LEFT, CCGRule.REMOVE_PUNCTUATION_RIGHT)


@each(COMPOSING, 'P09', R + 'infer_rule', n=60)
def inference(g, m, rule):
    """Inputs and output of a rule are recognised."""
    dom, cod = use(g, rule)
    r = CCGRule.infer_rule(dom, cod)
    m.true(r != CCGRule.UNKNOWN, 'recognised')
    m.true(r != CCGRule.LEXICAL and r != CCGRule.UNARY, 'recognised as a composition')
    if r == CCGRule.CONJUNCTION or r in LOOSE:
        m.true(CCGType.CONJUNCTION in dom or PUNC in dom, 'conjunction or punctuation')
        return
    if r == rule:
        m.ok('the rule itself')         # application[rule]
        return
    applies(m, r, dom, cod, 'inferred rule ')


def anything(g):
    """Two inputs and an output: those of a rule with something exchanged."""
    (left, right), cod = use(g, g.choice(*BINARY))
    k = g.choice('left', 'right', 'cod')
    o = g.choice(left, right, cod, cod.result if cod.is_complex else cod, PUNC, CCGType.CONJUNCTION)
    return (o if k == 'left' else left), (o if k == 'right' else right), (o if k == 'cod' else cod)


GEN = [r for r in BINARY if 'GENERALIZED' in r.name and r != CCGRule.GENERALIZED_FORWARD_COMPOSITION]


@each(GEN, 'P09', R + 'infer_rule', n=150, sym=False)
@each([r for r in BINARY if r not in GEN], 'P09', R + 'infer_rule', n=150)
def inference_sound(g, m, rule):
    """Whatever the types: an inferred rule admits them."""
    left, right, cod = (g.ccg('l'), g.ccg('r'), g.ccg('c')) if m.symbolic else anything(g)
    r = CCGRule.infer_rule([left, right], cod)
    if r == rule or not m.symbolic and r in BINARY:
        applies(m, r, [left, right], cod)


@ob('P09', R + 'infer_rule', n=300)
def inference_other(g, m):
    left, right, cod = (g.ccg('l'), g.ccg('r'), g.ccg('c')) if m.symbolic else anything(g)
    r = CCGRule.infer_rule([left, right], cod)
    if r in LOOSE:
        m.true(left == PUNC if r == CCGRule.REMOVE_PUNCTUATION_LEFT else right == PUNC, 'punctuation')
    elif r == CCGRule.CONJUNCTION:
        m.true(left.is_conjoinable or right.is_conjoinable, 'conjunction')
    else:
        m.true(r in BINARY or r == CCGRule.UNKNOWN, 'a binary rule')


@ob('P09', R + 'infer_rule', n=200)
def inference_unary(g, m):
    y, cod = g.ccg('y'), g.rccg('c')
    if g.bool('raised'):
        cod = use(g, g.choice(CCGRule.FORWARD_TYPE_RAISING, CCGRule.BACKWARD_TYPE_RAISING), g.ccg('x'))[1]
    m.eq(CCGRule.infer_rule([], cod), CCGRule.LEXICAL, 'no inputs')
    r = CCGRule.infer_rule([y], cod)
    if r == CCGRule.UNARY:
        m.true(not cod.is_complex or not (cod.argument.is_complex and cod.argument.result == cod.result
                                          and cod.argument.argument == y and cod.argument.direction != cod.direction),
               'raised types are recognised')
        return
    m.true(r == CCGRule.FORWARD_TYPE_RAISING or r == CCGRule.BACKWARD_TYPE_RAISING, 'type raising')
    applies(m, r, [y], cod)


@ob('P09', R + 'apply', R + 'check_match', R + 'resolve', n=40)
def refusals(g, m):
    """Rules refuse the wrong number of inputs, and rules without a diagram."""
    x, y = g.ccg('x'), g.ccg('y')
    for r in CCGRule:
        for dom in ([], [x], [x, y], [x, y, x]):
            n = 1 if r in (CCGRule.UNARY, CCGRule.FORWARD_TYPE_RAISING, CCGRule.BACKWARD_TYPE_RAISING) else 2
            if len(dom) == n and r in APPLICABLE:
                continue
            try:
                r.apply(dom, x)
            except CCGRuleUseError:
                m.ok('refused')
            else:
                m.fail('wrong number of inputs')
    for r in (CCGRule.FORWARD_TYPE_RAISING, CCGRule.BACKWARD_TYPE_RAISING):
        try:
            r.apply([x])
        except CCGRuleUseError:
            m.ok('refused')
        else:
            m.fail('type raising needs the output')
    try:
        CCGRule.UNKNOWN.resolve([x, y], x)
    except CCGRuleUseError:
        m.ok('refused')
    else:
        m.fail('unknown rules are not resolved')
    m.eq([CCGRule(r.value) for r in CCGRule], list(CCGRule), 'rules by value')


# ------------------------------------------------------------------ trees
class Sub(CCGTree):
    """A subtree of which only the contract is known: its type, and that it
    converts to words followed by a diagram to the wires of that type."""
    def __init__(self, g, t, uid, punc=False):
        self.g, self.uid, self.biclosed_type, self.punc = g, uid, t, punc
        self.rule, self.children, self.metadata = CCGRule.UNKNOWN, [], {}
        self._text, self.height = 'w', 0
        self.is_leaf = self.is_unary = self.is_binary = False
        self.made = None

    def wires(self):
        return Ty() if self.punc else self.biclosed_type.to_grammar()

    def _to_diagram(self, planar=False):
        if self.made is None:
            words = self.g.diagram('words', dom=Ty())
            self.made = words, self.g.diagram('grammar', dom=words.cod, cod=self.wires())
        return self.made

    def _resolved(self, output=None):
        if output is None or output == self.biclosed_type:
            return self
        return Sub(self.g, output, self.uid)

    def __eq__(self, other):
        return isinstance(other, Sub) and self.uid == other.uid and self.biclosed_type == other.biclosed_type


def converts(m, tree, planar=False):
    words, d = tree._to_diagram(planar)
    m.wt(words, 'words well-typed')
    m.wt(d, 'grammar well-typed')
    m.eq(words.dom, Ty(), 'words from nothing')
    m.eq(words.cod, d.dom, 'the grammar takes the words')
    m.eq(d.cod, tree.biclosed_type.to_grammar(), 'to the type of the root')
    return words, d


def subtrees(g, rule, dom):
    punc = {CCGRule.REMOVE_PUNCTUATION_LEFT: 0, CCGRule.REMOVE_PUNCTUATION_RIGHT: 1}.get(rule)
    return [Sub(g, t, i, i == punc) for i, t in enumerate(dom)]


@each([r for r in APPLICABLE if r != CCGRule.UNARY], 'P09', T + '_to_diagram', n=25)
def tree_node(g, m, rule):
    """A node converts if its subtrees do."""
    if not m.symbolic:
        return whole_trees(g, m)
    dom, cod = use(g, rule)
    planar = g.bool('planar')
    kids = subtrees(g, rule, dom)
    words, d = converts(m, CCGTree(rule=rule, biclosed_type=cod, children=kids), planar)
    if 'CROSSED' in rule.name and planar:
        return                      # the words are inside
    seq = [w for k in kids for w in [k.made[0]]]
    n = sum(len(w.layers) for w in seq)
    m.eq(len(words.layers), n, 'all the words')
    if len(seq) == 1:
        i = g.index(seq[0].layers)
        m.eq(words.layers[i].box, seq[0].layers[i].box, 'the words in order')
    else:
        i, j = g.index(seq[0].layers), g.index(seq[1].layers)
        m.eq(words.layers[i].box, seq[0].layers[i].box, 'first the words on the left')
        m.eq(words.layers[len(seq[0].layers) + j].box, seq[1].layers[j].box, 'then those on the right')


@ob('P09', T + '_to_diagram', T + '_resolved', n=25)
def tree_unary(g, m):
    """Type-changing unary rules that turn the slash around become swaps."""
    if not m.symbolic:
        return whole_trees(g, m)
    x, y, z, w = g.ccg('x'), g.ccg('y'), g.ccg('z'), g.ccg('w')
    out, inner = (x << y, z >> w) if g.bool('over') else (y >> x, w << z)
    t = CCGTree(rule=CCGRule.UNARY, biclosed_type=out, children=[Sub(g, inner, 0)])._resolved()
    m.eq(t.biclosed_type, out, 'type kept')
    converts(m, t)
    try:
        t._to_diagram(True)
    except ValueError:
        m.ok('refused')
    else:
        m.fail('no planar diagram')


@ob('P09', T + '_to_diagram', T + '__init__', n=25)
def tree_leaf(g, m):
    x, s = g.ccg('x'), 'w' + g.string('s')
    t = CCGTree(s, biclosed_type=x)
    m.eq(t.rule, CCGRule.LEXICAL, 'a word')
    words, d = t._to_diagram(g.bool('planar'))
    if x == PUNC:
        m.eq([words, d], [Id(), Id()], 'no wires for punctuation')
        return
    m.wt(words, 'well-typed')
    m.eq(list(words.boxes), [Word(s, x.to_grammar())], 'the word')
    m.eq(d, Id(x.to_grammar()), 'nothing else')
    m.eq([words.dom, words.cod], [Ty(), d.dom], 'types')


@ob('P09', T + 'to_diagram')
def tree_root(g, m):
    if not m.symbolic:
        return whole_trees(g, m)
    x = g.ccg('x')

    class Root(Sub):
        def collapse_noun_phrases(self):
            return Sub(g, y, 1)
    y = g.ccg('y')
    t = Root(g, x, 0)
    c = g.bool('collapse')
    d = CCGTree.to_diagram(t, g.bool('planar'), collapse_noun_phrases=c)
    m.wt(d, 'well-typed')
    m.eq(d.dom, Ty(), 'from nothing')
    m.eq(d.cod, (y if c else x).to_grammar(), 'to the type of the root')


@each([r for r in BINARY], 'P09', T + '_resolved', n=25)
def tree_resolved(g, m, rule):
    """Resolving a node to its own type leaves it as it is."""
    if not m.symbolic:
        return whole_trees(g, m)
    dom, cod = use(g, rule)
    kids = subtrees(g, rule, dom)
    t = CCGTree(rule=rule, biclosed_type=cod, children=kids)
    r = t._resolved(cod) if g.bool('given') else t._resolved()
    m.eq(r.biclosed_type, cod, 'type')
    m.check('proved' if r.rule == rule else 'refuted', str(r.rule), 'rule')
    m.eq([k.biclosed_type for k in r.children], dom, 'inputs')


@ob('P09', T + '_resolved', n=25)
def tree_resolved_special(g, m):
    """Trivial unary rules vanish, conjunctions become applications."""
    if not m.symbolic:
        return whole_trees(g, m)
    x, y, z = g.ccg('x'), g.ccg('y'), g.ccg('z')
    k = g.choice('unary', 'left', 'right', 'raised')
    if k == 'unary':
        r = CCGTree(rule=CCGRule.UNARY, biclosed_type=x, children=[Sub(g, x, 0)])._resolved()
        m.eq(r.biclosed_type, x, 'type')
    elif k == 'raised':             # composition with a raised type, changed to anything of the same form
        a = CCGTree(rule=CCGRule.FORWARD_TYPE_RAISING, biclosed_type=x << (y >> x), children=[Sub(g, y, 0)])
        t = CCGTree(rule=CCGRule.FORWARD_COMPOSITION, biclosed_type=x << z, children=[a, Sub(g, (y >> x) << z, 1)])
        u, v = g.ccg('u'), g.ccg('v')
        r = t._resolved(u << v)
        m.eq(r.biclosed_type, u << v, 'type')
        converts(m, r)
    else:
        c = Sub(g, CCGType(g.choice('conj', 'punc')), 0)
        g.assume(not x.is_conjoinable)
        t = CCGTree(rule=CCGRule.CONJUNCTION, biclosed_type=y, children=[c, Sub(g, x, 1)] if k == 'left' else [Sub(g, x, 1), c])
        r = t._resolved()
        m.eq(r.biclosed_type, y, 'type')
        converts(m, r)


def wordlike(g, name, depth=2):
    """A type without punctuation inside (punctuation has no wires)."""
    while True:
        t = g.ccg(name, depth=depth)
        if 'punc' not in str(t):
            return t


def random_tree(g, t, depth, words):
    """A derivation of type t."""
    if depth == 0 or g.r.random() < .2:
        words.append(f'w{len(words)}')
        return CCGTree(words[-1], biclosed_type=t)
    r = CCGRule
    x = t
    rules = [r.FORWARD_APPLICATION, r.BACKWARD_APPLICATION, r.UNARY, r.REMOVE_PUNCTUATION_LEFT, r.REMOVE_PUNCTUATION_RIGHT]
    y, z = wordlike(g, 'y', 1), None
    if t.is_complex:
        x, z = t.result, t.argument
        rules += [r.FORWARD_COMPOSITION, r.FORWARD_CROSSED_COMPOSITION, r.BACKWARD_COMPOSITION,
                  r.BACKWARD_CROSSED_COMPOSITION]
        if x.is_complex:
            rules += [q for q in GEN + [r.GENERALIZED_FORWARD_COMPOSITION]] * 2
        if z.is_complex and z.result == x and z.direction != t.direction:
            rules += [r.FORWARD_TYPE_RAISING if t.is_over else r.BACKWARD_TYPE_RAISING] * 3
    rule = g.r.choice(rules)
    if rule == r.FORWARD_APPLICATION:
        dom = [t << y, y]
    elif rule == r.BACKWARD_APPLICATION:
        dom = [y, y >> t]
    elif rule == r.UNARY:
        dom = [t]
    elif rule == r.REMOVE_PUNCTUATION_LEFT:
        dom = [PUNC, t]
    elif rule == r.REMOVE_PUNCTUATION_RIGHT:
        dom = [t, PUNC]
    elif rule in (r.FORWARD_TYPE_RAISING, r.BACKWARD_TYPE_RAISING):
        dom = [z.argument]
    else:
        over, fwd = t.is_over, 'FORWARD' in rule.name
        if 'GENERALIZED' in rule.name:
            core, ctx = x, [(t.direction, z)]
            while core.is_complex and g.r.random() < .6:
                ctx.append((core.direction, core.argument))
                core = core.result
            ds = [d for d, _ in ctx]
            need = '/' if fwd else '\\'
            inner = ds[-1]
            ok = all(d == need for d in ds) if 'CROSSED' not in rule.name else inner == ('\\' if fwd else '/')
            if not ok:
                words.append(f'w{len(words)}')
                return CCGTree(words[-1], biclosed_type=t)
            c = y
            for d, a in reversed(ctx):
                c = c.slash(d, a)
            dom = [core << y, c] if fwd else [c, y >> core]
        else:
            need = {r.FORWARD_COMPOSITION: True, r.BACKWARD_COMPOSITION: False,
                    r.FORWARD_CROSSED_COMPOSITION: False, r.BACKWARD_CROSSED_COMPOSITION: True}[rule]
            if over != need:
                words.append(f'w{len(words)}')
                return CCGTree(words[-1], biclosed_type=t)
            dom = [x << y, y.slash(t.direction, z)] if fwd else [y.slash(t.direction, z), y >> x]
    kids = []
    for u in dom:
        if u is PUNC:
            words.append(',')
            kids.append(CCGTree(',', biclosed_type=PUNC))
        else:
            kids.append(random_tree(g, u, depth - 1, words))
    return CCGTree(rule=rule, biclosed_type=t, children=kids)


def whole_trees(g, m):
    words = []
    t = random_tree(g, wordlike(g, 'root'), 3, words)
    g.note('tree', t.deriv(vertical=True))
    collapse = g.bool('collapse')
    root = t.biclosed_type
    if root == PUNC:
        return
    if collapse:
        root = root.replace(CCGType.NOUN_PHRASE, CCGType.NOUN)
    spoken = [w for w in words if w != ',']
    d = t.to_diagram(collapse_noun_phrases=collapse)
    m.wt(d, 'well-typed')
    m.eq([d.dom, d.cod], [Ty(), root.to_grammar()], 'from nothing to the type of the root')
    m.eq([b.name for b in d.boxes if isinstance(b, Word)], spoken, 'words in order')
    m.eq([isinstance(b, Word) for b in d.boxes][:len(spoken)], [True] * len(spoken), 'words first')
    p = t.to_diagram(planar=True, collapse_noun_phrases=collapse)
    m.wt(p, 'planar diagram well-typed')
    m.eq([p.dom, p.cod], [d.dom, d.cod], 'planar diagram types')
    m.eq(sorted(b.name for b in p.boxes if isinstance(b, Word)), sorted(spoken), 'same words')
    m.true(not any(isinstance(b, Swap) for b in p.boxes), 'planar')


@ob('P09', T + 'to_diagram', T + '_to_diagram', T + '_resolved', T + 'collapse_noun_phrases', sym=False, n=300)
def trees(g, m):
    whole_trees(g, m)


@ob('P09', T + 'to_json', T + 'from_json', T + '__eq__', T + 'text', T + 'without_trivial_unary_rules', sym=False, n=200)
def tree_json(g, m):
    import json
    words = []
    t = random_tree(g, wordlike(g, 'root'), 3, words)
    if g.bool('conj'):
        t = CCGTree(rule='CONJ', biclosed_type=t.biclosed_type >> t.biclosed_type,
                    children=[CCGTree('and', biclosed_type=CCGType.CONJUNCTION), t])
    if g.bool('named'):
        t = CCGTree('as  a whole', rule=t.rule, biclosed_type=t.biclosed_type, children=t.children) if t.children else t
    g.note('tree', t.deriv(vertical=True))
    m.true(CCGTree.from_json(t.to_json()) == t, 'round trip')
    m.true(CCGTree.from_json(json.dumps(t.to_json())) == t, 'round trip through text')
    u = CCGTree.from_json(t.to_json())
    m.eq([u.text, u.height, len(u.children)], [t.text, t.height, len(t.children)], 'tree attributes')
    v = t.without_trivial_unary_rules()

    def trivial(x):
        return x.rule == CCGRule.UNARY and x.biclosed_type == x.child.biclosed_type or any(map(trivial, x.children))
    m.true(not trivial(v), 'no trivial unary rules left')
    m.eq(v.biclosed_type, t.biclosed_type, 'the type is kept')
    if t.text != 'as  a whole':         # a name may sit on a node that vanishes
        m.eq(v.text, t.text, 'the words are kept')


@ob('P09', T + '__init__', T + 'child', T + 'left', T + 'right')
def tree_children(g, m):
    x = g.ccg('x')
    leaf = CCGTree('w', biclosed_type=x)
    for r in CCGRule:
        n = 0 if r == CCGRule.LEXICAL else 1 if r in (CCGRule.UNARY, CCGRule.FORWARD_TYPE_RAISING, CCGRule.BACKWARD_TYPE_RAISING) else 2
        for k in range(4):
            try:
                t = CCGTree('w', rule=r, biclosed_type=x, children=[leaf] * k)
            except ValueError:
                m.true(r != CCGRule.UNKNOWN and k != n, 'refused')
            else:
                m.true(r == CCGRule.UNKNOWN or k == n, 'the right number of subtrees')
                m.eq([t.is_leaf, t.is_unary, t.is_binary], [k == 0, k == 1, k == 2], 'kind')
                m.eq(t.height, 1 if k else 0, 'height')
                for f, j, i in (('child', 1, 0), ('left', 2, 0), ('right', 2, 1)):
                    try:
                        c = getattr(t, f)
                    except ValueError:
                        m.true(k != j, 'no such subtree')
                    else:
                        m.true(k == j and c is t.children[i], 'subtree')
