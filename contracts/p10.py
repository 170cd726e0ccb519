"""P10: rewriting keeps the type of what it rewrites."""
from contracts.reg import ob
from contracts.loops import Builds
from contracts.semantics import evaluate
from pyvc.rt import LoopSpec
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Functor, Id, Spider, Swap, Ty, Word, grammar
from lambeq.core.types import AtomicType
from lambeq.rewrite import base as B
from lambeq.rewrite import (CoordinationRewriteRule, CurryRewriteRule, Rewriter, SimpleRewriteRule,
                            UnknownWordsRewriteRule, RemoveCupsRewriter, RemoveSwapsRewriter,
                            UnifyCodomainRewriter)
from lambeq.rewrite.base import CollapseDomainRewriteRule, RewriteRule
from lambeq.rewrite.rewrite_diagram import DiagramRewriter

M = 'lambeq.rewrite.base.'
W = 'lambeq.rewrite.rewrite_diagram.'
N, S = AtomicType.NOUN, AtomicType.SENTENCE


def kept(m, rule, box, label='', match=True):
    """The rule leaves the box alone or gives a diagram of the same type."""
    r = rule(box)
    if r is None:
        m.true(not match or not rule.matches(box), label + 'no match')
        return None
    m.true(not match or rule.matches(box), label + 'match')
    m.wt(r, label + 'well-typed')
    m.eq(r.dom, box.dom, label + 'domain kept')
    m.eq(r.cod, box.cod, label + 'codomain kept')
    return r


RULES = {k: v for k, v in Rewriter._available_rules.items() if isinstance(v, SimpleRewriteRule)}


def simple(name):
    def h(g, m):
        """A rule by name, on words and boxes with any name and domain."""
        rule = RULES[name]
        s = g.choice(g.string('w'), 'the', 'and', 'that', 'Will') if not m.symbolic else g.string('w')
        b = Word(s, rule.cod) if g.bool('word') else Box(s, g.ty('dom'), rule.cod)
        r = kept(m, rule, b)
        if r is None:
            m.true(rule.words is not None or len(b.dom) > 0, 'matches words')
        elif rule.words is None:      # words stay
            bs = [x for x in r.to_diagram().boxes if isinstance(x, Word)]
            m.eq([x.name for x in bs], [s], 'the word is kept')
            m.true(all(isinstance(x, (Word, Cap)) for x in r.to_diagram().boxes), 'caps only')
        else:
            m.true(not any(isinstance(x, Word) for x in r.to_diagram().boxes), 'the word is dropped')
    ob('P10', M + 'SimpleRewriteRule.matches', M + 'SimpleRewriteRule.rewrite', M + 'RewriteRule.__call__',
       name=f'rule[{name}]', n=40)(h)


for _name in sorted(RULES):
    simple(_name)


@ob('P10', M + 'SimpleRewriteRule.matches', n=60)
def simple_match(g, m):
    """Only listed words are matched, regardless of case unless asked."""
    x = g.ty('x')
    cs = g.bool('case')
    if m.symbolic:
        g.kept_functor(B)
    words = g.choice(None, ['And', 'a'])
    rule = SimpleRewriteRule(cod=x, template=SimpleRewriteRule.placeholder(x), words=words, case_sensitive=cs)
    s = g.choice('And', 'AND', 'a', 'other')
    key = s if cs else s.lower()
    want = words is None or key in words
    b = Word(s, x)
    m.eq(rule.matches(b), want, 'listed words')
    m.eq(rule(b) is None, not want, 'applied to listed words')
    if want:
        r = kept(m, rule, b)
        m.eq(list(r.to_diagram().boxes), [Word(s, x)], 'placeholder becomes the word')
    y = g.ty('y')
    if x != y:
        m.true(not rule.matches(Word('and', y)), 'other types are not matched')


@ob('P10', M + 'CoordinationRewriteRule.matches', M + 'CoordinationRewriteRule.rewrite', n=60)
def coordination(g, m):
    """a.r @ a @ a.l becomes caps and spiders, whatever a."""
    a = g.ty('a')
    words = g.choice(None, ['or', 'and'])
    rule = CoordinationRewriteRule(words)
    s = g.choice('and', 'or', 'xor')
    b = Word(s, a.r @ a @ a.l) if g.bool('word') else Box(s, g.ty('dom'), a.r @ a @ a.l)
    r = kept(m, rule, b)
    m.eq(r is not None, (s == 'and' or s == 'or' and words is not None) and len(b.dom) == 0, 'matched words')
    if r is not None and not m.symbolic:
        m.true(all(isinstance(x, (Cap, Spider, Swap)) for x in r.boxes), 'caps and spiders')


@ob('P10', M + 'CoordinationRewriteRule.matches', n=100)
def coordination_refuses(g, m):
    """Anything that is matched has the form a.r @ a @ a.l."""
    x, y, z = g.ty('x'), g.ty('y'), g.ty('z')
    if not m.symbolic:
        x, z = g.choice(x, y.r, y.l), g.choice(z, y.l, y.r)
    g.assume(len(x) == len(y) and len(y) == len(z))
    b = Word('and', x @ y @ z)
    ok = bool(x == y.r and z == y.l)
    m.eq(CoordinationRewriteRule().matches(b), ok, 'form')


class Left(LoopSpec):
    """Scanning from the left: what lies behind has positive winding."""
    def __init__(self, b):
        self.b = b

    def inv(self, L, env, i, m):
        for nm in self.modified(L):
            k = env.get(nm)
            m.true(0 <= k and k <= slen(self.b.cod), 'range')
            if k > 0:
                m.true(self.b.cod[k - 1].z > 0, 'scanned')


class Right(LoopSpec):
    """Scanning from the right stops at the latest where the left scan did."""
    def __init__(self, b):
        self.b = b

    def begin(self, L, loc):
        super().begin(L, loc)
        self.i = loc['i']

    def inv(self, L, env, i, m):
        for nm in self.modified(L):
            k = env.get(nm)
            m.true(self.i - 1 <= k and k < slen(self.b.cod), 'range')


def slen(x):
    from pyvc import rt
    return rt.len(x)


@ob('P10', M + 'CurryRewriteRule.matches', M + 'CurryRewriteRule.rewrite', n=150)
def curry(g, m):
    b = g.box('f')
    if not m.symbolic:
        b = Box('f', g.ty('dom'), g.ty('cod'))
    g.invariant(('CurryRewriteRule.rewrite', 0), Left(b))
    g.invariant(('CurryRewriteRule.rewrite', 1), Right(b))
    r = kept(m, CurryRewriteRule(), b, match=not m.symbolic)
    if not m.symbolic:
        m.eq(r is not None, bool(b.cod) and (b.cod[0].z != 0 or b.cod[-1].z != 0), 'matches')
        if r is not None:
            r = r.to_diagram()
            core = [x for x in r.boxes if not isinstance(x, Cap)]
            m.eq([x.name for x in core], [b.name], 'one box of the same name')
            m.true(not core[0].cod or core[0].cod[0].z <= 0 and core[0].cod[-1].z >= 0, 'adjoint outputs removed')


@ob('P10', M + 'CollapseDomainRewriteRule.matches', M + 'CollapseDomainRewriteRule.rewrite', n=60)
def collapse_domain(g, m):
    b = g.box('f')
    rule = CollapseDomainRewriteRule(left=g.bool('left'))
    r = kept(m, rule, b)
    m.eq(r is None, len(b.dom) == 0, 'matches boxes with inputs')
    if r is not None and not m.symbolic:
        core = [x for x in r.boxes if not isinstance(x, Cup)]
        m.eq([x.name for x in core], [b.name], 'one box of the same name')
        m.eq(core[0].dom, Ty(), 'without inputs')


@ob('P10', M + 'UnknownWordsRewriteRule.matches', M + 'UnknownWordsRewriteRule.rewrite', n=100)
def unknown_words(g, m):
    x, y = g.ty('x'), g.ty('y')
    s = g.string('w')
    vocab = g.choice([], ['a'], [('a', x)], ['b', ('a', y)])
    unk = g.choice('<UNK>', 'U')
    rule = UnknownWordsRewriteRule(vocab, unk) if unk == 'U' else UnknownWordsRewriteRule(vocab)
    w = g.choice(s, 'a', 'b')
    b = Word(w, x)
    known = any(v == w if isinstance(v, str) else v[0] == w and v[1] == x for v in vocab)
    r = kept(m, rule, b)
    m.eq(r is None, known, 'known words stay')
    if r is not None:
        m.eq(r, Word(unk, x), 'replaced by the token')
    f = Box(w, g.ty('dom'), x)
    if True:
        m.eq(rule(f), None, 'other boxes stay')


@ob('P10', M + 'UnknownWordsRewriteRule.from_diagrams', sym=False, n=150)
def unknown_vocabulary(g, m):
    ds = [sentence(g, f'd{i}') for i in range(g.int('n', lo=0, hi=4))]
    for ignore in (True, False):
        for k in (1, 2, 3):
            rule = UnknownWordsRewriteRule.from_diagrams(ds, min_freq=k, ignore_types=ignore)
            ws = [b for d in ds for b in d.boxes if isinstance(b, Word)]
            for d in ds:
                for b in d.boxes:
                    if isinstance(b, Word):
                        n = sum(1 for w in ws if w.name == b.name and (ignore or w.cod == b.cod))
                        m.eq(rule.matches(b), n < k, 'rare words are unknown')
            r = Rewriter([rule])
            for d in ds:
                x = r(d)
                m.wt(x, 'well-typed')
                m.eq([x.dom, x.cod], [d.dom, d.cod], 'types kept')
                m.eq([b.name for b in x.boxes],
                     ['<UNK>' if isinstance(b, Word) and rule.matches(b) else b.name for b in d.boxes], 'known words kept')


class AnyRule(RewriteRule):
    """A rule known only through its contract."""
    def __init__(self, g, i):
        self.g, self.i = g, i

    def matches(self, box):
        raise NotImplementedError

    rewrite = matches

    def __call__(self, box):
        if self.g.bool('applies'):
            return self.g.diagram('r', dom=box.dom, cod=box.cod)
        return None


@ob('P10', M + 'Rewriter._ar', M + 'Rewriter._ob', n=60)
def rewriter_box(g, m):
    """Whatever the rules: a box becomes a diagram of its type."""
    k = g.choice(0, 1, 2, 3)
    r = Rewriter([AnyRule(g, i) for i in range(k)])
    b = g.box('f')
    x = r._ar(r.apply_rewrites, b)
    m.wt(x, 'well-typed')
    m.eq([x.dom, x.cod], [b.dom, b.cod], 'types kept')
    t = g.ty('t')
    m.eq(r._ob(r.apply_rewrites, t), t, 'wires kept')


@ob('P10', M + 'Rewriter._ar', n=100)
def rewriter_first(g, m):
    """The first rule that applies is the one applied."""
    x = g.ty('x')
    rules = [SimpleRewriteRule(cod=x, template=Word(f'r{i}', x), words=g.choice(None, ['a'], ['b'])) for i in range(3)]
    s = g.choice('a', 'b', 'c')
    b = Word(s, x)
    r = Rewriter(rules)._ar(None, b)
    want = next((q.template for q in rules if q.words is None or s in q.words), b)
    m.eq(r.to_diagram().boxes[0], want, 'first match')


@ob('P10', M + 'Rewriter.__call__', n=60)
def rewriter_diagram(g, m):
    d = g.diagram('d')
    if m.symbolic:
        g.kept_functor(B)           # boxes: rewriter_box
        r = Rewriter([])
        g.invariant('Diagram.apply_functor', Builds(d.dom, lambda i: g.cut(d, i), least=lambda i: 0))
    else:
        r = Rewriter(g.choice(None, [], ['curry'], ['coordination', 'determiner'], [CollapseDomainRewriteRule()],
                              [CollapseDomainRewriteRule(False)], list(Rewriter._available_rules)))
    x = r(d)
    m.wt(x, 'well-typed')
    m.eq([x.dom, x.cod], [d.dom, d.cod], 'types kept')
    if not m.symbolic and not r.rules:
        m.eq(x, d, 'nothing to rewrite')


@ob('P10', M + 'Rewriter.__init__', M + 'Rewriter.add_rules', M + 'Rewriter.available_rules')
def rewriter_rules(g, m):
    m.eq(Rewriter().rules, list(Rewriter._default_rules.values()), 'default rules')
    m.eq(sorted(Rewriter.available_rules()), sorted(Rewriter._available_rules), 'names')
    for k, v in Rewriter._available_rules.items():
        m.true(Rewriter([k]).rules[0] is v, 'by name')
    r = Rewriter([])
    m.eq(r.rules, [], 'no rules')
    c = CurryRewriteRule()
    r.add_rules('determiner', c)
    m.eq(r.rules, [B.determiner_rule, c], 'added in order')
    try:
        r.add_rules(g.choice('no such rule', 'Curry', ''))
    except ValueError:
        m.ok('refused')
    else:
        m.fail('unknown names are refused')


# ------------------------------------------------------- diagrams
@ob('P10', W + 'UnifyCodomainRewriter.matches', W + 'UnifyCodomainRewriter.rewrite', W + 'DiagramRewriter.__call__', n=60)
def unify(g, m):
    d, t = g.diagram('d'), g.ty('t')
    r = UnifyCodomainRewriter(t)(d)
    m.wt(r, 'well-typed')
    m.eq([r.dom, r.cod], [d.dom, t], 'types')
    if d.cod == t:
        m.eq(r, d, 'left alone')
    else:
        n = len(d.layers)
        m.eq(len(r.layers), n + 1, 'one more box')
        m.eq(r.layers[:n], d.layers, 'the rest unchanged')
    e = g.diagram('e')
    rs = UnifyCodomainRewriter(t)([d, e])
    m.eq([x.cod for x in rs], [t, t], 'lists')
    m.eq(UnifyCodomainRewriter().output_type, S, 'sentence by default')


def sentence(g, name='d', boxes=False, swaps=False, layers=10):
    """Words in a row, followed by whatever connects them."""
    r = g.r
    at = ['n', 's', 'p']
    d, parts = Id(), []
    def ty(k):
        t = Ty()
        for _ in range(k):
            t = t @ Ty(r.choice(at)).rotate(r.choice([0, 0, 0, 0, -1, 1, -2, 2]))
        return t
    cur = Ty()
    for i in range(r.randint(1, 5)):
        if cur and r.random() < .75:        # something that connects to the left
            k = r.randint(1, min(3, len(cur)))
            t = cur[len(cur) - k:].r if r.random() < .7 else cur[len(cur) - k:].l
            t = t @ ty(r.randint(0, 2))
            cur = t[k:] if k <= len(cur) else t
        else:
            t = ty(r.randint(1, 3))
            cur = t
        parts.append(Word(r.choice(['a', 'b', 'c', 'the', 'and', 'that']), t))
    d = Id().tensor(*parts) if len(parts) > 1 else parts[0].to_diagram()
    if not hasattr(d, 'layers'):
        d = d.to_diagram()
    for _ in range(layers):
        c = d.cod
        opts = []
        for k in range(len(c) - 1):
            if c[k].r == c[k + 1]:
                opts += [(Cup(c[k], c[k + 1]), k)] * 4
            elif c[k].l == c[k + 1]:
                opts += [(Cup(c[k], c[k + 1], is_reversed=True), k)] * (1 if boxes else 0)
            if swaps:
                opts.append((Swap(c[k], c[k + 1]), k))
        if boxes and r.random() < .3:
            k = r.randint(0, len(c))
            w = r.randint(0, min(2, len(c) - k))
            opts = [(Box(r.choice('fgh'), c[k:k + w], ty(r.randint(0, 2))), k)]
        if not opts or r.random() < .1:
            break
        b, k = r.choice(opts)
        d = d.then_at(b, k)
    return g.note(name, d)


def meaning(m, d, r, label):
    a, b = evaluate(d), evaluate(r)
    if a is not None and b is not None:
        m.eq(b, a, label)


def with_domain(g, d):
    t = g.ty('dom')
    if g.bool('dom left'):
        return Id(t) @ d
    return d @ Id(t)


@ob('P10', W + 'RemoveCupsRewriter.rewrite', W + 'RemoveCupsRewriter._remove_cups', W + 'RemoveCupsRewriter._compress_cups',
    sym=False, n=1500)
def remove_cups(g, m):
    d = sentence(g, boxes=g.bool('boxes'), swaps=g.bool('swaps'))
    if g.bool('with domain'):
        d = with_domain(g, d)
        c = d.cod
        for k in range(len(c) - 1):
            if c[k].r == c[k + 1] and len(d.cod) == len(c):
                d = d.then_at(Cup(c[k], c[k + 1]), k)
    g.note('diagram', d)
    r = RemoveCupsRewriter()(d)
    m.wt(r, 'well-typed')
    m.eq([r.dom, r.cod], [d.dom, d.cod], 'types kept')
    m.eq(sorted(base(b) for b in r.boxes if not isinstance(b, (Cup, Cap, Swap))),
         sorted(base(b) for b in d.boxes if not isinstance(b, (Cup, Cap, Swap))), 'the same words and boxes')
    m.true(sum(isinstance(b, Cup) for b in r.boxes) <= sum(isinstance(b, Cup) for b in d.boxes), 'no more cups')
    meaning(m, d, r, 'meaning kept')


def base(b):
    n = b.name
    while n.endswith('†'):
        n = n[:-1]
    return n


@ob('P10', W + 'RemoveSwapsRewriter.rewrite', W + 'RemoveSwapsRewriter._remove_detached_cups', W + 'RemoveSwapsRewriter.matches',
    sym=False, n=1500)
def remove_swaps(g, m):
    d = sentence(g, swaps=True, layers=g.choice(4, 8, 12))
    r = RemoveSwapsRewriter()(d)
    m.wt(r, 'well-typed')
    m.eq([r.dom, r.cod], [d.dom, d.cod], 'types kept')
    m.true(not any(isinstance(b, Swap) for b in r.boxes), 'no swaps')
    words = [b for b in d.boxes if isinstance(b, Word)]
    new = [b for b in r.boxes if isinstance(b, Word)]
    m.eq(' '.join(b.name for b in new), ' '.join(b.name for b in words), 'the same words in order')
    m.true(len(new) == 1 or all(len(b.cod) > 0 for b in new) or any(len(b.cod) == 0 for b in words), 'no detached words')
    m.true(r.is_pregroup, 'a pregroup diagram')


@ob('P10', W + 'RemoveSwapsRewriter.matches', W + 'RemoveSwapsRewriter.rewrite', sym=False, n=100)
def remove_swaps_refuses(g, m):
    d = with_domain(g, sentence(g, boxes=g.bool('boxes'), swaps=True))
    try:
        r = RemoveSwapsRewriter()(d)
    except (ValueError, NotImplementedError):
        m.ok('refused')
        return
    m.wt(r, 'well-typed')
    m.eq([r.dom, r.cod], [d.dom, d.cod], 'types kept')
