"""P08: CCG types - algebra, printing, parsing, grammar types."""
from contracts.reg import ob
from lambeq.backend.grammar import Ty
from lambeq.text2diagram.ccg_type import CCGType, CCGParseError
from pyvc.rt import LoopSpec

C = 'lambeq.text2diagram.ccg_type.CCGType.'


def complexes(g):
    """(type, result, direction, argument) built by any of the constructors."""
    x, y = g.ccg('x'), g.ccg('y')
    k = g.choice('over', 'under', 'lshift', 'rshift', 'slash/', 'slash\\', 'init/', 'init\\')
    if k == 'over':
        return x.over(y), x, '/', y
    if k == 'under':
        return x.under(y), x, '\\', y
    if k == 'lshift':
        return x << y, x, '/', y
    if k == 'rshift':
        return y >> x, x, '\\', y
    d = k[-1]
    if k.startswith('slash'):
        return x.slash(d, y), x, d, y
    return CCGType(result=x, direction=d, argument=y), x, d, y


@ob('P08', C + 'over', C + 'under', C + 'slash', C + '__lshift__', C + '__rshift__', C + '__init__',
    C + 'result', C + 'argument', C + 'direction', C + 'left', C + 'right')
def constructors(g, m):
    t, x, d, y = complexes(g)
    m.eq(t.result, x, 'result')
    m.eq(t.direction, d, 'direction')
    m.eq(t.argument, y, 'argument')
    m.eq([t.is_over, t.is_under], [d == '/', d == '\\'], 'slash')
    m.eq([t.is_complex, t.is_atomic, t.is_empty], [True, False, False], 'kind')
    m.eq(t.left, x if d == '/' else y, 'left')
    m.eq(t.right, y if d == '/' else x, 'right')
    try:
        t.name
    except AttributeError:
        m.ok('no name')
    else:
        m.fail('a complex type has no name')


@ob('P08', C + '__init__', C + 'name', C + 'is_conjoinable', C + 'left', C + 'right')
def atoms(g, m):
    s = g.string('s')
    a, e = CCGType(s), CCGType()
    m.eq(a.name, s, 'name')
    m.eq([a.is_atomic, a.is_complex, a.is_empty, a.is_over, a.is_under], [True, False, False, False, False], 'atomic')
    m.eq([e.is_atomic, e.is_complex, e.is_empty, e.is_over, e.is_under], [False, False, True, False, False], 'empty')
    for t in (a, e):
        for f in ('result', 'argument', 'direction', 'left', 'right'):
            try:
                getattr(t, f)
            except AttributeError:
                m.ok('refused')
            else:
                m.fail('no parts')
    m.eq(a.is_conjoinable, s == 'conj' or s == 'punc', 'conjoinable')
    m.true(CCGType('conj').is_conjoinable and CCGType('punc').is_conjoinable and not CCGType('n').is_conjoinable, 'conj, punc')


# ------------------------------------------------------------- grammar types
@ob('P08', C + 'to_grammar')
def grammar_types(g, m):
    t, x, d, y = complexes(g)
    G = t.to_grammar()
    m.eq(G, x.to_grammar() @ y.to_grammar().l if d == '/' else y.to_grammar().r @ x.to_grammar(), 'complex type')
    s = g.string('s')
    m.eq(CCGType(s).to_grammar(), Ty(s), 'atomic type')
    m.eq(CCGType().to_grammar(), Ty(), 'empty type')
    m.eq(CCGType(s).to_grammar(Ty), Ty(s), 'given class of types')


class Spine(LoopSpec):
    """left @ G(the current type) @ right is the whole type and the base is
    still ahead on the result spine."""
    def __init__(self, t, base):
        self.t, self.base = t, base

    def inv(self, L, env, i, m):
        cats = [v for k, v in env.items() if isinstance(v, CCGType) and k in self.modified(L)]
        tys = [v for k, v in env.items() if isinstance(v, Ty) and k in self.modified(L)]
        assert len(cats) == 1 and len(tys) == 2
        left, right = tys
        spine(m, cats[0], self.base)
        if m.symbolic:
            from pyvc import ccg
            from pyvc.symg import ATy
            b = ccg.term(self.base)
            t, c = ccg.term(self.t), ccg.term(cats[0])
            m.eq(left @ ATy((ccg.left_of(c, b),)), ATy((ccg.left_of(t, b),)), 'left part so far')
            m.eq(ATy((ccg.right_of(c, b),)) @ right, ATy((ccg.right_of(t, b),)), 'right part so far')


def spine(m, t, base):
    """base is on the result spine of t; no empty type on the spine."""
    from pyvc import ccg
    m.true(ccg.SPINE(ccg.term(t), ccg.term(base)), 'base on the spine')
    ccg.on_spine(ccg.term(t), ccg.term(base))


@ob('P08', C + 'split')
def splitting(g, m):
    if m.symbolic:
        from pyvc.session import Assumer
        t, base = g.ccg('t'), g.ccg('base')
        spine(Assumer(), t, base)
    else:
        base = t = g.rccg('t')
        for _ in range(g.nat('deep', small=3)):
            base = base.result if base.is_complex else base
    g.invariant('CCGType.split', Spine(t, base))
    l, mid, r = CCGType.split(t, base)
    m.eq(mid, base.to_grammar(), 'middle is the base')
    if m.symbolic:
        from pyvc import ccg, symg
        a, b = ccg.term(t), ccg.term(base)
        m.eq(l, symg.ATy((ccg.left_of(a, b),)), 'left part')
        m.eq(r, symg.ATy((ccg.right_of(a, b),)), 'right part')
    m.eq(l @ mid @ r, t.to_grammar(), 'parts make up the whole')


# ------------------------------------------------------------- replacement
@ob('P08', C + 'replace')
def replacing(g, m):
    """Everywhere on the result and argument side, outermost match first."""
    t, o, r = g.rccg('t'), g.ccg('o'), g.ccg('r')
    if g.bool('same'):
        o = t
    x = t.replace(o, r)
    if t == o:
        m.eq(x, r, 'replaced')
    elif t.is_complex:
        m.eq([x.is_complex, x.direction], [True, t.direction], 'direction kept')
        m.eq(x.result, t.result.replace(o, r), 'replaced in the result')
        m.eq(x.argument, t.argument.replace(o, r), 'replaced in the argument')
    else:
        m.eq(x, t, 'atomic types have no parts')


DIRS = ['|', '/', '\\', '/|', '\\|', '|/', '|\\', '/\\', '\\/', '//']


@ob('P08', C + 'replace_result', n=600)
def replacing_result(g, m):
    t, o, r = g.rccg('t'), g.ccg('o'), g.ccg('r')
    d = g.choice(*DIRS)
    if g.bool('same') and t.is_complex:
        o = t.result
    x, old = t.replace_result(o, r, d)
    if not t.is_complex:
        m.true(old is None, 'nothing to replace')
        m.eq(x, t, 'unchanged')
        return
    res = t.result
    inner = d[-1] == '|' or t.direction == d[-1]
    here = d[0] == '|' or t.direction == d[0]
    deeper = None
    if res.is_complex and not (res == o) and inner:
        deeper = res.replace_result(o, r, d)
    if deeper is not None and deeper[1] is not None:
        m.true(old is not None, 'replaced further in')
        m.eq(x, deeper[0].slash(t.direction, t.argument), 'replaced further in')
        m.eq(old, deeper[1], 'what was replaced')
    elif here:
        m.true(old is not None, 'the result is replaced')
        m.eq(x, r.slash(t.direction, t.argument), 'the result is replaced')
        m.eq(old, res, 'what was replaced')
    else:
        m.true(old is None, 'no replacement')
        m.eq(x, t, 'unchanged')


@ob('P08', C + 'replace_result')
def replacing_result_types(g, m):
    """The grammar type changes in place: L @ old @ R becomes L @ new @ R."""
    t, o, r = g.rccg('t'), g.ccg('o'), g.ccg('r')
    d = g.choice('/', '\\', '|', '/|', '\\|')
    x, old = t.replace_result(o, r, d)
    if old is None:
        return
    l, mid, r_ = parts(m, t, old)
    m.eq(l @ mid @ r_, t.to_grammar(), 'old type')
    m.eq(l @ r.to_grammar() @ r_, x.to_grammar(), 'new type')
    if d == '/':
        m.eq(l, Ty(), 'nothing on the left')
    if d == '\\':
        m.eq(r_, Ty(), 'nothing on the right')


def parts(m, t, old):
    if not m.symbolic:
        return t.split(old)
    import z3
    from pyvc import ccg
    from pyvc.core import ctx
    a, b = ccg.term(t), ccg.term(old)
    res = ccg.term(t.result)
    m.true(z3.Or(res == b, ccg.SPINE(res, b)), 'old on the result spine')
    ctx().add(ccg.SPINE(res, b))
    ctx().add(ccg.SPINE(a, b))          # the definition of SPINE
    return ccg.split(t, old)


@ob('P08', C + 'replace_result')
def replacing_result_finds(g, m):
    """What is there is found: C[o] becomes C[r] when C has the slashes asked for."""
    from contracts.p09 import in_context
    o, r, y = g.ccg('o'), g.ccg('r'), g.ccg('y')
    d = g.choice('/', '\\', '|', '/|', '\\|')
    e = g.choice('/', '\\')
    if g.bool('base'):
        a, b, k = o, r, d[0]
    else:
        a, b = in_context(g, o, r, d)
        k = d[-1]
    g.assume(k == '|' or k == e)
    t = a.slash(e, y)
    x, old = t.replace_result(o, r, d)
    m.eq(old, o, 'found')
    m.eq(x, b.slash(e, y), 'replaced')


@ob('P08', C + 'replace_result', sym=False, n=100)
def directions_checked(g, m):
    t, o, r = g.rccg('t'), g.ccg('o'), g.ccg('r')
    for d in ('', '123', 'x', '/x', '///'):
        try:
            t.replace_result(o, r, d)
        except ValueError:
            m.ok('refused')
        else:
            m.fail('malformed direction accepted', d)


# ------------------------------------------------------------- printing
def show(t, pretty=False):
    """Printed form, written independently."""
    if t.is_atomic:
        return t.name
    a, b = [f'({show(x, pretty)})' if x.is_complex else show(x, pretty) for x in (t.result, t.argument)]
    if pretty:
        return a + '↢' + b if t.is_over else b + '↣' + a
    return a + t.direction + b


def bracketed(x, pretty):
    s = x.to_string(pretty)
    return '(' + s + ')' if x.is_complex else s


@ob('P08', C + 'to_string', C + '__str__', C + '__repr__')
def printing(g, m):
    t, x, d, y = complexes(g)
    pretty = g.bool('pretty')
    a, b = bracketed(x, pretty), bracketed(y, pretty)
    s = t.to_string(pretty)
    if not pretty:
        m.eq(s, a + d + b, 'complex type')
        m.eq(str(t) if not m.symbolic else t.__str__(), s, 'str')
    else:
        m.eq(s, a + '↢' + b if d == '/' else b + '↣' + a, 'complex type with arrows')
    n = g.string('n')
    m.eq(CCGType(n).to_string(pretty), n, 'atomic type')
    if not m.symbolic:
        u = g.rccg('u')
        if not u.is_empty:
            m.eq(u.to_string(pretty), show(u, pretty), 'whole type')
            m.eq(repr(u), f'CCGType({show(u)})', 'repr')


# ------------------------------------------------------------- parsing
class Text:
    """Printed types: facts about the strings STR(t) (printing) and
    PSTR(t) (with brackets unless atomic)."""
    @staticmethod
    def brack(t):
        """PSTR(t), by cases."""
        from pyvc import ccg, rt
        from pyvc.core import mkstr, ctx
        import z3
        if rt.truth(t.is_atomic):
            ctx().add(ccg.STR(ccg.term(t)) == ccg.CCG.nm(ccg.term(t)))
            return mkstr(ccg.STR(ccg.term(t)))
        return '(' + mkstr(ccg.STR(ccg.term(t))) + ')'


def following(g, also='/\\'):
    """What may come after a type: nothing, or a bracket or slash."""
    k = g.choice('', ')', *also)
    return '' if k == '' else k + g.string('tail')


def mapping(g):
    """map_atomic and its effect on a name."""
    if not g.bool('map'):
        return None, lambda s: s
    return (lambda s: s + '!'), (lambda s: s + '!')


def roundtrip(g, m, t):
    s = t.to_string()
    m.eq(CCGType.parse(s), t, 'printing and parsing')
    m.eq(CCGType.parse('(' + s + ')'), t, 'brackets')
    m.eq(CCGType.parse(s + '[conj]'), t >> t, 'conjunct')
    f = {'n': 'np'}
    m.eq(CCGType.parse(s, map_atomic=lambda x: f.get(x, x)), t.replace(CCGType('n'), CCGType('np')), 'mapped names')


def atomic_text(g, m, symbolic):
    import z3
    from pyvc import ccg
    from pyvc.core import zs, zi, ctx
    from pyvc import rt
    pre, name, rest = g.string('pre'), g.string('name'), following(g)
    cat = pre + name + rest
    ccg.name_ok(zs(name), zs(cat), zi(rt.len(pre)))
    end = rt.len(pre) + rt.len(name)
    if len(rest) > 0:                   # lemma: the character after the name
        m.eq(cat[end], rest[0], 'what follows the name')
        ctx().add(z3.SubString(zs(cat), zi(end), 1) == zs(rest[0]))
    return cat, rt.len(pre), name


class Scan(LoopSpec):
    """The scan stays within the name."""
    def __init__(self, start, name):
        self.start, self.name = start, name

    def inv(self, L, env, i, m):
        from pyvc import rt
        for k in self.modified(L):
            if k in env:
                m.true(env[k] >= self.start, 'not before the name')
                m.true(env[k] <= self.start + rt.len(self.name), 'not after the name')


@ob('P08', C + '_parse_clean', n=20)
def parse_names(g, m):
    if not m.symbolic:
        return roundtrip(g, m, CCGType(g.string('n')))
    from pyvc import rt
    cat, start, name = atomic_text(g, m, True)
    fn, eff = mapping(g)
    g.invariant('CCGType._parse_clean', Scan(start, name))
    t, end = CCGType._parse_clean(cat, start, fn)
    m.eq(t, CCGType(eff(name)), 'the atomic type')
    m.eq(end, start + rt.len(name), 'position after it')


def parser_contract(g, m, name, expect):
    """Callee contract: text of t at the given start parses to t."""
    def fn(cat, start, map_atomic=None):
        from pyvc import rt
        for (s, text, t, follow) in expect:
            if rt.truth(start == s):
                m.eq(cat[start:][:rt.len(text)], text, name + ' called on the text of a type')
                m.check('proved' if map_atomic is mapper[0] else 'refuted', 'another map_atomic', 'map_atomic passed on')
                rest = cat[start + rt.len(text):]
                m.true(rest == '' or rt.contains(rest[0], follow), name + ' called on a complete type')
                return t, start + rt.len(text)
        raise AssertionError('parsing something else')
    mapper = [None]
    g.contract(CCGType, name, staticmethod(fn))
    return mapper


@ob('P08', C + '_parse_clean', n=150)
def parse_brackets(g, m):
    if not m.symbolic:
        return roundtrip(g, m, g.ccg('t', depth=3))
    from pyvc import rt
    t = g.ccg('t')
    pre, s, rest = g.string('pre'), t.to_string(), following(g)
    g.assume(len(s) > 0)
    start = rt.len(pre)
    cat = pre + '(' + s + ')' + rest
    mp = parser_contract(g, m, '_parse_compound', [(start + 1, s, t, ')')])
    mp[0] = g.choice(None, str)
    r, end = CCGType._parse_clean(cat, start, mp[0])
    m.eq(r, t, 'the type in brackets')
    m.eq(end, start + rt.len(s) + 2, 'position after the bracket')


@ob('P08', C + '_parse_compound', n=150)
def parse_slashes(g, m):
    if not m.symbolic:
        return roundtrip(g, m, g.ccg('t', depth=3))
    from pyvc import rt
    pre, rest = g.string('pre'), following(g, also='')
    start = rt.len(pre)
    if g.bool('complex'):
        t, x, d, y = complexes(g)
        a, b = Text.brack(x), Text.brack(y)
        cat = pre + a + d + b + rest
        mp = parser_contract(g, m, '_parse_clean', [(start, a, x, '/\\)'), (start + rt.len(a) + 1, b, y, '/\\)')])
        s = a + d + b
    else:
        t = g.ccg('t')
        s = Text.brack(t)
        cat = pre + s + rest
        mp = parser_contract(g, m, '_parse_clean', [(start, s, t, '/\\)')])
    mp[0] = g.choice(None, str)
    r, end = CCGType._parse_compound(cat, start, mp[0])
    m.eq(r, t, 'the type')
    m.eq(end, start + rt.len(s), 'position after it')


@ob('P08', C + 'parse', n=150)
def parse_all(g, m):
    if not m.symbolic:
        return roundtrip(g, m, g.ccg('t', depth=3))
    t = g.ccg('t')
    s = t.to_string()
    mp = parser_contract(g, m, '_parse_compound', [(0, s, t, ')')])
    mp[0] = g.choice(None, str)
    if g.bool('conjunct'):
        m.eq(CCGType.parse(s + '[conj]', mp[0]), t >> t, 'conjunct')
        return
    g.assume(not s.endswith('[conj]'))
    m.eq(CCGType.parse(s, mp[0]), t, 'whole text')


# refusal: nothing but CCGParseError, whatever the text
def progress(g, m, name):
    """Callee contract for arbitrary text: refuses, or consumes something and stays in the text."""
    def fn(cat, start, map_atomic=None):
        from pyvc import rt
        from pyvc.core import ctx
        m.true(0 <= start, 'start is a position')
        if g.choice(0, 1):
            raise CCGParseError(cat, 'refused')
        g.assume(start < rt.len(cat))
        end = g.int('end', lo=start + 1, hi=rt.len(cat))
        return g.ccg('t'), end
    g.contract(CCGType, name, staticmethod(fn))


class Onwards(LoopSpec):
    def __init__(self, cat, start):
        self.cat, self.start = cat, start

    def inv(self, L, env, i, m):
        from pyvc import rt
        from pyvc.core import zi
        for k in self.modified(L):
            if k in env:
                m.true(env[k] >= self.start, 'not before the start')
                m.true(env[k] <= rt.len(self.cat), 'not after the end')


def total(name):
    def h(g, m):
        if not m.symbolic:
            return malformed(g, m)
        from pyvc import rt
        cat, start = g.string('cat'), g.nat('start')
        g.assume(start <= rt.len(cat))
        progress(g, m, '_parse_clean' if name == '_parse_compound' else '_parse_compound')
        if name == '_parse_clean':
            g.invariant('CCGType._parse_clean', Onwards(cat, start))
        try:
            t, end = getattr(CCGType, name)(cat, start)
        except CCGParseError:
            m.ok('refused')
            return
        m.true(end <= rt.len(cat), 'stays in the text')
        m.true(end > start, 'consumes something')
    return h


ob('P08', C + '_parse_clean', n=300, name='parse_refuses')(total('_parse_clean'))
ob('P08', C + '_parse_compound', n=50, name='parse_refuses_slashes')(total('_parse_compound'))


def recognise(s):
    """Independent recogniser: the CCG type of a text, or None."""
    conj = s.endswith('[conj]')
    s = s[:-6] if conj else s
    pos = 0

    def clean():
        nonlocal pos
        if pos < len(s) and s[pos] == '(':
            pos += 1
            t = compound()
            if t is None or pos >= len(s) or s[pos] != ')':
                return None
            pos += 1
            return t
        a = pos
        while pos < len(s) and s[pos] not in '/\\()':
            pos += 1
        return CCGType(s[a:pos]) if pos > a else None

    def compound():
        nonlocal pos
        t = clean()
        if t is not None and pos < len(s) and s[pos] in '/\\':
            d = s[pos]
            pos += 1
            u = clean()
            return None if u is None else t.slash(d, u)
        return t
    t = compound()
    if t is None or pos != len(s):
        return None
    return CCGType(result=t, direction='\\', argument=t) if conj else t


def malformed(g, m):
    s = ''.join(g.choice('(', ')', '/', '\\', 'n', 's', 'np', ' ', '[conj]') for _ in range(g.nat('len', small=7)))
    g.note('text', s)
    want = recognise(s)
    try:
        t = CCGType.parse(s)
    except CCGParseError:
        m.true(want is None, 'well-formed text is accepted')
    else:
        m.true(want is not None, 'malformed text is refused')
        m.eq(t, want, 'meaning of the text')


@ob('P08', C + 'parse', C + 'to_string', sym=False, n=600)
def texts(g, m):
    roundtrip(g, m, g.ccg('t', depth=5))
    malformed(g, m)
