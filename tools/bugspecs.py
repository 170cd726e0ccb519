"""Realistic bugs planted in scratch copies (see plant.py).  Each spec names the
property it breaks, the edit, and a demonstration."""
GRAM = 'lambeq/backend/grammar.py'
BUGS = []


def bug(id, property, needs, breaks, demo, *subs):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, subs=list(subs)))


bug('p01_rotate_far', 'P01', 'an odd rotation by more than one step of a composite type',
    'rotating a composite type by 3 (or -3) no longer reverses its wires, so rotations do not add up',
    '''
from lambeq.backend.grammar import Ty
t = Ty('a') @ Ty('b') @ Ty('c')
assert t.rotate(3) == t.r.r.r, (t.rotate(3), t.r.r.r)
assert t.rotate(-3) == t.l.l.l
''', (GRAM, '            objects = reversed(self.objects) if z % 2 == 1 else self.objects\n            return type(self)(',
      '            objects = reversed(self.objects) if z in (1, -1) else self.objects\n            return type(self)('))

bug('p01_rotate_cancel', 'P01', 'a composite type whose wires have mixed winding numbers, tensored with its own adjoint',
    'replace at the last position of a composite type with an empty type keeps the wire',
    '''
from lambeq.backend.grammar import Ty
t = Ty('a') @ Ty('b').l @ Ty('c')
r = t.replace(Ty(), 2)
assert r == Ty('a') @ Ty('b').l, r
''', (GRAM, "                objects = objects[:index] + [*other] + objects[index+1:]\n\n            return self._fromiter(objects)",
      "                objects = (objects[:index] + (list(other) or objects[index:index+1])\n                           + objects[index+1:])\n\n            return self._fromiter(objects)"))

bug('p02_compose_identity', 'P02', 'composing with an identity on the wrong type',
    'composition with an identity diagram of a different type is accepted and yields an ill-typed diagram',
    '''
from lambeq.backend.grammar import Ty, Box, Id
n, s = Ty('n'), Ty('s')
f = Box('f', n, s)
try:
    d = f >> Id(n)
except ValueError:
    pass
else:
    raise AssertionError(f'{d.cod}')
''', (GRAM, '            if diagram.dom != cod:\n                raise ValueError', '            if diagram.dom != cod and diagram.layers:\n                raise ValueError'))

bug('p02_empty_slice', 'P02', 'an empty slice that starts beyond the front of the diagram',
    'an empty slice starting at minus the number of layers is an identity on the wrong wires',
    '''
from lambeq.backend.grammar import Ty, Box
a, b, c = map(Ty, 'abc')
d = Box('f', a, b) >> Box('g', b, c)
assert d[-3:0].dom == a and d[1:1].dom == b and d[-1:-1].dom == b and d[2:2].dom == c
assert d[-1:1].dom == b, d[-1:1].dom
''', (GRAM, '                return self.id(self.layers[key.start or 0].dom)', '                return self.id(self.layers[key.stop or 0].dom\n                               if (key.start or 0) >= 0\n                               else self.layers[key.start].cod)'))

bug('p03_swap_rotate', 'P03', 'rotating a swap by an odd amount other than one step',
    'a swap rotated by 3 has its two wires in the wrong order',
    '''
from lambeq.backend.grammar import Ty, Swap
n, s = Ty('n'), Ty('s')
w = Swap(n, s)
assert w.rotate(-3) == w.l.l.l and w.rotate(3) == w.r.r.r
assert w.rotate(3).dom == w.dom.rotate(3)
''', (GRAM, '''        """Rotate the swap."""
        if z % 2 == 1:''', '''        """Rotate the swap."""
        if z * z == 1:'''))

bug('p02_curry_right', 'P02', 'currying all the wires of a domain to the right',
    'right currying of all the wires of the domain keeps none of them in the exponent',
    '''
from lambeq.backend.grammar import Ty, Box
n, s = Ty('n'), Ty('s')
f = Box('f', n @ s, n)
d = f.to_diagram().curry(2, left=False)
assert d.dom == Ty() and d.cod == (n @ s).r @ n, (d.dom, d.cod)
''', (GRAM, '            base, exponent = self.dom[n:], self.dom[:n]\n', '            base, exponent = self.dom[n:], self.dom[:n or None]\n            if not base:\n                base, exponent = exponent, base\n'))

bug('p04_permutation', 'P04', 'a permutation that places a wire while wires on its left are still unplaced',
    'permutations of four or more wires can fail or send wires to the wrong place',
    '''
from itertools import permutations
from lambeq.backend.grammar import Ty, Diagram
dom = Ty().tensor(*[Ty(x) for x in 'abcd'])
for p in permutations(range(4)):
    d = Diagram.permutation(dom, list(p))
    assert [str(d.cod[i]) for i in range(4)] == [str(dom[p[i]]) for i in range(4)], p
''', (GRAM, '            for i in range(permutation[out_index]):\n                wire_index[i] += 1', '            for i in range(max(0, permutation[out_index] - 2),\n                           permutation[out_index]):\n                wire_index[i] += 1'))

bug('p05_far_winding', 'P05', 'a functor applied to a wire with a winding number beyond two',
    'the image of a wire with winding number 3 has winding number 1',
    '''
from lambeq.backend.grammar import Ty, Functor, grammar
n, a, b = Ty('n'), Ty('a'), Ty('b')
F = Functor(grammar, lambda f, t: a @ b, lambda f, x: x)
assert F(n.l.l.l) == (a @ b).l.l.l, F(n.l.l.l)
assert F(n.r.r.r) == (a @ b).r.r.r
''', (GRAM, '            return functor(self.unwind()).rotate(self.z)\n        else:\n            return functor.ob(self)', '            return functor(self.unwind()).rotate(self.z if abs(self.z) < 3\n                                                 else self.z % 2)\n        else:\n            return functor.ob(self)'))

bug('p05_cup_reversed', 'P05', 'a functor applied to a reversed cap',
    'the image of a reversed cap forgets that it is reversed',
    '''
from lambeq.backend.grammar import Ty, Functor, grammar, Cap, Box
n, a = Ty('n'), Ty('a')
F = Functor(grammar, lambda f, t: a, lambda f, x: x)
c = Cap(n, n.r, is_reversed=True)
r = F(c)
assert r.dom == Ty() and r.cod == a @ a.r
assert F(c.rotate(2)).cod == F(c.cod.rotate(2))
assert r == Cap(a, a.r, is_reversed=True)
assert F(c.dagger()).dom == F(c.dagger().dom)
''', (GRAM, '''        return functor.target_category.Diagram.special_boxes['cap'](
            functor(self.left),
            functor(self.right),
            is_reversed=bool(self.z)
        )''', '''        return functor.target_category.Diagram.special_boxes['cap'](
            functor(self.left),
            functor(self.right),
            is_reversed=bool(self.z) and self.left.z > 0
        )'''))

# ------------------------------------------------------------------ P06
bug('p06_reversed_cup', 'P06', 'a reversed cup or cap whose wire already has a positive winding number',
    'the JSON form of a reversed cup on far-wound wires forgets that it is reversed',
    '''
from lambeq.backend.grammar import Ty, Cap, Diagram
n = Ty('n')
for t in (n, n.r, n.r.r, n.l, n.l.l):
    c = Cap(t, t.r, is_reversed=True)
    assert Cap.from_json(c.to_json()) == c, c
    assert Diagram.from_json(c.to_diagram().to_json()) == c.to_diagram()
''', (GRAM, """    def to_json(self, is_top_level: bool = True) -> _JSONDictT:
        data_dict: _JSONDictT = {'entity': self.__class__.__name__,
                                 'is_reversed': bool(self.z)}

        for attr in ('left', 'right'):
            data_dict[attr] = getattr(self, attr).to_json(is_top_level=False)

        if is_top_level:
            data_dict['category'] = self.category.name

        return data_dict

    __repr__ = Box.__repr__
    __hash__ = Box.__hash__


@Diagram.register_special_box('cup')""", """    def to_json(self, is_top_level: bool = True) -> _JSONDictT:
        data_dict: _JSONDictT = {'entity': self.__class__.__name__,
                                 'is_reversed': bool(self.z)
                                 and self.left.z <= 1}

        for attr in ('left', 'right'):
            data_dict[attr] = getattr(self, attr).to_json(is_top_level=False)

        if is_top_level:
            data_dict['category'] = self.category.name

        return data_dict

    __repr__ = Box.__repr__
    __hash__ = Box.__hash__


@Diagram.register_special_box('cup')"""))

bug('p06_winding_order', 'P06', 'a composite type that mixes winding numbers beyond one step',
    'decoding a composite type forgets winding numbers of wires beyond two steps',
    '''
from lambeq.backend.grammar import Ty
n, s = Ty('n'), Ty('s')
for t in (n.l.l.l @ s, s @ n.r.r.r, n.l.l.l, n.r @ s.r.r.r.r):
    assert Ty.from_json(t.to_json()) == t, t
''', (GRAM, """        data_dict: _JSONDictT = {
            'entity': self.__class__.__name__,
            'name': self.name,
            'objects': [obj.to_json(is_top_level=False)
                        for obj in self.objects],
            'z': self.z
        }""", """        data_dict: _JSONDictT = {
            'entity': self.__class__.__name__,
            'name': self.name,
            'objects': [obj.to_json(is_top_level=False)
                        for obj in self.objects],
            'z': self.z if is_top_level else max(-2, min(2, self.z))
        }"""))

# ------------------------------------------------------------------ P07
SNAKE = 'lambeq/backend/snake_removal.py'
bug('p07_obstruction', 'P07', 'a left snake with a box to the left after two connected boxes to the right of the wire',
    'removing a snake with obstructions on both sides moves the wrong box',
    '''
import itertools
from lambeq.backend.grammar import Ty, Box, Id, Cup, Cap, Diagram
n, s = Ty('n'), Ty('s')
a, b, c = Box('a', s, s), Box('b', s, s), Box('c', s, s)
for order in itertools.permutations('abc'):
    d = Id(s @ n @ s @ s)
    d = d.then_at(Cap(n.r, n), 2)          # s n n.r n s s
    for x in order:
        d = d.then_at({'a': a, 'b': b, 'c': c}[x], {'a': 0, 'b': 4, 'c': 4}[x])
    d = d.then_at(Cup(n, n.r), 1)
    r = d.normal_form()
    assert sorted(x.name for x in r.boxes) == ['a', 'b', 'c'], (order, r)
    assert r.dom == d.dom and r.cod == d.cod
''', (SNAKE, """                for i, right_box in enumerate(right_obstruction):
                    if right_box < box:
                        right_obstruction[i] += 1
                cap += 1""", """                for i, right_box in enumerate(right_obstruction[:1]):
                    if right_box < box:
                        right_obstruction[i] += 1
                cap += 1"""))

# ------------------------------------------------------------------ P08
CTY = 'lambeq/text2diagram/ccg_type.py'
bug('p08_print_argument', 'P08', 'a complex argument whose own argument is complex',
    'printing drops the brackets of a doubly nested argument, so that it no longer parses to the same type',
    r'''
from lambeq.text2diagram.ccg_type import CCGType
a, b, c, d = map(CCGType, 'abcd')
for t in (a << (b << (c << d)), a << (b >> c), (a >> b) >> (c << d), a >> ((b << c) >> d),
          a << ((b << c) << (d << a)), a << ((b >> c) << (d << a)), ((d << a) << (b << c)) >> a):
    assert CCGType.parse(str(t)) == t, str(t)
''', (CTY, """            if self.argument.is_complex:
                argument = f'({argument})'""", """            if self.argument.is_complex and not (argument[0] == '('
                                                 and argument[-1] == ')'):
                argument = f'({argument})'"""))

bug('p08_replace_inside', 'P08', 'an occurrence of the original inside the argument of a type whose result contains it too',
    'replacing a subtype leaves occurrences in the argument alone when the result was changed',
    '''
from lambeq.text2diagram.ccg_type import CCGType
n, s, p = CCGType('NP'), CCGType('S'), CCGType('N')
t = (n << s) << (n >> s)
assert t.replace(n, p) == (p << s) << (p >> s), t.replace(n, p)
''', (CTY, """            new_argument = self.argument.replace(original, replacement)
            return""", """            new_argument = self.argument
            if new_result == self.result or not new_argument.is_complex:
                new_argument = new_argument.replace(original, replacement)
            return"""))

# ------------------------------------------------------------------ P09
RULE = 'lambeq/text2diagram/ccg_rule.py'
bug('p09_generalised_backward', 'P09', 'generalised backward composition over a complex middle category',
    'the diagram of generalised backward composition keeps the wrong wires when the shared category has several wires',
    '''
from lambeq.text2diagram.ccg_rule import CCGRule
from lambeq.text2diagram.ccg_type import CCGType
a, b, c, d, x = map(CCGType, 'abcdx')
mid = a >> b
left, right, cod = d >> (c >> (x >> mid)), mid >> x, d >> (c >> (x >> x))
assert CCGRule.infer_rule([left, right], cod) == CCGRule.GENERALIZED_BACKWARD_COMPOSITION
r = CCGRule.GENERALIZED_BACKWARD_COMPOSITION([left, right], cod)
assert r.dom == left.to_grammar() @ right.to_grammar()
assert r.cod == cod.to_grammar(), (r.cod, cod.to_grammar())
''', (RULE, """            mid = right.argument.to_grammar()
            return (Id(left.to_grammar()[:-len(mid)])""", """            mid = right.argument.to_grammar()
            return (Id(left.to_grammar()[:-len(left.right.right.to_grammar())])"""))

bug('p09_infer_crossed', 'P09', 'categories that match forward crossed composition except for the argument of the second',
    'forward crossed composition is inferred although the categories do not fit',
    '''
from lambeq.text2diagram.ccg_rule import CCGRule
from lambeq.text2diagram.ccg_type import CCGType
x, y, z, w = map(CCGType, 'xyzw')
assert CCGRule.infer_rule([x << y, z >> y], z >> x) == CCGRule.FORWARD_CROSSED_COMPOSITION
for l, r, c in [(x << y, z >> w, z >> x), (x << y, (z >> y) >> w, (z >> y) >> x)]:
    rule = CCGRule.infer_rule([l, r], c)
    assert rule == CCGRule.UNKNOWN, rule
''', (RULE, "                    if right.is_under and lr == rr and cod == rl >> ll:", "                    if (right.is_under and cod == rl >> ll\n                            and (lr == rr or lr.is_atomic)):"))

# ------------------------------------------------------------------ P10
BASE = 'lambeq/rewrite/base.py'
bug('p10_curry_zero', 'P10', 'a box whose outputs to the left are wires of positive winding followed by a wire with winding zero',
    'currying a box stops at the wrong wire, so that its outer wires end up elsewhere',
    '''
from lambeq.backend.grammar import Ty, Box, Word
from lambeq.rewrite import CurryRewriteRule, Rewriter
n, s = Ty('n'), Ty('s')
for cod in (n.r @ s @ n.l, n.r.r @ n.r @ s, s @ n.l @ n.l.l, n.r @ n.l, n.r @ s.r, n.l, n.r.r):
    w = Word('w', cod)
    d = Rewriter([CurryRewriteRule()])(w.to_diagram())
    assert (d.dom, d.cod) == (Ty(), cod), (cod, d)
    c = d.dom
    for l in d.layers:
        assert l.dom == c
        c = l.cod
    assert c == cod
    b = [b for b in d.boxes if b.name == 'w'][0]
    assert all(x.z == 0 for x in b.cod) , (cod, b.cod)
''', (BASE, "        while j >= 0 and cod[j].z < 0:", "        while j > i and cod[j].z < 0:"))

bug('p10_coordination', 'P10', 'a conjunction of a composite type whose left and right adjoints are in the other order',
    'coordination also rewrites words of type a.l @ a @ a.r, for which the caps do not exist',
    '''
from lambeq.backend.grammar import Ty, Word
from lambeq.rewrite import CoordinationRewriteRule, Rewriter
n, s = Ty('n'), Ty('s')
for t in (n.l @ n @ n.r, n.r @ n @ n.r, n.l @ n @ n.l, (n.r @ s).r @ (n.r @ s) @ (n.r @ s).l):
    w = Word('and', t)
    d = Rewriter(['coordination'])(w.to_diagram())
    assert d.cod == t, (d.cod, t)
    c = d.dom
    for l in d.layers:
        assert l.dom == c
        c = l.cod
    assert c == t
''', (BASE, "            return bool(right.r == mid == left.l)", "            return bool(mid in (right.r, right.l) and mid in (left.l, left.r))"))

RD = 'lambeq/rewrite/rewrite_diagram.py'
# ------------------------------------------------------------------ P13
SYMB = 'lambeq/backend/symbol.py'
QUA = 'lambeq/backend/quantum.py'
bug('p13_controlled_far', 'P13', 'binding a symbolic gate controlled by a qubit further down, nested in another controlled gate',
    'binding a controlled gate moves its control to the other side when the gate under the control is a controlled gate too',
    '''
from lambeq.backend.quantum import Rx, Controlled, Id
from lambeq.backend.symbol import Symbol
a = Symbol('a')
g = Controlled(Controlled(Rx(a), -1), -2)
r = g.to_diagram().lambdify(a)(.25).boxes[0]
assert (r.distance, r.controlled.distance, r.controlled.controlled.data) == (-2, -1, .25), (r.distance, r.controlled.distance)
assert Controlled(Rx(a), -2).lambdify(a)(.5).distance == -2
''', (QUA, "        return lambda *xs: type(self)(c_fn(*xs), distance=self.distance)", '''        def bound(*xs):
            controlled = c_fn(*xs)
            distance = (abs(self.distance)
                        if isinstance(controlled, Controlled)
                        else self.distance)
            return type(self)(controlled, distance=distance)

        return bound'''))

# ------------------------------------------------------------------ P16
DS = 'lambeq/training/dataset.py'
bug('p16_count', 'P16', 'a number of examples just above a multiple of the batch size',
    'the advertised number of batches is one too small when the last batch holds less than half of the batch size',
    '''
from lambeq.training import Dataset
for n in range(1, 12):
    for b in range(1, 12):
        ds = Dataset(list(range(n)), list(range(n)), b)
        assert len(list(ds)) == ds.batches_per_epoch, (n, b)
''', (DS, "        self.batches_per_epoch = ceil(len(self.data) / self.batch_size)", "        self.batches_per_epoch = max(1, int(len(self.data) / self.batch_size + .5))"))

# ------------------------------------------------------------------ P19
bug('p19_repeated_word', 'P19', 'a sentence in which a word occurs twice',
    'the spiders reader keeps only one box for each distinct word',
    '''
from lambeq import spiders_reader
for s in ('a b', 'a b a', 'b b'):
    d = spiders_reader.sentence2diagram(s)
    assert [b.name for b in d.boxes[:-1]] == s.split(), d
''', ('lambeq/text2diagram/spiders_reader.py', 'words = [Word(word, S) for word in sentence]', 'words = [Word(word, S) for word in dict.fromkeys(sentence)]'))

bug('p19_split', 'P19', 'a sentence with two blanks or a tab between words',
    'the linear readers split at single blanks only, so runs of blanks yield empty words',
    '''
from lambeq import stairs_reader
d = stairs_reader.sentence2diagram('a  b\\tc ')
assert [b.name for b in d.boxes] == ['a', 'b', 'c', 'STAIR', 'STAIR'], d
''', ('lambeq/text2diagram/linear_reader.py', 'sentence = sentence.split()', "sentence = sentence.split(' ')"))

bug('p19_unary', 'P19', 'a derivation with a unary rule (type raising) below a binary one',
    'the box of a unary node expects two wires',
    '''
from lambeq import CCGRule, CCGTree, TreeReader
from lambeq.text2diagram.ccg_type import CCGType
N, S = CCGType.NOUN, CCGType.SENTENCE
a, b = CCGTree('a', biclosed_type=N), CCGTree('b', biclosed_type=S.under(N))
up = CCGTree(rule=CCGRule.FORWARD_TYPE_RAISING, biclosed_type=S.over(S.under(N)), children=[a])
t = CCGTree(rule=CCGRule.FORWARD_APPLICATION, biclosed_type=S, children=[up, b])
d = TreeReader.tree2diagram(t)
assert [x.name for x in d.boxes if x.name != 'UNIBOX'] == ['a', 'b']
''', ('lambeq/text2diagram/tree_reader.py', "dom = word_type ** len(tree.children)", "dom = word_type ** max(2, len(tree.children))"))

bug('p13_double_negation', 'P13', 'negating a symbol whose scale is already negative',
    'the dagger of the dagger of a symbolic rotation keeps the negative sign',
    '''
from lambeq.backend.quantum import Rz
from lambeq.backend.symbol import Symbol
a = Symbol('a')
assert Rz(a * .5).dagger().dagger().lambdify(a)(.25).data == .125
assert (-(a * -3)).scale == 3
''', (SYMB, "                      -self.scale)", "                      -abs(self.scale))"))

bug('p16_last_single', 'P16', 'a dataset whose size is one more than a multiple of a batch size above one',
    'a final batch that would hold a single example is dropped',
    '''
from lambeq.training import Dataset
for n in range(1, 9):
    for b in range(1, 9):
        ds = Dataset(list(range(n)), list(range(n)), b, shuffle=False)
        assert [x for xs, _ in ds for x in xs] == list(range(n)), (n, b)
''', (DS, "        for start_idx in range(0, len(self.data), self.batch_size):", "        for start_idx in range(0, max(1, len(self.data) - (self.batch_size > 1)), self.batch_size):"))

# ------------------------------------------------------------------ P12
TEN = 'lambeq/backend/tensor.py'
bug('p12_control_above', 'P12', 'a control below a single-qubit target with at least one wire between them',
    'a control several wires below its target acts on the neighbouring wire instead',
    '''
import numpy as np
from lambeq.backend.quantum import Controlled, X, Rx, Ket, qubit
g = Controlled(X, -2).array                # target first, control last
for a in (0, 1):
    for b in (0, 1):
        for c in (0, 1):
            want = np.zeros((2, 2, 2)); want[a ^ c, b, c] = 1
            assert np.allclose(g[a, b, c], want), (a, b, c)
''', (QUA, "            pattern = [n_qubits - 1, *range(n_qubits - 1)]", "            pattern = [n_qubits - 1,\n                       *range(skipped_qbs, n_qubits - 1),\n                       *range(skipped_qbs)]"))

bug('p12_far_rotation', 'P12', 'rotating a gate by four half turns or more',
    'an Rx or Rz gate rotated by a multiple of four is replaced by its dagger',
    '''
import numpy as np
from lambeq.backend.quantum import Rx, Rz
for G in (Rx, Rz):
    assert np.allclose(G(.3).rotate(4).array, G(.3).array)
    assert np.allclose(G(.3).rotate(-4).array, G(.3).array)
''', (QUA, "        if z % 2 == 0:\n            return self\n        return self.dagger()", "        if z in (-2, 0, 2):\n            return self\n        return self.dagger()"))

bug('p12_conjugate_outputs', 'P12', 'the conjugate of a box with several outputs',
    'the conjugate of a box reverses its inputs but not its outputs',
    '''
import numpy as np
from lambeq.backend.quantum import Box, qubit, Ty
a = np.arange(4).reshape(2, 2) * (1 + 2j)
assert np.allclose(Box('f', Ty(), qubit @ qubit, a).l.array, a.conj().T)
b = np.arange(8).reshape(2, 2, 2) * 1j
assert np.allclose(Box('f', qubit, qubit @ qubit, b).r.array, b.conj().transpose(0, 2, 1))
''', (TEN, "                                [len(dom) - i - 1\n                                    for i in range(len(dom @ cod))])", "                                [len(dom) - i - 1 if i < len(dom) else i\n                                    for i in range(len(dom @ cod))])"))

# ------------------------------------------------------------------ P21
bug('p21_adjoint_axes', 'P21', 'the dagger of a box with more inputs than outputs',
    'the array of a daggered box is turned by the number of inputs instead of the number of outputs',
    '''
import numpy as np
from lambeq.backend.tensor import Box, Dim
a = np.arange(12.).reshape(2, 2, 3)
f = Box('f', Dim(2, 2), Dim(3), a)
assert f.dagger().array.shape == (3, 2, 2)
assert np.allclose(f.dagger().array, a.transpose(2, 0, 1))
assert np.allclose((f >> f.dagger()).eval(), np.tensordot(a, a, ([2], [2])))
''', (TEN, "        source = range(len(self.dom @ self.cod))\n        target = [i + len(self.cod) if i < len(self.dom) else\n                  i - len(self.dom) for i in range(len(self.dom @ self.cod))]", "        source = range(len(self.dom @ self.cod))\n        target = [(i + max(len(self.dom), len(self.cod)))\n                  % len(self.dom @ self.cod) for i in source]"))

bug('p21_self_adjoint', 'P21', 'a self-adjoint gate with imaginary entries in a mixed circuit',
    'mixed evaluation does not conjugate self-adjoint boxes, so Y gates flip the sign of the density matrix',
    '''
import numpy as np
from lambeq.backend.quantum import Ket, Y, H, Discard, Id
d = Ket(0) @ Ket(0) >> H @ H >> Y @ Id(1) >> Id(1) @ Discard()
assert np.allclose(np.trace(d.eval()), 1), d.eval()
''', (QUA, "                        node2 = tn.Node(np.conj(utensor) + 0j,", "                        node2 = tn.Node((utensor if box.self_adjoint\n                                         else np.conj(utensor)) + 0j,"))

# ------------------------------------------------------------------ P17
MO = 'lambeq/training/model.py'
bug('p17_sort_prefix', 'P17', 'two symbols that differ only after the last underscore, met in another order in the diagrams',
    'the order of the symbols of a model depends on the order of the diagrams',
    '''
from lambeq.backend.quantum import Rx, Rz
from lambeq.backend.symbol import Symbol
from lambeq import NumpyModel
a, b, c = Symbol('w__n_0'), Symbol('w__n_1'), Symbol('w__n_2')
ds = [Rx(x) for x in (c, a, b)]
one, two = NumpyModel.from_diagrams(ds), NumpyModel.from_diagrams(ds[::-1])
assert one.symbols == two.symbols == [a, b, c], (one.symbols, two.symbols)
''', (MO, '''        model.symbols = sorted(
            {sym for circ in diagrams for sym in circ.free_symbols}
            )''', '''        symbols = dict.fromkeys(
            sym for circ in diagrams for sym in circ.free_symbols
        )
        model.symbols = sorted(
            symbols, key=lambda sym: sym.name.rpartition('_')[0] or sym.name
        )'''))

bug('p17_keep_symbols', 'P17', 'loading a checkpoint into a model that already has symbols',
    'a model that has symbols keeps them when a checkpoint is loaded, and the weights no longer belong to them',
    '''
import os, tempfile
import numpy as np
from lambeq import NumpyModel
from lambeq.backend.symbol import Symbol
with tempfile.TemporaryDirectory() as d:
    one, two = NumpyModel(), NumpyModel()
    one.symbols, one.weights = [Symbol('a'), Symbol('b')], np.array([.1, .2])
    two.symbols, two.weights = [Symbol('x'), Symbol('y')], np.array([.3, .4])
    one.save(os.path.join(d, 'm.lt'))
    two.load(os.path.join(d, 'm.lt'))
    assert two.symbols == one.symbols, two.symbols
    assert (two.weights == one.weights).all()
''', ('lambeq/training/quantum_model.py', "        self.symbols = checkpoint['model_symbols']\n", "        self.symbols = self.symbols or checkpoint['model_symbols']\n"))

bug('p17_add_many', 'P17', 'adding several entries one of which is there already',
    'add_many keeps the old value of an entry that exists',
    '''
from lambeq import Checkpoint
c = Checkpoint()
c['a'] = 1
c.add_many({'a': 2, 'b': 3})
assert (c['a'], c['b'], len(c)) == (2, 3, 2), c.entries
''', ('lambeq/training/checkpoint.py', "            self.entries[key] = values[key]\n\n    @classmethod", "            self.entries.setdefault(key, values[key])\n\n    @classmethod"))

# ------------------------------------------------------------------ P18
SPSA = 'lambeq/training/spsa_optimizer.py'
bug('p18_project_first', 'P18', 'bounds and a gradient that points out of them',
    'the step projects the weights before moving them, so they can leave the bounds',
    '''
import numpy as np
from lambeq import SPSAOptimizer
class Model:
    symbols = ['a', 'b']
    weights = np.array([.1, .9])
m = Model()
o = SPSAOptimizer(model=m, loss_fn=None, hyperparams={'a': .5, 'c': .1, 'A': 1}, bounds=[[0, 1], [0, 1]])
o.gradient = np.array([10., -10.])
o.step()
assert (m.weights >= 0).all() and (m.weights <= 1).all(), m.weights
''', (SPSA, '''        self.model.weights -= self.gradient * self.ak
        self.model.weights = self.project(self.model.weights)''', '''        self.model.weights = (self.project(self.model.weights)
                              - self.gradient * self.ak)'''))

bug('p18_contraction_loss', 'P18', 'a Nelder-Mead iteration that accepts an outside contraction',
    'the vertex of an accepted outside contraction is stored with the loss of the reflected point',
    '''
import numpy as np
from lambeq import NelderMeadOptimizer
from lambeq.backend.quantum import Rx
from lambeq.backend.symbol import Symbol
s = [Symbol(x) for x in 'abc']
f = lambda w: float(np.sum((w - np.array([.3, -.2, .7])) ** 2 * [1, 5, 9]) + abs(w[0] * w[1]))
class Model:
    symbols, weights = s, np.array([1., 2., 3.])
    def __call__(self, _): return self.weights
m = Model()
o = NelderMeadOptimizer(model=m, loss_fn=lambda y, t: f(y))
for _ in range(80):
    o.backward(([Rx(x).to_diagram() for x in s], None))
    assert all(abs(f(v) - l) < 1e-9 for v, l in zip(o.sim, o.fsim)), (o.sim, o.fsim)
    o.step()
''', ('lambeq/training/nelder_mead_optimizer.py', '''                    self.sim[-1] = xc
                    self.fsim[-1] = fxc''', '''                    self.sim[-1] = xc
                    self.fsim[-1] = fxr'''))

bug('p18_restored_sweep', 'P18', 'restoring a saved state into an optimiser that has taken more steps already',
    'the number of steps taken is not restored when the optimiser has taken more, so its next gains are too small',
    '''
import numpy as np
from lambeq import SPSAOptimizer
class Model:
    symbols, weights = ['a'], np.array([.5])
h = {'a': .5, 'c': .1, 'A': 1}
one, two = [SPSAOptimizer(model=Model(), loss_fn=None, hyperparams=h) for _ in range(2)]
for o, k in ((one, 2), (two, 5)):
    for _ in range(k):
        o.gradient = np.zeros(1)
        o.step()
two.load_state_dict(one.state_dict())
for o in (one, two):
    o.gradient = np.zeros(1)
    o.step()
assert (one.ak, one.ck) == (two.ak, two.ck), (one.ak, two.ak)
''', (SPSA, "        self.current_sweep = state_dict['current_sweep']", '''        self.current_sweep = max(self.current_sweep,
                                 state_dict['current_sweep'])'''))

# ------------------------------------------------------------------ P15
PARSER = 'lambeq/bobcat/parser.py'
bug('p15_evict', 'P15', 'one call that offers more trees than fit, with a tie at the cut-off',
    'trees tied with the cut-off are thrown away when more than one tree lies beyond the beam',
    '''
from lambeq.bobcat.parser import Cell
class T:
    def __init__(self, cat, score): self.cat, self.score = cat, score
c = Cell(1)
c.add([T('A', 1.), T('B', 1.)])
c.add([T('C', 1.)])
assert sorted(t.cat for t in c.trees) == ['A', 'B', 'C'], [t.cat for t in c.trees]
assert len(c.trees_map) == len(c.trees)
''', (PARSER, "                    if trees[b].score < cutoff:", "                    if trees[b].score < cutoff or len(trees) > b + 1:"))

bug('p15_map', 'P15', 'a category evicted from the beam that is offered again with the same score',
    'evicted categories stay in the map, so a tree of that category that ties with the cut-off later is not inserted',
    '''
from lambeq.bobcat.parser import Cell
class T:
    def __init__(self, cat, score): self.cat, self.score = cat, score
c = Cell(2)
c.add([T('A', 3.), T('B', 2.), T('C', 2.)])
c.add([T('D', 2.5)])
assert set(c.trees_map) == {t.cat for t in c.trees}, c.trees_map
''', (PARSER, '''                        for tree in trees[b:]:
                            del trees_map[tree.cat]''', '''                        del trees_map[trees[-1].cat]'''))

bug('p15_feature', 'P15', 'S[X] meeting a feature in the functor while the argument has a concrete one elsewhere',
    'the feature found by unification is not carried to the argument of a composition',
    '''
from lambeq.bobcat.lexicon import Category
from lambeq.bobcat.tree import Lexical
from lambeq.bobcat.rules import Rules
from lambeq.bobcat.grammar import Grammar
r = Rules(False, Grammar({}, [], [], []), {})
left = Lexical(Category.parse(r'(S[dcl]{Y}/S[dcl]{Z}){_}'), 'a', 1)
right = Lexical(Category.parse(r'(S[X]{Y}/S[X]{Y}){_}'), 'b', 2)
t = r.forward_composition(left, right)
assert str(t.cat) == 'S[dcl]/S[dcl]', t.cat
''', ('lambeq/bobcat/tree.py', "        return category.translate(self.trans_arg, self.feature)", "        return category.translate(self.trans_arg)"))

bug('p15_gc3_order', 'P15', 'generalised composition into a category with three arguments',
    'generalised composition over three arguments loses the innermost argument and repeats the middle one',
    """
from lambeq.bobcat.lexicon import Category
from lambeq.bobcat.tree import Lexical
from lambeq.bobcat.rules import Rules
from lambeq.bobcat.grammar import Grammar
C = Category.parse
a, b = '(N{Y}/(S[dcl]{Z}\\\\NP{W}){Z}){_}', '((((S[dcl]{Y}\\\\NP{Z}){Y}/PP{W}){_}/N{V}){_}/NP{R}){_}'
left, right = Lexical(C(a), 'a', 1), Lexical(C(b), 'b', 2)
r = Rules(False, Grammar({}, [(a, b)], [], []), {})
t, = r.combine(left, right)
assert str(t.cat) == '((N/PP)/N)/NP', t.cat
""".replace('C(a)', 'C.parse(a)').replace('C(b)', 'C.parse(b)').replace('C = Category.parse', 'C = Category'),
    ('lambeq/bobcat/rules.py', """                arg.result.result.argument)
        inner_inner_var""", """                arg.result.argument)
        inner_inner_var"""))

# ------------------------------------------------------------------ P20
PTREE = 'lambeq/text2diagram/pregroup_tree.py'
PCONV = 'lambeq/text2diagram/pregroup_tree_converter.py'
bug('p20_same_word', 'P20', 'a word that occurs twice in the sentence, one occurrence the head of the other',
    'self-cycle removal takes another occurrence of the same word for the word itself and drops its subtree',
    '''
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode
from lambeq.backend.grammar import Ty
n = Ty('n')
leaf = PregroupTreeNode('dog', 0, n)
inner = PregroupTreeNode('that', 1, n, children=[leaf])
root = PregroupTreeNode('that', 2, n, children=[inner])
root.remove_self_cycles()
assert root.get_words() == ['dog', 'that', 'that'], root.get_words()
''', (PTREE, """        return (self.word == other.word
                and self.ind == other.ind)""", """        return (self.word == other.word
                and (self.ind == other.ind or self.parent is other))""".replace('(self.ind == other.ind or self.parent is other)', '(self.ind == other.ind or other.parent is self)')))

bug('p20_merge_parent', 'P20', 'merging a node whose child has two or more children, then asking for parents or depth',
    'merge re-parents only the first of the adopted children',
    '''
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode
from lambeq.backend.grammar import Ty
n = Ty('n')
a, b = PregroupTreeNode('a', 0, n), PregroupTreeNode('d', 3, n)
child = PregroupTreeNode('b', 1, n, children=[a, b])
root = PregroupTreeNode('c', 2, n, children=[child])
root.merge()
assert root.get_parents() == [[1], [-1], [1]], root.get_parents()
assert b.parent is root and b.get_root() is root
''', (PTREE, """                for c in self.children:
                    c.parent = self
            else:""", """                for c in self.children[:1]:
                    c.parent = self
            else:"""))

# ------------------------------------------------------------------ P11, P14
ACIRC, ATEN = 'lambeq/ansatz/circuit.py', 'lambeq/ansatz/tensor.py'
TKC = 'lambeq/backend/converters/tk.py'
bug('p11_third_layer', 'P11', 'a strongly entangling ansatz with three layers or more',
    'the third layer takes the parameters of the first one again',
    '''
from lambeq import StronglyEntanglingAnsatz, AtomicType
from lambeq.backend.grammar import Word
N = AtomicType.NOUN
a = StronglyEntanglingAnsatz({N: 3}, n_layers=4)
assert len(a(Word('w', N).to_diagram()).free_symbols) == 4 * 9
''', (ACIRC, "                syms = params[layer][j*3:j*3+3]", "                syms = params[layer % 3][j*3:j*3+3]"))

bug('p11_ancilla_inputs', 'P11', 'a box with more input than output qubits, and ancillas',
    'the kets of a box whose inputs outnumber its outputs are too many, so the circuit does not compose',
    '''
from lambeq import IQPAnsatz, AtomicType
from lambeq.backend.grammar import Box
N, S = AtomicType.NOUN, AtomicType.SENTENCE
c = IQPAnsatz({N: 2, S: 1}, n_layers=1, n_ancillas=1)(Box('b', N @ N, S).to_diagram())
assert (len(c.dom), len(c.cod)) == (4, 1)
''', (ACIRC, "                *[0] * (max(0, cod - dom) + anc)) >> circuit", "                *[0] * (abs(cod - dom) + anc)) >> circuit"))

bug('p11_spider_pieces', 'P11', 'a word split into five pieces or more by the spider ansatz',
    'the fifth piece of a split word shares its parameters with the first',
    '''
from lambeq import SpiderAnsatz, AtomicType
from lambeq.backend.grammar import Word, Ty
from lambeq.backend.tensor import Dim
N = Ty('n')
d = SpiderAnsatz({N: Dim(2)})(Word('w', N ** 6).to_diagram())
assert len(d.free_symbols) == 5, d.free_symbols
''', (ATEN, """            cod = ar.cod[start:start + step_size + 1]
            boxes.append(Word(f'{ar.name}_{i}', cod))""", """            cod = ar.cod[start:start + step_size + 1]
            boxes.append(Word(f'{ar.name}_{i % 4}', cod))"""))

bug('p14_far_reversed', 'P14', 'a tket gate whose control is three or more qubits below its target',
    'the gate comes back on other qubits',
    '''
import pytket
from lambeq.backend.converters.tk import from_tk
from lambeq.backend.quantum import Controlled
for far in (1, 2, 3, 4):
    c = pytket.Circuit(6)
    c.CX(far + 1, 1)
    layer, = [l for l in from_tk(c).layers if isinstance(l.box, Controlled)]
    assert (len(layer.left), layer.box.distance) == (1, -far), layer
''', (TKC, "                offset += distance\n", "                offset += max(distance, -2)\n"))

bug('p14_complex_scalar', 'P14', 'a scalar that is not real',
    'an imaginary scalar gives counts of the opposite sign',
    '''
from lambeq.backend.quantum import Ket, H, Scalar
c = (Ket(0) >> H) @ Scalar(.6 + .8j)
assert abs(c.to_tk().scalar - 1) < 1e-9, c.to_tk().scalar
''', (TKC, "circuit.scale(abs(gate.phase)**2)", "circuit.scale(gate.phase**2)"))

bug('p14_bra_after_swap', 'P14', 'several post-selections in a circuit whose remaining wires are measured',
    'the bits left of a post-selection are counted over too many wires, so the circuit falls apart',
    '''
import itertools
from lambeq.backend.quantum import Ket, Bra, H, Measure, qubit, to_circuital, readoff_circuital
for order in itertools.permutations(range(4), 3):
    c, left = Ket(0, 0, 0, 0) >> H @ qubit ** 3, list(range(4))
    for o in order:
        i = left.index(o)
        left.pop(i)
        c = c >> c.cod[:i] @ Bra(0) @ c.cod[i + 1:]
    info = readoff_circuital(to_circuital(c >> Measure()))
    assert sorted(info.postmap) == sorted(order), info
''', (QUA, "            bits_left = sum([1 for i in bit_idx if i < key])", "            bits_left = sum([1 for i in bit_idx[:key] if i < key + len(q_idx) - 1])"))
