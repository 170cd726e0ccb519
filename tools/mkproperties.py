"""Writes /verif/properties.jsonl (kept as a script so that entries are easy to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
G = 'lambeq/backend/grammar.py'

prop('P01', 'Types form a free monoid with adjoints',
 'Types behave as finite sequences of atomic wires: tensoring concatenates them with the empty type as unit, indexing, slicing, '
 'length, counting, repetition, wire replacement and wire insertion act on that sequence position by position, and equality is equality of sequences. '
 'Rotating by any winding number shifts every wire by that amount and reverses the order exactly when the amount is odd, '
 'so left and right adjoints are mutually inverse, rotations add up, and the adjoint of a product is the product of adjoints in reverse order.',
 ['inputs'], 'for all types of every length and winding number, and all in-range indices and rotation amounts',
 'Tests multiply and rotate a handful of two- or three-wire types with winding numbers in {-1,0,1}; the laws quantify over all lengths, positions and winding numbers.',
 [G], [('Ty', G+':Ty'), ('Ty.tensor/_fromiter/rotate/replace/insert/__getitem__', G)])
prop('P02', 'Composing diagrams keeps them well-typed',
 'Every diagram obtained from well-typed parts by sequential composition, tensoring, composition at an offset, slicing, lifting of boxes and types, or currying is itself well-typed: '
 'its domain and codomain are the ones the operation promises and each layer accepts exactly the wires the previous layer leaves. '
 'The layers of the operands appear in order, padded with identity wires only, and sequential composition of diagrams whose types differ is refused with an error.',
 ['inputs'], 'for all diagrams (any number of layers, any boxes, any wire types) and all offsets',
 'Tests compose small fixed diagrams and compare with expected results; they never check the chain condition for arbitrary layer counts and wire contexts.',
 [G], [('Diagram.then/tensor/then_at/__getitem__/curry', G), ('Layer.dom/cod/extend', G)])
prop('P03', 'Dagger and adjoint laws for boxes and diagrams',
 'The dagger of any box or diagram exchanges domain and codomain, reverses the order of layers, and applied twice gives back an equal object. '
 'Rotating any box or diagram rotates its domain and codomain by the same amount, rotations add up, rotating by zero changes nothing, and rotating a well-typed diagram gives a well-typed diagram; the transpose has the adjoint types.',
 ['inputs'], 'for all boxes of every kind (plain, word, cup, cap, swap, spider, daggered, frame) and all diagrams, for all rotation amounts',
 'Tests check a few involutions on fixed examples; the laws range over every box kind, winding number and layer count.',
 [G], [('Box.rotate/dagger and overrides', G), ('Layer.rotate', G), ('Diagram.rotate/dagger/transpose', G)])
prop('P04', 'Structural maps have the promised types and wiring',
 'Cups, caps, swaps, spiders and wire permutations built on arbitrary (composite) types are well-typed diagrams made of atomic ones with exactly the requested input and output types, nested or crossed so that each wire meets its own partner. '
 'A permutation sends to output position k the input wire with index permutation[k]; non-adjoint cup or cap arguments and invalid permutations are refused. '
 'A pregroup diagram built from words, cups and swaps is well-typed with each cup and swap on the wires requested.',
 ['inputs'], 'for all types of any length (both orientations of cups and caps) and all permutations',
 'Tests draw one or two examples of length at most three; index arithmetic for longer types is never exercised.',
 [G], [('Cap.__new__', G), ('Cup.__new__', G), ('Swap.__new__', G), ('Spider.__new__', G), ('Diagram.permutation', G), ('Diagram.create_pregroup_diagram', G)])
prop('P05', 'Functors preserve composition, tensor, adjoints and types',
 'Applying a functor to a well-typed diagram yields a well-typed diagram of the target category whose domain and codomain are the images of the original ones; identities, tensor, composition, daggers, adjoints, cups, caps, swaps and spiders are preserved, and winding numbers commute with application. '
 'Repeated application of one functor object to equal arguments always gives equal results, and a box image with the wrong type is always refused with an error.',
 ['inputs', 'histories'], 'for all diagrams, all object and arrow maps, and all sequences of applications of one functor object',
 'Tests apply a few functors once to small diagrams; the cached path and reversed or rotated structural boxes on composite images are not reached.',
 [G, 'lambeq/core/utils.py'], [('Functor.__call__/ob_with_cache/ar_with_cache', G), ('apply_functor methods', G), ('fast_deepcopy', 'lambeq/core/utils.py')])
prop('P06', 'Diagrams survive a JSON round trip',
 'Encoding any type, box, layer, frame or diagram of the grammar category to JSON data or to a JSON string and decoding it gives back an equal object of the same kind, including daggered and rotated boxes, words and nested frames. '
 'Decoding does not modify the data it is given, so the same data can be decoded again.',
 ['inputs'], 'for all grammar entities: any box kind, nesting depth, winding number and layer count',
 'Tests round-trip a fixed list of examples; nesting such as daggered words or boxes inside frames is absent.',
 [G], [('to_json/from_json methods', G), ('Category.from_json', G)])
prop('P07', 'Interchange and normal form preserve typing and meaning',
 'Interchanging two boxes, removing snakes and normalising keep a diagram well-typed with unchanged domain and codomain. '
 'An interchange only slides the two boxes past each other and keeps all other layers; snake removal deletes only cup/cap pairs that yank straight, so the number of the other boxes, with their multiplicity, is unchanged.',
 ['inputs'], 'for all well-typed diagrams and all layer indices',
 'Tests normalise a few snakes; offset arithmetic for boxes with empty, multi-wire or overlapping neighbours is not covered.',
 ['lambeq/backend/snake_removal.py', G], [('interchange', 'lambeq/backend/snake_removal.py'), ('snake_removal/normalize', 'lambeq/backend/snake_removal.py'), ('Diagram.normal_form/remove_snakes', G)])
prop('P08', 'CCG types: algebra, printing and parsing agree',
 'Printing a non-empty CCG type and parsing the text gives back an equal type, the slash and over/under constructors build a type with the requested result, direction and argument, and replacing a subtype replaces exactly the occurrences requested. '
 'The grammar type of a complex CCG type is the product of its result with the adjoint of its argument on the side the slash points to, and malformed text is refused with an error.',
 ['inputs'], 'for all CCG types of any nesting depth',
 'Tests parse a fixed list of strings; nesting, bracket and replacement behaviour for arbitrary types is sampled only.',
 ['lambeq/text2diagram/ccg_type.py'], [('CCGType', 'lambeq/text2diagram/ccg_type.py')])
prop('P09', 'CCG rules and derivation trees give diagrams of the right type',
 'Applying any CCG rule to input types it accepts yields a well-typed diagram from the grammar type of the inputs to the grammar type of the output, and the rule inferred for given inputs and output, unary and punctuation rules aside, accepts exactly those (a removed punctuation mark contributes no wires). '
 'Converting a derivation tree yields a well-typed diagram from the empty type to the grammar type of the root with the words in sentence order, swaps only where they are allowed and none when a planar diagram is requested, and trees survive their JSON round trip.',
 ['inputs'], 'for all CCG categories and all derivation trees built from the rules',
 'Tests cover one or two instances per rule with atomic categories; categories are an infinite family.',
 ['lambeq/text2diagram/ccg_rule.py', 'lambeq/text2diagram/ccg_tree.py'], [('CCGRule.apply/infer_rule/resolve', 'lambeq/text2diagram/ccg_rule.py'), ('CCGTree', 'lambeq/text2diagram/ccg_tree.py')])
prop('P10', 'Rewriting preserves the type of what it rewrites',
 'Every built-in box rewrite rule replaces a box it matches by a well-typed diagram with the same domain and codomain and leaves all other boxes alone, so rewriting a diagram never changes its domain or codomain. '
 'The diagram-level rewriters yield well-typed diagrams over the same words: removing cups or swaps preserves the input and output types, and unifying codomains yields the requested output type.',
 ['inputs'], 'for all boxes, words, wire types and diagrams accepted by the rule',
 'Tests rewrite a handful of sentences; transitive verbs, long nouns phrases and unusual types are sampled.',
 ['lambeq/rewrite/base.py', 'lambeq/rewrite/rewrite_diagram.py'], [('RewriteRule.rewrite subclasses', 'lambeq/rewrite/base.py'), ('DiagramRewriter subclasses', 'lambeq/rewrite/rewrite_diagram.py')])
prop('P11', 'Ansaetze produce well-typed, faithfully parametrised circuits',
 'Every ansatz maps a grammar diagram to a well-typed tensor diagram or circuit whose input and output dimensions or qubits are the sums or products of those assigned to the wires. '
 'Equal boxes get equal parameters and boxes that differ in word or type get disjoint ones, with exactly as many distinct parameters as the chosen shape prescribes; post-selection and discarding leave only the assigned output wires.',
 ['inputs', 'configurations'], 'for all diagrams, all assignments of sizes to atomic types, and all layer and single-qubit-parameter counts',
 'Tests compare one small instance per ansatz with a frozen diagram.',
 ['lambeq/ansatz/base.py', 'lambeq/ansatz/circuit.py', 'lambeq/ansatz/tensor.py'], [('CircuitAnsatz subclasses', 'lambeq/ansatz/circuit.py'), ('TensorAnsatz/MPSAnsatz/SpiderAnsatz', 'lambeq/ansatz/tensor.py')])
prop('P12', 'Gate matrices are correct for every parameter value',
 'For every real parameter the matrix of each quantum gate is unitary and equals its textbook definition up to the documented wire order, kets and bras are basis vectors, the matrix of the dagger is the conjugate transpose and the matrix of a rotation is the one demanded by the dagger and transpose. '
 'A controlled gate applies the target exactly when the control is set, for either control distance and any nesting.',
 ['inputs'], 'for all real parameter values and all control distances',
 'Tests evaluate gates at a few numeric phases.',
 ['lambeq/backend/quantum.py'], [('gate classes and .array', 'lambeq/backend/quantum.py'), ('Controlled', 'lambeq/backend/quantum.py')])
prop('P13', 'Symbol scaling and parameter binding are exact',
 'Scaling a symbol multiplies its scale factor and never changes its identity, and converting a symbol with a non-zero scale to a symbolic expression and back preserves it. '
 'Binding parameters replaces each symbol by its own value times its scale wherever it occurs, independently of the order in which the other symbols are listed, leaves constants alone, removes all bound symbols, and keeps the type of the diagram.',
 ['inputs'], 'for all symbols, scales, value assignments and symbol orders',
 'Tests bind one or two parameters; permuted symbol lists, nested controlled gates and negative scales are rarely combined.',
 ['lambeq/backend/symbol.py', 'lambeq/backend/tensor.py', 'lambeq/backend/quantum.py', 'lambeq/training/quantum_model.py'], [('Symbol', 'lambeq/backend/symbol.py'), ('lambdify/free_symbols', 'lambeq/backend/tensor.py')])
prop('P14', 'Exported circuits compute the same thing',
 'Converting a circuit with at least one qubit to a tket circuit and back, to its circuital form or to its indexed gate list preserves the gates with their parameters, the wires they act on, the post-selections, scalars and measured outputs (in the order of the output wires), so the evaluated distribution is unchanged; the diagram itself is left alone, and gates without a counterpart are refused.',
 ['inputs'], 'for all circuits built from supported gates, with swaps, nested controls, measurements, post-selection and discards at any position',
 'Tests convert a fixed list of small circuits; index bookkeeping under interleaved creation, removal and swapping of wires is a history property.',
 ['lambeq/backend/converters/tk.py', 'lambeq/backend/quantum.py'], [('to_tk/from_tk', 'lambeq/backend/converters/tk.py'), ('Gate index extraction', 'lambeq/backend/quantum.py')])
prop('P15', 'Chart parser keeps its beam and combinators sound',
 'After any sequence of insertions a chart cell lists its trees in non-increasing score order, holds at most one tree per category, namely a best one among those offered to it, and keeps everything that is not worse than the cut-off of the beam. '
 'Combinatory rules only combine categories whose matching parts unify, producing the category the rule prescribes, and category equality, matching and printing agree with parsing.',
 ['inputs', 'histories'], 'for all insertion sequences, scores (with ties) and beam sizes, and all categories',
 'Tests parse two sentences with a frozen grammar; ties, replacements and evictions are histories.',
 ['lambeq/bobcat/parser.py', 'lambeq/bobcat/tree.py', 'lambeq/bobcat/rules.py', 'lambeq/bobcat/lexicon.py', 'lambeq/bobcat/fast_int_enum.py'], [('Cell.add/find', 'lambeq/bobcat/parser.py'), ('Unify', 'lambeq/bobcat/tree.py'), ('Rules.combine', 'lambeq/bobcat/rules.py'), ('Category', 'lambeq/bobcat/lexicon.py')])
prop('P16', 'Batching visits every example exactly once',
 'One pass over a dataset yields every (input, target) pair exactly once with targets still aligned to inputs, in batches of the requested size except possibly the last, and the number of batches equals the advertised number. '
 'Shuffling only permutes pairs and does not alter the stored data; mismatched lengths are refused.',
 ['inputs'], 'for all dataset sizes, batch sizes and shuffles',
 'Tests use one dataset size per case.',
 ['lambeq/training/dataset.py'], [('Dataset', 'lambeq/training/dataset.py')])
prop('P17', 'Checkpoints and model state survive save and load',
 'Entries stored in a checkpoint can be read back unchanged under the same keys, from memory and from file, and missing keys or files are refused. '
 'Restoring a model from its checkpoint gives the same symbols in the same order with the same weights, and building a model from diagrams collects every free parameter once, in a fixed order independent of the order of the diagrams.',
 ['inputs', 'histories'], 'for all entry maps, weights and diagram lists',
 'Tests save and load one model each.',
 ['lambeq/training/checkpoint.py', 'lambeq/training/model.py', 'lambeq/training/quantum_model.py', 'lambeq/training/numpy_model.py'], [('Checkpoint', 'lambeq/training/checkpoint.py'), ('Model.from_diagrams/from_checkpoint', 'lambeq/training/model.py')])
prop('P18', 'Optimiser steps respect bounds, state and update rules',
 'SPSA takes its two losses at the weights shifted by the documented gain (put between the bounds, if given), restores the weights, gives a gradient only to parameters of the batch that moved, and its steps and gain sequences follow the documented schedule with the weights kept within the bounds. '
 'A Rotosolve update puts every parameter, one after the other, at a minimiser of a loss that is sinusoidal in that parameter. '
 'Nelder-Mead keeps every vertex within the bounds (if given), paired with its own loss and never loses the best vertex found, and an SPSA or Nelder-Mead optimiser restored from its saved state continues exactly as the original would have.',
 ['inputs', 'histories'], 'for all weights, bounds, hyperparameters, perturbations and step counts',
 'Tests run a few steps from one initial point with fixed seeds.',
 ['lambeq/training/spsa_optimizer.py', 'lambeq/training/rotosolve_optimizer.py', 'lambeq/training/nelder_mead_optimizer.py'], [('SPSAOptimizer', 'lambeq/training/spsa_optimizer.py'), ('RotosolveOptimizer', 'lambeq/training/rotosolve_optimizer.py'), ('NelderMeadOptimizer', 'lambeq/training/nelder_mead_optimizer.py')])
prop('P19', 'Readers turn every sentence into a well-typed sentence diagram',
 'For every non-empty sentence the linear, spider and tree readers return a well-typed diagram with empty input and the single output type promised, containing each word exactly once and in sentence order, with one combining step per pair as documented. '
 'A sentence given in a form that contradicts the tokenised flag is refused with an error.',
 ['inputs'], 'for all sentences of any length and all derivation trees',
 'Tests read one or two sentences per reader.',
 ['lambeq/text2diagram/linear_reader.py', 'lambeq/text2diagram/spiders_reader.py', 'lambeq/text2diagram/tree_reader.py'], [('sentence2diagram', 'lambeq/text2diagram/linear_reader.py'), ('_tree2diagram', 'lambeq/text2diagram/tree_reader.py')])
prop('P20', 'Pregroup-tree operations keep words and dependencies',
 'A pregroup tree reports its height, depths, nodes, words, types and parents as its current shape has them, equality means the same words, positions and types in the same shape, and generating a tree from the words, types and parents it reports gives it back. '
 'Merging joins a word with its only, neighbouring child of the same type in sentence order, removing self-cycles or cycles removes only copies of a word, and both keep every other word and dependency. '
 'Converting a tree to a diagram yields a well-typed diagram with the words in sentence order and the type of the root as output, from which the same tree is recovered.',
 ['inputs', 'histories'], 'for all trees of any shape',
 'Tests use a dozen fixed trees.',
 ['lambeq/text2diagram/pregroup_tree.py', 'lambeq/text2diagram/pregroup_tree_converter.py'], [('PregroupTreeNode', 'lambeq/text2diagram/pregroup_tree.py'), ('tree2diagram', 'lambeq/text2diagram/pregroup_tree_converter.py')])
prop('P21', 'Tensor evaluation agrees with the algebra of diagrams',
 'Contracting the tensor network of a diagram with at least one box gives the array obtained by composing the arrays of its boxes: sequential composition is contraction over the shared wires, tensor is the outer product, swaps permute axes, spiders are generalised identities, cups and caps are identities, and daggers are conjugate transposes. '
 'The shape of the result is the list of output wire dimensions in order.',
 ['inputs'], 'for all tensor diagrams and quantum circuits with any wire dimensions',
 'Tests evaluate a few diagrams of dimension two.',
 ['lambeq/backend/tensor.py', 'lambeq/backend/quantum.py'], [('Diagram.to_tn/eval', 'lambeq/backend/tensor.py'), ('Box.array overrides', 'lambeq/backend/tensor.py')])
pathlib.Path(__file__).resolve().parent.parent.joinpath('properties.jsonl').write_text(''.join(json.dumps(p)+'\n' for p in P))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import re
for p in P:
    assert len(p['title'])<=80,p['title']
    n=len(re.findall(r'\.(?:\s|$)',p['statement'])); assert n<=3,(p['id'],n)
print(len(P))
