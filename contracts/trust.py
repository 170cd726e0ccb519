"""Assumptions left unchecked, reported in the evidence."""
COMMON = [
    'pyvc (symbolic executor, loop-cut rule, word normaliser) and z3 are trusted; no independent proof checker',
    'CPython semantics as re-implemented by pyvc.rt for the instrumented constructs (validated by running the repository tests under instrumentation)',
    'integers are mathematical; floats are treated as mathematical reals',
    'objects are not mutated by other threads; dataclass-generated __init__/__eq__ run natively',
]
TRUST = {
    'P06': ['json.dumps/json.loads of plain data are inverse'],
    'P12': ['polynomial normal form (pyvc.num) decides identities between entries; floats are read as the q, q*sqrt(2) or q*pi they round',
            'numpy and tensornetwork operate on symbolic entries as on numbers (object arrays)'],
    'P21': ['numpy and tensornetwork contract arrays of symbolic entries as they do numbers (object arrays)',
            'tensornetwork refuses an empty network, so the diagrams evaluated have at least one layer'],
    'P13': ['sympy: c * Symbol(n) is a Mul with coefficient c, and the Symbol itself for c = 1 (assumed contract; replayed on bounded inputs)',
            'Symbol.__hash__ is replaced by a constant during proofs (sets fall back to equality)'],
    'P16': ['random.shuffle permutes its argument in place', 'the numerical backend\'s array() keeps the numbers and their order'],
    'P17': ['pickle.dump/load keep the value and share nothing with it; open and os.path act on a dictionary of files (contract pyvc.maps)',
            'dict is an abstract map of keys to values (contract pyvc.maps)',
            'sorted of a set of symbols enumerates the set with no element smaller than an earlier one; strings are ordered like reals under an embedding',
            'torch Module.state_dict/load_state_dict keep the parameters; torch.rand and numpy.random give arbitrary vectors of the size asked for',
            'one size per symbol name (two symbols with equal name and different sizes are not considered)'],
    'P18': ['numpy operations on vectors and matrices act element by element (contract pyvc.vec); argsort, min and np.take by contract',
            'np.random.choice returns arbitrary elements of its first argument; np.arctan2 returns an angle of the point',
            'powers with a real exponent are an uninterpreted positive function; floats are reals',
            'losses are finite reals, and depend on nothing but the weights and the batch'],
    'P15': ['list.insert/del/slicing and dict get/set/del of the trees of a cell by contract (pyvc.shelf); trees are distinct objects, scores are reals',
            'sorted with a key enumerates the trees offered in non-increasing order of score',
            'hash of a tuple is a function of the hashes of its members; a compiled regular expression matched at a position depends on the text from there on',
            'slot numbers in the printing proof are fixed numbers of two digits; variables of the tree maps are abstract (present or not)',
            'several trees made by a type-changing rule are represented by one in the proof of combine (they are only concatenated)'],
    'P20': ['networkx (cycles, components, topological order) is used natively',
            'the ancestors of a node are distinct (not equal), as they stand for different words'],
    'P11': ['sympy and the gate classes are used natively'],
    'P14': ['pytket (Op.create, get_commands, get_unitary) is used natively; in the proof of to_tk by contract (Op.create records its arguments)',
            'the box of a gate is abstract in the proof of readoff_circuital (Gate.from_box by contract, proved separately)'],
}
