"""P17: checkpoints and model state."""
import os
import shutil
import tempfile
from contracts.reg import ob
from pyvc.rt import LoopSpec, KEEP
from lambeq.backend import quantum, tensor
from lambeq.backend.symbol import Symbol
from lambeq.training import checkpoint as C
from lambeq.training import model as MO
from lambeq.training import quantum_model as QM
from lambeq.training.checkpoint import Checkpoint
from lambeq.training.model import Model
from lambeq.training.numpy_model import NumpyModel
from lambeq.training.quantum_model import QuantumModel
from lambeq.training.tket_model import TketModel
from lambeq.training.pytorch_model import PytorchModel
from lambeq.training.pytorch_quantum_model import PytorchQuantumModel
from lambeq.training.pennylane_model import PennyLaneModel
from lambeq.training import tn_path_optimizer as TNP

M = 'lambeq.training.'
CK = M + 'checkpoint.Checkpoint.'
MD = M + 'model.Model.'


class Scratch:
    """A scratch directory (concrete mode), removed in the end."""
    def __init__(self, g):
        self.g = g

    def __enter__(self):
        self.dir = '/scratch' if self.g.symbolic else tempfile.mkdtemp(prefix='pv17')
        return self

    def __exit__(self, *a):
        if not self.g.symbolic:
            shutil.rmtree(self.dir)

    def path(self, name):
        return f'{self.dir}/{name}'


KEYS = ['model_weights', 'a', 'b', 'epoch', '']


class Adds(LoopSpec):
    """After i of the new entries these are there, and the others as before."""
    def __init__(self, g, new):
        self.g, self.new = g, new

    def begin(self, L, loc):
        self.entry = dict(loc)
        self.old = loc['self'].entries.copy()

    def state(self, i):
        return self.g.merged(self.old, self.new, self.g.value(i))

    def modified(self, L):
        return ()

    def havoc(self, L, loc, i):
        loc['self'].entries = self.state(i)
        return {}

    def inv(self, L, env, i, m):
        same_entries(self.g, m, env['self'].entries, self.state(i), 'entries so far')


def same_entries(g, m, a, b, label):
    if not g.symbolic:
        m.eq(dict(a), dict(b), label)
        return
    k = g.string('k')
    here = k in a
    m.eq(here, k in b, label + ': keys')
    if here and k in b:
        m.eq(a[k], b[k], label + ': values')


def stored(g, name='entries'):
    """Any entries stored so far."""
    if g.symbolic:
        return g.mapping(name)
    return {k: g.choice(1, 'x', [1, 2], (), None) for k in KEYS if g.r.random() < .5}


def checkpoint(g):
    ck = Checkpoint()
    ck.entries = stored(g)
    return ck


def key(g, name='k'):
    return g.string(name) if g.symbolic else g.choice(*KEYS)


@ob('P17', CK + '__init__', CK + '__setitem__', CK + '__getitem__', CK + '__len__', CK + '__iter__', n=150)
def memory(g, m):
    """What is written is read back; nothing else changes; the rest is refused."""
    m.eq(len(Checkpoint()), 0, 'empty at first')
    ck = checkpoint(g)
    old = ck.entries.copy()
    k, q, v = key(g), key(g, 'q'), g.string('v')
    n, had = len(ck), k in old
    m.eq(k in ck, had, 'membership')
    if not had:
        m.eq(ck.get(k, 'default'), 'default', 'default')
    keys = list(iter(ck))
    m.eq(len(keys), n, 'as many keys as entries')
    if n:
        i = g.index(keys)
        m.true(keys[i] in old, 'keys')
    ck[k] = v
    m.eq(ck[k], v, 'read back')
    m.eq(len(ck), n + (0 if had else 1), 'number of entries')
    m.true(k in ck, 'now there')
    if q != k:
        if q in old:
            m.eq(ck[q], old[q], 'other entries')
        else:
            try:
                ck[q]
                m.fail('missing key accepted')
            except KeyError:
                m.ok('missing key')
    ck[k] = 'new'
    m.eq(ck[k], 'new', 'overwritten')


@ob('P17', CK + 'add_many', n=150)
def many(g, m):
    ck, new = checkpoint(g), stored(g, 'new')
    old = ck.entries.copy()
    g.invariant('Checkpoint.add_many', Adds(g, new) if g.symbolic else None)
    ck.add_many(new)
    q = key(g, 'q')
    if q in new:
        m.eq(ck[q], new[q], 'new entry')
    elif q in old:
        m.eq(ck[q], old[q], 'kept entry')
    else:
        m.true(q not in ck, 'nothing else')


@ob('P17', CK + 'to_file', CK + 'from_file', n=150)
def file(g, m):
    """What is saved is loaded, no matter what was in the file before."""
    with Scratch(g) as s:
        missing = g.choice(False, True)
        g.files(C, missing_dir=missing)
        ck = checkpoint(g)
        old = ck.entries.copy()
        p = s.path('none/c.lt' if missing else 'c.lt')
        if g.choice(False, True) and not missing:
            other = Checkpoint()
            other['earlier'] = 1
            other.to_file(p)
        elif not missing:
            try:
                Checkpoint.from_file(p)
                m.fail('missing file accepted')
            except FileNotFoundError:
                m.ok('missing file')
        try:
            ck.to_file(p)
            m.true(not missing, 'missing directory accepted')
        except FileNotFoundError:
            m.true(missing, 'refused an existing directory')
            same_entries(g, m, ck.entries, old, 'entries after a failed save')
            return
        m.eq(len(ck), 0, 'no copy in memory')
        back = Checkpoint.from_file(p)
        m.true(isinstance(back, Checkpoint), 'a checkpoint')
        same_entries(g, m, back.entries, old, 'loaded')
        ck['later'] = 1
        again = Checkpoint.from_file(p)
        same_entries(g, m, again.entries, old, 'loaded again')


# ------------------------------------------------------------------- models
BACKEND = {'backend': None, 'compilation': None, 'shots': 1}
MODELS = {
    NumpyModel: {}, TketModel: {'backend_config': BACKEND}, PytorchModel: {},
    PytorchQuantumModel: {}, PennyLaneModel: {}}


def make(cls, **kw):
    return cls(**MODELS[cls], **kw)


def weights(g, cls, n, syms):
    """Any weights of the kind the model uses."""
    if g.symbolic:
        return g.vec('w', n)
    import numpy as np
    import torch
    if cls in (NumpyModel, TketModel):
        return g.vec('w', n)
    w = [g.real(f'w{i}') for i in range(n)]
    if cls is PytorchQuantumModel:
        return torch.nn.Parameter(torch.tensor(w))
    if cls is PennyLaneModel:
        return torch.nn.ParameterList([torch.nn.Parameter(torch.tensor(x)) for x in w])
    return torch.nn.ParameterList([torch.nn.Parameter(torch.tensor([x] * s.size)) for x, s in zip(w, syms)])


def torch_by_contract(g, model):
    """torch.nn.Module: the state is a copy of the weights; loading a state
    of matching shape sets them."""
    if not g.symbolic or not hasattr(type(model), 'load_state_dict'):
        return
    d = model.__dict__

    def load(state, *a, **kw):
        d['weights'] = state['weights'].copy()
    d['state_dict'] = lambda *a, **kw: {'weights': model.weights.copy()}
    d['load_state_dict'] = load


def same_weights(g, m, a, b, n, label):
    if g.symbolic:
        m.eq(len(a), n, label + ': number')
        m.all(n, lambda i, m: m.eq(g.at(a, i), g.at(b, i), label), label)
        return
    m.eq(len(a), len(b), label + ': number')
    for i in range(n):
        x, y = a[i], b[i]
        m.true(type(x) is type(y) and (bool((x == y).all()) if hasattr(x, 'all') else x == y), label)


@ob('P17', M + 'quantum_model.QuantumModel._make_checkpoint', M + 'quantum_model.QuantumModel._load_checkpoint',
    M + 'pytorch_model.PytorchModel._make_checkpoint', M + 'pytorch_model.PytorchModel._load_checkpoint',
    M + 'pennylane_model.PennyLaneModel._make_checkpoint', M + 'pennylane_model.PennyLaneModel._load_checkpoint',
    MD + 'save', MD + 'load', MD + 'from_checkpoint', n=120)
def restored(g, m):
    """A model restored from its file has the symbols and weights of the saved."""
    with Scratch(g) as s:
        g.files(C)
        g.numpy(QM)
        cls = g.choice(*MODELS)
        if cls is PennyLaneModel:
            from lambeq.training import pennylane_model as PL
            g.pairing(PL)
        n = g.int('n', lo=1, hi=None if g.symbolic else 4)
        if g.symbolic:
            nm = g.names('s')
            syms = g.list(lambda i: Symbol(nm(i)), 'symbols', n=n)
        else:
            syms = [Symbol(f's{i}', 1, g.choice(1, 2)) for i in g.r.sample(range(9), n)]
        model = make(cls)
        model.symbols, model.weights = syms, weights(g, cls, n, syms)
        torch_by_contract(g, model)
        saved = model.weights.copy() if g.symbolic else weights_copy(model.weights)
        opt = {'probabilities': g.choice(True, False), 'normalize': g.choice(True, False)} if cls is PennyLaneModel else {}
        for k, v in opt.items():
            setattr(model, '_' + k, v)
        p = s.path('m.lt')
        model.save(p)
        same_weights(g, m, model.weights, saved, n, 'saving leaves the weights')
        if g.choice(False, True) or g.symbolic and hasattr(cls, 'load_state_dict'):
            two = make(cls)
            two.symbols = [Symbol('old')]
            torch_by_contract(g, two)
            two.load(p)
        else:
            two = cls.from_checkpoint(p, **MODELS[cls])
        m.true(type(two) is cls, 'class')
        m.eq(len(two.symbols), n, 'number of symbols')
        if g.symbolic:
            m.all(n, lambda i, m: m.eq(two.symbols[i], syms[i], 'symbols'), 'symbols')
        else:
            m.eq(two.symbols, syms, 'symbols')
        same_weights(g, m, two.weights, saved, n, 'weights')
        for k, v in opt.items():
            m.eq(getattr(two, '_' + k), v, k)
        if cls is PennyLaneModel and g.symbolic:
            def pair(i, m):
                s, w = two.symbol_weight_map[i]
                m.eq(s, syms[i], 'symbol of each weight')
                m.eq(w, g.at(saved, i), 'weight of each symbol')
            m.eq(len(two.symbol_weight_map), n, 'weights by symbol')
            m.all(n, pair, 'weights by symbol')
        elif cls is PennyLaneModel:
            m.true(all(two.symbol_weight_map[s] is w for s, w in zip(syms, two.weights)), 'weight of each symbol')
            m.eq(len(two.symbol_weight_map), n, 'weights by symbol')


def weights_copy(w):
    import torch
    if isinstance(w, torch.nn.ParameterList):
        return torch.nn.ParameterList([torch.nn.Parameter(x.detach().clone()) for x in w])
    return torch.nn.Parameter(w.detach().clone()) if isinstance(w, torch.nn.Parameter) else w.copy()


class Sentence(tensor.Diagram):
    """A diagram of which only the free symbols are known."""
    free_symbols = property(lambda self: self._fs)


class Circuit(quantum.Diagram):
    """A circuit of which only the free symbols are known."""
    free_symbols = property(lambda self: self._fs)
    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other

    def to_pennylane(self, *a, **kw):
        return ('pennylane', self)


def sentence(cls, fs):
    d = object.__new__(cls)
    d._fs = fs
    return d


class Collects(LoopSpec):
    """A set grown in the loop has the free symbols of the diagrams so far."""
    def __init__(self, g, diagrams):
        self.g, self.diagrams = g, diagrams

    def upto(self, i):
        return self.g.union_of(self.diagrams[:self.g.value(i)], lambda d: d.free_symbols)

    def havoc_var(self, L, name, val, i):
        return self.upto(i) if self.g.is_set(val) else KEEP

    def modified(self, L):
        return [nm for nm in L.names if nm in self.entry]

    def inv(self, L, env, i, m):
        g = self.g
        g.known(g.value(i) - 1)
        for nm in self.modified(L):
            if g.is_set(env.get(nm)) and hasattr(m, '_rec'):
                x = Symbol(g.string('x'), *sizes(g))
                m.eq(g.isin(x, env[nm]), g.isin(x, self.upto(i)), 'symbols so far')


def sizes(g):
    return (1, 1)


def before(a, b):
    """The order of the symbols: by name, then by scale."""
    return a.name < b.name or a.name == b.name and a.scale < b.scale


@ob('P17', MD + 'from_diagrams', M + 'pennylane_model.PennyLaneModel.from_diagrams', n=150)
def collected(g, m):
    """Every free parameter once, in the order of the symbols."""
    from lambeq.training import pennylane_model as PL
    cls = g.choice(NumpyModel, PennyLaneModel)
    if g.symbolic:
        g.sets(MO, PL)
        fs = g.symbol_set(lambda nm: Symbol(nm))
        kind = Circuit if cls is PennyLaneModel else Sentence
        ds = g.list(lambda i: sentence(kind, fs(i)), 'diagrams')
        g.invariant('Model.from_diagrams', Collects(g, ds))
        g.invariant('PennyLaneModel.from_diagrams', Collects(g, ds))
        syms = cls.from_diagrams(ds).symbols
        whole = g.union_of(ds, lambda d: d.free_symbols)
        m.all(len(syms), lambda k, m: m.true(g.isin(syms[k], whole), 'every symbol occurs'), 'every symbol occurs')
        i = g.index(ds)
        g.known(i)
        x = Symbol(g.string('x'))
        if g.isin(x, ds[i].free_symbols):
            m.true(x in syms, 'every occurring symbol')
        k = g.index(syms)
        if k + 1 < len(syms):
            m.true(before(syms[k], syms[k + 1]), 'strictly increasing')
        return
    names = ['a__n_0', 'b', 'a__n_1', 'B', 'z', 'a']
    kind = Circuit if cls is PennyLaneModel else Sentence
    ds = [sentence(kind, {Symbol(nm, 1, len(nm)) for nm in names if g.r.random() < .4}) for _ in range(g.int('n', lo=0, hi=4))]
    g.note('diagrams', [d._fs for d in ds])
    syms = cls.from_diagrams(ds).symbols
    want = sorted({s for d in ds for s in d._fs}, key=lambda s: s.name)
    m.eq(list(syms), want, 'symbols')
    g.r.shuffle(ds)
    m.eq(list(cls.from_diagrams(ds).symbols), want, 'order of the diagrams')


@ob('P17', M + 'quantum_model.QuantumModel.initialise_weights', M + 'pytorch_model.PytorchModel.initialise_weights',
    M + 'pytorch_quantum_model.PytorchQuantumModel.initialise_weights', M + 'pennylane_model.PennyLaneModel.initialise_weights', n=60)
def initialised(g, m):
    """One weight per symbol; refused before the symbols are known."""
    from lambeq.training import pennylane_model as PL, pytorch_model as PY, pytorch_quantum_model as PQ
    g.numpy(QM)
    g.torch(PL, PY, PQ)
    g.pairing(PL)
    cls = g.choice(*MODELS)
    model = make(cls)
    try:
        model.initialise_weights()
        m.fail('initialised without symbols')
    except ValueError:
        m.ok('no symbols')
    n = g.int('n', lo=1, hi=None if g.symbolic else 4)
    if g.symbolic:
        nm, d, c = g.names('s'), g.ints('dom', 1), g.ints('cod', 1)
        syms = g.list(lambda i: Symbol(nm(i), d(i), c(i)), 'symbols', n=n)
    else:
        syms = [Symbol(f's{i}', g.choice(1, 2), g.choice(1, 2, 7)) for i in range(n)]
    model.symbols = syms
    model.initialise_weights()
    m.eq(len(model.weights), n, 'one weight per symbol')
    if cls is PytorchModel:
        def size(i, m):
            m.eq(len(model.weights[i]), syms[i].directed_dom * syms[i].directed_cod, 'size of each weight')
        m.all(n, size, 'size of each weight')
        if not g.symbolic:
            import torch
            m.true(all(bool(torch.isfinite(w).all()) for w in model.weights), 'finite weights')
    if cls is PennyLaneModel:
        if g.symbolic:
            def pair(i, m):
                m.eq(model.symbol_weight_map[i][0], syms[i], 'symbol of each weight')
            m.eq(len(model.symbol_weight_map), n, 'weights by symbol')
            m.all(n, pair, 'weight of each symbol')
        else:
            m.true(all(model.symbol_weight_map[s] is w for s, w in zip(syms, model.weights)), 'weight of each symbol')


@ob('P17', M + 'tn_path_optimizer.CachedTnPathOptimizer.__init__', M + 'tn_path_optimizer.CachedTnPathOptimizer.add_paths',
    M + 'tn_path_optimizer.CachedTnPathOptimizer.store_to_checkpoint', M + 'tn_path_optimizer.CachedTnPathOptimizer.restore_from_checkpoint',
    sym=False, n=100, bound='at most 3 cached paths, 2 rounds of saving')
def paths(g, m):
    """Cached contraction paths survive in the checkpoint and in their file."""
    from pathlib import Path

    def some(k):
        return {((('a',), ('a', f'{k}{i}')), (f'{k}{i}',), (('a', 2),)): [(0, 1)] * (i + 1) for i in range(g.int('paths', lo=0, hi=3))}
    with Scratch(g) as s:
        one = TNP.CachedTnPathOptimizer(save_checkpoints=True)
        one.add_paths(some('x'))
        ck = one.store_to_checkpoint(Checkpoint())
        two = TNP.CachedTnPathOptimizer()
        two.restore_from_checkpoint(ck)
        m.eq(two.cached_paths, one.cached_paths, 'restored from the checkpoint')
        p = Path(s.path(g.choice('f.pkl', 'sub/f.pkl')))
        if g.choice(False, True):
            p.parent.mkdir(exist_ok=True)
            p.touch()
        total = {}
        for k in ('y', 'z'):
            opt = TNP.CachedTnPathOptimizer(save_file=p)
            m.eq(opt.cached_paths, total, 'loaded from the file')
            new = some(k)
            opt.add_paths(new)
            total.update(new)
            m.eq(opt.cached_paths, total, 'added')
        m.eq(TNP.CachedTnPathOptimizer(save_file=p).cached_paths, total, 'all in the file')
