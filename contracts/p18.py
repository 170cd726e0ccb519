"""P18: optimisers."""
import math
from contracts.reg import ob
from pyvc.rt import LoopSpec
from lambeq.backend import tensor
from lambeq.training import optimizer as O
from lambeq.training import spsa_optimizer as S
from lambeq.training import nelder_mead_optimizer as NM
from lambeq.training import rotosolve_optimizer as R
from lambeq.training.rotosolve_optimizer import RotosolveOptimizer
from lambeq.training.spsa_optimizer import SPSAOptimizer
from lambeq.training.nelder_mead_optimizer import NelderMeadOptimizer

M = 'lambeq.training.'
SP = M + 'spsa_optimizer.SPSAOptimizer.'


class Model:
    """A model by contract: evaluation only reads the weights."""
    def __init__(self, weights, symbols):
        self.weights, self.symbols = weights, symbols
        self.log = []

    def __call__(self, diagrams):
        self.log.append(self.weights.copy())
        return len(self.log) - 1


class Sentence(tensor.Diagram):
    """A diagram of which only the free symbols are known."""
    free_symbols = property(lambda self: self._fs)


def sentence(fs):
    d = object.__new__(Sentence)
    d._fs = fs
    return d


class Loss:
    """An arbitrary loss: one number per evaluation."""
    def __init__(self, g, model):
        self.g, self.model, self.values = g, model, []
        self.calls = []

    def __call__(self, y, targets):
        self.calls.append((y, targets))
        if self.g.symbolic:
            v = self.g.real(f'loss{y}')
        else:
            w = self.model.log[y]
            v = float(sum((i + 1) * (x - .3) ** 2 + x * w[0] for i, x in enumerate(w))) if self.g.flat is None else self.g.flat
        self.values.append(v)
        return v


def hyper(g):
    c = g.real('c', lo=0, hi=None if g.symbolic else 2)
    A = g.real('A', lo=0, hi=None if g.symbolic else 5)
    g.assume(c > 0)
    return {'a': g.real('a'), 'c': c, 'A': A}


def spsa(g, bounded=None, hp=None):
    log = g.numpy(S, O)
    g.flat = None
    if not g.symbolic and g.r.random() < .2:
        g.flat = 1.0
    n = g.int('n', lo=1, hi=None if g.symbolic else 4)
    syms = g.list(g.names('sym'), 'symbols', n=n) if g.symbolic else [f's{i}' for i in range(n)]
    bounds = None
    if g.bool('bounded') if bounded is None else bounded:
        bounds = g.bounds(n)
    w = g.vec('w', n)
    if bounds is not None:
        w = w.clip(bounds[:, 0], bounds[:, 1])
    model = Model(w, syms)
    loss = Loss(g, model)
    opt = SPSAOptimizer(model=model, loss_fn=loss, hyperparams=hyper(g) if hp is None else hp, bounds=bounds)
    return n, syms, bounds, model, loss, opt, log


def clipped(g, x, bounds, i):
    """x put between the bounds at i."""
    if bounds is None:
        return x
    lo, hi = g.at(bounds[:, 0], i), g.at(bounds[:, 1], i)
    if x < lo:
        return lo
    return hi if x > hi else x


def within(g, m, v, bounds, n, label):
    if bounds is None:
        return
    lo, hi = bounds[:, 0], bounds[:, 1]

    def f(i, m):
        m.true(g.at(lo, i) <= g.at(v, i), label + ' not below')
        m.true(g.at(v, i) <= g.at(hi, i), label + ' not above')
    m.all(n, f, label)


def same_vec(g, m, v, f, n, label):
    m.all(n, lambda i, m: m.eq(g.at(v, i), f(i), label), label)


def schedule(g, m, opt, hp, k, label):
    m.eq(opt.current_sweep, k, label + ' sweep')
    m.eq(opt.ak, hp['a'] / (k + hp['A']) ** .602, label + ' learning rate')
    m.eq(opt.ck, hp['c'] / k ** .101, label + ' shift')


def advance(g, opt, k):
    """Any state reached after k - 1 steps."""
    opt.current_sweep = k
    hp = opt.hyperparams
    opt.ak, opt.ck = hp['a'] / (k + hp['A']) ** opt.alpha, hp['c'] / k ** opt.gamma
    opt.A, opt.a, opt.c = hp['A'], hp['a'], hp['c']


@ob('P18', SP + '__init__', n=60)
def spsa_init(g, m):
    hp = hyper(g)
    n, syms, bounds, model, loss, opt, _ = spsa(g, hp=hp)
    schedule(g, m, opt, hp, 1, 'initial')
    same_vec(g, m, opt.gradient, lambda i: 0.0, n, 'no gradient')
    for k in ('a', 'c', 'A'):
        bad = {x: hp[x] for x in hp if x != k}
        try:
            SPSAOptimizer(model=model, loss_fn=loss, hyperparams=bad)
            m.fail('missing hyperparameter', k)
        except ValueError:
            m.ok('missing hyperparameter')
    q = g.int('q', lo=0)
    g.assume(q != n)
    try:
        SPSAOptimizer(model=model, loss_fn=loss, hyperparams=hp, bounds=g.bounds(q))
        m.fail('bounds of the wrong length')
    except ValueError:
        m.ok('bounds of the wrong length')


@ob('P18', SP + 'step', SP + 'update_hyper_params', M + 'optimizer.Optimizer.zero_grad', n=200)
def spsa_step(g, m):
    hp = hyper(g)
    n, syms, bounds, model, loss, opt, _ = spsa(g, hp=hp)
    k = g.int('k', lo=1)
    advance(g, opt, k)
    ak = opt.ak
    grad = g.vec('grad', n)
    opt.gradient = grad.copy()
    w = model.weights.copy()
    opt.step()
    within(g, m, model.weights, bounds, n, 'within the bounds')
    m.eq(len(model.weights), n, 'as many weights')
    same_vec(g, m, model.weights, lambda i: clipped(g, g.at(w, i) - g.at(grad, i) * ak, bounds, i), n, 'descent')
    same_vec(g, m, opt.gradient, lambda i: 0.0, n, 'gradient reset')
    schedule(g, m, opt, hp, k + 1, 'next')


@ob('P18', SP + 'backward', n=200)
def spsa_backward(g, m):
    """The losses are taken at two shifted points, and the weights come back."""
    n, syms, bounds, model, loss, opt, log = spsa(g)
    advance(g, opt, g.int('k', lo=1))
    ck, w, grad = opt.ck, model.weights.copy(), g.vec('grad', n)
    opt.gradient = grad.copy()
    fs = [g.members('fs', syms) for _ in range(g.choice(1, 2))]
    batch = [sentence(f) for f in fs]
    out = opt.backward((batch, 'targets'))
    same_vec(g, m, model.weights, lambda i: g.at(w, i), n, 'weights restored')
    m.eq(len(model.log), 2, 'two evaluations')
    plus, minus = model.log
    within(g, m, plus, bounds, n, 'first point within the bounds')
    within(g, m, minus, bounds, n, 'second point within the bounds')
    m.eq([t for _, t in loss.calls], ['targets'] * 2, 'targets')
    l0, l1 = loss.values
    m.eq(out, (l0 + l1) / 2, 'loss')
    some = g.symbolic and any([bool(f) for f in fs]) or not g.symbolic and any(fs)

    def f(i, m):
        p, q = g.at(plus, i), g.at(minus, i)
        a, b = clipped(g, g.at(w, i) + ck, bounds, i), clipped(g, g.at(w, i) - ck, bounds, i)
        m.true(p == a and q == b or p == b and q == a, 'points shifted by the gain')
        used = not some or any([g.isin(syms[i], s) for s in fs])
        if used and p != q:
            m.eq((g.at(opt.gradient, i) - g.at(grad, i)) * (p - q), l0 - l1, 'difference quotient')
        else:
            m.eq(g.at(opt.gradient, i), g.at(grad, i), 'no change')
    if g.symbolic:
        m.all(n, f, 'points and gradient')
    else:
        for i in range(n):
            p, q = plus[i], minus[i]
            a, b = clipped(g, w[i] + ck, bounds, i), clipped(g, w[i] - ck, bounds, i)
            m.true(abs(p - a) + abs(q - b) < 1e-12 or abs(p - b) + abs(q - a) < 1e-12, 'points shifted by the gain')
            used = not some or any(syms[i] in s for s in fs)
            d = opt.gradient[i] - grad[i]
            if used and abs(p - q) > 1e-9:
                m.eq(d * (p - q), l0 - l1, 'difference quotient')
            elif not used or p == q:
                m.eq(d, 0.0, 'no change')


@ob('P18', SP + 'state_dict', SP + 'load_state_dict', n=200)
def spsa_restore(g, m):
    """Loading the saved state of another optimiser continues as that one."""
    n, syms, bounds, model, loss, one, _ = spsa(g)
    advance(g, one, g.int('k', lo=1))
    two = SPSAOptimizer(model=Model(model.weights.copy(), syms), loss_fn=loss, hyperparams=hyper(g), bounds=bounds)
    advance(g, two, g.int('k2', lo=1))
    two.load_state_dict(one.state_dict())
    grad = g.vec('grad', n)
    for _ in range(2):
        for o in (one, two):
            o.gradient = grad.copy()
            o.step()
        same_vec(g, m, two.model.weights, lambda i: g.at(model.weights, i), n, 'same weights')
        m.eq([two.ak, two.ck, two.current_sweep], [one.ak, one.ck, one.current_sweep], 'same gains')
    m.eq(two.state_dict(), one.state_dict(), 'same state')


class Coordinate(LoopSpec):
    """At iteration i the weights are arbitrary; it leaves a minimiser of the
    loss along coordinate i and the other weights as they were."""
    def __init__(self, g, m, model, n):
        self.g, self.m, self.model, self.n = g, m, model, n
        self.i = None

    def begin(self, L, loc):
        self.entry = dict(loc)
        self.w = self.model.weights

    def modified(self, L):
        return ()

    def havoc(self, L, loc, i):
        g = self.g
        self.model.weights = w = g.turns('phi', self.n)
        self.i, self.before = i, w
        self.phase, self.level = g.turns('psi', 1)[0], g.phase('level')
        self.scale = g.choice(g.amplitude(), 0)
        return {}

    def loss(self, w):
        """The loss along coordinate i, the others being as before."""
        g, v = self.g, w.at(self.i)
        k = g.int('other', lo=0)
        g.assume(k < self.n)
        if k != g.value(self.i):
            self.m.eq(w.at(k), self.before_at(k), 'other weights unchanged')
        return self.level + self.scale * g.cos(2, v - self.phase)

    def before_at(self, k):
        return self.before.base(k)

    def check(self, L, loc, i, stage):
        if stage == 'preserve':
            w = self.model.weights
            self.m.eq(self.loss(w), self.level - self.scale, 'minimiser')
            self.m.eq(len(w), self.n, 'as many weights')


@ob('P18', M + 'rotosolve_optimizer.RotosolveOptimizer.backward', M + 'rotosolve_optimizer.RotosolveOptimizer.project', n=150)
def rotosolve(g, m):
    """Each coordinate update reaches a minimiser of a loss that is sinusoidal
    in that coordinate, whatever the other coordinates are."""
    n = g.int('n', lo=1, hi=None if g.symbolic else 3)
    if g.symbolic:
        g.numpy(R, O, arctan2=g.arctan2())
        w = g.turns('w', n)
        model = Model(w, None)
        spec = Coordinate(g, m, model, n)
        g.invariant('RotosolveOptimizer.backward', spec)

        def loss(y, targets):
            if spec.i is None or spec.i is n.e:
                return g.phase('loss')
            return spec.loss(model.log[y])
        opt = RotosolveOptimizer(model=model, loss_fn=loss)
        opt.backward((['d'], 'targets'))
        return
    w = g.vec('w', n)
    coef = [g.real(f'coef{k}') for k in range(3 ** n)]

    def value(w):
        t = 0.0
        for k, c in enumerate(coef):
            for x in w:
                k, d = divmod(k, 3)
                c *= (1, math.cos(2 * math.pi * x), math.sin(2 * math.pi * x))[d]
            t += c
        return t
    model = Model(w.copy(), None)
    opt = RotosolveOptimizer(model=model, loss_fn=lambda y, t: value(model.log[y]))
    best = w.copy()
    for i in range(n):
        vs = []
        for k in range(3):
            u = best.copy()
            u[i] = k / 4
            vs.append(value(u))
        mid = (vs[0] + vs[2]) / 2
        r = math.hypot(vs[0] - mid, vs[1] - mid)
        g.assume(r > 1e-3)
        best[i] = math.atan2(-(vs[1] - mid), -(vs[0] - mid)) / (2 * math.pi)
    out = opt.backward((['d'], None))
    m.true(abs(out - value(best)) < 1e-6, 'minimiser')
    d = (model.weights - best) % 1
    m.true(all(min(x, 1 - x) < 1e-4 for x in d), 'minimising weights')
    m.true(out <= value(w) + 1e-9, 'the loss does not grow')


class Columns(LoopSpec):
    """Vertices of the initial simplex: nothing has to be known but the first."""
    def __init__(self, g):
        self.g = g

    def begin(self, L, loc):
        self.entry = dict(loc)
        self.first = loc['self'].sim[0]

    def modified(self, L):
        return ()

    def havoc(self, L, loc, i):
        o = loc['self']
        n, c = o.sim.shape
        o.sim = self.g.override(self.g.rows(n, c), 0, self.first)
        return {}

    def check(self, L, loc, i, stage):
        pass


class Aligned(LoopSpec):
    """Rows (those before i, if partial) keep their loss and the bounds."""
    def __init__(self, g, m, objective, partial, lo, hi):
        self.g, self.m, self.objective, self.partial, self.lo, self.hi = g, m, objective, partial, lo, hi

    def begin(self, L, loc):
        o = loc['self']
        self.entry = dict(loc)
        self.f0, self.row0 = o.fsim[0], o.sim[0]

    def modified(self, L):
        return ()

    def havoc(self, L, loc, i):
        g, o = self.g, loc['self']
        n, c = o.sim.shape
        o.sim = g.rows(n, c, 'sim', self.lo, self.hi)
        if not self.partial:
            g.override(o.sim, 0, self.row0)
        rest, row = g.reals('fsim'), o.sim.row
        o.fsim = g.entries(n, lambda k: g.ite(not self.partial or g.value(k) < g.value(i), self.objective(row(k)), rest(k)))
        if not self.partial:
            g.override(o.fsim, 0, self.f0)
        return {}

    def check(self, L, loc, i, stage):
        o, m = loc['self'], self.m
        if not self.partial:
            m.eq(o.fsim[0], self.f0, 'best vertex kept')
        simplex(self.g, m, o, self.objective, self.lo, self.hi, self.g.value(i) if self.partial else None, stage)


def simplex(g, m, o, objective, lo, hi, upto=None, stage='after'):
    """Every vertex lies within the bounds and comes with its loss."""
    n, c = o.sim.shape
    m.eq(len(o.fsim), n, f'{stage}: one loss per vertex')

    def vertex(k, m):
        row = o.sim[k]
        if upto is None or k < upto:
            m.eq(o.fsim[k], objective(row), f'{stage}: loss of the vertex')
        if lo is not None:
            def f(i, m):
                m.true(lo[i] <= row[i], f'{stage}: vertex not below')
                m.true(row[i] <= hi[i], f'{stage}: vertex not above')
            m.all(c, f, f'{stage}: vertex')
    m.all(n, vertex, f'{stage}: vertices')


NELDER = M + 'nelder_mead_optimizer.NelderMeadOptimizer.'


def nelder(g, m, bounded=None, ordered=True, hyper=None):
    """An optimiser fresh from its constructor."""
    n = g.int('n', lo=1, hi=None if g.symbolic else 4)
    syms = g.list(g.names('sym'), 'symbols', n=n) if g.symbolic else [f's{i}' for i in range(n)]
    bounds = g.bounds(n, ordered) if (g.bool('bounded') if bounded is None else bounded) else None
    model = Model(g.vec('w', n), syms)
    if g.symbolic:
        g.numpy(NM, O)
        g.floats(NM)
        g.invariant('NelderMeadOptimizer.__init__', Columns(g))
        objective = g.objective()
        loss = lambda y, t: objective(model.log[y])
    else:
        coef = [g.real(f'coef{k}') for k in range(n + 1)]
        kind = g.choice(0, 1, 2)

        def objective(w):
            x = sum(c * (v - c) ** 2 for c, v in zip(coef, w))
            return float([x, math.sin(3 * x) + abs(sum(w)), round(x)][kind])
        loss = lambda y, t: objective(model.log[y])
    return n, syms, bounds, model, objective, loss


def started(g, m, bounds, n, model, loss, hyper):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return NelderMeadOptimizer(model=model, loss_fn=loss, hyperparams=hyper, bounds=bounds)


def columns(bounds):
    return (None, None) if bounds is None else (bounds[:, 0], bounds[:, 1])


@ob('P18', NELDER + '__init__', NELDER + 'project', n=150)
def nelder_init(g, m):
    """The initial simplex lies within the bounds; bad bounds are refused."""
    n, syms, bounds, model, objective, loss = nelder(g, m, ordered=False)
    hyper = g.choice({}, {'adaptive': True}, None)
    w = model.weights.copy()
    try:
        o = started(g, m, bounds, n, model, loss, hyper)
    except ValueError:
        if bounds is None:
            m.fail('refused without bounds')
        elif not g.symbolic:
            m.true(any(a > b for a, b in bounds), 'refused for crossed bounds')
        return
    lo, hi = columns(bounds)
    c = o.sim.shape[1]
    m.eq(o.sim.shape[0], n + 1, 'vertices')
    m.eq(c, n, 'coordinates')

    def f(k, m):
        row = o.sim[k]

        def h(i, m):
            g.known(i)
            if lo is not None:
                m.true(g.at(lo, i) <= g.at(row, i), 'vertex not below')
                m.true(g.at(row, i) <= g.at(hi, i), 'vertex not above')
        m.all(n, h, 'vertex')
    m.all(n + 1, f, 'vertices')
    first = o.sim[0]

    def h(i, m):
        g.known(i)
        m.eq(g.at(first, i), clipped(g, g.at(w, i), bounds, i), 'starts at the weights')
        m.eq(g.at(model.weights, i), clipped(g, g.at(w, i), bounds, i), 'weights put within the bounds')
    m.all(n, h, 'start')
    m.true(o.first_iter and o.ncalls == 0, 'fresh')
    q = g.int('q', lo=0)
    g.assume(q != n)
    try:
        NelderMeadOptimizer(model=model, loss_fn=loss, bounds=g.bounds(q))
        m.fail('bounds of the wrong length')
    except ValueError:
        m.ok('bounds of the wrong length')


@ob('P18', NELDER + 'step', NELDER + 'project', NELDER + 'update_hyper_params', n=100)
def nelder_step(g, m):
    n, syms, bounds, model, objective, loss = nelder(g, m)
    o = started(g, m, bounds, n, model, loss, {})
    grad = g.vec('grad', n)
    o.gradient = grad.copy()
    o.current_sweep = k = g.int('k', lo=1)
    o.step()
    within(g, m, model.weights, bounds, n, 'within the bounds')
    same_vec(g, m, model.weights, lambda i: clipped(g, g.at(grad, i), bounds, i), n, 'moved to the best vertex')
    same_vec(g, m, o.gradient, lambda i: 0.0, n, 'gradient reset')
    m.eq(o.current_sweep, k + 1, 'sweep')


@ob('P18', NELDER + 'backward', NELDER + 'objective', NELDER + 'project', n=200)
def nelder_backward(g, m):
    """One iteration keeps every vertex within the bounds and paired with its
    loss, sorts the vertices, never loses the best one and returns its loss."""
    n, syms, bounds, model, objective, loss = nelder(g, m)
    o = started(g, m, bounds, n, model, loss, {} if g.symbolic else g.choice({}, {'adaptive': True}))
    if g.symbolic:
        o.rho, o.chi, o.psi, o.sigma = (g.real(x) for x in ('rho', 'chi', 'psi', 'sigma'))
    lo, hi = columns(bounds)
    fs = g.members('fs', syms)
    batch = ([sentence(fs)], 'targets')
    if not g.symbolic:
        import warnings
        warnings.simplefilter('ignore')
        best = None
        for _ in range(g.int('steps', lo=1, hi=8)):
            model.log.clear()
            out = o.backward(batch)
            for p in model.log:
                within(g, m, p, bounds, n, 'evaluated points within the bounds')
            for k in range(n + 1):
                m.eq(float(o.fsim[k]), objective(o.sim[k]), 'loss of the vertex')
                within(g, m, o.sim[k], bounds, n, 'vertices within the bounds')
            m.true(all(o.fsim[k] <= o.fsim[k + 1] for k in range(n)), 'sorted')
            m.true(best is None or o.fsim[0] <= best, 'best vertex never lost')
            best = o.fsim[0]
            m.eq(out, float(best), 'loss')
            used = fs or set(syms)
            m.eq([float(x) for x in o.gradient], [float(o.sim[0][i]) if syms[i] in used else 0.0 for i in range(n)], 'best vertex')
            o.step()
            within(g, m, model.weights, bounds, n, 'weights within the bounds')
        return
    g.invariant(('NelderMeadOptimizer.backward', 0), Aligned(g, m, objective, True, lo, hi))
    g.invariant(('NelderMeadOptimizer.backward', 1), Aligned(g, m, objective, False, lo, hi))
    o.first_iter = first = g.bool('first')
    o.sim = g.rows(n + 1, n, 'sim', lo, hi)
    row = o.sim.row
    o.fsim = g.entries(n + 1, (lambda k: objective(row(k))) if not first else g.reals('stale'))
    before = o.fsim[0]
    out = o.backward(batch)
    simplex(g, m, o, objective, lo, hi)
    for p in model.log:
        within(g, m, p, bounds, n, 'evaluated points within the bounds')

    def ordered(k, m):
        m.true(o.fsim[k] <= o.fsim[k + 1], 'sorted')
    m.all(n, ordered, 'sorted')
    m.eq(out, o.fsim[0], 'loss')
    if not first:
        r = o.ind.where(0)
        m.true(o.fsim[g.value(r)] <= before, 'best vertex stays')
        m.true(o.fsim[0] <= before, 'best vertex never lost')
    best, some = o.sim[0], bool(fs)

    def f(i, m):
        used = not some or g.isin(syms[i], fs)
        m.eq(o.gradient[i], best[i] if used else 0.0, 'best vertex')
    m.all(n, f, 'best vertex')


@ob('P18', NELDER + 'state_dict', NELDER + 'load_state_dict', n=150)
def nelder_restore(g, m):
    """An optimiser restored from a saved state continues as the original does."""
    import warnings
    warnings.simplefilter('ignore')
    n, syms, bounds, model, objective, loss = nelder(g, m)
    if g.symbolic:
        # same state, and nothing shared with the original or with the saved state
        hyper = {'xatol': g.real('xatol'), 'fatol': g.real('fatol')}
        o, o2 = started(g, m, bounds, n, model, loss, hyper), started(g, m, bounds, n, model, loss, {})
        o.sim, o.fsim = g.rows(n + 1, n, 'sim'), g.vec('fsim', n + 1)
        o.first_iter, o.ncalls, o.current_sweep = g.bool('first'), g.int('ncalls', lo=0), g.int('k', lo=1)
        o2.first_iter, o2.ncalls, o2.current_sweep = g.bool('first2'), g.int('ncalls2', lo=0), g.int('k2', lo=1)
        sim, fsim = o.sim.copy(), o.fsim.copy()
        state = o.state_dict()
        o2.load_state_dict(state)
        k = g.int('row', lo=0)
        g.assume(k <= n)
        for x in (o, o2):
            x.sim[k] = g.vec('new', n)
            x.fsim[k] = g.real('new')
        o3 = started(g, m, bounds, n, model, loss, {})
        o3.load_state_dict(state)

        def rows(j, m):
            def f(i, m):
                m.eq(o3.sim[j][i], sim[j][i], 'vertices')
                if j != k:
                    m.eq(o2.sim[j][i], sim[j][i], 'vertices')
            m.all(n, f, 'vertices')
            m.eq(o3.fsim[j], fsim[j], 'losses')
            if j != k:
                m.eq(o2.fsim[j], fsim[j], 'losses')
        m.all(n + 1, rows, 'simplex')
        for x in (o2, o3):
            m.eq([x.xatol, x.fatol, x.first_iter, x.ncalls, x.current_sweep, x.adaptive, x.initial_simplex],
                 [o.xatol, o.fatol, o.first_iter, o.ncalls, o.current_sweep, o.adaptive, o.initial_simplex], 'same state')
        return
    hyper = g.choice({}, {'adaptive': True})
    o = started(g, m, bounds, n, model, loss, hyper)
    batch = ([sentence(set(syms))], 'targets')

    def go(o, k):
        return [(o.backward(batch), o.step()) for _ in range(k)]
    go(o, g.int('before', lo=0, hi=4))
    state, w = o.state_dict(), model.weights.copy()
    model2 = Model(w.copy(), syms)
    o2 = started(g, m, bounds, n, model2, lambda y, t: objective(model2.log[y]), hyper)
    k = g.int('after', lo=1, hi=4)
    if g.bool('original first'):
        a = go(o, k)
        o2.load_state_dict(state)
        b = go(o2, k)
    else:
        o2.load_state_dict(state)
        b = go(o2, k)
        a = go(o, k)
    m.eq(b, a, 'same losses')
    m.eq(model2.weights, model.weights, 'same weights')
    m.eq(o2.sim, o.sim, 'same simplex')
