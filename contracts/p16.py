"""P16: batching."""
from contracts.reg import ob
from pyvc.rt import LoopSpec
from lambeq.training import dataset as D
from lambeq.training.dataset import Dataset
import random

M = 'lambeq.training.dataset.'


class Numbers:
    """The numerical backend by contract: arrays hold the given numbers in order."""
    float32 = 'float32'

    def array(self, xs, dtype=None):
        return xs


class Any(LoopSpec):
    """Nothing has to be known about earlier batches."""
    i = n = None

    def havoc(self, L, loc, i):
        self.i, self.n = i, L.n
        return super().havoc(L, loc, i)


def setting(g):
    if g.symbolic:
        g.contract(D, 'get_backend', lambda *a: Numbers())
        x, y = g.family('x'), g.family('y')
        n = g.int('n', lo=0)
        return g.list(x, 'data', n=n), g.list(y, 'targets', n=n), n
    n = g.int('n', lo=0, hi=12)
    ids = list(range(100, 100 + n))
    g.r.shuffle(ids)
    return g.note('data', [f'x{i}' for i in ids]), g.note('targets', [i * 2 for i in ids]), n


@ob('P16', M + 'Dataset.__init__', M + 'Dataset.__iter__', M + 'Dataset.__len__', n=400)
def batches(g, m):
    """Without shuffling batch i holds the pairs i*b, ..., i*b + b - 1."""
    data, targets, n = setting(g)
    b = g.int('batch', lo=0, hi=None if g.symbolic else 14)
    ds = Dataset(data, targets, b, shuffle=False)
    m.eq(len(ds), n, 'length')
    if b == 0:
        b = n
    if not g.symbolic:
        out = list(ds)
        m.eq([x for xs, _ in out for x in xs], data, 'every example once, in order')
        m.eq([y for _, ys in out for y in list(ys)], [float(t) for t in targets], 'targets aligned')
        m.eq([len(xs) for xs, _ in out], [len(ys) for _, ys in out], 'lengths agree')
        m.true(all(len(xs) == b for xs, _ in out[:-1]) and (not out or 0 < len(out[-1][0]) <= b), 'batch sizes')
        m.eq(len(out), ds.batches_per_epoch, 'number of batches')
        m.eq([ds.data, ds.targets], [data, targets], 'stored data unchanged')
        return
    spec = Any()
    g.invariant('Dataset.__iter__', spec)
    it = iter(ds)
    pair = next(it, None)
    if spec.n is None or pair is None:
        if n == 0:
            m.eq(ds.batches_per_epoch, 0, 'no batches')
        return
    i, k = g.value(spec.i), g.value(spec.n)
    xs, ys = pair
    hi = min((i + 1) * b, n)
    m.eq(xs, data[i * b:hi], 'examples')
    m.eq(ys, targets[i * b:hi], 'targets aligned')
    m.true(0 < len(xs) and len(xs) <= b and (len(xs) == b or i == k - 1), 'batch sizes')
    m.eq(ds.batches_per_epoch, k, 'number of batches')
    m.eq([ds.data, ds.targets], [data, targets], 'stored data unchanged')
    next(it, None)


@ob('P16', M + 'Dataset.__iter__', n=1)
def every_pair(g, m):
    """Lemma: the batches [i*b, i*b + b) for i < ceil(n / b) partition [0, n)."""
    if not g.symbolic:
        return
    n, b, k = g.int('n', lo=1), g.int('b', lo=1), g.int('k')
    g.assume((k - 1) * b < n and n <= k * b)
    p = g.int('p', lo=0)
    g.assume(p < n)
    q = p // b
    m.true(0 <= q and q < k and q * b <= p and p < q * b + b, 'in a batch')
    r = g.int('r', lo=0)
    g.assume(r != q)
    m.true(p < r * b or p >= r * b + b, 'in no other batch')


@ob('P16', M + 'Dataset.shuffle_data', n=300)
def shuffled(g, m):
    data, targets, n = setting(g)
    if g.symbolic:
        log = g.shuffles()
        before = data[:], targets[:]
        xs, ys = Dataset.shuffle_data(data, targets)
        m.eq(len(xs), n, 'as many examples')
        m.eq(len(ys), n, 'as many targets')
        m.eq(data, before[0], 'data unchanged')
        m.eq(targets, before[1], 'targets unchanged')
        if n > 0 and len(log) == 1:
            p, q = log[0]
            j = g.int('j', lo=0)
            g.assume(j < n)
            m.eq(xs[j], data[p(j)], 'examples permuted')
            m.eq(ys[j], targets[p(j)], 'targets along')
            m.eq(xs[q(j)], data[j], 'no example lost')
        return
    a, b = list(data), list(targets)
    random.seed(g.int('seed'))
    xs, ys = Dataset.shuffle_data(data, targets)
    m.eq([data, targets], [a, b], 'unchanged')
    m.eq(sorted(zip(xs, ys)), sorted(zip(a, b)), 'a permutation of the pairs')
    m.eq(len(xs), len(ys), 'lengths')


@ob('P16', M + 'Dataset.__iter__', n=300)
def shuffled_batches(g, m):
    data, targets, n = setting(g)
    b = g.int('batch', lo=1, hi=None if g.symbolic else 14)
    if g.symbolic:
        a, t = g.list(g.family('sx'), 'shuffled', n=n), g.list(g.family('sy'), 'shuffled targets', n=n)
        calls = []

        def shuffle(x, y):
            calls.append((x, y))
            return a, t
        g.contract(Dataset, 'shuffle_data', staticmethod(shuffle))
        ds = Dataset(data, targets, b)
        spec = Any()
        g.invariant('Dataset.__iter__', spec)
        it = iter(ds)
        pair = next(it, None)
        m.eq(len(calls), 1, 'shuffled once')
        m.true(calls[0][0] is data and calls[0][1] is targets, 'the stored pairs are shuffled')
        m.true(ds.data is data and ds.targets is targets, 'stored data unchanged')
        if pair is None or spec.n is None:
            return
        i = g.value(spec.i)
        hi = min((i + 1) * b, n)
        m.eq(pair[0], a[i * b:hi], 'examples')
        m.eq(pair[1], t[i * b:hi], 'targets aligned')
        next(it, None)
        return
    a, t = list(data), list(targets)
    random.seed(g.int('seed'))
    ds = Dataset(data, targets, g.choice(0, b))
    for _ in range(2):
        out = list(ds)
        pairs = [p for xs, ys in out for p in zip(xs, [float(y) for y in ys])]
        m.eq(sorted(pairs), sorted(zip(a, map(float, t))), 'every pair once')
        m.eq(len(out), ds.batches_per_epoch, 'number of batches')
        m.true(all(len(xs) == len(ys) for xs, ys in out), 'aligned')
        m.true(all(len(xs) == ds.batch_size for xs, _ in out[:-1]), 'batch sizes')
        m.eq([ds.data, ds.targets], [a, t], 'stored data unchanged')


@ob('P16', M + 'Dataset.__init__', M + 'Dataset.__getitem__', n=200)
def refuses(g, m):
    if g.symbolic:
        g.contract(D, 'get_backend', lambda *a: Numbers())
        n, k = g.int('n', lo=0), g.int('k', lo=0)
        data, targets = g.list(g.family('x'), 'data', n=n), g.list(g.family('y'), 'targets', n=k)
    else:
        n, k = g.int('n', lo=0, hi=5), g.int('k', lo=0, hi=5)
        data, targets = list(range(n)), [i + .5 for i in range(k)]
    try:
        ds = Dataset(data, targets, g.int('b', lo=0))
    except ValueError:
        m.true(n != k, 'only mismatched lengths are refused')
        return
    m.true(n == k, 'mismatched lengths are refused')
    if n > 0:
        i = g.index(data)
        x, y = ds[i]
        m.eq(x, data[i], 'example')
        m.eq(y if g.symbolic else float(y), targets[i], 'target')
