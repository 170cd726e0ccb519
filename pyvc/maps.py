"""Dictionaries with any number of entries, files and pickle, by contract."""
from __future__ import annotations
import copy
import z3
from . import core, rt
from .core import Unsupported, mkint, mkbool, mkstr, zb, zi, zs
from .seqs import Chunk, SymList
from .vec import Vec, Fake

STR = z3.StringSort()


class Map:
    """Any number of distinct keys key(0..n-1) with arbitrary values, then
    what was written since, the last write first."""

    def __init__(self, n, key, idx, val, writes=()):
        self.n, self.key, self.idx, self.val, self.writes = n, key, idx, val, list(writes)

    @staticmethod
    def fresh(name='map'):
        c = core.ctx()
        s = c.fresh_name(name)
        n = c.int('n_' + name)
        c.add(n >= 0)
        c.uninterp = True
        return Map(n, z3.Function(s + '#key', z3.IntSort(), STR), z3.Function(s + '#idx', STR, z3.IntSort()),
                   z3.Function(s + '#val', STR, STR))

    # -- the mathematical map
    def base_has(self, k, upto=None):
        i = self.idx(zs(k))
        return z3.And(i >= 0, i < (self.n if upto is None else upto), self.key(i) == zs(k))

    def has(self, k):
        """Holds of keys that are there."""
        for w in self.writes:
            if isinstance(w, Prefix):
                if core.ctx().decide(w.m.base_has(k, w.i)):
                    return True
            elif rt.truth(w[0] == k):
                return True
        return core.ctx().decide(self.base_has(k))

    def at(self, k):
        for w in self.writes:
            if isinstance(w, Prefix):
                if core.ctx().decide(w.m.base_has(k, w.i)):
                    return w.m.at(k)
            elif rt.truth(w[0] == k):
                return w[1]
        return mkstr(self.val(zs(k)))

    def merged(self, other, i):
        """Overwritten by the first i entries of another map."""
        if other.writes:
            raise Unsupported('merging a map written to')
        return Map(self.n, self.key, self.idx, self.val, [Prefix(other, zi(i)), *self.writes])

    # -- the Python protocol
    def __contains__(self, k):
        return self.has(k)

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        return self.at(k)

    def get(self, k, default=None):
        return self.at(k) if self.has(k) else default

    def __setitem__(self, k, v):
        self.writes = [(k, v), *self.writes]

    def update(self, other=()):
        if isinstance(other, Map):
            for w in reversed(other.writes):
                self.writes.insert(0, w)
            if other.writes:
                raise Unsupported('update with a map written to')
            self.writes.insert(0, Prefix(other, other.n))
        else:
            for k in other:
                self[k] = other[k]

    def copy(self):
        return Map(self.n, self.key, self.idx, self.val, self.writes)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _key(self, i):
        i = zi(i)
        core.ctx().add(z3.Implies(z3.And(i >= 0, i < self.n), self.idx(self.key(i)) == i))
        return mkstr(self.key(i))

    def __pv_items__(self):
        if self.writes:
            raise Unsupported('iterating over a map written to')
        yield Chunk(self.n, self._key)

    def __iter__(self):
        return self.__pv_items__()

    def keys(self):
        return SymList(list(self.__pv_items__()))

    def values(self):
        self.keys()
        return SymList([Chunk(self.n, lambda i: self.at(self._key(i)))])

    def items(self):
        self.keys()

        def pair(i):
            k = self._key(i)
            return (k, self.at(k))
        return SymList([Chunk(self.n, pair)])

    def __pv_len__(self):
        n, seen = self.n, []
        for w in reversed(self.writes):
            if isinstance(w, Prefix):
                raise Unsupported('number of keys of a merged map')
            if not any(rt.truth(k == w[0]) for k in seen) and not core.ctx().decide(self.base_has(w[0])):
                n = n + 1
            seen.append(w[0])
        return mkint(z3.simplify(n))

    def __len__(self):
        raise Unsupported('native len() of a map')

    def __bool__(self):
        return bool(self.writes and not isinstance(self.writes[0], Prefix)) or core.ctx().decide(self.n > 0)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'dict.{name}')
    __hash__ = None


class Prefix:
    def __init__(self, m, i):
        self.m, self.i = m, i


# ---------------------------------------------------------------- files
def snapshot(x):
    """What pickle keeps: the value, no longer shared."""
    if type(x) in (list, tuple):
        return type(x)(snapshot(y) for y in x)
    if type(x) is dict:
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (SymList, Map, Vec)):
        return copy.copy(x) if not isinstance(x, SymList) else SymList(list(x.segs), x.kind)
    return x


class Files(Fake):
    """A file system: path -> objects dumped there; some directories."""
    def __init__(self, missing_dir=False):
        self.data, self.missing_dir = {}, missing_dir

    def open(self, path, mode='r', *a, **kw):
        if not isinstance(path, str) and hasattr(path, '__fspath__'):
            path = path.__fspath__()
        if 'b' not in mode:
            raise Unsupported('text file')
        if self.missing_dir and 'r' not in mode:
            raise FileNotFoundError(2, 'No such file or directory', path)
        if mode[0] == 'r' and path not in self.data:
            raise FileNotFoundError(2, 'No such file or directory', path)
        if mode[0] == 'x' and path in self.data:
            raise FileExistsError(17, 'File exists', path)
        if mode[0] == 'w':
            self.data[path] = []
        self.data.setdefault(path, [])
        return Handle(self, path, mode)

    def exists(self, path):
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        return path in self.data


class Handle(Fake):
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.pos, self.closed = fs, path, mode, 0, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def put(self, x):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.mode[0] == 'r' and '+' not in self.mode:
            raise OSError('not writable')
        self.fs.data[self.path].append(x)

    def write(self, token):
        self.put(token.x)

    def take(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.mode[0] != 'r' and '+' not in self.mode:
            raise OSError('not readable')
        xs = self.fs.data[self.path]
        if self.pos >= len(xs):
            raise EOFError('Ran out of input')
        self.pos += 1
        return snapshot(xs[self.pos - 1])

    def read(self):
        return Token(self.take())


class Token(Fake):
    def __init__(self, x):
        self.x = x


class Pickle(Fake):
    class PickleError(Exception):
        pass
    PicklingError = UnpicklingError = PickleError
    HIGHEST_PROTOCOL = DEFAULT_PROTOCOL = 5

    @staticmethod
    def dump(obj, f, *a, **kw):
        f.put(snapshot(obj))

    @staticmethod
    def load(f, **kw):
        return f.take()

    @staticmethod
    def dumps(obj, *a, **kw):
        return Token(snapshot(obj))

    @staticmethod
    def loads(t, **kw):
        return snapshot(t.x)


class Os(Fake):
    def __init__(self, fs):
        import os
        self.path = Fake(exists=fs.exists, isfile=fs.exists, join=os.path.join)
        self.fspath, self.PathLike = os.fspath, os.PathLike
