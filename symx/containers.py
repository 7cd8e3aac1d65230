"""dict / set / defaultdict stand-ins accepting symbolic keys (one equality fork per candidate)."""
import builtins
import collections
import itertools

import numpy as np
import z3

from .values import Sym, SymBool, SymInt, SymReal, SymF64, sand, sor, conc
from .array import SymArray, base


def sym_key(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, (tuple, frozenset)) and not isinstance(k, SymSet):
        return any(sym_key(e) for e in k)
    if isinstance(k, SymSet):
        return k._assoc is not None
    return False


def key_eq(a, b):
    """equality of two keys as one (symbolic) truth value"""
    if a is b:
        return True
    ta, tb = isinstance(a, tuple), isinstance(b, tuple)
    if ta or tb:
        if not (ta and tb) or len(a) != len(b):
            return False
        return sand(*[key_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (SymSet, frozenset, set)) and isinstance(b, (SymSet, frozenset, set)):
        return set_eq(a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = a == b
        return False if r is NotImplemented else r
    return a == b


def set_eq(a, b):
    la, lb = list(a), list(b)
    if len(la) != len(lb):
        return False
    return sand(*[sor(*[key_eq(x, y) for y in lb]) for x in la])


class SymDict(dict):
    """native dict until a symbolic key shows up; then an insertion-ordered association list"""

    def __init__(self, *a, **k):
        super().__init__()
        self._assoc = None  # list of [key, value]
        self.update(*a, **k)

    def _switch(self):
        if self._assoc is None:
            self._assoc = [[k, v] for k, v in super().items()]
            super().clear()

    def _find(self, key):
        """index of key in the association list or -1"""
        for i, (k, _) in enumerate(self._assoc):
            if k is key:
                return i
        # a structurally identical key needs no fork
        for i, (k, _) in enumerate(self._assoc):
            e = key_eq(k, key)
            if conc(e):
                if e:
                    return i
        for i, (k, _) in enumerate(self._assoc):
            e = key_eq(k, key)
            if conc(e):
                continue
            if bool(e):
                return i
        return -1

    def __setitem__(self, key, val):
        if self._assoc is None:
            if not sym_key(key):
                return super().__setitem__(key, val)
            self._switch()
        i = self._find(key)
        if i >= 0:
            self._assoc[i][1] = val
        else:
            self._assoc.append([key, val])

    def __getitem__(self, key):
        if self._assoc is None:
            if not sym_key(key):
                return super().__getitem__(key)
            if not super().__len__():
                return self.__missing__(key)
            self._switch()
        i = self._find(key)
        if i < 0:
            return self.__missing__(key)
        return self._assoc[i][1]

    def __missing__(self, key):
        raise KeyError(key)

    def __delitem__(self, key):
        if self._assoc is None:
            if not sym_key(key):
                return super().__delitem__(key)
            self._switch()
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        del self._assoc[i]

    def __contains__(self, key):
        if self._assoc is None:
            if not sym_key(key):
                return super().__contains__(key)
            if not super().__len__():
                return False
            self._switch()
        return self._find(key) >= 0

    def get(self, key, default=None):
        return self[key] if key in self else default

    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default

    _NO = object()

    def pop(self, key, default=_NO):
        if key in self:
            v = self[key]
            del self[key]
            return v
        if default is SymDict._NO:
            raise KeyError(key)
        return default

    def popitem(self, last=True):
        if not len(self):
            raise KeyError('popitem(): dictionary is empty')
        k = list(self.keys())[-1 if last else 0]
        return k, self.pop(k)

    def __len__(self):
        return super().__len__() if self._assoc is None else len(self._assoc)

    def __iter__(self):
        return super().__iter__() if self._assoc is None else iter([k for k, _ in self._assoc])

    def __reversed__(self):
        return reversed(list(iter(self)))

    def keys(self):
        return _View(self, 0)

    def values(self):
        return super().values() if self._assoc is None else _View(self, 1)

    def items(self):
        return super().items() if self._assoc is None else _View(self, 2)

    def __bool__(self):
        return len(self) > 0

    def clear(self):
        super().clear()
        self._assoc = None

    def copy(self):
        c = self._new()
        for k, v in self.items():
            c[k] = v
        return c

    __copy__ = copy

    def _new(self):
        return SymDict()

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for key in o.keys():
                    self[key] = o[key]
            else:
                for key, v in o:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __or__(self, o):
        c = self.copy()
        c.update(o)
        return c

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return super().__repr__() if self._assoc is None else f"SymDict({len(self._assoc)})"

    def __deepcopy__(self, memo):
        import copy

        c = self._new()
        for k, v in self.items():
            c[k] = copy.deepcopy(v, memo)
        return c

    @classmethod
    def fromkeys(cls, it, v=None):
        d = SymDict()
        for k in it:
            d[k] = v
        return d

    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            its = list(self.items())
            self.clear()
            self[key] = v
            for k, x in its:
                self[k] = x


class _View:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __iter__(self):
        if self.d._assoc is None:
            return iter([dict.keys, dict.values, dict.items][self.kind](self.d))
        a = list(self.d._assoc)
        if self.kind == 2:
            return iter([(k, v) for k, v in a])
        return iter([e[self.kind] for e in a])

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        if self.kind == 0:
            return x in self.d
        return any(bool(y == x) for y in self)

    def __reversed__(self):
        return reversed(list(self))

    def __and__(self, o):
        return SymSet(self) & o

    def __or__(self, o):
        return SymSet(self) | o

    def __sub__(self, o):
        return SymSet(self) - o

    def __eq__(self, o):
        return SymSet(self) == (SymSet(o) if isinstance(o, _View) else o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __xor__(self, o):
        return SymSet(self) ^ SymSet(o)

    def __le__(self, o):
        return SymSet(self) <= SymSet(o)

    def __ge__(self, o):
        return SymSet(self) >= SymSet(o)

    __rand__, __ror__ = __and__, __or__

    def __rsub__(self, o):
        return SymSet(o) - SymSet(self)

    def isdisjoint(self, o):
        return not (self & o)

    def __repr__(self):
        return f"dict_keys({list(self)!r})"


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def get(self, key, default=None):
        return SymDict.__getitem__(self, key) if key in self else default

    def _new(self):
        return SymDefaultDict(self.default_factory)


class SymCounter(SymDict):
    def __init__(self, it=(), **k):
        super().__init__()
        self.update(it)

    def __missing__(self, key):
        return 0

    def update(self, it=(), **k):
        if hasattr(it, 'keys'):
            for key in it.keys():
                self[key] = self.get(key, 0) + it[key]
        else:
            for x in it:
                self[x] = self.get(x, 0) + 1

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda t: -t[1])
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k


def _order_concrete(xs):
    return list(xs)


class SymSet(set):
    """set of possibly symbolic elements; kept as an association list once a symbolic element appears.

    Membership is one disjunction (a single fork); duplicates are only resolved when the
    cardinality or the iteration order is observed."""

    def __init__(self, it=()):
        super().__init__()
        self._assoc = None
        self._dirty = False
        self.update(it)

    def _switch(self):
        if self._assoc is None:
            self._assoc = list(super().__iter__())
            super().clear()

    def add(self, x):
        if self._assoc is None:
            if not sym_key(x):
                return super().add(x)
            self._switch()
        for y in self._assoc:
            e = key_eq(x, y)
            if conc(e) and e:
                return
        if any(not conc(key_eq(x, y)) for y in self._assoc):
            self._dirty = True
        self._assoc.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def _clean(self):
        if self._assoc is not None and self._dirty:
            out = []
            for x in self._assoc:
                if not any(bool(key_eq(x, y)) for y in out):
                    out.append(x)
            self._assoc = out
            self._dirty = False

    def __contains__(self, x):
        if self._assoc is None:
            if not sym_key(x):
                return super().__contains__(x)
            els = list(super().__iter__())
        else:
            els = self._assoc
        return bool(sor(*[key_eq(x, y) for y in els]))

    def __len__(self):
        if self._assoc is None:
            return super().__len__()
        self._clean()
        return len(self._assoc)

    def __bool__(self):
        return (super().__len__() if self._assoc is None else len(self._assoc)) > 0

    def __iter__(self):
        if self._assoc is None:
            return super().__iter__()
        self._clean()
        return iter(list(self._assoc))

    def discard(self, x):
        if self._assoc is None and not sym_key(x):
            return super().discard(x)
        self._switch()
        self._clean()
        self._assoc = [y for y in self._assoc if not bool(key_eq(x, y))]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if self._assoc is None:
            return super().pop()
        self._clean()
        if not self._assoc:
            raise KeyError('pop from an empty set')
        return self._assoc.pop(0)

    def clear(self):
        super().clear()
        self._assoc = None

    def copy(self):
        return SymSet(self)

    def union(self, *o):
        r = SymSet(self)
        r.update(*o)
        return r

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *os):
        r = self
        for o in os:
            o = o if isinstance(o, (set, frozenset)) else SymSet(o)
            r = SymSet([x for x in r if _in(x, o)])
        return SymSet(r)

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def difference(self, *os):
        r = self
        for o in os:
            o = o if isinstance(o, (set, frozenset)) else SymSet(o)
            r = SymSet([x for x in r if not _in(x, o)])
        return SymSet(r)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def difference_update(self, *o):
        r = self.difference(*o)
        self.clear()
        self.update(r)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection_update(self, *o):
        r = self.intersection(*o)
        self.clear()
        self.update(r)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def symmetric_difference(self, o):
        o = SymSet(o)
        return (self - o) | (o - self)

    __xor__ = symmetric_difference

    def issubset(self, o):
        o = o if isinstance(o, (set, frozenset)) else SymSet(o)
        return all(_in(x, o) for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(o)

    def __gt__(self, o):
        return self.issuperset(o) and len(self) > len(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return bool(set_eq(self, o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._assoc is None:
            return hash(builtins.frozenset(super().__iter__()))
        raise TypeError("hash of a symbolic set")

    def __repr__(self):
        return f"SymSet({list(self._assoc) if self._assoc is not None else set.__repr__(self)})"


def _in(x, s):
    if isinstance(s, SymSet):
        return x in s
    if sym_key(x):
        return bool(sor(*[key_eq(x, y) for y in s]))
    return x in s


class OrderedDictFacade(SymDict):
    def _new(self):
        return OrderedDictFacade()
