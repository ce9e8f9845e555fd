"""Dictionaries and sets of the code under test: symbolic keys, Python 2 API,
insertion-ordered or (order mode 'any') iterated in an order chosen by the solver."""
from . import core
from .strings import SymStr, UStr, isstr, eq_e, br
from .core import SymInt, SymBool

rt = None      # sx.runtime, set at import


class IdKey(object):
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __hash__(self):
        return id(self.o)

    def __eq__(self, other):
        return isinstance(other, IdKey) and self.o is other.o


def native_key(k):
    """A host-hashable stand-in for k, or None when k needs symbolic comparison."""
    t = type(k)
    if t is str or t is int or t is bool or t is float:
        return k
    if k is None:
        return k_none
    if t is UStr:
        return str.__str__(k)
    if t is tuple:
        out = []
        for x in k:
            n = native_key(x)
            if n is None:
                return None
            out.append(n)
        return ('t',) + tuple(out)
    if t is SymStr or t is SymInt or t is SymBool:
        return None
    if isinstance(k, (PyDict, list, bytearray, dict)) or (t is PySet):
        raise TypeError("unhashable type: '%s'" % rt.typename(k))
    if t is FrozenSet:
        return None
    h = t.__hash__
    if h is object.__hash__ or isinstance(k, type) or callable(k) and not hasattr(t, '_sx_user'):
        return IdKey(k)
    if h is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if getattr(t, '_sx_user', False):
        return None
    return IdKey(k)


k_none = ('None',)


def key_eq(a, b):
    """Do the keys a and b denote the same entry?  (branches)"""
    if a is b:
        return True
    if isstr(a) or isstr(b):
        if isstr(a) and isstr(b):
            return br(eq_e(a, b))
        if not (getattr(type(a), '_sx_user', False) or getattr(type(b), '_sx_user', False)):
            return False
    ha, hb = rt.sx_hash(a), rt.sx_hash(b)
    if not rt.hash_eq(ha, hb):
        return False
    return bool(rt.sx_eq(a, b))


class DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is PyDict and isinstance(x, dict):
            return True
        return type.__instancecheck__(cls, x)


class Entry(object):
    __slots__ = ('k', 'v', 'nk')

    def __init__(self, k, v, nk):
        self.k = k
        self.v = v
        self.nk = nk


LIBLOAD = [0]        # library modules are loaded once and keep insertion order


class PyDict(object, metaclass=DictMeta):
    _ordered = False
    _isset = False

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        self._init()
        return self

    def _init(self):
        object.__setattr__(self, '_e', [])
        object.__setattr__(self, '_i', {})
        object.__setattr__(self, '_ns', 0)
        object.__setattr__(self, '_perm', None)
        if LIBLOAD[0]:
            object.__setattr__(self, '_ordered', True)

    def __init__(self, *a, **k):
        PyDict.update(self, *a, **k)

    # -- lookup
    def _find(self, key):
        nk = native_key(key)
        if nk is not None:
            e = self._i.get(nk)
            if e is not None:
                return e
            if self._ns:
                for e in self._e:
                    if e.nk is None and key_eq(key, e.k):
                        return e
            return None
        for e in self._e:
            if key_eq(key, e.k):
                return e
        return None

    def _set(self, key, value):
        e = self._find(key)
        if e is not None:
            e.v = value
            return
        nk = native_key(key)
        e = Entry(key, value, nk)
        self._e.append(e)
        self._perm = None
        if nk is None:
            self._ns += 1
        else:
            self._i[nk] = e

    def _del(self, e):
        self._e.remove(e)
        self._perm = None
        if e.nk is None:
            self._ns -= 1
        else:
            del self._i[e.nk]

    def _order(self):
        n = len(self._e)
        if n < 2 or self._ordered or core.CTX is None:
            return self._e
        mode = core.CTX.state.get('order')
        if not mode or mode == 'sets' and not self._isset:
            return self._e
        if self._perm is None:
            self._perm = choose_order(self._e)
        return self._perm

    # -- protocol
    def __len__(self):
        return len(self._e)

    def __bool__(self):
        return len(self._e) > 0

    def __contains__(self, key):
        return self._find(key) is not None

    has_key = __contains__

    def __getitem__(self, key):
        e = self._find(key)
        if e is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return e.v

    def __setitem__(self, key, value):
        PyDict._set(self, key, value)

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        self._del(e)

    def __iter__(self):
        return iter(self.keys())

    def keys(self):
        return [e.k for e in self._order()]

    def values(self):
        return [e.v for e in self._order()]

    def items(self):
        return [(e.k, e.v) for e in self._order()]

    def iterkeys(self):
        return iter(self.keys())

    def itervalues(self):
        return iter(self.values())

    def iteritems(self):
        return iter(self.items())

    viewkeys = keys
    viewvalues = values
    viewitems = items

    def get(self, key, default=None):
        e = self._find(key)
        return default if e is None else e.v

    def setdefault(self, key, default=None):
        e = self._find(key)
        if e is None:
            PyDict._set(self, key, default)
            return default
        return e.v

    _none = object()

    def pop(self, key, default=_none):
        e = self._find(key)
        if e is None:
            if default is PyDict._none:
                raise KeyError(key)
            return default
        self._del(e)
        return e.v

    def popitem(self):
        o = self._order()
        if not o:
            raise KeyError('popitem(): dictionary is empty')
        e = o[-1] if self._ordered else o[0]
        self._del(e)
        return (e.k, e.v)

    def clear(self):
        self._init()

    def update(self, *a, **k):
        if len(a) > 1:
            raise TypeError('update expected at most 1 arguments, got %d' % len(a))
        if a:
            o = a[0]
            if isinstance(o, dict):
                for kk, v in o.items():
                    PyDict._set(self, kk, v)
            elif isinstance(o, PyDict):
                for e in list(o._order()):
                    PyDict._set(self, e.k, e.v)
            elif hasattr(o, 'keys'):
                for kk in o.keys():
                    PyDict._set(self, kk, o[kk])
            elif isstr(o):
                if len(o):
                    raise ValueError('dictionary update sequence element #0 has length 1; '
                                     '2 is required')
            else:
                if not hasattr(o, '__iter__'):
                    raise TypeError("'%s' object is not iterable" % rt.typename(o))
                for n, p in enumerate(o):
                    if not isstr(p) and not hasattr(p, '__iter__'):
                        raise TypeError('cannot convert dictionary update sequence element '
                                        '#%d to a sequence' % n)
                    p = list(p)
                    if len(p) != 2:
                        raise ValueError('dictionary update sequence element #%d has length %d; '
                                         '2 is required' % (n, len(p)))
                    PyDict._set(self, p[0], p[1])
        for kk, v in k.items():
            PyDict._set(self, kk, v)

    def copy(self):
        return PyDict(self)

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __eq__(self, o):
        if isinstance(o, dict):
            o = PyDict(o)
        if not isinstance(o, PyDict):
            return False
        if len(self._e) != len(o._e):
            return False
        for e in self._e:
            f = o._find(e.k)
            if f is None:
                return False
            if not (e.v is f.v or bool(rt.sx_eq(e.v, f.v))):
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return rt.hoststr(rt.sx_repr(self))


def choose_order(items):
    """A permutation picked by the solver (of more than 4 items: forward or backward)."""
    if len(items) > 4:
        return list(reversed(items)) if rt.choose(2, 'order') else items
    rest = list(items)
    out = []
    while len(rest) > 1:
        out.append(rest.pop(rt.choose(len(rest), 'order')))
    out.extend(rest)
    return out


class DefaultDict(PyDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        PyDict.__init__(self, *a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def copy(self):
        return DefaultDict(self.default_factory, self)


class OrderedDict(PyDict):
    _ordered = True

    def popitem(self, last=True):
        o = self._order()
        if not o:
            raise KeyError('dictionary is empty')
        e = o[-1 if last else 0]
        self._del(e)
        return (e.k, e.v)

    def __reversed__(self):
        return iter(list(self.keys())[::-1])

    def copy(self):
        return OrderedDict(self)


class Counter(PyDict):
    def __init__(self, it=()):
        PyDict.__init__(self)
        self.update(it)

    def __missing__(self, key):
        return 0

    def most_common(self, n=None):
        its = rt.sx_sorted(list(self.items()), key=lambda kv: kv[1], reverse=True)
        return its if n is None else its[:n]

    def elements(self):
        return iter([k for k, n in self.items() for _ in range(n)])

    def update(self, it=(), **k):
        if isinstance(it, PyDict):
            for x, n in it.items():
                self[x] = self.get(x, 0) + n
        else:
            for x in rt.sx_iter(it):
                self[x] = self.get(x, 0) + 1


class PySet(object):
    _frozen = False

    def __init__(self, it=()):
        self._d = PyDict()
        self._d._isset = True
        for x in rt.sx_iter(it):
            self._d._set(x, None)

    @classmethod
    def _mk(cls, it):
        return cls(it)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def __contains__(self, x):
        return self._d._find(x) is not None

    def __iter__(self):
        return iter(self._d.keys())

    def add(self, x):
        if self._d._find(x) is None:
            self._d._set(x, None)

    def remove(self, x):
        del self._d[x]

    def discard(self, x):
        e = self._d._find(x)
        if e is not None:
            self._d._del(e)

    def pop(self):
        if not self._d:
            raise KeyError('pop from an empty set')
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def copy(self):
        return type(self)(self)

    def update(self, *its):
        for it in its:
            for x in rt.sx_iter(it):
                self.add(x)

    def union(self, *its):
        r = type(self)(self)
        for it in its:
            for x in rt.sx_iter(it):
                PySet.add(r, x)
        return r

    def intersection(self, *its):
        r = self
        for it in its:
            o = it if isinstance(it, PySet) else PySet(it)
            r = type(self)([x for x in r if x in o])
        return r

    def difference(self, *its):
        r = self
        for it in its:
            o = it if isinstance(it, PySet) else PySet(it)
            r = type(self)([x for x in r if x not in o])
        return r

    def symmetric_difference(self, it):
        o = it if isinstance(it, PySet) else PySet(it)
        return type(self)([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *its):
        for it in its:
            for x in list(rt.sx_iter(it)):
                self.discard(x)

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self._d = r._d

    def issubset(self, o):
        o = o if isinstance(o, PySet) else PySet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in rt.sx_iter(o))

    def isdisjoint(self, o):
        return not any(x in self for x in rt.sx_iter(o))

    def _chk(self, o):
        return isinstance(o, PySet)

    def __or__(self, o):
        return self.union(o) if self._chk(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._chk(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._chk(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._chk(o) else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        return isinstance(o, PySet) and len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return 'set(%s)' % rt.hoststr(rt.sx_repr(list(self)))


class FrozenSet(PySet):
    _frozen = True

    def __hash__(self):
        raise core.Unsupported('hash of a frozenset')
