"""The `_sx_*` hooks and the Python 2 builtins seen by the instrumented code."""
import builtins as _b
import functools
import types
import z3
from . import core, strings, containers
from .core import SymBool, SymInt, mkbool, mknot, ex, eand, eor, enot
from .strings import SymStr, UStr, StrMethod, isstr, eq_e, lt_e, mk, codes, METHODS, br
from .containers import PyDict, PySet, FrozenSet, DefaultDict, OrderedDict

containers.rt = _import_self = None


def is_sym(x):
    return isinstance(x, (SymStr, SymInt, SymBool))


def has_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, (PyDict,)):
        return any(has_sym(e.k, depth - 1) or has_sym(e.v, depth - 1) for e in x._e)
    return False


def typename(x):
    if isinstance(x, UStr) or isinstance(x, SymStr) and x.u:
        return 'unicode'
    if isstr(x):
        return 'str'
    if isinstance(x, SymInt):
        return 'int'
    if isinstance(x, SymBool):
        return 'bool'
    if type(x) is PyDict:
        return 'dict'
    if type(x) is PySet:
        return 'set'
    if x is None:
        return 'NoneType'
    return type(x).__name__


# -- comparison ----------------------------------------------------------------
_NUM = (int, float, SymInt, SymBool)


def _user(x):
    return getattr(type(x), '_sx_user', False)


def sx_eq(a, b):
    if isstr(a) and isstr(b):
        return mkbool(eq_e(a, b))
    if isinstance(a, _NUM) and isinstance(b, _NUM):
        return a == b
    ta, tb = type(a), type(b)
    if (ta is tuple or ta is list) and ta is tb:
        if len(a) != len(b):
            return False
        es = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = sx_eq(x, y)
            if not isinstance(r, (bool, SymBool)):
                r = sx_truth(r)
            if r is False:
                return False
            if _user(x) or _user(y):
                if not br(ex(r)):
                    return False
                continue
            es.append(ex(r))
        return mkbool(eand(es))
    if _user(a) or _user(b):
        return _rich('__eq__', '__eq__', a, b)
    if isstr(a) or isstr(b):
        return False
    return a == b


_DEFAULT = (object.__eq__, object.__ne__, object.__lt__, object.__le__, object.__gt__,
            object.__ge__)


def _meth(x, name):
    m = getattr(type(x), name, None)
    if m is None or m in _DEFAULT:
        return None
    return m


def _rich(op, rop, a, b):
    tries = [(op, a, b), (rop, b, a)]
    if type(a) is not type(b) and isinstance(b, type(a)) and _meth(b, rop) is not None:
        tries.reverse()
    for o, x, y in tries:
        m = _meth(x, o)
        if m is not None:
            r = m(x, y)
            if r is not NotImplemented:
                return r
    # Python 2: __cmp__, then identity / an arbitrary but fixed order
    c = _cmp_method(a, b)
    if c is not None:
        return {'__eq__': c == 0, '__ne__': c != 0, '__lt__': c < 0, '__le__': c <= 0,
                '__gt__': c > 0, '__ge__': c >= 0}[op]
    if op == '__eq__':
        return a is b
    if op == '__ne__':
        return a is not b
    ka, kb = _default_key(a), _default_key(b)
    return {'__lt__': ka < kb, '__le__': ka <= kb, '__gt__': ka > kb, '__ge__': ka >= kb}[op]


def _cmp_method(a, b):
    for x, y, s in ((a, b, 1), (b, a, -1)):
        m = getattr(type(x), '__cmp__', None)
        if m is not None:
            r = m(x, y)
            if r is not NotImplemented:
                return r * s
    return None


def _default_key(x):
    if x is None:
        return (0, '', 0)
    if isinstance(x, _NUM):
        return (1, '', 0)
    return (1, typename(x), id(x) if not isstr(x) else 0)


def sx_ne(a, b):
    if isstr(a) and isstr(b) or isinstance(a, _NUM) and isinstance(b, _NUM):
        return mknot(sx_eq(a, b))
    if _user(a) or _user(b):
        return _rich('__ne__', '__ne__', a, b)
    return sx_not(sx_eq(a, b))


def _order(op, rop, a, b):
    if isstr(a) and isstr(b):
        if op == '__lt__':
            return mkbool(lt_e(a, b))
        if op == '__gt__':
            return mkbool(lt_e(b, a))
        if op == '__le__':
            return mkbool(enot(lt_e(b, a)))
        return mkbool(enot(lt_e(a, b)))
    if isinstance(a, _NUM) and isinstance(b, _NUM):
        return getattr(_op, op)(a, b)
    ta, tb = type(a), type(b)
    if ta is tb and (ta is tuple or ta is list):
        return _seq_order(op, a, b)
    if _user(a) or _user(b):
        return _rich(op, rop, a, b)
    if isinstance(a, PySet) and isinstance(b, PySet):
        return getattr(_op, op)(a, b)
    ka, kb = _default_key(a), _default_key(b)
    return getattr(_op, op)(ka, kb)


class _op(object):
    __lt__ = staticmethod(lambda a, b: a < b)
    __le__ = staticmethod(lambda a, b: a <= b)
    __gt__ = staticmethod(lambda a, b: a > b)
    __ge__ = staticmethod(lambda a, b: a >= b)


def _pure(x):
    if isstr(x) or isinstance(x, _NUM):
        return True
    return type(x) in (tuple, list) and all(_pure(y) for y in x)


def _seq_order(op, a, b):
    n = min(len(a), len(b))
    if all(_pure(x) for x in a) and all(_pure(x) for x in b):
        r = {'__lt__': len(a) < len(b), '__le__': len(a) <= len(b),
             '__gt__': len(a) > len(b), '__ge__': len(a) >= len(b)}[op]
        strict = '__lt__' if op in ('__lt__', '__le__') else '__gt__'
        rs = '__gt__' if strict == '__lt__' else '__lt__'
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            e = ex(sx_eq(x, y))
            if e is True:
                continue
            s = ex(_order(strict, rs, x, y))
            if e is False:
                r = s
            else:
                r = eor([s, eand([e, r])])
        return mkbool(r)
    for i in range(n):
        x, y = a[i], b[i]
        if x is y or sx_truth(sx_eq(x, y)):
            continue
        return _order(op, {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__',
                           '__ge__': '__le__'}[op], x, y)
    return {'__lt__': len(a) < len(b), '__le__': len(a) <= len(b),
            '__gt__': len(a) > len(b), '__ge__': len(a) >= len(b)}[op]


def sx_lt(a, b):
    return _order('__lt__', '__gt__', a, b)


def sx_le(a, b):
    return _order('__le__', '__ge__', a, b)


def sx_gt(a, b):
    return _order('__gt__', '__lt__', a, b)


def sx_ge(a, b):
    return _order('__ge__', '__le__', a, b)


def sx_cmp(a, b):
    if sx_truth(sx_eq(a, b)):
        return 0
    return -1 if sx_truth(sx_lt(a, b)) else 1


def sx_is(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b == a
    return a is b


def sx_isnot(a, b):
    return sx_not(sx_is(a, b))


def sx_in(x, c):
    if isstr(c):
        return mkbool(strings.contains_e(c, x))
    if isinstance(c, (PyDict, PySet)):
        m = getattr(type(c), '__contains__')
        return m(c, x)
    if isinstance(c, dict):
        return containers.native_key(x) is not None and any(
            x is k or sx_truth(sx_eq(x, k)) for k in c)
    if type(c) in (list, tuple):
        if (isstr(x) or isinstance(x, _NUM)) and not any(_user(y) for y in c):
            return mkbool(eor([ex(sx_eq(x, y)) for y in c]))
        for y in c:
            if x is y or sx_truth(sx_eq(x, y)):
                return True
        return False
    m = getattr(type(c), '__contains__', None)
    if m is not None:
        return m(c, x)
    for y in c:
        if x is y or sx_truth(sx_eq(x, y)):
            return True
    return False


def sx_notin(x, c):
    return sx_not(sx_in(x, c))


def sx_chain(first, *rest):
    left = first
    r = True
    for op, th in rest:
        right = th()
        r = op(left, right)
        if not r:
            return r
        left = right
    return r


def sx_truth(x):
    return bool(x)


def sx_not(x):
    if isinstance(x, SymBool):
        return mknot(x)
    if x is True:
        return False
    return not x


# -- arithmetic ------------------------------------------------------------------
def sx_add(a, b):
    return a + b


def sx_div(a, b):
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return a // b
    return a / b


def sx_mod(a, b):
    if isstr(a):
        return format_py2(a, b)
    return a % b


def _number(v, conv):
    if isinstance(v, (int, SymInt, SymBool, float)):
        return v
    raise TypeError('%%%s format: a number is required, not %s' % (conv, typename(v)))


def format_py2(fmt, args):
    """Python 2 (Jython) string formatting over symbolic strings."""
    f = codes(fmt)
    out = []
    i = 0
    n = len(f)
    uni = [strings.isu(fmt)]
    mapping = args if isinstance(args, (PyDict, dict)) or (
        not isinstance(args, (tuple,)) and not isstr(args) and
        hasattr(type(args), '__getitem__') and not isinstance(args, list)) else None
    pos = [0]
    tup = isinstance(args, tuple)

    def nextarg():
        if tup:
            if pos[0] >= len(args):
                raise TypeError('not enough arguments for format string')
            pos[0] += 1
            return args[pos[0] - 1]
        if mapping is None and pos[0]:
            raise TypeError('not enough arguments for format string')
        pos[0] += 1
        return args

    while i < n:
        c = f[i]
        if not br(strings.ceq(c, 37)):
            out.append(c)
            i += 1
            continue
        i += 1

        def more():
            if i >= n:
                raise ValueError('incomplete format')
        val = None
        has_key = False
        more()
        if br(strings.ceq(f[i], 40)):
            if mapping is None:
                raise TypeError('format requires a mapping')
            depth = 1
            st = i + 1
            i += 1
            while depth:
                more()
                if br(strings.ceq(f[i], 41)):
                    depth -= 1
                elif br(strings.ceq(f[i], 40)):
                    depth += 1
                i += 1
            val = sx_getitem(mapping, mk(f[st:i - 1]))
            has_key = True
            if i >= n:
                raise ValueError('incomplete format')
        flags = ''
        while True:
            more()
            if br(strings.cset(f[i], [(ord(x), ord(x)) for x in '-+ #0'])):
                flags += chr(_cc(f[i]))
                i += 1
            else:
                break
        width = ''
        more()
        if br(strings.ceq(f[i], 42)):
            v = nextarg()
            if not isinstance(v, (int, SymInt)):
                raise TypeError('* wants int')
            width = str(int(v))
            i += 1
        else:
            while True:
                more()
                if br(strings.cset(f[i], strings.DIGIT)):
                    width += chr(_cc(f[i]))
                    i += 1
                else:
                    break
        prec = None
        more()
        if br(strings.ceq(f[i], 46)):
            prec = ''
            i += 1
            more()
            while True:
                more()
                if br(strings.cset(f[i], strings.DIGIT)):
                    prec += chr(_cc(f[i]))
                    i += 1
                else:
                    break
        more()
        if br(strings.cset(f[i], [(104, 104), (108, 108), (76, 76)])):
            i += 1
            more()
        if br(strings.ceq(f[i], 37)):
            piece = '%'
            i += 1
        else:
            if not br(strings.cset(f[i], [(ord(x), ord(x)) for x in 'srdiuoxXeEfFgGc'])):
                raise ValueError("unsupported format character")
            conv = chr(_cc(f[i]))
            i += 1
            if not has_key:
                val = nextarg()
            if conv in 'sr':
                piece = sx_str(val) if conv == 's' else sx_repr(val)
                if conv == 's' and strings.isu(val):
                    uni[0] = True
                if prec is not None:
                    piece = piece[:int(prec or 0)]
            elif conv == 'c':
                if isstr(val):
                    if len(val) != 1:
                        raise TypeError('%c requires int or char')
                    piece = val
                else:
                    _number(val, 'c')
                    piece = chr(int(val))
            else:
                v = _number(val, conv)
                if conv in 'diu':
                    if isinstance(v, SymInt) and not width and prec is None and \
                            '+' not in flags and ' ' not in flags:
                        piece = strings.int_str(v)
                    else:
                        piece = ('%' + flags.replace('-', '') +
                                 (width if '0' in flags else '') +
                                 ('.' + prec if prec is not None else '') + 'd') % int(v)
                elif conv in 'oxX':
                    piece = ('%' + flags.replace('-', '') + (width if '0' in flags else '') +
                             ('.' + prec if prec is not None else '') + conv) % int(v)
                else:
                    piece = ('%' + flags.replace('-', '') +
                             ('.' + prec if prec is not None else '') + conv) % float(v)
        if width and len(piece) < int(width):
            pad = ' ' * (int(width) - len(piece))
            piece = piece + pad if '-' in flags else pad + piece
        out.extend(codes(piece))
    if tup and pos[0] < len(args):
        raise TypeError('not all arguments converted during string formatting')
    if not tup and mapping is None and pos[0] == 0:
        raise TypeError('not all arguments converted during string formatting')
    return mk(out, uni[0])


def _cc(c):
    """A character known to be in a small set: enumerate it."""
    if type(c) is int:
        return c
    return int(SymInt(z3.BV2Int(c)))


# -- text ---------------------------------------------------------------------
def sx_str(x):
    if isinstance(x, UStr):
        return str.__str__(x)
    if isinstance(x, str):
        return x
    if isinstance(x, SymStr):
        return mk(x.ch)
    if isinstance(x, SymInt):
        return strings.int_str(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, (int, float, type(None))):
        return str(x)
    if isinstance(x, (list, tuple, PyDict, PySet, dict)) and not _user(x):
        return sx_repr(x)
    t = type(x)
    if isinstance(x, BaseException):
        f = t.__str__
        if f is BaseException.__str__ or not isinstance(f, types.FunctionType):
            if isinstance(x, Py2EnvironmentError):
                return x._str()
            if isinstance(x, KeyError) and len(x.args) == 1:
                return sx_repr(x.args[0])
            if not x.args:
                return ''
            if len(x.args) == 1:
                return sx_str(x.args[0])
            return sx_repr(tuple(x.args))
        return f(x)
    f = t.__str__
    if isinstance(f, types.FunctionType):
        r = f(x)
        if not isstr(r):
            raise TypeError('__str__ returned non-string (type %s)' % typename(r))
        return r
    return sx_repr(x)


def sx_repr(x):
    if isinstance(x, UStr):
        return 'u' + repr(str.__str__(x))
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, SymStr):
        return mk((117,) * x.u + (39,) + x.ch + (39,))
    if isinstance(x, SymInt):
        return strings.int_str(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, (int, float, type(None), bool)):
        return repr(x)
    if isinstance(x, (list, tuple)) and not _user(x):
        parts = []
        for y in x:
            parts.append(sx_repr(y))
        body = strings._join(', ', parts)
        if isinstance(x, list):
            return '[' + body + ']'
        if hasattr(x, '_fields') and type(x).__repr__ is not tuple.__repr__:
            return typename(x) + '(' + strings._join(', ', [
                n + '=' + p for n, p in zip(x._fields, parts)]) + ')'
        return '(' + body + (',)' if len(x) == 1 else ')')
    if isinstance(x, (PyDict, dict)) and not (_user(x) and isinstance(
            type(x).__repr__, types.FunctionType) and type(x).__repr__ is not PyDict.__repr__):
        return '{' + strings._join(', ', [sx_repr(k) + ': ' + sx_repr(v)
                                          for k, v in x.items()]) + '}'
    if isinstance(x, PySet):
        return 'set(' + sx_repr(list(x)) + ')'
    f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, BaseException):
        return type(x).__name__ + sx_repr(tuple(x.args))
    return '<%s object>' % typename(x)


def hoststr(x):
    if isinstance(x, SymStr):
        return str(x)
    return x


# -- hashing -------------------------------------------------------------------
class SymHash(object):
    """A hash value as a free term: equal iff built the same way from equal parts
    (no accidental collisions)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts          # xor of atoms

    def __xor__(self, o):
        return SymHash(self.parts + _hparts(o))

    __rxor__ = __xor__

    def _opaque(self, name, o):
        return SymHash([('op', name, self, o)])

    def __add__(self, o):
        return self._opaque('+', o)

    def __radd__(self, o):
        return self._opaque('r+', o)

    def __mul__(self, o):
        return self._opaque('*', o)

    __rmul__ = __mul__

    def __and__(self, o):
        return self._opaque('&', o)

    def __or__(self, o):
        return self._opaque('|', o)

    def __sub__(self, o):
        return self._opaque('-', o)

    def __mod__(self, o):
        return self._opaque('%', o)

    def __lshift__(self, o):
        return self._opaque('<<', o)

    def __rshift__(self, o):
        return self._opaque('>>', o)

    def __eq__(self, o):
        return hash_eq(self, o)

    def __ne__(self, o):
        return not hash_eq(self, o)

    def __hash__(self):
        raise core.Unsupported('hash of a hash')


def _hparts(h):
    if isinstance(h, SymHash):
        return h.parts
    if h == 0 and isinstance(h, int):
        return []
    return [('int', h)]


def _atom_eq(a, b):
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == 'str':
        return br(eq_e(a[1], b[1]))
    if k == 'int':
        return sx_truth(a[1] == b[1])
    if k == 'tuple':
        return len(a[1]) == len(b[1]) and all(hash_eq(x, y) for x, y in zip(a[1], b[1]))
    if k == 'op':
        return a[1] == b[1] and hash_eq(a[2], b[2]) and hash_eq(a[3], b[3])
    return a[1] is b[1]


def hash_eq(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, SymHash) and not isinstance(b, SymHash):
        return sx_truth(a == b)
    left = list(_hparts(a))
    right = list(_hparts(b))

    def cancel(l):
        i = 0
        while i < len(l):
            for j in range(i + 1, len(l)):
                if _atom_eq(l[i], l[j]):
                    del l[j]
                    del l[i]
                    break
            else:
                i += 1
        return l
    return not cancel(left + right)


def sx_hash(x):
    if isstr(x):
        return SymHash([('str', x)])
    if x is None or isinstance(x, type) and not _user(x):
        return SymHash([('id', x)])
    if isinstance(x, (int, SymInt, SymBool, float)):
        return x if isinstance(x, int) else SymHash([('int', x)])
    if type(x) is tuple:
        return SymHash([('tuple', [sx_hash(y) for y in x])])
    if isinstance(x, (list, PyDict, dict)) or type(x) is PySet:
        raise TypeError("unhashable type: '%s'" % typename(x))
    if type(x) is FrozenSet:
        return SymHash([p for y in x for p in _hparts(sx_hash((y,)))])
    h = type(x).__hash__
    if h is None:
        raise TypeError("unhashable type: '%s'" % typename(x))
    if _user(x) and isinstance(h, types.FunctionType):
        return h(x)
    return SymHash([('id', x)])


# -- nondeterminism --------------------------------------------------------------
def choose(n, name):
    """An integer in [0, n) picked by the solver."""
    if n <= 1:
        return 0
    c = core.CTX
    v = core.intvar('%s@%d' % (c.fresh(name), n))
    c.assume_e(z3.And(v >= 0, v < n))
    c.inputs.append(('%s' % v, 'order', SymInt(v)))
    for k in range(n - 1):
        if c.branch(v == k):
            return k
    return n - 1


# -- calls -------------------------------------------------------------------------
NATIVE_OK = (list, tuple, reversed, enumerate)
_builtin_types = (types.BuiltinFunctionType, types.MethodWrapperType, types.WrapperDescriptorType,
                  types.MethodDescriptorType)


def sx_call(f, *a, **k):
    if isinstance(f, _builtin_types):
        s = getattr(f, '__self__', None)
        if isinstance(s, str):
            return _str_call(s, f.__name__, a, k, f)
        if isinstance(s, type) and s in (str,) and f.__name__ == 'join':
            return f(*a, **k)
        if isinstance(s, (list, tuple, dict, set)) or s is None or isinstance(
                s, (types.GeneratorType,)) or isinstance(f, types.MethodWrapperType):
            return f(*a, **k)
        if getattr(f, '__module__', None) not in (None, 'builtins', '_operator', '_functools') \
                and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            core.CTX.note('concretised call to %s' % getattr(f, '__name__', f))
            a = [conc(x) for x in a]
            k = {n: conc(v) for n, v in k.items()}
        return f(*a, **k)
    return f(*a, **k)


def conc(x):
    if isinstance(x, SymStr):
        return strings.concretise(x)
    if isinstance(x, (SymInt, SymBool)):
        return int(x)
    if isinstance(x, list):
        return [conc(y) for y in x]
    if type(x) is tuple:
        return tuple(conc(y) for y in x)
    return x


_STRRES = {'join', 'lower', 'upper', 'replace', 'strip', 'lstrip', 'rstrip', 'zfill', 'title',
           'capitalize', 'ljust', 'rjust', 'center', 'swapcase'}


def _str_call(s, name, a, k, f):
    if name == 'join':
        it = list(sx_iter(a[0]))
        for n, x in enumerate(it):
            if not isstr(x):
                raise TypeError('sequence item %d: expected string, %s found'
                                % (n, typename(x)))
        if any(isinstance(x, SymStr) or isinstance(x, UStr) for x in it) or isinstance(s, UStr):
            return strings._join(s, it)
        return str.join(s, it)
    if name == 'format':
        return sx_format(s, a, k)
    sym = any(isinstance(x, SymStr) or (isinstance(x, tuple) and has_sym(x)) for x in a)
    if sym or isinstance(s, UStr):
        m = METHODS.get(name)
        if m is not None:
            return m(s, *a, **k)
        if sym:
            core.CTX.note('concretised str.%s' % name)
            a = [conc(x) for x in a]
    elif name in ('encode', 'decode', 'splitlines'):
        return METHODS[name](s, *a, **k)
    elif name in ('startswith', 'endswith', 'find', 'count', 'replace', 'split', 'strip',
                  'lstrip', 'rstrip'):
        for x in a:
            if not isinstance(x, (str, int, tuple, type(None))):
                if isinstance(x, SymInt):
                    a = tuple(int(y) if isinstance(y, SymInt) else y for y in a)
                    continue
                raise TypeError('expected a character buffer object')
    r = f(*a, **k)
    if isinstance(s, UStr):
        if type(r) is str:
            return UStr(r)
        if isinstance(r, list):
            return [UStr(x) for x in r]
    return r


def sx_format(s, a, k):
    out = []
    i = 0
    n = len(s)
    auto = 0
    s = str(s) if isinstance(s, str) else conc(s)
    while i < n:
        c = s[i]
        if c in '{}' and s[i:i + 2] == c * 2:
            out.append(c)
            i += 2
        elif c == '{':
            j = s.index('}', i)
            field, _, spec = s[i + 1:j].partition(':')
            field, _, conv = field.partition('!')
            name = field
            rest = ''
            for ch in '.[':
                if ch in name:
                    name, rest = name[:name.index(ch)], name[name.index(ch):]
            if name == '':
                v = a[auto]
                auto += 1
            elif name.isdigit():
                v = a[int(name)]
            else:
                v = k[name]
            while rest:
                if rest[0] == '.':
                    m = rest[1:].replace('[', '.').split('.')[0]
                    v = getattr(v, m)
                    rest = rest[1 + len(m):]
                else:
                    m = rest[1:rest.index(']')]
                    v = sx_getitem(v, int(m) if m.isdigit() else m)
                    rest = rest[rest.index(']') + 1:]
            if spec:
                v = format(conc(v) if not isstr(v) else conc(v), spec)
            out.append(sx_repr(v) if conv == 'r' else sx_str(v))
            i = j + 1
        elif c == '}':
            raise ValueError("Single '}' encountered in format string")
        else:
            out.append(c)
            i += 1
    return strings._join('', out)


def sx_getitem(o, i):
    if isinstance(o, (str, list, tuple)):
        if isinstance(i, SymInt):
            i = int(i)
        return o[i]
    if isinstance(o, dict):
        for k, v in o.items():
            if k is i or sx_truth(sx_eq(k, i)):
                return v
        raise KeyError(i)
    if isinstance(o, BaseException) and not hasattr(type(o), '__getitem__'):
        return o.args[i]
    return o[i]


def sx_iter(x):
    if isinstance(x, (list, tuple, str, SymStr)):
        return x
    if isinstance(x, dict):
        return list(x)
    if not hasattr(x, '__iter__') and hasattr(x, '__getitem__') and _user(x):
        return _seqiter(x)
    if _user(x) and not hasattr(type(x), '__iter__'):
        raise TypeError("'%s' object is not iterable" % typename(x))
    return x


def _seqiter(x):
    i = 0
    while True:
        try:
            yield x[i]
        except IndexError:
            return
        i += 1


def sx_tick():
    core.CTX.tick()


def sx_enter(qn):
    if core.CTX is not None:
        core.CTX.enter(qn)


def sx_kw(kw):
    return PyDict(kw)


def sx_dict(pairs):
    d = PyDict()
    for k, v in pairs:
        PyDict._set(d, k, v)
    return d


def sx_set(elts):
    return PySet(elts)


def sx_u(s):
    return UStr(s)


def sx_raise(exc, val=None):
    if isinstance(exc, type):
        if val is None:
            return exc()
        if isinstance(val, exc):
            return val
        if isinstance(val, tuple):
            return exc(*val)
        return exc(val)
    if isstr(exc):
        raise TypeError('exceptions must be old-style classes or derived from BaseException')
    return exc


AnyException = (Exception, SystemExit, KeyboardInterrupt, GeneratorExit)


class Crash(core.Control):
    """The process dies here (fault schedule): nothing else of the program runs."""


def sx_exctypes(t):
    if isinstance(t, tuple):
        out = []
        for x in t:
            x = sx_exctypes(x)
            out.extend(x if isinstance(x, tuple) else (x,))
        return tuple(out)
    if t is BaseException:
        return AnyException
    return t


class Py2EnvironmentError(Exception):
    def __init__(self, *a):
        Exception.__init__(self, *a)
        self.errno = self.strerror = self.filename = None
        if len(a) >= 2:
            self.errno, self.strerror = a[0], a[1]
            if len(a) >= 3:
                self.filename = a[2]
                self.args = a[:2]

    def _str(self):
        if self.filename is not None:
            return '[Errno %s] %s: %r' % (self.errno, self.strerror, self.filename)
        if self.errno is not None and self.strerror is not None:
            return '[Errno %s] %s' % (self.errno, self.strerror)
        return sx_str(self.args[0]) if len(self.args) == 1 else str(self.args or '')

    def __str__(self):
        return hoststr(self._str())


class Py2IOError(Py2EnvironmentError):
    pass


class Py2OSError(Py2EnvironmentError):
    pass


Py2EnvironmentError.__name__ = 'EnvironmentError'
Py2IOError.__name__ = 'IOError'
Py2OSError.__name__ = 'OSError'


def sx_class(explicit_hash):
    def deco(cls):
        d = cls.__dict__
        try:
            cls._sx_user = True
        except TypeError:
            return cls
        if '__eq__' in d and not explicit_hash and d.get('__hash__', 0) is None:
            del cls.__hash__
        if '__nonzero__' in d:
            cls.__bool__ = lambda self, f=d['__nonzero__']: bool(f(self))
        if 'next' in d and '__next__' not in d:
            cls.__next__ = d['next']
        if '__div__' in d and '__truediv__' not in d:
            cls.__truediv__ = d['__div__']
        return cls
    return deco


# -- attributes ---------------------------------------------------------------------
_FUNC = {'func_name': '__name__', 'func_code': '__code__', 'func_globals': '__globals__',
         'func_defaults': '__defaults__', 'func_dict': '__dict__', 'func_doc': '__doc__',
         'func_closure': '__closure__', 'im_func': '__func__', 'im_self': '__self__'}


def sx_attr(o, name):
    if name in _FUNC:
        if isinstance(o, (types.FunctionType, types.MethodType)):
            return getattr(o, _FUNC[name])
        return getattr(o, name)
    if name == 'next':
        if not hasattr(o, 'next') and hasattr(o, '__next__'):
            return o.__next__
        return getattr(o, name)
    if name == 'message':
        if isinstance(o, BaseException):
            d = getattr(o, '__dict__', {})
            if 'message' in d:
                return d['message']
            m = getattr(type(o), 'message', None)
            if m is not None:
                return getattr(o, 'message')
            return o.args[0] if len(o.args) == 1 else ''
        return getattr(o, name)
    if name == 'sort':
        if isinstance(o, list):
            def sort(cmp=None, key=None, reverse=False):
                o[:] = sx_sorted(o, cmp, key, reverse)
            return sort
        return getattr(o, name)
    if name in ('iteritems', 'iterkeys', 'itervalues', 'has_key'):
        if isinstance(o, dict):
            return {'iteritems': lambda: iter(list(o.items())),
                    'iterkeys': lambda: iter(list(o)),
                    'itervalues': lambda: iter(list(o.values())),
                    'has_key': lambda k: k in o}[name]
        return getattr(o, name)
    if name == 'decode':
        if isinstance(o, str):
            return StrMethod(o, 'decode', METHODS['decode'])
        return getattr(o, name)
    if name == '__class__':
        return sx_type(o)
    if name == '__nonzero__':
        return getattr(o, '__nonzero__', None) or getattr(o, '__bool__')
    return getattr(o, name)


# -- builtins -------------------------------------------------------------------------
class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, c):
        return c is cls or c in cls._subs

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __repr__(cls):
        return "<type '%s'>" % cls.__name__

    def __getattr__(cls, name):
        if cls._strlike:
            m = METHODS.get(name)
            if m is not None:
                return lambda s, *a, **k: sx_call(getattr(s, name), *a, **k) \
                    if isinstance(s, str) else m(s, *a, **k)
        raise AttributeError(name)


def _mktype(name, inst, make, strlike=False, subs=()):
    return _Meta(name, (), {'_inst': staticmethod(inst), '_make': staticmethod(make),
                            '_strlike': strlike, '_subs': subs})


def _mkunicode(x='', enc=None, errors=None):
    if isstr(x):
        return mk(codes(x), True)
    f = getattr(type(x), '__unicode__', None)
    return mk(codes(f(x) if f is not None else sx_str(x)), True)


def _raise_abstract(*a, **k):
    raise TypeError('The basestring type cannot be instantiated')


def _int(x=0, base=10):
    if isstr(x):
        if base != 10:
            return int(conc(x), base)
        if isinstance(x, SymStr):
            return strings.to_int(x)
        try:
            return _b.int(str(x), 10)
        except ValueError:
            raise ValueError('invalid literal for int() with base 10: %r' % x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return int(x)
    if x is None or isinstance(x, (list, tuple, PyDict)):
        raise TypeError("int() argument must be a string or a number, not '%s'" % typename(x))
    if isinstance(x, (int, float)):
        return _b.int(x)
    m = getattr(type(x), '__int__', None)
    if m is None:
        raise TypeError("int() argument must be a string or a number, not '%s'" % typename(x))
    return m(x)


PyStr = _mktype('str', lambda x: isstr(x) and not strings.isu(x), lambda x='': sx_str(x), True)
PyUnicode = _mktype('unicode', strings.isu, _mkunicode, True)
PyBase = _mktype('basestring', isstr, _raise_abstract, True, (PyStr, PyUnicode))
PyInt = _mktype('int', lambda x: isinstance(x, (int, SymInt, SymBool)), _int)
PyLong = _mktype('long', lambda x: False, _int)
PyFloat = _mktype('float', lambda x: isinstance(x, float),
                  lambda x=0.0: float(conc(x) if is_sym(x) else x))
PyBool = _mktype('bool', lambda x: isinstance(x, (bool, SymBool)), lambda x=False: sx_truth(x),
                 False, ())


class PyFileMeta(type):
    def __instancecheck__(cls, x):
        from . import vfs
        return isinstance(x, vfs.VFile)

    def __call__(cls, *a, **k):
        from . import vfs
        return vfs.sx_open(*a, **k)


class PyFile(metaclass=PyFileMeta):
    pass


def sx_type(x, *rest):
    if rest:
        return sx_class(False)(type(hoststr(x), rest[0] or (object,), dict(
            [(hoststr(k), v) for k, v in rest[1].items()])))
    if isstr(x):
        return PyUnicode if strings.isu(x) else PyStr
    if isinstance(x, (bool, SymBool)):
        return PyBool
    if isinstance(x, (int, SymInt)):
        return PyInt
    if isinstance(x, float):
        return PyFloat
    if isinstance(x, dict):
        return PyDict
    return type(x)


class PyTypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a):
        return sx_type(*a)

    def __subclasscheck__(cls, c):
        return c is PyType or issubclass(c, type)


class PyType(metaclass=PyTypeMeta):
    def __new__(mcs, *a, **k):
        return type.__new__(mcs, *a, **k)

    def __init__(cls, *a, **k):
        type.__init__(cls, *a, **k)

    def __call__(cls, *a, **k):
        return type.__call__(cls, *a, **k)




def sx_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sx_isinstance(x, y) for y in t)
    if t is PyFile:
        return isinstance(x, PyFile)
    return isinstance(x, t)


def sx_issubclass(c, t):
    if not isinstance(c, type):
        raise TypeError('issubclass() arg 1 must be a class')
    return issubclass(c, t)


def sx_sorted(it, cmp=None, key=None, reverse=False):
    items = list(sx_iter(it))
    dec = [(key(x) if key is not None else x) for x in items]

    class K(object):
        __slots__ = ('v',)

        def __init__(self, v):
            self.v = v

        if cmp is None:
            def __lt__(self, o):
                return sx_truth(sx_lt(self.v, o.v))
        else:
            def __lt__(self, o):
                return sx_truth(cmp(self.v, o.v) < 0)
    order = _b.sorted(range(len(items)), key=lambda i: K(dec[i]), reverse=sx_truth(reverse))
    return [items[i] for i in order]


def _minmax(args, key, op):
    items = list(sx_iter(args[0])) if len(args) == 1 else list(args)
    if not items:
        raise ValueError('arg is an empty sequence')
    best = items[0]
    bk = key(best) if key else best
    for x in items[1:]:
        k = key(x) if key else x
        if sx_truth(op(k, bk)):
            best, bk = x, k
    return best


def sx_hasattr(o, name):
    try:
        sx_getattr(o, name)
    except Exception:
        return False
    return True


_missing = object()


def sx_getattr(o, name, default=_missing):
    name = conc(name)
    try:
        return sx_attr(o, str(name))
    except AttributeError:
        if default is _missing:
            raise
        return default


def sx_setattr(o, name, v):
    setattr(o, conc(name), v)


def sx_map(f, *its):
    if len(its) == 1:
        its = list(sx_iter(its[0]))
        if f is None:
            return its
        return [f(x) for x in its]
    its = [list(sx_iter(i)) for i in its]
    n = max(len(i) for i in its)
    rows = [tuple(i[j] if j < len(i) else None for i in its) for j in range(n)]
    return rows if f is None else [f(*r) for r in rows]


def sx_filter(f, it):
    r = [x for x in sx_iter(it) if sx_truth(x if f is None else f(x))]
    if isinstance(it, tuple):
        return tuple(r)
    if isstr(it):
        return strings._join('', r)
    return r


def sx_reduce(f, it, *init):
    return functools.reduce(f, sx_iter(it), *init)


def sx_range(*a):
    r = list(range(*[int(x) for x in a]))
    return r


def sx_sum(it, start=0):
    for x in sx_iter(it):
        start = start + x
    return start


def sx_len(x):
    if isinstance(x, SymStr):
        return len(x.ch)
    return len(x)


def sx_any(it):
    for x in sx_iter(it):
        if x:
            return True
    return False


def sx_all(it):
    for x in sx_iter(it):
        if not x:
            return False
    return True


def sx_chr(i):
    if isinstance(i, SymInt):
        i = int(i)
    return chr(i)


def sx_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return SymInt(z3.BV2Int(c.ch[0]))
    return ord(c)


def sx_list(it=()):
    return list(sx_iter(it))


def sx_print(dest, nl, *vals):
    c = core.CTX
    parts = [sx_str(v) for v in vals]
    text = strings._join(' ', parts) + ('\n' if nl else (' ' if vals else ''))
    if dest is None:
        from . import models
        dest = models.the_sys.stdout
    dest.write(text)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)


def make_builtins(importer):
    from . import vfs
    g = {}
    for n in ('None True False object list tuple super property staticmethod classmethod '
              'callable id iter enumerate reversed slice abs divmod pow round '
              'NotImplemented Ellipsis '
              'BaseException Exception ArithmeticError AssertionError AttributeError EOFError '
              'ImportError IndexError KeyError KeyboardInterrupt LookupError MemoryError NameError '
              'NotImplementedError OverflowError RuntimeError StopIteration SyntaxError '
              'SystemError SystemExit TypeError UnboundLocalError UnicodeDecodeError '
              'UnicodeEncodeError UnicodeError ValueError ZeroDivisionError GeneratorExit '
              'Warning UserWarning DeprecationWarning FutureWarning '
              'dir vars locals globals delattr hex bin bytearray').split():
        g[n] = getattr(_b, n)
    g.update({
        'StandardError': Exception,
        'EnvironmentError': Py2EnvironmentError, 'IOError': Py2IOError, 'OSError': Py2OSError,
        'WindowsError': type('WindowsError', (Py2OSError,), {}),
        'str': PyStr, 'unicode': PyUnicode, 'basestring': PyBase, 'int': PyInt, 'long': PyLong,
        'float': PyFloat, 'bool': PyBool, 'dict': PyDict, 'set': PySet, 'frozenset': FrozenSet,
        'type': PyType, 'file': PyFile, 'bytes': PyStr,
        'isinstance': sx_isinstance, 'issubclass': sx_issubclass, 'len': sx_len,
        'hasattr': sx_hasattr, 'getattr': sx_getattr, 'setattr': sx_setattr,
        'sorted': sx_sorted, 'cmp': sx_cmp, 'map': sx_map, 'filter': sx_filter,
        'zip': lambda *its: list(zip(*[sx_iter(i) for i in its])), 'reduce': sx_reduce,
        'range': sx_range, 'xrange': sx_range, 'sum': sx_sum, 'any': sx_any, 'all': sx_all,
        'min': lambda *a, key=None: _minmax(a, key, sx_lt),
        'max': lambda *a, key=None: _minmax(a, key, sx_gt),
        'hash': sx_hash, 'repr': sx_repr, 'chr': sx_chr, 'ord': sx_ord, 'unichr': sx_chr,
        'open': vfs.sx_open, 'next': lambda it, *d: next(it, *d), 'intern': lambda s: s,
        'reload': lambda m: m, '__import__': importer, '__build_class__': _b.__build_class__,
        'raw_input': _raise_abstract, 'buffer': lambda s: s,
        '__debug__': True,
        'oct': lambda i: '0' + ('%o' % i) if i else '0',
        'apply': lambda f, a=(), k={}: sx_call(f, *a, **dict(k.items())),
        'format': lambda v, s='': sx_format('{0:' + s + '}', (v,), {}),
        'exit': _exit, 'quit': _exit,
        'PendingDeprecationWarning': PendingDeprecationWarning, 'ImportWarning': ImportWarning,
        'RuntimeWarning': RuntimeWarning, 'SyntaxWarning': SyntaxWarning,
        'UnicodeWarning': UnicodeWarning, 'BytesWarning': BytesWarning,
        'UnicodeTranslateError': UnicodeTranslateError, 'BufferError': BufferError,
        'FloatingPointError': FloatingPointError, 'ReferenceError': ReferenceError,
        'IndentationError': IndentationError, 'TabError': TabError,
    })
    for n, f in list(globals().items()):
        if n.startswith('sx_'):
            g['_' + n] = f
    g['_sx_AnyException'] = AnyException
    g['_sx_hosttype'] = type
    g['_sx_exec'] = _unmodelled_exec
    g['__name__'] = '__builtin__'
    from .models import Unmodelled
    for n in ('compile', 'complex', 'eval', 'execfile', 'input', 'memoryview', 'coerce'):
        g[n] = Unmodelled(n)
    return g


def _unmodelled_exec():
    raise core.Unsupported('exec statement')


def _exit(code=None):
    raise SystemExit(code)


import sys as _sys
containers.rt = _sys.modules[__name__]
