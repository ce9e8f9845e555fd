"""Symbolic byte strings: a concrete length, characters that are ints or 8-bit terms."""
import z3
from . import core
from .core import (SymBool, SymInt, mkbool, ex, enot, eand, eor, cached, mknot)


class UStr(str):
    """A unicode object of the code under test (ASCII content)."""

    def __add__(self, o):
        if isinstance(o, str):
            return UStr(str.__add__(self, o))
        return NotImplemented

    def __radd__(self, o):
        return UStr(str.__add__(o, self))

    def __getitem__(self, i):
        return UStr(str.__getitem__(self, i))

    def __hash__(self):
        return str.__hash__(self)

    def __eq__(self, o):
        return str.__eq__(self, o)

    def __ne__(self, o):
        return str.__ne__(self, o)


def ceq(a, b):
    """char == char -> True/False/z3"""
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return a == b
    if a is b:
        return True
    if ia:
        a, b = b, a
        ib = True
    if ib:
        if b > 255:
            return False
        return cached('eq', a, b, lambda x, y: x == z3.BitVecVal(y, 8))
    return cached('eq', a, b, lambda x, y: x == y)


def cle(a, b):
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return a <= b
    if ia:
        if a <= 0:
            return True
        return cached('ule', a, b, lambda x, y: z3.ULE(z3.BitVecVal(x, 8), y))
    if ib:
        if b >= 255:
            return True
        return cached('ule', a, b, lambda x, y: z3.ULE(x, z3.BitVecVal(y, 8)))
    return cached('ule', a, b, lambda x, y: z3.ULE(x, y))


def clt(a, b):
    return enot(cle(b, a))


def crange(c, lo, hi):
    if type(c) is int:
        return lo <= c <= hi
    if lo == hi:
        return ceq(c, lo)
    return eand([cle(lo, c), cle(c, hi)])


def cset(c, ranges):
    """c in union of (lo, hi)"""
    if type(c) is int:
        return any(lo <= c <= hi for lo, hi in ranges)
    k = ('set', id(c), tuple(ranges))
    r = core._opcache.get(k)
    if r is None:
        r = (eor([crange(c, lo, hi) for lo, hi in ranges]), c)
        core._opcache[k] = r
    return r[0]


DIGIT = [(48, 57)]
UPPER = [(65, 90)]
LOWER = [(97, 122)]
ALPHA = UPPER + LOWER
ALNUM = DIGIT + ALPHA
SPACE = [(9, 13), (32, 32)]


def br(e):
    """Branch on True/False/z3."""
    if e is True or e is False:
        return e
    return core.CTX.branch(e)


def codes(s):
    if isinstance(s, SymStr):
        return s.ch
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError('not a string: %r' % (s,))


def isstr(s):
    return isinstance(s, (str, SymStr))


def mk(chars, u=False):
    for c in chars:
        if type(c) is not int:
            s = SymStr(tuple(chars))
            s.u = u
            return s
    r = ''.join(map(chr, chars))
    return UStr(r) if u else r


def isu(s):
    return isinstance(s, UStr) or (isinstance(s, SymStr) and s.u)


def eq_e(a, b):
    """string equality -> True/False/z3"""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return str.__eq__(a, b)
    a, b = codes(a), codes(b)
    if len(a) != len(b):
        return False
    return _seq_eq(a, b)


def _seq_eq(a, b):
    es = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        es.append(ceq(x, y))
    return eand(es)


def lt_e(a, b):
    """a < b lexicographically -> True/False/z3"""
    if isinstance(a, str) and isinstance(b, str):
        return str.__lt__(a, b)
    a, b = codes(a), codes(b)
    n = min(len(a), len(b))
    r = len(a) < len(b)
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        if type(x) is int and type(y) is int:
            if x != y:
                r = x < y
            continue
        l = clt(x, y)
        if r is False:
            r = l
        elif r is True:
            r = cle(x, y)
        else:
            r = eor([l, eand([ceq(x, y), r])])
    return r


class SymStr(object):
    __slots__ = ('ch', 'u')

    def __init__(self, ch):
        self.ch = ch
        self.u = False

    def __len__(self):
        return len(self.ch)

    def __bool__(self):
        return len(self.ch) > 0

    def __iter__(self):
        for c in self.ch:
            yield mk((c,), self.u)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.ch[i], self.u)
        return mk((self.ch[i],), self.u)

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(self.ch + codes(o), self.u or isu(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(codes(o) + self.ch, self.u or isu(o))

    def __mul__(self, n):
        return mk(self.ch * int(n), self.u)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isstr(o):
            return False
        return mkbool(eq_e(self, o))

    def __ne__(self, o):
        return mknot(self == o)

    def __lt__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(lt_e(self, o))

    def __gt__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(lt_e(o, self))

    def __le__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(enot(lt_e(o, self)))

    def __ge__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(enot(lt_e(self, o)))

    def __contains__(self, o):
        return bool(mkbool(contains_e(self, o)))

    def __hash__(self):
        raise core.Unsupported('native hash of a symbolic string')

    def __str__(self):
        return 'SymStr<%s>' % ''.join(chr(c) if type(c) is int else '?' for c in self.ch)

    __repr__ = __str__

    def __getattr__(self, name):
        m = METHODS.get(name)
        if m is None:
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return StrMethod(self, name, m)


class StrMethod(object):
    """A bound string method working on symbolic operands."""
    __slots__ = ('__self__', '__name__', 'f')

    def __init__(self, s, name, f):
        self.__self__ = s
        self.__name__ = name
        self.f = f

    def __call__(self, *a, **k):
        return self.f(self.__self__, *a, **k)


# -- the string methods ------------------------------------------------------
def match_at(s, p, i):
    """s[i:i+len(p)] == p, as True/False/z3 (codes)."""
    if i < 0 or i + len(p) > len(s):
        return False
    return _seq_eq(s[i:i + len(p)], p)


def contains_e(s, p):
    if not isstr(p):
        raise TypeError("'in <string>' requires string as left operand")
    s, p = codes(s), codes(p)
    return eor([match_at(s, p, i) for i in range(len(s) - len(p) + 1)])


def _bounds(n, start, end):
    a, b, _ = slice(start, end).indices(n)
    return a, b


def _find(s, p, start=None, end=None):
    s, p = codes(s), codes(p)
    a, b = _bounds(len(s), start, end)
    for i in range(a, b - len(p) + 1):
        if br(match_at(s, p, i)):
            return i
    return -1


def _rfind(s, p, start=None, end=None):
    s, p = codes(s), codes(p)
    a, b = _bounds(len(s), start, end)
    for i in range(b - len(p), a - 1, -1):
        if br(match_at(s, p, i)):
            return i
    return -1


def _index(s, p, start=None, end=None):
    i = _find(s, p, start, end)
    if i < 0:
        raise ValueError('substring not found')
    return i


def _rindex(s, p, start=None, end=None):
    i = _rfind(s, p, start, end)
    if i < 0:
        raise ValueError('substring not found')
    return i


def _count(s, p, start=None, end=None):
    s, p = codes(s), codes(p)
    a, b = _bounds(len(s), start, end)
    n = 0
    if not p:
        return b - a + 1
    while a + len(p) <= b:
        if br(match_at(s, p, a)):
            n += 1
            a += len(p)
        else:
            a += 1
    return n


def _startswith(s, p, start=None, end=None):
    if isinstance(p, tuple):
        return mkbool(eor([ex(_startswith(s, q, start, end)) for q in p]))
    s, p = codes(s), codes(p)
    a, b = _bounds(len(s), start, end)
    return mkbool(match_at(s[a:b], p, 0))


def _endswith(s, p, start=None, end=None):
    if isinstance(p, tuple):
        return mkbool(eor([ex(_endswith(s, q, start, end)) for q in p]))
    s, p = codes(s), codes(p)
    a, b = _bounds(len(s), start, end)
    s = s[a:b]
    return mkbool(match_at(s, p, len(s) - len(p)))


def _split(s, sep=None, maxsplit=-1):
    u = isu(s)
    s = codes(s)
    out = []
    if sep is None:
        i = 0
        n = len(s)
        while True:
            while i < n and br(cset(s[i], SPACE)):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(mk(s[i:], u))
                break
            j = i
            while j < n and not br(cset(s[j], SPACE)):
                j += 1
            out.append(mk(s[i:j], u))
            i = j
        return out
    p = codes(sep)
    if not p:
        raise ValueError('empty separator')
    i = st = 0
    while i + len(p) <= len(s):
        if maxsplit >= 0 and len(out) >= maxsplit:
            break
        if br(match_at(s, p, i)):
            out.append(mk(s[st:i], u))
            i += len(p)
            st = i
        else:
            i += 1
    out.append(mk(s[st:], u))
    return out


def _rsplit(s, sep=None, maxsplit=-1):
    u = isu(s)
    s = codes(s)
    out = []
    if sep is None:
        i = len(s)
        while True:
            while i > 0 and br(cset(s[i - 1], SPACE)):
                i -= 1
            if i <= 0:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(mk(s[:i], u))
                break
            j = i
            while j > 0 and not br(cset(s[j - 1], SPACE)):
                j -= 1
            out.append(mk(s[j:i], u))
            i = j
        return out[::-1]
    p = codes(sep)
    if not p:
        raise ValueError('empty separator')
    i = end = len(s)
    while i - len(p) >= 0:
        if maxsplit >= 0 and len(out) >= maxsplit:
            break
        if br(match_at(s, p, i - len(p))):
            out.append(mk(s[i:end], u))
            i -= len(p)
            end = i
        else:
            i -= 1
    out.append(mk(s[:end], u))
    return out[::-1]


def _splitlines(s, keepends=False):
    u = isu(s)
    s = codes(s)
    out = []
    i = st = 0
    n = len(s)
    while i < n:
        if br(ceq(s[i], 10)):
            j = i + 1
        elif br(ceq(s[i], 13)):
            j = i + 1
            if j < n and br(ceq(s[j], 10)):
                j += 1
        else:
            i += 1
            continue
        out.append(mk(s[st:j] if keepends else s[st:i], u))
        i = st = j
    if st < n:
        out.append(mk(s[st:], u))
    return out


def lines_of(s):
    """What a text file yields line by line (newlines kept, only \\n ends a line)."""
    if isinstance(s, str):
        return s.splitlines(True) if '\r' not in s and not any(
            c in s for c in '\x0b\x0c\x1c\x1d\x1e\x85') else \
            [x for x in _nl(s)]
    s = codes(s)
    out = []
    st = 0
    for i in range(len(s)):
        if br(ceq(s[i], 10)):
            out.append(mk(s[st:i + 1]))
            st = i + 1
    if st < len(s):
        out.append(mk(s[st:]))
    return out


def _nl(s):
    parts = s.split('\n')
    for p in parts[:-1]:
        yield p + '\n'
    if parts[-1]:
        yield parts[-1]


def _inchars(c, chars):
    if chars is None:
        return cset(c, SPACE)
    return eor([ceq(c, x) for x in codes(chars)])


def _lstrip(s, chars=None):
    u = isu(s)
    s = codes(s)
    i = 0
    while i < len(s) and br(_inchars(s[i], chars)):
        i += 1
    return mk(s[i:], u)


def _rstrip(s, chars=None):
    u = isu(s)
    s = codes(s)
    i = len(s)
    while i > 0 and br(_inchars(s[i - 1], chars)):
        i -= 1
    return mk(s[:i], u)


def _strip(s, chars=None):
    return _rstrip(_lstrip(s, chars), chars)


def _case(s, lo, hi, d):
    u = isu(s)
    out = []
    for c in codes(s):
        if type(c) is int:
            out.append(c + d if lo <= c <= hi else c)
        else:
            out.append(cached('case%d' % d, c, 0, lambda x, y: z3.If(
                crange(x, lo, hi), x + z3.BitVecVal(d % 256, 8), x)))
    return mk(out, u)


def _lower(s):
    return _case(s, 65, 90, 32)


def _upper(s):
    return _case(s, 97, 122, -32)


def _swapcase(s):
    r = []
    for c in codes(s):
        c1 = mk((c,))
        r.append(codes(_upper(c1) if br(cset(c, LOWER)) else _lower(c1))[0])
    return mk(r, isu(s))


def _capitalize(s):
    s = codes(s)
    return mk(codes(_upper(mk(s[:1]))) + codes(_lower(mk(s[1:]))))


def _title(s):
    out = []
    prev = False
    for c in codes(s):
        c1 = mk((c,))
        out.append(codes(_lower(c1) if prev else _upper(c1))[0])
        prev = br(cset(c, ALPHA))
    return mk(out, isu(s))


def _replace(s, old, new, count=-1):
    u = isu(s)
    s, old, new = codes(s), codes(old), codes(new)
    out = []
    n = 0
    if not old:
        for c in s:
            if count >= 0 and n >= count:
                out.append(c)
                continue
            out.extend(new)
            out.append(c)
            n += 1
        if count < 0 or n < count:
            out.extend(new)
        return mk(out, u)
    i = 0
    while i < len(s):
        if (count < 0 or n < count) and br(match_at(s, old, i)):
            out.extend(new)
            i += len(old)
            n += 1
        else:
            out.append(s[i])
            i += 1
    return mk(out, u)


def _join(s, it):
    sep = codes(s)
    out = []
    u = isu(s)
    for n, x in enumerate(it):
        if not isstr(x):
            raise TypeError('sequence item %d: expected string, %s found'
                            % (n, type(x).__name__))
        if n:
            out.extend(sep)
        u = u or isu(x)
        out.extend(codes(x))
    return mk(out, u)


def _all(s, ranges):
    s = codes(s)
    if not s:
        return False
    return mkbool(eand([cset(c, ranges) for c in s]))


def _iscase(s, a, b):
    s = codes(s)
    return mkbool(eand([eor([cset(c, a) for c in s]), enot(eor([cset(c, b) for c in s]))]))


def _partition(s, sep):
    i = _find(s, sep)
    if i < 0:
        return (s, '', '')
    c = codes(s)
    return (mk(c[:i], isu(s)), sep, mk(c[i + len(sep):], isu(s)))


def _rpartition(s, sep):
    i = _rfind(s, sep)
    if i < 0:
        return ('', '', s)
    c = codes(s)
    return (mk(c[:i], isu(s)), sep, mk(c[i + len(sep):], isu(s)))


def _zfill(s, w):
    u = isu(s)
    c = codes(s)
    w = int(w)
    if len(c) >= w:
        return s
    pad = (48,) * (w - len(c))
    if c and (br(ceq(c[0], 43)) or br(ceq(c[0], 45))):
        return mk((c[0],) + pad + c[1:], u)
    return mk(pad + c, u)


def _ljust(s, w, f=' '):
    c = codes(s)
    return mk(c + codes(f) * max(0, int(w) - len(c)), isu(s))


def _rjust(s, w, f=' '):
    c = codes(s)
    return mk(codes(f) * max(0, int(w) - len(c)) + c, isu(s))


def _center(s, w, f=' '):
    c = codes(s)
    m = max(0, int(w) - len(c))
    l = m // 2 + (m & int(w) & 1)
    return mk(codes(f) * l + c + codes(f) * (m - l), isu(s))


def ascii_check(s, exc, enc='ascii'):
    for c in codes(s):
        if br(enot(cle(c, 127))):
            raise exc


def _codec(enc):
    enc = str(enc).lower().replace('_', '-')
    return {'utf8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1', 'us-ascii': 'ascii'}.get(enc, enc)


def _encode(s, enc='ascii', errors='strict'):
    enc = _codec(enc)
    if not isu(s):
        # decoded first, as ASCII
        if enc not in ('ascii', 'utf-8', 'latin-1'):
            raise core.Unsupported('codec %s' % enc)
        ascii_check(s, UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)'))
        return s
    top = {'ascii': 127, 'latin-1': 255, 'utf-8': None}.get(enc, -1)
    if top == -1:
        raise core.Unsupported('codec %s' % enc)
    out = []
    for c in codes(s):
        if not br(enot(cle(c, 127))):
            out.append(c)
        elif enc == 'utf-8':
            if type(c) is not int:
                c = ord(concretise(mk([c], False)))
            out += list(chr(c).encode('utf-8'))
        elif enc == 'latin-1' and br(cle(c, 255)):
            out.append(c)
        elif errors == 'ignore':
            pass
        elif errors == 'replace':
            out.append(63)
        else:
            raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range')
    return mk(out, False)


def _decode(s, enc='ascii', errors='strict'):
    enc = _codec(enc)
    if isu(s):
        # encoded first, as ASCII
        ascii_check(s, UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)'))
        return s
    if enc not in ('ascii', 'utf-8', 'latin-1'):
        raise core.Unsupported('codec %s' % enc)
    cs = codes(s)
    if enc == 'latin-1':
        return mk(cs, True)
    plain = True
    for c in cs:
        if br(enot(cle(c, 127))):
            plain = False
            break
    if plain:
        return mk(cs, True)
    if not all(type(c) is int for c in cs):
        s = concretise(mk(cs, False))
        cs = [ord(c) for c in s]
    try:
        return UStr(bytes(cs).decode(enc, errors))
    except UnicodeDecodeError as e:
        raise UnicodeDecodeError(enc, b'?', 0, 1, e.reason)


METHODS = {
    'find': _find, 'rfind': _rfind, 'index': _index, 'rindex': _rindex, 'count': _count,
    'startswith': _startswith, 'endswith': _endswith, 'split': _split, 'rsplit': _rsplit,
    'splitlines': _splitlines, 'strip': _strip, 'lstrip': _lstrip, 'rstrip': _rstrip,
    'lower': _lower, 'upper': _upper, 'replace': _replace, 'join': _join,
    'capitalize': _capitalize, 'title': _title, 'swapcase': _swapcase,
    'isdigit': lambda s: _all(s, DIGIT), 'isalpha': lambda s: _all(s, ALPHA),
    'isalnum': lambda s: _all(s, ALNUM), 'isspace': lambda s: _all(s, SPACE),
    'islower': lambda s: _iscase(s, LOWER, UPPER), 'isupper': lambda s: _iscase(s, UPPER, LOWER),
    'partition': _partition, 'rpartition': _rpartition, 'zfill': _zfill, 'ljust': _ljust,
    'rjust': _rjust, 'center': _center, 'encode': _encode, 'decode': _decode,
}


# -- numbers and text ----------------------------------------------------------
def to_int(s, base=10):
    """int(s): the value keeps its digits, so that str() needs no arithmetic."""
    c = codes(_strip(s))
    neg = False
    body = c
    if body and br(ceq(body[0], 45)):
        neg = True
        body = body[1:]
    elif body and br(ceq(body[0], 43)):
        body = body[1:]
    if not body or not br(eand([cset(x, DIGIT) for x in body])):
        raise ValueError('invalid literal for int() with base 10')
    while len(body) > 1 and br(ceq(body[0], 48)):
        body = body[1:]
    if all(type(x) is int for x in body):
        v = int(''.join(map(chr, body)))
        return -v if neg else v
    e = z3.IntVal(0)
    for x in body:
        d = z3.IntVal(x - 48) if type(x) is int else z3.BV2Int(x) - 48
        e = e * 10 + d
    return SymInt(-e if neg else e, digits=((45,) if neg else ()) + tuple(body))


def int_str(i):
    """str(SymInt)"""
    if i.digits is not None:
        d = i.digits
        if d[0] == 45 and len(d) == 2 and br(ceq(d[1], 48)):
            return '0'
        return mk(d)
    return str(int(i))


def model_chars(m, s):
    out = []
    for c in s.ch:
        if type(c) is int:
            out.append(c)
        else:
            out.append(m.eval(c, model_completion=True).as_long())
    return ''.join(map(chr, out))


def concretise(s):
    """Last resort: follow one model value; the rest of the space is reported as not covered."""
    c = core.CTX
    c.enums += 1
    d = (c.depth, c.enums)
    if c.depth < len(c.prefix):
        v = c.hints[d]
    else:
        c.need_model()
        v = model_chars(c.model, s)
        c.hints[d] = v
    c.incomplete = True
    c.x.stats.concretised += 1
    e = eq_e(s, v)
    if e is not True:
        c.assume_e(e)
    return UStr(v) if s.u else v
