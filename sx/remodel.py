"""Regular expressions over symbolic strings: the host's `re` for concrete text, a
backtracking matcher over the host's parse tree (Python 2 byte-string semantics) otherwise."""
import re as _re
import re._parser as _sp
import re._constants as _sc
from . import core, strings
from .strings import SymStr, UStr, isstr, codes, mk, br, cset, ceq
from .core import enot, eor, eand
from .containers import PyDict
from . import runtime as rt

WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]
CAT = {_sc.CATEGORY_DIGIT: (strings.DIGIT, False), _sc.CATEGORY_NOT_DIGIT: (strings.DIGIT, True),
       _sc.CATEGORY_SPACE: (strings.SPACE, False), _sc.CATEGORY_NOT_SPACE: (strings.SPACE, True),
       _sc.CATEGORY_WORD: (WORD, False), _sc.CATEGORY_NOT_WORD: (WORD, True)}


def _fold(c, ignore):
    if not ignore:
        return None
    if 65 <= c <= 90:
        return c + 32
    if 97 <= c <= 122:
        return c - 32
    return None


def class_e(c, items, ignore):
    neg = False
    es = []
    for op, av in items:
        if op is _sc.NEGATE:
            neg = True
        elif op is _sc.LITERAL:
            es.append(ceq(c, av))
            f = _fold(av, ignore)
            if f is not None:
                es.append(ceq(c, f))
        elif op is _sc.RANGE:
            lo, hi = av
            es.append(cset(c, [(lo, min(hi, 255))]))
            if ignore:
                rs = [(_fold(x, True), _fold(x, True)) for x in range(lo, min(hi, 255) + 1)
                      if _fold(x, True) is not None]
                if rs:
                    es.append(cset(c, rs))
        elif op is _sc.CATEGORY:
            r, n = CAT[av]
            e = cset(c, r)
            es.append(enot(e) if n else e)
        else:
            raise core.Unsupported('regex class item %s' % op)
    e = eor(es)
    return enot(e) if neg else e


class Matcher(object):
    def __init__(self, s, flags):
        self.s = s
        self.n = len(s)
        self.ignore = bool(flags & _re.I)
        self.multi = bool(flags & _re.M)
        self.dotall = bool(flags & _re.S)

    def one(self, op, av, i):
        """Does the single-character item match at i? (formula)"""
        if i >= self.n:
            return False
        c = self.s[i]
        if op is _sc.LITERAL:
            f = _fold(av, self.ignore)
            return ceq(c, av) if f is None else eor([ceq(c, av), ceq(c, f)])
        if op is _sc.NOT_LITERAL:
            return enot(ceq(c, av))
        if op is _sc.IN:
            return class_e(c, av, self.ignore)
        if op is _sc.ANY:
            return True if self.dotall else enot(ceq(c, 10))
        return None

    SINGLE = (_sc.LITERAL, _sc.NOT_LITERAL, _sc.IN, _sc.ANY)

    def m(self, items, k, i, g, cont):
        """Match items[k:] at i with groups g; cont(i, g) continues.  Returns result or None."""
        core.CTX.tick()
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        if op in self.SINGLE:
            if not br(self.one(op, av, i)):
                return None
            return self.m(items, k + 1, i + 1, g, cont)
        nxt = lambda j, h: self.m(items, k + 1, j, h, cont)
        if op is _sc.SUBPATTERN:
            gid, add, rem, p = av
            if gid is None:
                return self.m(list(p), 0, i, g, nxt)

            def done(j, h):
                h = dict(h)
                h[gid] = (i, j)
                return nxt(j, h)
            return self.m(list(p), 0, i, g, done)
        if op is _sc.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, p = av
            hi = self.n + 1 if hi is _sc.MAXREPEAT else hi
            p = list(p)
            greedy = op is _sc.MAX_REPEAT
            if len(p) == 1 and p[0][0] in self.SINGLE:
                if greedy:
                    j = i
                    while j - i < hi and br(self.one(p[0][0], p[0][1], j)):
                        j += 1
                    while j - i >= lo:
                        r = nxt(j, g)
                        if r is not None:
                            return r
                        j -= 1
                    return None
                j = i
                while j - i < lo:
                    if not br(self.one(p[0][0], p[0][1], j)):
                        return None
                    j += 1
                while True:
                    r = nxt(j, g)
                    if r is not None:
                        return r
                    if j - i >= hi or not br(self.one(p[0][0], p[0][1], j)):
                        return None
                    j += 1

            def rep(cnt, j, h):
                if cnt < lo:
                    return self.m(p, 0, j, h, lambda j2, h2: rep(cnt + 1, j2, h2))
                if greedy:
                    if cnt < hi:
                        r = self.m(p, 0, j, h, lambda j2, h2: None if j2 == j
                                   else rep(cnt + 1, j2, h2))
                        if r is not None:
                            return r
                    return nxt(j, h)
                r = nxt(j, h)
                if r is not None:
                    return r
                if cnt < hi:
                    return self.m(p, 0, j, h, lambda j2, h2: None if j2 == j
                                  else rep(cnt + 1, j2, h2))
                return None
            return rep(0, i, g)
        if op is _sc.AT:
            if av in (_sc.AT_BEGINNING, _sc.AT_BEGINNING_STRING):
                ok = i == 0 or (av is _sc.AT_BEGINNING and self.multi and
                                br(ceq(self.s[i - 1], 10)))
            elif av is _sc.AT_END_STRING:
                ok = i == self.n
            elif av is _sc.AT_END:
                ok = i == self.n or (i == self.n - 1 and br(ceq(self.s[i], 10))) or \
                    (self.multi and i < self.n and br(ceq(self.s[i], 10)))
            elif av in (_sc.AT_BOUNDARY, _sc.AT_NON_BOUNDARY):
                a = i > 0 and br(cset(self.s[i - 1], WORD))
                b = i < self.n and br(cset(self.s[i], WORD))
                ok = (a != b) == (av is _sc.AT_BOUNDARY)
            else:
                raise core.Unsupported('regex anchor %s' % av)
            return nxt(i, g) if ok else None
        if op in (_sc.ASSERT, _sc.ASSERT_NOT):
            d, p = av
            if d != 1:
                raise core.Unsupported('lookbehind')
            r = self.m(list(p), 0, i, g, lambda j, h: (j, h))
            if op is _sc.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is _sc.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if not br(strings.match_at(self.s, self.s[a:b], i)):
                return None
            return nxt(i + b - a, g)
        raise core.Unsupported('regex operator %s' % op)


class SymMatch(object):
    def __init__(self, pat, s, i, j, g):
        self.re = pat
        self.string = s
        self._s = (i, j)
        self._g = g
        self.pos = 0

    def _span(self, k):
        if k == 0 and not isstr(k):
            return self._s
        if isstr(k):
            k = self.re.rx.groupindex[str(k)]
        if k > self.re.rx.groups:
            raise IndexError('no such group')
        return self._g.get(k)

    def group(self, *ks):
        if not ks:
            ks = (0,)
        out = []
        for k in ks:
            sp = self._span(k)
            out.append(None if sp is None else self.string[sp[0]:sp[1]])
        return out[0] if len(out) == 1 else tuple(out)

    def groups(self, default=None):
        return tuple(default if self._g.get(k) is None else self.group(k)
                     for k in range(1, self.re.rx.groups + 1))

    def groupdict(self, default=None):
        d = PyDict()
        for n, k in sorted(self.re.rx.groupindex.items(), key=lambda x: x[1]):
            v = self.group(k)
            d[n] = default if v is None else v
        return d

    def start(self, k=0):
        sp = self._span(k)
        return -1 if sp is None else sp[0]

    def end(self, k=0):
        sp = self._span(k)
        return -1 if sp is None else sp[1]

    def span(self, k=0):
        return self._span(k) or (-1, -1)


class HostMatch(object):
    def __init__(self, pat, m, s):
        self.re = pat
        self.m = m
        self.string = s
        self.u = isinstance(s, UStr)

    def _w(self, x):
        return UStr(x) if self.u and x is not None else x

    def group(self, *ks):
        r = self.m.group(*ks)
        if isinstance(r, tuple):
            return tuple(self._w(x) for x in r)
        return self._w(r)

    def groups(self, default=None):
        return tuple(self._w(x) for x in self.m.groups(default))

    def groupdict(self, default=None):
        return PyDict([(k, self._w(v)) for k, v in self.m.groupdict(default).items()])

    def __getattr__(self, n):
        return getattr(self.m, n)


def _hostre(p):
    """Python 2 accepts global flags anywhere in the pattern; the host only in front."""
    found = _re.search(r'(?<!\\)\(\?([imsxLu]+)\)', p)
    if not found or p.startswith(found.group(0)):
        return p
    return found.group(0) + p[:found.start()] + p[found.end():]


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags
        self.src = _hostre(str(rt.conc(pattern)))
        self.rx = _re.compile(self.src, int(flags) | _re.ASCII)
        self.groups = self.rx.groups
        self.groupindex = PyDict(dict(self.rx.groupindex))
        self._tree = None

    def tree(self):
        if self._tree is None:
            self._tree = list(_sp.parse(self.src, int(self.flags) | _re.ASCII))
        return self._tree

    def _chk(self, s):
        if not isstr(s):
            raise TypeError('expected string or buffer')

    def _at(self, s, c, i, full=False):
        mt = Matcher(c, self.rx.flags)
        end = (lambda j, g: (j, g) if j == len(c) else None) if full else (lambda j, g: (j, g))
        r = mt.m(self.tree(), 0, i, {}, end)
        if r is None:
            return None
        return SymMatch(self, s, i, r[0], r[1])

    def match(self, s, pos=0):
        self._chk(s)
        if isinstance(s, str):
            m = self.rx.match(s, pos)
            return HostMatch(self, m, s) if m else None
        return self._at(s, s.ch, pos)

    def search(self, s, pos=0):
        self._chk(s)
        if isinstance(s, str):
            m = self.rx.search(s, pos)
            return HostMatch(self, m, s) if m else None
        for i in range(pos, len(s.ch) + 1):
            m = self._at(s, s.ch, i)
            if m is not None:
                return m
        return None

    def _iter(self, s):
        """Non-overlapping matches, Python 2 rules (an empty match never follows a match)."""
        i = 0
        n = len(s)
        last = -1
        while i <= n:
            m = self.search(s, i)
            if m is None:
                return
            a, b = m.start(), m.end()
            if a == b and a == last:
                i = a + 1
                m = self.search(s, i) if i <= n else None
                if m is None:
                    return
                a, b = m.start(), m.end()
            yield m
            last = b
            i = b if b > a else b + 1

    def finditer(self, s):
        self._chk(s)
        return self._iter(s)

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or '')
            else:
                out.append(tuple(x or '' for x in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        self._chk(s)
        out = []
        last = 0
        k = 0
        for m in self._iter(s):
            if m.start() == m.end():
                continue
            if maxsplit and k >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            k += 1
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        self._chk(s)
        out = []
        last = 0
        k = 0
        for m in self._iter(s):
            if count and k >= count:
                break
            out.append(s[last:m.start()])
            if isstr(repl):
                if isinstance(repl, SymStr) or '\\' in repl:
                    out.append(self._template(repl, m))
                else:
                    out.append(repl)
            else:
                out.append(repl(m))
            last = m.end()
            k += 1
        out.append(s[last:])
        return strings._join('', out), k

    def _template(self, repl, m):
        r = rt.conc(repl)
        out = []
        i = 0
        while i < len(r):
            if r[i] == '\\' and i + 1 < len(r):
                if r[i + 1].isdigit():
                    out.append(m.group(int(r[i + 1])) or '')
                    i += 2
                    continue
                if r[i + 1] == 'g' and '>' in r[i:]:
                    j = r.index('>', i)
                    nm = r[i + 3:j]
                    out.append(m.group(int(nm) if nm.isdigit() else nm) or '')
                    i = j + 1
                    continue
                out.append({'n': '\n', 't': '\t'}.get(r[i + 1], r[i:i + 2]
                                                     if r[i + 1].isalpha() else r[i + 1]))
                i += 2
                continue
            out.append(r[i])
            i += 1
        return strings._join('', out)


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    k = (str(rt.conc(pattern)), int(flags))
    if k not in _cache:
        _cache[k] = Pattern(k[0], k[1])
    return _cache[k]


class Module(object):
    I = IGNORECASE = 2
    M = MULTILINE = 8
    S = DOTALL = 16
    X = VERBOSE = 64
    U = UNICODE = 0
    L = LOCALE = 0
    error = _re.error
    compile = staticmethod(compile)

    @staticmethod
    def match(p, s, flags=0):
        return compile(p, flags).match(s)

    @staticmethod
    def search(p, s, flags=0):
        return compile(p, flags).search(s)

    @staticmethod
    def split(p, s, maxsplit=0, flags=0):
        return compile(p, flags).split(s, maxsplit)

    @staticmethod
    def findall(p, s, flags=0):
        return compile(p, flags).findall(s)

    @staticmethod
    def finditer(p, s, flags=0):
        return compile(p, flags).finditer(s)

    @staticmethod
    def sub(p, repl, s, count=0, flags=0):
        return compile(p, flags).sub(repl, s, count)

    @staticmethod
    def subn(p, repl, s, count=0, flags=0):
        return compile(p, flags).subn(repl, s, count)

    @staticmethod
    def purge():
        pass

    @staticmethod
    def escape(s):
        out = []
        for c in codes(s):
            if not br(cset(c, strings.ALNUM)):
                out.append(92)
            out.append(c)
        return mk(out)

    _pattern_type = Pattern
