"""Path exploration: every branch on a symbolic value is decided by z3.

A harness is re-executed once per feasible path.  The decisions of a path are
kept as levels of one incremental solver, so a new path only pays for the
suffix after the flipped decision.
"""
import time
import z3


class Control(BaseException):
    """Engine control flow; never caught by the code under test."""


class Prune(Control):
    """The path is infeasible (or cut by an assumption)."""


class Unsupported(Control):
    """The encoding cannot express what the code does here."""


class StepLimit(Control):
    """The path exceeded the unrolling limit."""


class ViolationFound(Control):
    def __init__(self, msg, model):
        self.msg = msg
        self.model = model


class Inconclusive(Control):
    """The solver answered unknown."""


CTX = None          # the context of the running path


def ctx():
    return CTX


_keep = []
_vars = {}
_opcache = {}


def bvvar(name):
    v = _vars.get(name)
    if v is None:
        v = _vars[name] = z3.BitVec(name, 8)
    return v


def intvar(name):
    v = _vars.get(name)
    if v is None:
        v = _vars[name] = z3.Int(name)
    return v


def boolvar(name):
    v = _vars.get(name)
    if v is None:
        v = _vars[name] = z3.Bool(name)
    return v


def cached(op, a, b, f):
    """Memoised expression construction (a, b: ints or z3 terms)."""
    k = (op, a if type(a) is int else id(a), type(a) is int,
         b if type(b) is int else id(b), type(b) is int)
    r = _opcache.get(k)
    if r is None:
        r = f(a, b)
        _opcache[k] = (r, a, b)
        return r
    return r[0]


# --------------------------------------------------------------------------
class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else mknot(self)
        if isinstance(o, (int, SymInt)):
            return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        return mknot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return mkor(self, o)

    __ror__ = __or__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) + o

    __radd__ = __add__

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__


def mkbool(e):
    if e is True or e is False:
        return e
    return SymBool(e)


def ex(b):
    """bool/SymBool -> True/False or z3 term."""
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, bool):
        return b
    return bool(b)


def enot(e):
    if e is True:
        return False
    if e is False:
        return True
    return cached('not', e, 0, lambda a, b: z3.Not(a))


def eand(es):
    out = []
    for e in es:
        if e is False:
            return False
        if e is True:
            continue
        out.append(e)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        return cached('and', out[0], out[1], lambda a, b: z3.And(a, b))
    return z3.And(*out)


def eor(es):
    out = []
    for e in es:
        if e is True:
            return True
        if e is False:
            continue
        out.append(e)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        return cached('or', out[0], out[1], lambda a, b: z3.Or(a, b))
    return z3.Or(*out)


def mknot(b):
    return mkbool(enot(ex(b)))


def mkand(*bs):
    return mkbool(eand([ex(b) for b in bs]))


def mkor(*bs):
    return mkbool(eor([ex(b) for b in bs]))


# --------------------------------------------------------------------------
def _iv(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def _isnum(x):
    return isinstance(x, (int, SymInt, SymBool))


class SymInt(object):
    """A mathematical integer (Python's int)."""
    __slots__ = ('e', 'digits')

    def __init__(self, e, digits=None):
        self.e = e
        self.digits = digits

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def _cmp(self, o, f):
        if not _isnum(o):
            return NotImplemented
        return mkbool(f(self.e, _iv(o)))

    def __eq__(self, o):
        if not _isnum(o):
            return False
        return mkbool(self.e == _iv(o))

    def __ne__(self, o):
        return mknot(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(int(self))

    def _bin(self, o, f):
        if not _isnum(o):
            return NotImplemented
        return SymInt(f(self.e, _iv(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if not _isnum(o):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.e / z3.IntVal(o))
        return int(self) // int(o)

    def __rfloordiv__(self, o):
        return int(o) // int(self)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.e % z3.IntVal(o))
        return int(self) % int(o)

    def __rmod__(self, o):
        return int(o) % int(self)

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def _bit(self, k):
        return (self.e / z3.IntVal(1 << k)) % z3.IntVal(2)

    def _nonneg(self):
        return CTX.branch(self.e >= 0)

    def __and__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if not self._nonneg():
            return int(self) & o
        if o < 0:       # x & ~m
            m = ~o
            return self - (self & m)
        t = z3.IntVal(0)
        k = 0
        while o >> k:
            if (o >> k) & 1:
                t = t + self._bit(k) * z3.IntVal(1 << k)
            k += 1
        return SymInt(z3.simplify(t))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if not isinstance(o, int) or o < 0:
            return int(self) | o
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if not isinstance(o, int) or o < 0:
            return int(self) ^ o
        return self + o - (self & o) * 2

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __invert__(self):
        return -self - 1

    def __int__(self):
        return CTX.enumerate_int(self.e)

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __str__(self):
        return str(int(self))

    __repr__ = __str__


# --------------------------------------------------------------------------
class Level(object):
    __slots__ = ('val', 'eid', 'e')

    def __init__(self, val, e):
        self.val = val
        self.e = e
        self.eid = e.get_id()


class Stats(object):
    FIELDS = ('paths', 'pruned', 'branches', 'nodes', 'queries', 'checks', 'solver_s',
              'unknown', 'unsupported', 'steplimit', 'concretised', 'violations', 'exceptions')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.functions = set()
        self.reached = {}
        self.notes = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.functions |= o.functions
        for d in ('reached', 'notes'):
            for k, v in getattr(o, d).items():
                getattr(self, d)[k] = getattr(self, d).get(k, 0) + v


class Context(object):
    """One path."""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.depth = 0
        self.enums = 0            # values tried by enumerations
        self.memo = {}
        self.inputs = []          # (name, kind, symbolic value)
        self.outs = []
        self.model = None
        self.counters = {}
        self.steps = 0
        self.calls = 0
        self.dead = False
        self.incomplete = False
        self.known = []           # (tag, condition)
        self.state = {}           # scratch space of the models
        self.msgs = []

    # -- decisions ---------------------------------------------------------
    def _level(self, val, e):
        """Put e on the solver as the constraint of the next decision."""
        d = self.depth
        x = self.x
        if d < len(x.levels):
            lv = x.levels[d]
            if lv.eid != e.get_id() or lv.val != val:
                raise RuntimeError('non-deterministic re-execution at decision %d: %s / %s'
                                   % (d, lv.e, e))
        else:
            x.solver.push()
            x.solver.add(e)
            x.levels.append(Level(val, e))
        self.depth = d + 1

    def _solve(self):
        x = self.x
        t = time.time()
        r = x.solver.check()
        x.stats.solver_s += time.time() - t
        x.stats.queries += 1
        if r == z3.sat:
            self.model = x.solver.model()
            return True
        if r == z3.unsat:
            return False
        x.stats.unknown += 1
        raise Inconclusive(str(x.solver.reason_unknown()))

    def _eval(self, e):
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def need_model(self):
        if self.model is None:
            if not self._solve():
                raise Prune()

    def branch(self, e):
        if e is True or e is False:
            return e
        if self.dead:
            raise Prune()
        k = e.get_id()
        m = self.memo.get(k)
        if m is not None:
            return m[0]
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        x = self.x
        d = self.depth
        ne = enot(e)
        if d < len(self.prefix):
            val = self.prefix[d]
            self._level(val, e if val else ne)
            if d == len(self.prefix) - 1:
                self.model = self.first
                if self.model is None and not self._solve():
                    raise Prune()
        else:
            self.need_model()
            val = self._eval(e)
            if val is None:
                self._solve()
                val = bool(self._eval(e))
            x.push_alt(self, d, not val, ne if val else e)
            self._level(val, e if val else ne)
            x.stats.nodes += 1
        x.stats.branches += 1
        self.memo[k] = (val, e)
        self.memo[ne.get_id()] = (not val, ne)
        return val

    def assume_e(self, e, fresh=False):
        """Add a constraint; prune when infeasible."""
        if e is True:
            return
        if e is False:
            raise Prune()
        if self.dead:
            raise Prune()
        d = self.depth
        self._level(True, e)
        k = e.get_id()
        self.memo[k] = (True, e)
        ne = enot(e)
        self.memo[ne.get_id()] = (False, ne)
        if d < len(self.prefix):
            if d == len(self.prefix) - 1:
                self.model = None
                if not self._solve():
                    raise Prune()
        elif fresh:
            self.model = None
        else:
            if self.model is not None and self._eval(e) is True:
                return
            self.model = None
            if not self._solve():
                raise Prune()

    def enumerate_int(self, e):
        """Complete enumeration of the values of an integer term."""
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            self.enums += 1
            d = (self.depth, self.enums)
            if self.depth < len(self.prefix):
                v = self.x.hint(self, d)
            else:
                self.need_model()
                v = self.model.eval(e, model_completion=True).as_long()
                self.x.set_hint(self, d, v)
            if self.branch(e == z3.IntVal(v)):
                return v
            n += 1
            if n > 5000:
                raise Unsupported('unbounded enumeration of %s' % e)

    # -- queries -----------------------------------------------------------
    def valid(self, e):
        """Is e true for every value on this path?  Returns (True, None) or (False, model)."""
        if e is True:
            return True, None
        if e is False:
            self.need_model()
            return False, self.model
        m = self.memo.get(e.get_id())
        if m is not None and m[0]:
            return True, None
        x = self.x
        x.solver.push()
        x.solver.add(enot(e))
        t = time.time()
        r = x.solver.check()
        x.stats.solver_s += time.time() - t
        x.stats.queries += 1
        mod = x.solver.model() if r == z3.sat else None
        x.solver.pop()
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, mod
        x.stats.unknown += 1
        raise Inconclusive('check')

    def tick(self):
        self.steps += 1
        if self.steps > self.x.max_steps:
            raise StepLimit('more than %d loop iterations' % self.x.max_steps)
        if self.dead:
            raise Prune()

    def enter(self, qn):
        self.x.stats.functions.add(qn)
        self.calls += 1
        if self.calls > self.x.max_calls:
            raise StepLimit('more than %d calls' % self.x.max_calls)

    def note(self, what):
        self.x.stats.notes[what] = self.x.stats.notes.get(what, 0) + 1

    def counter(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return n

    def fresh(self, name):
        return '%s#%d' % (name, self.counter('fresh:' + name))


class Explorer(object):
    """Depth-first exploration below a prefix of decisions."""

    def __init__(self, run, max_steps=20000, max_calls=200000, timeout_ms=20000):
        self.run = run                      # run(context) executes the harness
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', timeout_ms)
        self.levels = []
        self.work = []
        self.hints = {}
        self.stats = Stats()
        self.max_steps = max_steps
        self.max_calls = max_calls
        self.alts_closed = False

    # The value tried by an enumeration is part of the path: remembered by the
    # decision depth and the number of values tried before.
    def hint(self, c, d):
        v = c.hints.get(d)
        if v is None:
            raise RuntimeError('missing enumeration hint at %s %s' % d)
        return v

    def set_hint(self, c, d, v):
        c.hints[d] = v

    def push_alt(self, c, d, val, e=None):
        p = [lv.val for lv in self.levels[:d]] + [val]
        self.work.append((p, {k: v for k, v in c.hints.items() if k[0] <= d}, e))

    def one(self, item):
        """Run one path; returns its context or None when pruned."""
        global CTX
        prefix, hints = item[:2]
        common = 0
        n = min(len(prefix), len(self.levels))
        while common < n and self.levels[common].val == prefix[common]:
            common += 1
        if common == len(prefix) and len(prefix) and common == len(self.levels):
            common -= 1
        drop = len(self.levels) - common
        if drop:
            self.solver.pop(drop)
            del self.levels[common:]
        first = None
        if len(item) > 2 and item[2] is not None and prefix and common == len(prefix) - 1:
            # the flipped decision: most alternatives are infeasible, decided right here
            e = item[2]
            self.solver.push()
            self.solver.add(e)
            t = time.time()
            r = self.solver.check()
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            if r == z3.unsat:
                self.solver.pop()
                self.stats.pruned += 1
                return None
            if r == z3.sat:
                first = self.solver.model()
                self.levels.append(Level(prefix[-1], e))
            else:
                self.solver.pop()
        c = Context(self, prefix)
        c.first = first
        c.hints = dict(hints)
        CTX = c
        try:
            return self.run(c)
        finally:
            c.dead = True
            CTX = None

    def explore(self, items, deadline=None, max_paths=None):
        """Explores; returns the items left over."""
        self.work = list(items)
        n = 0
        while self.work:
            if deadline is not None and time.time() > deadline:
                break
            if max_paths is not None and n >= max_paths:
                break
            self.one(self.work.pop())
            n += 1
        return self.work
