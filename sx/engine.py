"""Running a harness symbolically: inputs, assertions, faults, and the worker pool."""
import collections
import json
import os
import random
import sys
import time
import traceback
import multiprocessing as mp
import z3
from . import core, models, program as prog, runtime as rt, strings, vfs
from .core import SymBool, SymInt
from .strings import SymStr, UStr
from .containers import PyDict, PySet

ROOT = '/w'          # the scratch directory of every harness


def ranges(alphabet):
    """'a-z0-9' style alphabets are plain strings here: every char listed."""
    cs = sorted(set(map(ord, alphabet)))
    out = []
    for c in cs:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def in_alphabet(v, alphabet):
    k = ('alpha', v.get_id(), alphabet)
    r = _ac.get(k)
    if r is None:
        es = []
        for lo, hi in ranges(alphabet):
            if lo == hi:
                es.append(v == lo)
            else:
                es.append(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
        r = _ac[k] = (z3.Or(*es) if len(es) > 1 else es[0], v)
    return r[0]


_ac = {}


def plain(v, m, depth=0):
    """The JSON form of a value under model m (the same as replay_jy.plain)."""
    if depth > 12:
        return '<deep>'
    if v is None or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymStr):
        return strings.model_chars(m, v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (list, tuple)):
        return [plain(x, m, depth + 1) for x in v]
    if isinstance(v, PyDict):
        return {'$dict': sorted([[plain(k, m, depth + 1), plain(x, m, depth + 1)]
                                 for k, x in [(e.k, e.v) for e in v._e]], key=lambda x: json.dumps(x, sort_keys=True))}
    if isinstance(v, PySet):
        return {'$set': sorted([plain(k, m, depth + 1) for k in set_items(v)],
                               key=lambda x: json.dumps(x, sort_keys=True))}
    if isinstance(v, BaseException):
        n = type(v).__name__
        return '<%s>' % (n[3:] if n.startswith('Py2') else n)
    if isinstance(v, type):
        return '<class %s>' % v.__name__
    return '<%s>' % type(v).__name__


def set_items(v):
    return [e.k for e in v._d._e] if hasattr(v, '_d') else list(v)


def fault_record(c, m):
    out = []
    for n, f, log in c.faults:
        if f is None:
            out.append((n, None))
            continue
        seq = [(k, plain(p, m)) for k, p in log]
        i = f[2]
        out.append((n, [f[0], plain(f[1], m), seq[:i].count(seq[i]), f[3]]))
    return out


class HarnessCtx(object):
    """The `ctx` of a harness (engine side; replay_jy.Ctx is the concrete side)."""
    symbolic = True

    def __init__(self, c, tier, opts):
        self.c = c
        self.tier = tier
        self.root = ROOT
        self.opts = opts
        self.patches = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- inputs
    def _name(self, name):
        if name in self.c.names:
            raise RuntimeError('harness uses the input name %r twice' % name)
        self.c.names.add(name)

    def text(self, name, maxlen, alphabet=None, minlen=0):
        self._name(name)
        c = self.c
        n = minlen
        if maxlen > minlen:
            v = core.intvar('%s.len' % name)
            c.assume_e(z3.And(v >= minlen, v <= maxlen), fresh=True)
            n = maxlen
            for k in range(minlen, maxlen):
                if c.branch(core.cached('eq', v, k, lambda a, b: a == b)):
                    n = k
                    break
        es = []
        out = []
        for i in range(n):
            v = core.bvvar('%s[%d]' % (name, i))
            es.append(in_alphabet(v, alphabet) if alphabet else z3.ULE(v, 127))
            out.append(v)
        if es:
            c.assume_e(z3.And(*es) if len(es) > 1 else es[0], fresh=True)
        s = SymStr(tuple(out)) if out else ''
        c.inputs.append((name, 'text', s))
        return s

    def int(self, name, lo, hi):
        self._name(name)
        v = core.intvar(name)
        self.c.assume_e(z3.And(v >= lo, v <= hi), fresh=True)
        s = SymInt(v)
        self.c.inputs.append((name, 'int', s))
        return s

    def bool(self, name):
        self._name(name)
        s = SymBool(core.boolvar(name))
        self.c.inputs.append((name, 'bool', s))
        return s

    def choice(self, name, options):
        self._name(name)
        options = list(options)
        v = core.intvar(name)
        n = len(options)
        c = self.c
        c.inputs.append((name, 'int', SymInt(v)))
        c.assume_e(z3.And(v >= 0, v < n), fresh=True)
        for k in range(n - 1):
            if c.branch(core.cached('eq', v, k, lambda a, b: a == b)):
                return options[k]
        return options[n - 1]

    def perm(self, name, items):
        """The items in an order picked by the solver."""
        items = list(items)
        out = []
        i = 0
        while len(items) > 1:
            out.append(items.pop(self.choice('%s.%d' % (name, i), range(len(items)))))
            i += 1
        return out + items

    # -- claims
    def assume(self, cond):
        e = core.ex(cond if isinstance(cond, SymBool) else rt.sx_truth(cond))
        if e is not True and e is not False and e.get_id() in self.c.memo:
            if self.c.memo[e.get_id()][0]:
                return
        self.c.assume_e(e)

    def known(self, tag, cond=True):
        """Inputs that meet cond fail by a finding on record."""
        self.c.known.append((tag, core.ex(cond if isinstance(cond, SymBool)
                                          else rt.sx_truth(cond))))

    def check(self, cond, msg, detail=None):
        c = self.c
        e = core.ex(cond if isinstance(cond, SymBool) else rt.sx_truth(cond))
        c.x.stats.checks += 1
        if c.x.trace:
            c.msgs.append(msg)
        if e is not True:
            ok, m = c.valid(e)
            if not ok:
                self.fail(e, m, msg)
                if e is False:
                    raise core.Prune()
                c.assume_e(e)

    def fail(self, e, m, msg):
        c = self.c
        tags = []
        known = [(t, k) for t, k in c.known if k is not False]
        if known:
            # is there a failing value outside the findings on record?
            ks = core.eor([k for _, k in known])
            out = core.eand([core.enot(e), core.enot(ks)])
            ok, m2 = (True, None) if out is False else c.valid(core.enot(out))
            if not ok:
                m = m2
            else:
                tags = [t for t, k in known
                        if k is True or z3.is_true(m.eval(k, model_completion=True))]
        record_violation(c, m, msg, tags)

    def reach(self, label):
        d = self.c.x.stats.reached
        d[label] = d.get(label, 0) + 1

    def out(self, *vals):
        self.c.outs.append(list(vals) if len(vals) != 1 else vals[0])

    def reject(self):
        raise core.Prune()

    # -- the world
    def patch(self, module, attr, value):
        m = self.c.state['importer'](module, None, None, ['x'], 0)
        if attr in ('stdout', 'stderr', 'stdin') and module == 'sys':
            setattr(m, attr, value)
            return
        if m in models._shared_libs.values():
            self.patches.append((m, attr, getattr(m, attr)))
        setattr(m, attr, value)

    def environ(self, d):
        env = models.get('os').environ
        env.clear()
        for k in d:
            env[k] = d[k]

    def platform(self, system, dist, release, machine):
        self.c.state['platform'] = (system, dist, release, machine)

    def any_order(self, on=True):
        """Sets and dicts (on='sets': sets only) are iterated in an order the solver picks."""
        self.c.state['order'] = on if on == 'sets' else 'any' if on else None

    def any_listdir(self, on=True):
        self.c.state['listdir'] = 'any' if on else None

    def mkfile(self, path, content='', mode=0o644):
        models.get('os')
        d = models.get('os.path').dirname(path)
        f = vfs.fs()
        self._mkdirs(d)
        armed, f.armed = f.armed, None
        ev = f.events
        v = vfs.VFile(f, f.open(path, 'wb'), path, 'wb')
        v.write(content)
        v.close()
        f.chmod(path, mode)
        f.armed, f.events = armed, ev

    def _mkdirs(self, d):
        f = vfs.fs()
        pth = models.get('os.path')
        todo = []
        while not isinstance(f.lookup(d), vfs.Dir):
            todo.append(d)
            d = pth.dirname(d)
        for x in reversed(todo):
            f.mkdir(x, 0o755)

    def mkdir(self, path):
        self._mkdirs(path)

    def snapshot(self, path):
        """{relative path: (kind, content or target)} below path."""
        f = vfs.fs()
        n = f.lookup(path)
        out = PyDict()
        if n is None:
            return out
        for p, kind, val, mode in f.tree(n):
            out[p] = (kind, val if kind != 'dir' else None)
        return out

    def modes(self, path):
        f = vfs.fs()
        n = f.lookup(path)
        out = PyDict()
        for p, kind, val, mode in f.tree(n):
            if kind == 'file':
                out[p] = mode
        return out

    def log(self):
        return [(l, m) for l, m, a in self.c.state.get('log', [])]

    def stdout(self):
        return self._std('stdout')

    def stderr(self):
        return self._std('stderr')

    def _std(self, n):
        r = ''
        for s in self.c.state.get('std', {}).get(n, []):
            r = rt.sx_add(r, s)
        return r

    def fault(self, name, fn, mode='crash', limit=40, errnos=(28,), other=None):
        """Run fn with one fault: at any mutating file operation (or none).
        With mode 'meanwhile', other() runs right before that operation (or in the middle of a write).
        Returns ('ok', value), ('crash', None) or ('exc', exception)."""
        self._name(name)
        f = vfs.fs()
        c = self.c
        at = core.intvar(name)
        c.assume_e(z3.And(at >= -1, at < limit), fresh=True)
        c.inputs.append((name, 'fault', SymInt(at)))
        f.events = 0
        f.log = []
        f.fired = None
        f.armed = {'mode': mode, 'at': SymInt(at), 'errno': errnos[0], 'other': other}
        try:
            r = ('ok', fn())
        except rt.Crash:
            r = ('crash', None)
        except core.Control:
            raise
        except Exception as e:
            r = ('exc', e)
        finally:
            f.armed = None
        if f.crashed:
            r = ('crash', None)
        if f.events > limit:
            raise core.StepLimit('more than %d file operations' % limit)
        if f.fired is None:
            c.assume_e(at < 0)
        f.crashed = False
        c.faults.append((name, f.fired, list(f.log)))
        self.fired = f.fired is not None
        return r

    def restart(self):
        """The process is gone: forget every module."""
        imp = self.c.state['importer_obj']
        imp.mods = {}
        self.c.state.pop('loaded_sources', None)

    def process(self, fn, pid=4243):
        """Run fn in another process: with modules and a pid of its own."""
        imp = self.c.state['importer_obj']
        mods, loaded = imp.mods, self.c.state.pop('loaded_sources', None)
        imp.mods = {}
        self.c.state['pid'] = pid
        try:
            return fn()
        finally:
            imp.mods = mods
            self.c.state['pid'] = 4242
            self.c.state.pop('loaded_sources', None)
            if loaded is not None:
                self.c.state['loaded_sources'] = loaded

    def steps(self, n):
        self.c.x.max_steps = n


def record_violation(c, m, msg, tags, kind='check'):
    vals = []
    for name, k, v in c.inputs:
        vals.append((name, k, plain(v, m)))
    c.x.violations.append({'msg': msg, 'inputs': vals, 'tags': tags, 'kind': kind,
                           'outs': [plain(o, m) for o in c.outs],
                           'faults': fault_record(c, m)})
    c.x.stats.violations += 1


class Runner(object):
    """Executes one path of the harness."""

    def __init__(self, program, harness, tier, opts):
        self.program = program
        self.harness = harness
        self.tier = tier
        self.opts = opts
        self.explorer = core.Explorer(self.run, max_steps=opts.get('max_steps', 3000),
                                      max_calls=opts.get('max_calls', 60000))
        self.explorer.program = program
        self.explorer.violations = []
        self.explorer.samples = []
        self.explorer.aborted = []
        self.explorer.trace = opts.get('trace', False)
        self.rng = random.Random(opts.get('seed', 1))
        self.sample_rate = 1.0

    def run(self, c):
        x = self.explorer
        p = self.program
        c.names = set()
        c.faults = []
        c.state = {'fs': None, 'order': None}
        models.reset(c.state)
        f = vfs.FS()
        c.state['fs'] = f
        for d in (ROOT, '/tmp'):
            f.mkdir(d, 0o755)
        f.mkdir(ROOT + '/tmp')
        f.mkdir('/dev')
        f.add(f.lookup('/dev'), 'null', vfs.Dev())
        c.state['tmpdir'] = ROOT + '/tmp'
        f.cwd = f.lookup(ROOT)
        f.cwd_path = ROOT
        f.events = 0
        f.log = []
        imp = prog.Importer(p)
        c.state['importer'] = imp.imp
        c.state['importer_obj'] = imp
        c.state['load_source'] = prog.load_source(p, imp)
        h = HarnessCtx(c, self.tier, self.opts)
        try:
            try:
                mod = imp.load(self.harness)
                mod.harness(h)
            finally:
                for m, at, v in reversed(h.patches):
                    setattr(m, at, v)
        except core.Prune:
            x.stats.pruned += 1
            return None
        except core.Unsupported as e:
            x.stats.unsupported += 1
            c.note('unsupported: %s' % e)
            self.abort(c, 'unsupported', str(e))
            return c
        except core.Inconclusive as e:
            c.note('inconclusive: %s' % e)
            x.stats.unsupported += 1
            return c
        except core.StepLimit as e:
            x.stats.steplimit += 1
            c.note('step limit: %s' % e)
            self.abort(c, 'steplimit', str(e))
            return c
        except RecursionError:
            x.stats.steplimit += 1
            c.note('recursion limit')
            self.abort(c, 'steplimit', 'recursion')
            return c
        except rt.Crash:
            raise
        except Exception as e:
            x.stats.exceptions += 1
            msg = 'uncaught %s: %s' % (type(e).__name__, self.text_of(e))
            if x.trace:
                traceback.print_exc()
            c.dead_saved = False
            try:
                c.need_model()
                h.fail(False, c.model, msg)
            except core.Prune:
                pass
            return c
        x.stats.paths += 1
        k = x.stats.paths
        if k <= 4 or self.rng.random() < min(1.0, 40.0 / k):
            self.sample(c)
        return c

    def text_of(self, e):
        try:
            return str(rt.hoststr(rt.sx_str(e)))[:200]
        except BaseException:
            return '?'

    def sample(self, c):
        x = self.explorer
        try:
            c.need_model()
        except core.Control:
            return
        m = c.model
        if c.known and any(k is True or z3.is_true(m.eval(k, model_completion=True))
                           for _, k in c.known if k is not False):
            return
        order = any(k == 'order' for _, k, _ in c.inputs)
        rec = {'inputs': [(n, k, plain(v, m)) for n, k, v in c.inputs],
               'outs': [plain(o, m) for o in c.outs], 'order': order,
               'faults': fault_record(c, m)}
        x.samples.append(rec)
        if len(x.samples) > 60:
            del x.samples[self.rng.randrange(len(x.samples))]

    def abort(self, c, kind, msg):
        x = self.explorer
        if len(x.aborted) > 40:
            return
        try:
            c.dead = False
            c.need_model()
        except core.Control:
            return
        m = c.model
        tags = [t for t, k in c.known if k is True or (k is not False and z3.is_true(
            m.eval(k, model_completion=True)))]
        x.aborted.append({'inputs': [(n, k, plain(v, m)) for n, k, v in c.inputs], 'kind': kind,
                          'msg': msg, 'tags': tags, 'outs': [],
                          'faults': fault_record(c, m)})


# -- the pool ------------------------------------------------------------------------------------
def _worker(conn, program, harness, tier, opts, wid):
    sys.setrecursionlimit(6000)
    import threading
    threading.stack_size(256 << 20)

    def main():
        r = Runner(program, harness, tier, dict(opts, seed=opts.get('seed', 1) * 100 + wid))
        x = r.explorer
        while True:
            try:
                msg = conn.recv()
            except EOFError:
                return
            if msg is None:
                return
            items, secs = msg
            x.stats = core.Stats()
            x.violations, x.samples, x.aborted = [], [], []
            err = None
            try:
                left = x.explore(items, time.time() + secs)
            except BaseException:
                err = traceback.format_exc()
                left = []
            conn.send((r.explorer.stats, x.violations, x.samples, x.aborted,
                       [(i[0], i[1]) for i in left], err))
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(0)


class Pool(object):
    def __init__(self, program, harness, tier, opts, workers=8):
        self.opts = opts
        self.procs = []
        program.compile_all()
        mpc = mp.get_context('fork')
        for w in range(workers):
            a, b = mpc.Pipe()
            p = mpc.Process(target=_worker, args=(b, program, harness, tier, opts, w), daemon=True)
            p.start()
            b.close()
            self.procs.append((p, a))
        self.pool = [((), {})]
        self.stats = core.Stats()
        self.violations, self.samples, self.aborted = [], [], []
        self.errors = []
        self.rng = random.Random(opts.get('seed', 1))
        self.idle = list(range(workers))
        self.busy = {}

    def explore(self, deadline, stop=None):
        """Runs until the space is exhausted, the deadline, or stop(self)."""
        from multiprocessing.connection import wait
        slice_s = 0.15
        while True:
            stopping = time.time() > deadline or (stop is not None and stop(self)) or \
                len(self.errors) > 0
            if not stopping:
                while self.idle and self.pool:
                    k = max(1, len(self.pool) // (2 * len(self.procs)))
                    k = min(k, 400)
                    self.rng.shuffle(self.pool)
                    items = self.pool[:k]
                    del self.pool[:k]
                    w = self.idle.pop()
                    left = max(0.05, min(slice_s, deadline - time.time()))
                    self.procs[w][1].send((items, left))
                    self.busy[self.procs[w][1]] = w
                slice_s = min(2.0, slice_s * 1.05)
            if not self.busy:
                return not self.pool
            for conn in wait(list(self.busy), timeout=5):
                w = self.busy.pop(conn)
                try:
                    st, vi, sa, ab, left, err = conn.recv()
                except EOFError:
                    self.errors.append('worker %d died' % w)
                    continue
                self.stats.merge(st)
                self.violations += vi
                self.samples += sa
                self.aborted += ab
                self.pool += left
                if err:
                    self.errors.append(err)
                self.idle.append(w)

    def close(self):
        for p, a in self.procs:
            try:
                a.send(None)
            except (OSError, ValueError):
                pass
        for p, a in self.procs:
            p.join(0.2)
            if p.is_alive():
                p.kill()
