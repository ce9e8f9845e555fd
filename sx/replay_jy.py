# Runs under Jython, as an unprivileged user, in a scratch directory: executes a
# harness on concrete inputs against the real code.  argv: JOB.json OUT.jsonl
import sys, os, json, shutil, errno, tempfile, traceback
import __builtin__

real_open = __builtin__.open
_os = dict((n, getattr(os, n)) for n in
           ('mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'symlink', 'link', 'chmod', 'utime',
            'chown', 'lchown') if hasattr(os, n))

class Fail(Exception):
    pass

class Reject(Exception):
    pass

class Crash(BaseException):
    pass

def plain(v, root, depth=0):
    if depth > 12:
        return '<deep>'
    if v is None or isinstance(v, (bool, int, long, float)):
        return v
    if isinstance(v, unicode):
        return v.replace(root.decode('latin-1'), u'/w')
    if isinstance(v, str):
        return v.replace(str(root), '/w').decode('latin-1')
    if isinstance(v, (list, tuple)):
        return [plain(x, root, depth + 1) for x in v]
    if isinstance(v, dict):
        return {'$dict': sorted([[plain(k, root, depth + 1), plain(x, root, depth + 1)]
                                 for k, x in v.items()],
                                key=lambda x: json.dumps(x, sort_keys=True))}
    if isinstance(v, (set, frozenset)):
        return {'$set': sorted([plain(k, root, depth + 1) for k in v],
                               key=lambda x: json.dumps(x, sort_keys=True))}
    if isinstance(v, BaseException):
        return '<%s>' % type(v).__name__
    if isinstance(v, type):
        return '<class %s>' % v.__name__
    return '<%s>' % type(v).__name__

# -- Jython's BZ2Decompressor returns nothing for some well-formed streams --------
class BZ2Decompressor(object):
    def __init__(self):
        self.data = ''
        self.done = False

    def decompress(self, data):
        if self.done:
            raise EOFError('end of stream was already found')
        self.data += data
        try:
            out = bz2.decompress(self.data)
        except (IOError, ValueError, EOFError):
            if self.data[:3] != 'BZh'[:len(self.data[:3])]:
                raise IOError('invalid data stream')
            return ''
        self.done = True
        return out

import bz2
bz2.BZ2Decompressor = BZ2Decompressor

# -- fault injection -----------------------------------------------------------
class Shim(object):
    """One fault at one mutating file operation: the n-th `kind` on `path`."""
    def __init__(self, spec, mode, eno, root, other=None):
        self.other = other
        self.spec = spec            # [kind, path, occurrence, partial length] or None
        self.mode = mode
        self.eno = eno
        self.root = root
        self.crashed = False
        self.fired = False
        self.seen = {}
        self.log = []

    def event(self, kind, path, err=OSError, partial=None):
        if self.crashed:
            raise Crash()
        p = str(path).replace(self.root, '/w')
        self.log.append((kind, p))
        n = self.seen.get((kind, p), 0)
        self.seen[(kind, p)] = n + 1
        s = self.spec
        if self.fired or s is None or s[0] != kind or s[1] != p or s[2] != n:
            return
        self.fired = True
        if partial is not None:
            partial(s[3] or 0)
        if self.mode == 'meanwhile':
            self.other()
            return
        if self.mode == 'crash':
            self.crashed = True
            raise Crash()
        raise err(self.eno, os.strerror(self.eno), path)

    def install(self):
        ev = self.event
        def one(name, kind):
            f = _os[name]
            def g(path, *a, **k):
                if name in ('mkdir',):
                    if os.path.lexists(path):
                        return f(path, *a, **k)
                ev(kind, path)
                return f(path, *a, **k)
            g.__name__ = name
            return g
        def two(name, kind):
            f = _os[name]
            def g(a, b, *r):
                ev(kind, b)
                return f(a, b, *r)
            return g
        for n in ('mkdir', 'rmdir', 'unlink', 'chmod', 'utime', 'chown', 'lchown'):
            if n in _os:
                setattr(os, n, one(n, n.replace('lchown', 'chown')))
        os.remove = os.unlink
        for n in ('rename', 'symlink', 'link'):
            if n in _os:
                setattr(os, n, two(n, n))
        shim = self
        class FaultFile(object):
            def __init__(self, path, mode='r', buffering=-1):
                w = mode[:1] in ('w', 'a') or '+' in mode
                if w and mode[:1] in ('w', 'a') and not os.path.isdir(path):
                    if not os.path.exists(path):
                        shim.event('create', path, IOError)
                    elif mode[0] == 'w' and not str(path).startswith('/dev/'):
                        shim.event('truncate', path, IOError)
                self.__dict__['f'] = real_open(path, mode, buffering)
                self.__dict__['w'] = w
                self.__dict__['b'] = []
                self.__dict__['name'] = path
                self.__dict__['mode'] = mode
                self.__dict__['closed'] = False
            def write(self, data):
                if self.closed:
                    raise ValueError('I/O operation on closed file')
                if not isinstance(data, basestring):
                    raise TypeError('expected a character buffer object')
                if not self.w:
                    raise IOError(9, 'Bad file descriptor')
                self.b.append(data)
            def writelines(self, l):
                for x in l:
                    self.write(x)
            def flush(self):
                data = ''.join(self.b)
                del self.b[:]
                if not data:
                    return
                if shim.crashed:
                    raise Crash()
                done = [0]
                def partial(n):
                    self.f.write(data[:n])
                    self.f.flush()
                    done[0] = n
                shim.event('write', self.name, IOError, partial)
                self.f.write(data[done[0]:])
                self.f.flush()
            def close(self):
                if not self.closed:
                    try:
                        self.flush()
                    finally:
                        self.__dict__['closed'] = True
                        self.f.close()
            def read(self, *a):
                self.flush()
                return self.f.read(*a)
            def readline(self, *a):
                self.flush()
                return self.f.readline(*a)
            def readlines(self, *a):
                self.flush()
                return self.f.readlines(*a)
            def seek(self, *a):
                self.flush()
                return self.f.seek(*a)
            def tell(self):
                self.flush()
                return self.f.tell()
            def truncate(self, *a):
                self.flush()
                shim.event('truncate', self.name, IOError)
                return self.f.truncate(*a)
            def fileno(self):
                return self.f.fileno()
            def isatty(self):
                return False
            def __iter__(self):
                return iter(self.readlines())
            def next(self):
                l = self.readline()
                if not l:
                    raise StopIteration
                return l
            def __enter__(self):
                return self
            def __exit__(self, t, v, tb):
                if t is not None and issubclass(t, Crash):
                    del self.b[:]
                    self.__dict__['closed'] = True
                    self.f.close()
                    return
                self.close()
        __builtin__.open = __builtin__.file = FaultFile
        import tarfile
        self.bl = tarfile.bltn_open
        tarfile.bltn_open = FaultFile

    def remove(self):
        for n, f in _os.items():
            setattr(os, n, f)
        __builtin__.open = real_open
        __builtin__.file = real_file
        import tarfile
        tarfile.bltn_open = self.bl

real_file = __builtin__.file

class Names(object):
    def __init__(self):
        self.n = 0
    def __iter__(self):
        return self
    def next(self):
        self.n += 1
        return 'sx%04d' % self.n

class Ctx(object):
    symbolic = False
    def __init__(self, t, root):
        self.v = dict((n, v) for n, k, v in t['inputs'])
        self.t = t
        self.root = root
        self.tier = t.get('tier', 'quick')
        self.thorough = self.tier == 'thorough'
        self.outs = []
        self.undo = []
        self.faults = dict((f[0], f[1]) for f in t.get('faults', []))
        self.streams = {}

    def get(self, name, default):
        v = self.v.get(name, default)
        if isinstance(v, unicode):
            v = v.encode('latin-1')
        return v
    def text(self, name, maxlen, alphabet=None, minlen=0):
        d = (alphabet or 'a')[0] * minlen
        v = self.get(name, d)
        return v
    def int(self, name, lo, hi):
        return self.get(name, lo)
    def bool(self, name):
        return bool(self.get(name, False))
    def choice(self, name, options):
        return list(options)[self.get(name, 0)]
    def perm(self, name, items):
        items = list(items)
        out = []
        i = 0
        while len(items) > 1:
            out.append(items.pop(self.choice('%s.%d' % (name, i), range(len(items)))))
            i += 1
        return out + items
    def assume(self, cond):
        if not cond:
            raise Reject()
    def known(self, tag, cond=True):
        pass
    def check(self, cond, msg, detail=None):
        if not cond:
            raise Fail(msg)
    def reach(self, label):
        pass
    def out(self, *vals):
        self.outs.append(plain(list(vals) if len(vals) != 1 else vals[0], self.root))
    def reject(self):
        raise Reject()
    def patch(self, module, attr, value):
        __import__(module)
        m = sys.modules[module]
        if not module.startswith('ipkg'):
            self.undo.append((m, attr, getattr(m, attr, self)))
        setattr(m, attr, value)
    def environ(self, d):
        os.environ.clear()
        os.environ.update(d)
    def platform(self, system, dist, release, machine):
        import platform
        for n, f in (('system', lambda: system), ('dist', lambda *a, **k: (dist, release, '')),
                     ('linux_distribution', lambda *a, **k: (dist, release, '')),
                     ('machine', lambda: machine), ('release', lambda: '6.0'),
                     ('mac_ver', lambda *a, **k: (release, ('', '', ''), '')),
                     ('uname', lambda: (system, 'host', '6.0', '#1', machine, ''))):
            self.undo.append((platform, n, getattr(platform, n, self)))
            setattr(platform, n, f)
    def any_order(self, on=True):
        pass
    def any_listdir(self, on=True):
        pass
    def steps(self, n):
        pass
    def mkdir(self, path):
        if not os.path.isdir(path):
            os.makedirs(path)
    def mkfile(self, path, content='', mode=0644):
        self.mkdir(os.path.dirname(path))
        f = real_open(path, 'wb')
        f.write(content)
        f.close()
        _os['chmod'](path, mode)
    def snapshot(self, path):
        out = {}
        def go(d, pre):
            for n in sorted(os.listdir(d)):
                p = os.path.join(d, n)
                r = pre + n
                if os.path.islink(p):
                    out[r] = ('link', os.readlink(p))
                elif os.path.isdir(p):
                    out[r] = ('dir', None)
                    go(p, r + '/')
                else:
                    f = real_open(p, 'rb')
                    out[r] = ('file', f.read())
                    f.close()
        if os.path.isdir(path):
            go(path, '')
        return out
    def modes(self, path):
        out = {}
        for r, (k, v) in self.snapshot(path).items():
            if k == 'file':
                out[r] = os.stat(os.path.join(path, r)).st_mode & 07777
        return out
    def stdout(self):
        return self.streams['stdout'].getvalue()
    def stderr(self):
        return self.streams['stderr'].getvalue()
    def log(self):
        return list(self.records)
    def fault(self, name, fn, mode='crash', limit=40, errnos=(28,), other=None):
        s = self.faults.get(name)
        shim = Shim(s, mode, errnos[0], self.root, other)
        shim.install()
        try:
            try:
                r = ('ok', fn())
            except Crash:
                r = ('crash', None)
            except (Fail, Reject):
                raise
            except Exception, e:
                r = ('exc', e)
        finally:
            shim.remove()
        if shim.crashed:
            r = ('crash', None)
        self.fired = shim.fired
        if s is not None and not shim.fired:
            raise Reject('fault %r not reached: %r' % (s, shim.log))
        return r
    def process(self, fn, pid=4243):
        old = {}
        for n in list(sys.modules):
            if n == 'ipkg' or n.startswith('ipkg.'):
                old[n] = sys.modules.pop(n)
        getpid = os.getpid
        os.getpid = lambda: pid
        try:
            return fn()
        finally:
            self.restart()
            sys.modules.update(old)
            os.getpid = getpid
    def restart(self):
        for n in list(sys.modules):
            if n == 'ipkg' or n.startswith('ipkg.'):
                del sys.modules[n]

def run(i, t, scratch):
    base = str(os.path.join(scratch, 't%d' % i))
    root = os.path.join(base, 'w')
    os.makedirs(os.path.join(root, 'tmp'))
    tempfile.tempdir = os.path.join(root, 'tmp')
    tempfile._name_sequence = Names()
    cwd = os.getcwd()
    os.chdir(root)
    env = dict(os.environ)
    c = Ctx(t, root)
    import StringIO, logging
    class H(logging.Handler):
        def emit(self, rec):
            c.records.append((rec.levelno, rec.msg))
    c.records = []
    logging.root.handlers[:] = [H(logging.WARNING)]
    logging.Logger.manager.loggerDict.clear()
    so, se = sys.stdout, sys.stderr
    c.streams = {'stdout': StringIO.StringIO(), 'stderr': StringIO.StringIO()}
    sys.stdout, sys.stderr = c.streams['stdout'], c.streams['stderr']
    res = {'i': i}
    os.environ.clear()
    os.environ.update({'HOME': root + '/home', 'PATH': '/usr/bin:/bin'})
    os.getpid = lambda: 4242
    c.restart()
    sys.modules.pop(t['harness'], None)
    sys.modules.pop('hlib', None)
    junk = [object() for _ in range(int(t.get('junk', 0)))]
    for o in junk:
        hash(o)
    try:
        try:
            m = __import__(t['harness'])
            m.harness(c)
            res['status'] = 'pass'
        except Fail, e:
            res['status'] = 'fail'
            res['msg'] = str(e)
        except Reject, e:
            res['status'] = 'reject'
            res['msg'] = str(e)
        except Crash:
            res['status'] = 'exc'
            res['msg'] = 'crash escaped'
        except (Exception, SystemExit), e:
            res['status'] = 'exc'
            try:
                res['msg'] = '%s: %s' % (type(e).__name__, e)
            except Exception:
                res['msg'] = type(e).__name__
            res['tb'] = traceback.format_exc()[-3000:]
        except:
            res['status'] = 'exc'
            res['msg'] = str(sys.exc_info()[:2])
    finally:
        sys.stdout, sys.stderr = so, se
        for m, a, v in reversed(c.undo):
            if v is c:
                try:
                    delattr(m, a)
                except AttributeError:
                    pass
            else:
                setattr(m, a, v)
        os.environ.clear()
        os.environ.update(env)
        os.chdir(cwd)
        shutil.rmtree(base, True)
    res['outs'] = c.outs
    for k in ('msg', 'tb'):
        if isinstance(res.get(k), str):
            res[k] = res[k].decode('latin-1')
    return res

def main():
    f = real_open(sys.argv[1])
    job = json.load(f)
    f.close()
    sys.path.insert(0, job['harness_dir'])
    sys.path.insert(0, os.path.join(job['harness_dir'], 'lib'))
    out = real_open(sys.argv[2], 'a')
    for i, t in enumerate(job['traces']):
        r = run(i, t, job['scratch'])
        out.write(json.dumps(r) + '\n')
        out.flush()
    out.close()
    from java.lang import Runtime
    Runtime.getRuntime().halt(0)

main()
