"""Models of the modules the code under test imports."""
import base64 as _base64
import errno as _errno
import hashlib as _hashlib
import itertools as _itertools
import json as _json
import math as _math
import os as _os
import posixpath as _pp
import stat as _stat
import struct as _struct
import types
import z3
from . import core, strings, vfs, remodel
from . import runtime as rt
from .core import SymInt, SymBool
from .strings import SymStr, UStr, isstr, codes, mk, br, ceq, eq_e
from .containers import PyDict, PySet, DefaultDict, OrderedDict, Counter


class Mod(object):
    """A module object: plain attributes."""

    def __init__(self, name, **k):
        self.__dict__['__name__'] = name
        self.__dict__.update(k)

    def __setattr__(self, k, v):
        if id(self) not in _dirty:
            _dirty[id(self)] = (self, dict(self.__dict__))
        self.__dict__[k] = v

    def __repr__(self):
        return '<module %s>' % self.__name__

    def __getattr__(self, n):
        if n in jynames().get(self.__dict__['__name__'], ()):
            return Unmodelled('%s.%s' % (self.__dict__['__name__'], n))
        raise AttributeError("'module' object has no attribute '%s'" % n)


_names = {}


def jynames():
    """What the library modules of the interpreter that runs ipkg contain."""
    if not _names:
        with open(_os.path.join(_os.path.dirname(__file__), 'jynames.json')) as f:
            for m, ns in _json.load(f).items():
                _names[m] = frozenset(ns)
    return _names


class Unmodelled(object):
    """Part of a library without a model: importing or naming it is harmless, using it is not."""

    def __init__(self, name):
        self.__dict__['_sx_name'] = name

    def __call__(self, *a, **k):
        raise core.Unsupported('use of %s' % self._sx_name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Unmodelled('%s.%s' % (self._sx_name, n))

    def _no(self, *a, **k):
        raise core.Unsupported('use of %s' % self._sx_name)

    __mro_entries__ = __iter__ = __len__ = __getitem__ = __eq__ = __bool__ = __add__ = _no
    __contains__ = __enter__ = __or__ = __and__ = __lt__ = __gt__ = __setattr__ = _no
    __hash__ = object.__hash__


class Missing(Mod):
    """A library module without a model."""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        full = '%s.%s' % (self.__dict__['__name__'], n)
        return get(full) if full in jynames()['*'] else Unmodelled(full)


_dirty = {}
_shared = {}
_shared_libs = {}
PER_PATH = ('httplib', 'logging', 'subprocess', 'requests', 'requests.exceptions', 'requests.packages',
            'requests.packages.urllib3', 'requests.packages.urllib3.exceptions')


def reset(state):
    """A new path: undo what the previous one did to the shared modules."""
    for m, d in list(_dirty.values()):
        m.__dict__.clear()
        m.__dict__.update(d)
    _dirty.clear()
    state['models'] = {}
    state['libs'] = _shared_libs
    o = _shared.get('os')
    if o is not None:
        o.__dict__['environ'] = Environ()
    y = _shared.get('sys')
    if y is not None:
        y.__dict__.update(path=[], modules=PyDict(), argv=['ipkg'])
    for n, a in (('urlparse', '_parse_cache'), ('fnmatch', '_cache'),
                 ('filecmp', '_cache')):
        if n in _shared_libs:
            setattr(_shared_libs[n], a, PyDict())


# -- streams ---------------------------------------------------------------------------
class Stream(object):
    encoding = 'UTF-8'
    softspace = 0

    def __init__(self, name):
        self.name = '<%s>' % name
        self.key = name

    def write(self, s):
        if not isstr(s):
            raise TypeError('expected a character buffer object')
        core.CTX.state.setdefault('std', {}).setdefault(self.key, []).append(s)

    def writelines(self, l):
        for x in l:
            self.write(x)

    def flush(self):
        pass

    def read(self, *a):
        return ''

    def readline(self, *a):
        return ''

    def isatty(self):
        return False

    def fileno(self):
        return {'stdin': 0, 'stdout': 1, 'stderr': 2}[self.key]

    def close(self):
        pass


STDIN, STDOUT, STDERR = Stream('stdin'), Stream('stdout'), Stream('stderr')


class SysModule(Mod):
    maxint = 2 ** 63 - 1
    maxsize = 2 ** 63 - 1
    platform = 'linux2'
    version_info = (2, 7, 3, 'final', 0)
    version = '2.7.3'
    executable = '/usr/bin/python'
    byteorder = 'little'
    prefix = '/usr'
    path = []
    dont_write_bytecode = True

    def __init__(self):
        Mod.__init__(self, 'sys')
        self.stdin, self.stdout, self.stderr = STDIN, STDOUT, STDERR
        self.__stdout__ = STDOUT
        self.argv = ['ipkg']
        self.modules = PyDict()

    @staticmethod
    def exit(code=None):
        raise SystemExit(code)

    @staticmethod
    def exc_info():
        import sys
        return sys.exc_info()

    @staticmethod
    def exc_clear():
        pass

    @staticmethod
    def getfilesystemencoding():
        return 'UTF-8'

    @staticmethod
    def getdefaultencoding():
        return 'ascii'

    @staticmethod
    def getrecursionlimit():
        return 1000

    @staticmethod
    def setrecursionlimit(n):
        pass

    @staticmethod
    def getrefcount(x):
        return 2


class _SysProxy(object):
    @property
    def stdout(self):
        return get('sys').stdout


the_sys = _SysProxy()


# -- os -------------------------------------------------------------------------------
class Environ(PyDict):
    def __setitem__(self, k, v):
        if not isstr(v):
            raise TypeError('must be string, not %s' % rt.typename(v))
        PyDict.__setitem__(self, k, v)

    def copy(self):
        return PyDict(self)


# os.environ is not a dict in CPython 2 (UserDict.IterableUserDict)
_inst = type(PyDict).__instancecheck__


def _envcheck(cls, x):
    if isinstance_exact(x, Environ) and cls is PyDict:
        return False
    return _inst(cls, x)


def isinstance_exact(x, t):
    return type(x) is t


class PathModule(Mod):
    """os.path: the library's own source for symbolic strings, file system queries on the VFS."""
    sep = '/'
    altsep = None
    curdir = '.'
    pardir = '..'
    pathsep = ':'
    extsep = '.'
    devnull = '/dev/null'
    supports_unicode_filenames = False

    def __init__(self):
        Mod.__init__(self, 'posixpath')

    def _pure(self, name, a):
        if all(isinstance(x, str) for x in a):
            u = any(isinstance(x, UStr) for x in a)
            r = getattr(_pp, name)(*a)
            if u:
                if isinstance(r, str):
                    return UStr(r)
                if isinstance(r, tuple):
                    return tuple(UStr(x) for x in r)
            elif isinstance(r, tuple):
                return tuple(r)
            return r
        for x in a:
            if not isstr(x):
                raise AttributeError("'%s' object has no attribute 'endswith'" % rt.typename(x))
        return getattr(lib('posixpath'), name)(*a)

    def join(self, a, *p):
        return self._pure('join', (a,) + p)

    def split(self, p):
        return self._pure('split', (p,))

    def basename(self, p):
        return self._pure('basename', (p,))

    def dirname(self, p):
        return self._pure('dirname', (p,))

    def splitext(self, p):
        return self._pure('splitext', (p,))

    def normpath(self, p):
        return self._pure('normpath', (p,))

    def isabs(self, p):
        return rt.sx_call(getattr(p, 'startswith'), '/')

    def normcase(self, p):
        return p

    def splitdrive(self, p):
        return '', p

    def commonprefix(self, m):
        return lib('genericpath').commonprefix(m)

    def expanduser(self, p):
        return lib('posixpath').expanduser(p)

    def expandvars(self, p):
        return lib('posixpath').expandvars(p)

    def abspath(self, p):
        if not self.isabs(p):
            p = self.join(vfs.fs().cwd_path, p)
        return self.normpath(p)

    def relpath(self, p, start='.'):
        return lib('posixpath').relpath(p, start)

    def realpath(self, p):
        return lib('posixpath').realpath(p)

    # file system
    def _node(self, p, follow=True):
        if not isstr(p):
            raise TypeError('coercing to Unicode: need string or buffer, %s found'
                            % rt.typename(p))
        return vfs.fs().lookup(p, follow)

    def exists(self, p):
        return self._node(p) is not None

    def lexists(self, p):
        return self._node(p, False) is not None

    def isfile(self, p):
        return isinstance(self._node(p), vfs.File)

    def isdir(self, p):
        return isinstance(self._node(p), vfs.Dir)

    def islink(self, p):
        return isinstance(self._node(p, False), vfs.Link)

    def ismount(self, p):
        return self._node(p) is vfs.fs().root

    def getsize(self, p):
        return OsModule.stat(p).st_size

    def getmtime(self, p):
        return OsModule.stat(p).st_mtime

    getatime = getctime = getmtime

    def samefile(self, a, b):
        return vfs.fs().get(a) is vfs.fs().get(b)

    def walk(self, top, func, arg):
        return lib('posixpath').walk(top, func, arg)


class OsModule(Mod):
    name = 'posix'
    sep = '/'
    altsep = None
    curdir = '.'
    pardir = '..'
    extsep = '.'
    pathsep = ':'
    linesep = '\n'
    devnull = '/dev/null'
    defpath = ':/bin:/usr/bin'
    F_OK, R_OK, W_OK, X_OK = 0, 4, 2, 1
    O_RDONLY, O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 0, 1, 2, 64, 128, 512, 1024
    SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2
    error = rt.Py2OSError

    def __init__(self):
        Mod.__init__(self, 'os')
        self.path = get('os.path')
        self.environ = Environ()
        self.errno = _errno

    @staticmethod
    def getcwd():
        return vfs.fs().cwd_path

    getcwdu = getcwd

    @staticmethod
    def chdir(p):
        f = vfs.fs()
        n = f.get(p)
        if not isinstance(n, vfs.Dir):
            raise vfs.oserror(_errno.ENOTDIR, p)
        f.cwd = n
        f.cwd_path = get('os.path').normpath(get('os.path').join(f.cwd_path, p))

    @staticmethod
    def listdir(p):
        return vfs.fs().listdir(p)

    @staticmethod
    def mkdir(p, mode=0o777):
        vfs.fs().mkdir(p, mode & 0o755)

    @staticmethod
    def rmdir(p):
        vfs.fs().rmdir(p)

    @staticmethod
    def unlink(p):
        vfs.fs().unlink(p)

    remove = unlink

    @staticmethod
    def rename(a, b):
        vfs.fs().rename(a, b)

    @staticmethod
    def symlink(t, p):
        vfs.fs().symlink(t, p)

    @staticmethod
    def link(s, p):
        vfs.fs().link(s, p)

    @staticmethod
    def readlink(p):
        return vfs.fs().readlink(p)

    @staticmethod
    def stat(p):
        return vfs.StatResult(vfs.fs().get(p))

    @staticmethod
    def lstat(p):
        return vfs.StatResult(vfs.fs().get(p, False))

    @staticmethod
    def fstat(fd):
        return vfs.StatResult(vfs.fs().fds[fd].node)

    @staticmethod
    def chmod(p, mode):
        vfs.fs().chmod(p, mode)

    @staticmethod
    def chown(p, u, g):
        vfs.fs().chown(p)

    @staticmethod
    def lchown(p, u, g):
        vfs.fs().chown(p, False)

    @staticmethod
    def utime(p, t):
        vfs.fs().utime(p, t)

    @staticmethod
    def access(p, mode):
        n = vfs.fs().lookup(p)
        if n is None:
            return False
        m = n.mode if n.mode is not None else 0o777
        for bit, mask in ((2, 0o222), (4, 0o444), (1, 0o111)):
            if mode & bit and not rt.sx_truth((m & mask) != 0):
                return False
        return True

    @staticmethod
    def geteuid():
        return 1000

    getuid = getgid = getegid = geteuid

    @staticmethod
    def getpid():
        return core.CTX.state.get('pid', 4242)

    @staticmethod
    def umask(m):
        return 0o022

    @staticmethod
    def getenv(k, d=None):
        return get('os').environ.get(k, d)

    @staticmethod
    def putenv(k, v):
        pass

    @staticmethod
    def strerror(n):
        return vfs.MSG.get(n, 'Unknown error %d' % n)

    @staticmethod
    def uname():
        return ('Linux', 'host', '6.0', '#1', 'x86_64')

    @staticmethod
    def open(p, flags, mode=0o777):
        f = vfs.fs()
        acc = flags & 3
        if flags & 64:
            if flags & 128 and f.lookup(p, False) is not None:
                raise vfs.oserror(_errno.EEXIST, p)
            m = 'w+' if flags & 512 or f.lookup(p) is None else 'a+'
        elif acc == 0:
            m = 'r'
        else:
            m = 'w+' if flags & 512 else 'r+'
        try:
            node = f.open(p, m)
        except rt.Py2IOError as e:
            raise vfs.oserror(e.errno, p)
        return vfs.VFile(f, node, p, m).fileno()

    @staticmethod
    def fdopen(fd, mode='r', bufsize=-1):
        v = vfs.fs().fds[fd]
        v.readable = 'r' in mode or '+' in mode
        v.writable = mode[0] in 'wa' or '+' in mode
        return v

    @staticmethod
    def close(fd):
        v = vfs.fs().fds.pop(fd, None)
        if v is None:
            raise vfs.oserror(_errno.EBADF)
        v.close()

    @staticmethod
    def write(fd, data):
        v = vfs.fs().fds[fd]
        v.write(data)
        v.flush()
        return len(data)

    @staticmethod
    def read(fd, n):
        return vfs.fs().fds[fd].read(n)

    @staticmethod
    def fsync(fd):
        v = vfs.fs().fds.get(fd)
        if v is not None:
            v.flush()

    @staticmethod
    def fdatasync(fd):
        OsModule.fsync(fd)

    @staticmethod
    def isatty(fd):
        return False

    @staticmethod
    def _exit(n):
        raise SystemExit(n)

    @staticmethod
    def urandom(n):
        return 'r' * n

    def walk(self, *a, **k):
        return lib('os').walk(*a, **k)

    def makedirs(self, *a, **k):
        return lib('os').makedirs(*a, **k)

    def removedirs(self, *a, **k):
        return lib('os').removedirs(*a, **k)

    def renames(self, *a, **k):
        return lib('os').renames(*a, **k)


# -- StringIO ----------------------------------------------------------------------------
class StringIO(object):
    def __init__(self, s=''):
        self.buf = s if s is not None else ''
        self.pos = 0
        self.closed = False
        self.softspace = 0

    def read(self, n=-1):
        d = self.buf
        if n is None or n < 0:
            r = d[self.pos:] if self.pos else d
            self.pos = max(self.pos, len(d))
        else:
            r = d[self.pos:self.pos + int(n)]
            self.pos = max(self.pos, min(len(d), self.pos + int(n)))
        return r

    def readline(self, n=None):
        c = codes(self.buf[self.pos:])
        j = 0
        while j < len(c):
            j += 1
            if br(ceq(c[j - 1], 10)):
                break
        r = mk(c[:j])
        self.pos += j
        return r

    def readlines(self, *a):
        rest = self.buf[self.pos:]
        self.pos = max(self.pos, len(self.buf))
        return strings.lines_of(rest)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        if not isstr(s) and not isinstance(s, vfs.Blob):
            s = rt.sx_str(s)
        if self.pos == 0 and len(s) >= len(self.buf):
            self.buf = s
        elif self.pos == len(self.buf):
            self.buf = self.buf + s
        else:
            b = self.buf
            if self.pos > len(b):
                b = b + '\0' * (self.pos - len(b))
            self.buf = b[:self.pos] + s + b[self.pos + len(s):]
        self.pos += len(s)

    def writelines(self, l):
        for x in l:
            self.write(x)

    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.buf)
        self.pos = max(0, int(pos))

    def tell(self):
        return self.pos

    def getvalue(self):
        return self.buf

    def truncate(self, n=None):
        self.buf = self.buf[:self.pos if n is None else int(n)]

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


# -- json ----------------------------------------------------------------------------------
def _json_str(s):
    out = [34]
    if not strings.isu(s) and any(type(c) is int and c > 127 for c in codes(s)):
        s = strings._decode(s, 'utf-8')
    for c in codes(s):
        if type(c) is int:
            if c > 126 or c < 32 or c in (34, 92):
                out.extend(map(ord, _json.dumps(chr(c))[1:-1]))
            else:
                out.append(c)
            continue
        if br(ceq(c, 34)):
            out.extend((92, 34))
        elif br(ceq(c, 92)):
            out.extend((92, 92))
        elif br(strings.cset(c, [(0, 31)])):
            v = rt._cc(c)
            out.extend(map(ord, _json.dumps(chr(v))[1:-1]))
        elif br(strings.cset(c, [(128, 255)])):
            raise UnicodeDecodeError('utf8', b'?', 0, 1, 'invalid start byte')
        else:
            out.append(c)
    out.append(34)
    return mk(out)


def json_dumps(o, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
               cls=None, indent=None, separators=None, encoding='utf-8', default=None,
               sort_keys=False, **kw):
    if cls is not None and cls is not JSONEncoder:
        return cls(skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular,
                   allow_nan=allow_nan, indent=indent, separators=separators, encoding=encoding,
                   default=default, sort_keys=sort_keys, **kw).encode(o)
    isep, ksep = separators or (', ', ': ')
    out = []

    def nl(level):
        if indent is not None:
            out.append('\n' + ' ' * (int(indent) * level))

    def go(o, level):
        if o is None:
            out.append('null')
        elif isinstance(o, SymBool) or o is True or o is False:
            out.append('true' if o else 'false')
        elif isstr(o):
            out.append(_json_str(o))
        elif isinstance(o, SymInt):
            out.append(strings.int_str(o))
        elif isinstance(o, (int, float)):
            out.append(_json.dumps(o))
        elif isinstance(o, (list, tuple)):
            if not o:
                out.append('[]')
                return
            out.append('[')
            first = True
            for x in o:
                if not first:
                    out.append(isep)
                first = False
                nl(level + 1)
                go(x, level + 1)
            nl(level)
            out.append(']')
        elif isinstance(o, (PyDict, dict)):
            items = list(o.items())
            if not items:
                out.append('{}')
                return
            if sort_keys:
                items = rt.sx_sorted(items)
            out.append('{')
            first = True
            for k, v in items:
                if isstr(k):
                    kt = _json_str(k)
                elif k is True or k is False or isinstance(k, SymBool):
                    kt = '"true"' if k else '"false"'
                elif k is None:
                    kt = '"null"'
                elif isinstance(k, (int, SymInt)):
                    kt = '"' + rt.sx_str(k) + '"'
                elif isinstance(k, float):
                    kt = '"%r"' % k
                elif skipkeys:
                    continue
                else:
                    raise TypeError('keys must be a string')
                if not first:
                    out.append(isep)
                first = False
                nl(level + 1)
                out.append(kt)
                out.append(ksep)
                go(v, level + 1)
            nl(level)
            out.append('}')
        elif default is not None:
            go(default(o), level)
        else:
            raise TypeError('%s is not JSON serializable' % rt.sx_repr(o))
    go(o, 0)
    return strings._join('', out)


def json_dump(o, fp, **kw):
    # like the library: the text reaches the file in pieces, so that a value
    # that cannot be serialised leaves a partial file
    try:
        text = json_dumps(o, **kw)
    except (TypeError, UnicodeDecodeError):
        fp.write('{')
        raise
    fp.write(text)


class JSONEncoder(object):
    item_separator = ', '
    key_separator = ': '

    def __init__(self, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
                 sort_keys=False, indent=None, separators=None, encoding='utf-8', default=None):
        self.skipkeys = skipkeys
        self.ensure_ascii = ensure_ascii
        self.check_circular = check_circular
        self.allow_nan = allow_nan
        self.sort_keys = sort_keys
        self.indent = indent
        if separators is not None:
            self.item_separator, self.key_separator = separators
        self.encoding = encoding
        if default is not None:
            self.default = default

    def default(self, o):
        raise TypeError('%s is not JSON serializable' % rt.sx_repr(o))

    def encode(self, o):
        return json_dumps(o, skipkeys=self.skipkeys, indent=self.indent, sort_keys=self.sort_keys,
                          separators=(self.item_separator, self.key_separator),
                          default=self.default)

    def iterencode(self, o, _one_shot=False):
        # in pieces, see json_dump
        try:
            text = self.encode(o)
        except (TypeError, UnicodeDecodeError):
            yield '{'
            raise
        yield text


class JSONDecoder(object):
    def __init__(self, encoding=None, object_hook=None, parse_float=None, parse_int=None,
                 parse_constant=None, strict=True, object_pairs_hook=None):
        if parse_float or parse_int or parse_constant or not strict:
            raise core.Unsupported('json: parse hooks')
        self.object_hook = object_hook
        self.object_pairs_hook = object_pairs_hook

    def decode(self, s):
        return json_loads(s, object_hook=self.object_hook,
                          object_pairs_hook=self.object_pairs_hook)

    def raw_decode(self, s, idx=0):
        raise core.Unsupported('json raw_decode')


def _json_hook(object_hook, object_pairs_hook):
    if object_pairs_hook is not None:
        return lambda ps: object_pairs_hook([tuple(p) for p in ps])

    def build(ps):
        d = PyDict()
        for k, v in ps:
            PyDict._set(d, k, v)
        return d if object_hook is None else object_hook(d)
    return build


def _from_host(v):
    if isinstance(v, str):
        return UStr(v)
    if isinstance(v, list):
        return [_from_host(x) for x in v]
    return v


_loads_cache = {}


def json_loads(s, *a, **kw):
    if isinstance(s, vfs.Blob):
        raise ValueError('No JSON object could be decoded')
    if not isstr(s):
        raise TypeError('expected string or buffer')
    cls = kw.get('cls')
    if cls is not None and cls is not JSONDecoder:
        return cls(**{k: v for k, v in kw.items() if k != 'cls' and v is not None}).decode(s)
    if kw.get('parse_float') or kw.get('parse_int') or kw.get('parse_constant'):
        raise core.Unsupported('json: parse hooks')
    hook = _json_hook(kw.get('object_hook'), kw.get('object_pairs_hook'))
    if isinstance(s, str):
        raised = []
        if not strings.isu(s):
            s = strings._decode(s, 'utf-8')

        def pairs(ps):
            try:
                return hook([(UStr(k), _from_host(v)) for k, v in ps])
            except BaseException as e:
                raised.append(e)
                raise
        try:
            return _from_host(_json.loads(str(s), object_pairs_hook=pairs, strict=True))
        except RecursionError:
            raise RuntimeError('maximum recursion depth exceeded')
        except ValueError as e:
            if raised and raised[-1] is e:
                raise
            raise ValueError(str(e))
    return JsonParser(s.ch, hook).parse()


class JsonParser(object):
    WS = [(32, 32), (9, 10), (13, 13)]

    def __init__(self, c, hook=None):
        self.c = c
        self.i = 0
        self.hook = hook or _json_hook(None, None)

    def bad(self):
        raise ValueError('No JSON object could be decoded')

    def ws(self):
        while self.i < len(self.c) and br(strings.cset(self.c[self.i], self.WS)):
            self.i += 1

    def at(self, ch):
        return self.i < len(self.c) and br(ceq(self.c[self.i], ord(ch)))

    def lit(self, s):
        if br(strings.match_at(self.c, tuple(map(ord, s)), self.i)):
            self.i += len(s)
            return True
        return False

    def parse(self):
        self.ws()
        v = self.value()
        self.ws()
        if self.i != len(self.c):
            raise ValueError('Extra data')
        return v

    def value(self):
        if self.i >= len(self.c):
            self.bad()
        if self.at('"'):
            self.i += 1
            return self.string()
        if self.at('{'):
            self.i += 1
            ps = []
            self.ws()
            if self.at('}'):
                self.i += 1
                return self.hook(ps)
            while True:
                self.ws()
                if not self.at('"'):
                    self.bad()
                self.i += 1
                k = self.string()
                self.ws()
                if not self.at(':'):
                    self.bad()
                self.i += 1
                self.ws()
                ps.append((k, self.value()))
                self.ws()
                if self.at(','):
                    self.i += 1
                    continue
                if self.at('}'):
                    self.i += 1
                    return self.hook(ps)
                self.bad()
        if self.at('['):
            self.i += 1
            l = []
            self.ws()
            if self.at(']'):
                self.i += 1
                return l
            while True:
                self.ws()
                l.append(self.value())
                self.ws()
                if self.at(','):
                    self.i += 1
                    continue
                if self.at(']'):
                    self.i += 1
                    return l
                self.bad()
        for s, v in (('null', None), ('true', True), ('false', False), ('NaN', float('nan')),
                     ('Infinity', float('inf')), ('-Infinity', float('-inf'))):
            if self.lit(s):
                return v
        return self.number()

    def digits(self):
        st = self.i
        while self.i < len(self.c) and br(strings.cset(self.c[self.i], strings.DIGIT)):
            self.i += 1
        return self.i > st

    def number(self):
        st = self.i
        if self.at('-'):
            self.i += 1
        if self.at('0'):
            self.i += 1
        elif not self.digits():
            self.i = st
            self.bad()
        isf = False
        save = self.i
        if self.at('.'):
            self.i += 1
            if self.digits():
                isf = True
            else:
                self.i = save
        save = self.i
        if self.at('e') or self.at('E'):
            self.i += 1
            if self.at('+') or self.at('-'):
                self.i += 1
            if self.digits():
                isf = True
            else:
                self.i = save
        t = mk(self.c[st:self.i])
        if isf:
            return float(strings.concretise(t) if isinstance(t, SymStr) else t)
        return rt._int(t)

    HEX = strings.DIGIT + [(65, 70), (97, 102)]

    def string(self):
        out = []
        while True:
            if self.i >= len(self.c):
                raise ValueError('Unterminated string')
            c = self.c[self.i]
            self.i += 1
            if br(ceq(c, 34)):
                return mk(out, True)
            if br(ceq(c, 92)):
                if self.i >= len(self.c):
                    raise ValueError('Unterminated string')
                e = self.c[self.i]
                self.i += 1
                for a, b in (('"', '"'), ('\\', '\\'), ('/', '/'), ('b', '\b'), ('f', '\f'),
                             ('n', '\n'), ('r', '\r'), ('t', '\t')):
                    if br(ceq(e, ord(a))):
                        out.append(ord(b))
                        break
                else:
                    if not br(ceq(e, 117)):
                        raise ValueError('Invalid \\escape')
                    h = self.c[self.i:self.i + 4]
                    if len(h) < 4 or not br(core.eand([strings.cset(x, self.HEX) for x in h])):
                        raise ValueError('Invalid \\uXXXX escape')
                    self.i += 4
                    v = int(''.join(chr(rt._cc(x)) for x in h), 16)
                    out.append(v if v < 256 else 63)
                continue
            if br(strings.cset(c, [(0, 31)])):
                raise ValueError('Invalid control character')
            out.append(c)


# -- hashlib ---------------------------------------------------------------------------------
class Hash(object):
    """An ideal hash: equal digests iff equal content under the same algorithm."""
    SIZES = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64}

    def __init__(self, name, data=''):
        self.name = name
        self.parts = []
        self.digest_size = self.SIZES[name]
        self.digestsize = self.digest_size
        self.block_size = 64
        if not (isstr(data) and not len(data)):
            self.update(data)

    def update(self, data):
        if not isstr(data) and not isinstance(data, vfs.Blob):
            raise TypeError('update() argument 1 must be string or buffer, not %s'
                            % rt.typename(data))
        if isstr(data) and not len(data):
            return
        self.parts.append(data)

    def copy(self):
        h = Hash(self.name)
        h.parts = list(self.parts)
        return h

    def _content(self):
        if len(self.parts) == 1:
            return self.parts[0]
        if any(isinstance(p, vfs.Blob) for p in self.parts):
            return tuple(self.parts)
        return strings._join('', self.parts)

    def hexdigest(self):
        c = self._content()
        if isinstance(c, str):
            c = str.__str__(c)
        reg = core.CTX.state.setdefault('digests', [])
        for alg, content, dig in reg:
            if alg == self.name and _same(content, c):
                return dig
        if isinstance(c, str):
            d = getattr(_hashlib, self.name)(c.encode('latin-1')).hexdigest()
        else:
            d = getattr(_hashlib, self.name)(b'ideal-%d' % len(reg)).hexdigest()
        reg.append((self.name, c, d))
        return d

    def digest(self):
        return ''.join(chr(int(self.hexdigest()[i:i + 2], 16))
                       for i in range(0, 2 * self.digest_size, 2))


def _same(a, b):
    if a is b:
        return True
    if isstr(a) and isstr(b):
        return br(eq_e(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, vfs.Blob) and isinstance(b, vfs.Blob):
        return blob_eq(a, b)
    return False


def blob_eq(a, b):
    if a is b:
        return True
    if a.kind != b.kind or isinstance(a, vfs.Part) or isinstance(b, vfs.Part):
        return False
    return a.members == b.members


def _mkhash(name):
    def f(data=''):
        return Hash(name, data)
    f.__name__ = name
    return f


HASHES = dict((n, _mkhash(n)) for n in Hash.SIZES)


def hash_new(name, data=''):
    name = str(rt.conc(name)).lower()
    if name not in Hash.SIZES:
        raise ValueError('unsupported hash type')
    return Hash(name, data)


# -- logging ----------------------------------------------------------------------------------
class Logger(object):
    level = 0
    disabled = False
    propagate = True

    def __init__(self, name):
        self.name = name
        self.handlers = []

    def _log(self, level, msg, *a, **k):
        if level >= 30:
            core.CTX.state.setdefault('log', []).append((level, msg, a))

    def debug(self, msg, *a, **k):
        pass

    info = debug

    def warning(self, msg, *a, **k):
        self._log(30, msg, *a)

    warn = warning

    def error(self, msg, *a, **k):
        self._log(40, msg, *a)

    exception = critical = fatal = error

    def log(self, level, msg, *a, **k):
        self._log(level, msg, *a)

    def setLevel(self, l):
        self.level = l

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers:
            self.handlers.remove(h)

    def isEnabledFor(self, l):
        return False

    def getEffectiveLevel(self):
        return 20

    def getChild(self, n):
        return Logger(n)


class Handler(object):
    def __init__(self, *a, **k):
        pass

    def setFormatter(self, f):
        pass

    def setLevel(self, l):
        pass


def _getlogger(name=None):
    d = core.CTX.state.setdefault('loggers', {})
    n = str(name)
    if n not in d:
        d[n] = Logger(n)
    return d[n]


# -- subprocess --------------------------------------------------------------------------------
class Popen(object):
    def __init__(self, *a, **k):
        raise core.Unsupported('process started without a stub: %r' % (a,))


class CalledProcessError(Exception):
    def __init__(self, returncode, cmd, output=None):
        self.returncode = returncode
        self.cmd = cmd
        self.output = output


def _call(mod):
    def call(*a, **k):
        p = mod.Popen(*a, **k)
        p.communicate()
        return p.returncode

    def check_call(*a, **k):
        r = call(*a, **k)
        if r != 0:
            raise CalledProcessError(r, a[0])
        return 0

    def check_output(*a, **k):
        k['stdout'] = -1
        p = mod.Popen(*a, **k)
        out = p.communicate()[0]
        if p.returncode != 0:
            raise CalledProcessError(p.returncode, a[0], out)
        return out
    mod.call, mod.check_call, mod.check_output = call, check_call, check_output
    return mod


# -- tarfile / zipfile ------------------------------------------------------------------------
def _tar():
    """The library's tarfile with only the byte layer replaced: members are kept as objects."""
    real = lib('tarfile')
    Base = real.TarFile

    class TarFile(Base):
        _sx_user = True

        def __init__(self, name=None, mode='r', fileobj=None, **kw):
            self.name = name
            self.mode = mode[0]
            self._mode = mode
            self.fileobj = fileobj
            self.closed = False
            self.members = []
            self._loaded = True
            self.errorlevel = kw.get('errorlevel', 1)
            self.debug = 0
            self.dereference = kw.get('dereference', False)
            self.ignore_zeros = False
            self.encoding = 'UTF-8'
            self.errors = 'strict'
            self.format = kw.get('format', real.DEFAULT_FORMAT)
            self.tarinfo = real.TarInfo
            self._own = None
            self._iterpos = 0
            self._data = {}
            self._tinfos = {}
            if self.mode == 'r':
                if fileobj is None:
                    fileobj = self.fileobj = vfs.sx_open(name, 'rb')
                data = fileobj.read()
                if isinstance(data, vfs.Blob) and data.kind == 'tar':
                    for m in data.members:
                        self.members.append(self._mkinfo(m))
                else:
                    raise real.ReadError('file could not be opened successfully')
            else:
                if fileobj is None:
                    self._own = vfs.sx_open(name, 'wb')
                self._blob = vfs.Blob('tar', [])

        def _mkinfo(self, m):
            t = real.TarInfo(m['name'])
            t.type = m['type']
            t.mode = m.get('mode', 0o644)
            t.linkname = m.get('linkname', '')
            t.mtime = 0
            t.uid = t.gid = 0
            t.uname = t.gname = ''
            d = m.get('data', '')
            t.size = len(d)
            self._data[id(t)] = d
            t.offset_data = id(t)
            return t

        @classmethod
        def open(cls, name=None, mode='r', fileobj=None, bufsize=10240, **kw):
            if not isstr(name) and name is not None:
                raise TypeError('coercing to Unicode')
            if name is None and fileobj is None:
                raise ValueError('nothing to open')
            if mode not in ('r', 'r:*', 'r:', 'r:gz', 'r:bz2', 'w', 'w:', 'w:gz', 'w:bz2', 'a',
                            'a:', 'r|*', 'r|', 'r|gz', 'r|bz2', 'w|', 'w|gz', 'w|bz2'):
                raise ValueError('undiscernible mode')
            return cls(name, mode, fileobj, **kw)

        bz2open = gzopen = taropen = open

        def getmembers(self):
            self._check()
            self._iterpos = len(self.members)
            return self.members

        def getnames(self):
            return [t.name for t in self.getmembers()]

        def getmember(self, name):
            self._check()
            self._iterpos = len(self.members)
            for t in reversed(self.members):
                if rt.sx_truth(rt.sx_eq(t.name, name)):
                    return t
            raise KeyError('filename %r not found' % (name,))

        def _getmember(self, name, tarinfo=None, normalize=False):
            self._iterpos = len(self.members)
            for t in reversed(self.members):
                if rt.sx_truth(rt.sx_eq(t.name, name)):
                    return t
            return None

        def next(self):
            self._check()
            if self._iterpos < len(self.members):
                self._iterpos += 1
                return self.members[self._iterpos - 1]
            return None

        def __iter__(self):
            self._check()
            return iter(list(self.members))

        def extractfile(self, member):
            self._check('r')
            t = self.getmember(member) if isstr(member) else member
            if t.isreg() or t.type not in real.SUPPORTED_TYPES:
                return StringIO(self._data[t.offset_data])
            if t.islnk() or t.issym():
                return self.extractfile(self._find_link_target(t))
            return None

        def addfile(self, tarinfo, fileobj=None):
            self._check('aw')
            data = ''
            if fileobj is not None:
                data = fileobj.read(tarinfo.size)
                if len(data) < tarinfo.size:
                    raise rt.Py2IOError('end of file reached')
            self._blob.members.append({
                'name': tarinfo.name, 'type': tarinfo.type, 'mode': tarinfo.mode,
                'linkname': tarinfo.linkname, 'data': data})
            if self._own is not None:
                self._own.fs.event('write', self._own.name, vfs.ioerror)
            self.members.append(tarinfo)

        def gettarinfo(self, name=None, arcname=None, fileobj=None):
            self._check('aw')
            arc = (name if arcname is None else arcname)
            arc = rt.sx_call(getattr(arc, 'lstrip'), '/')
            node = vfs.fs().get(name, self.dereference)
            t = real.TarInfo()
            t.name = arc
            t.mode = node.mode if node.mode is not None else 0o777
            t.mtime = 0
            t.linkname = ''
            if isinstance(node, vfs.File):
                t.type = real.REGTYPE
                t.size = len(node.content)
            elif isinstance(node, vfs.Dir):
                t.type = real.DIRTYPE
            elif isinstance(node, vfs.Link):
                t.type = real.SYMTYPE
                t.linkname = node.target
            else:
                return None
            return t

        def add(self, name, arcname=None, recursive=True, exclude=None, filter=None):
            self._check('aw')
            if arcname is None:
                arcname = name
            if exclude is not None and exclude(name):
                return
            t = self.gettarinfo(name, arcname)
            if t is None:
                return
            if filter is not None:
                t = filter(t)
                if t is None:
                    return
            if t.isreg():
                f = vfs.sx_open(name, 'rb')
                self.addfile(t, f)
                f.close()
            elif t.isdir():
                self.addfile(t)
                if recursive:
                    for f in vfs.fs().listdir(name):
                        self.add(get('os.path').join(name, f), get('os.path').join(arcname, f),
                                 recursive, exclude, filter)
            else:
                self.addfile(t)

        def close(self):
            if self.closed:
                return
            if self.mode in 'aw':
                if self._own is not None:
                    self._own.write(self._blob)
                    self._own.close()
                else:
                    self.fileobj.write(self._blob)
            elif self.name is not None and self._own is not None:
                self._own.close()
            self.closed = True

        def __enter__(self):
            self._check()
            return self

        def __exit__(self, typ, v, tb):
            if typ is None:
                self.close()
            self.closed = True
            return False

    TarFile.__name__ = 'TarFile'

    def is_tarfile(name):
        try:
            TarFile.open(name)
            return True
        except real.TarError:
            return False
    m = Mod('tarfile')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(m, n, getattr(real, n))
    m.TarFile = TarFile
    m.open = TarFile.open
    m.is_tarfile = is_tarfile
    return m


class BadZipfile(Exception):
    pass


class ZipInfo(object):
    def __init__(self, filename='NoName', date_time=(1980, 1, 1, 0, 0, 0), data=''):
        self.filename = self.orig_filename = filename
        self.date_time = date_time
        self.data = data
        self.file_size = len(data)
        self.external_attr = 0
        self.compress_type = 0
        self.comment = self.extra = ''


class ZipFile(object):
    def __init__(self, file, mode='r', *a, **k):
        self.filename = None
        self.mode = mode[0]
        self._blob = None
        if isstr(file):
            self.filename = file
            file = vfs.sx_open(file, 'rb' if self.mode == 'r' else 'wb')
        self.fp = file
        self.filelist = []
        if self.mode == 'r':
            data = file.read()
            if not isinstance(data, vfs.Blob) or data.kind != 'zip':
                raise BadZipfile('File is not a zip file')
            self.filelist = [ZipInfo(m['name'], data=m.get('data', '')) for m in data.members]
        else:
            self._blob = vfs.Blob('zip', [])

    def writestr(self, info, data, compress_type=None):
        name = info if isstr(info) else info.filename
        self._blob.members.append({'name': name, 'data': data})
        self.filelist.append(ZipInfo(name, data=data))

    def namelist(self):
        return [z.filename for z in self.filelist]

    def infolist(self):
        return self.filelist

    def _get(self, m):
        if isinstance(m, ZipInfo):
            return m
        for z in reversed(self.filelist):
            if rt.sx_truth(rt.sx_eq(z.filename, m)):
                return z
        raise KeyError(m)

    def read(self, m):
        return self._get(m).data

    def open(self, m, mode='r'):
        return StringIO(self._get(m).data)

    def extract(self, member, path=None, pwd=None):
        z = self._get(member)
        os = get('os')
        # Python 2.7.4+: drops '', '.' and '..' components
        arc = z.filename
        parts = [x for x in rt.sx_call(getattr(arc, 'split'), '/')
                 if len(x) and not rt.sx_truth(rt.sx_in(x, ('', '.', '..')))]
        arc2 = strings._join('/', parts)
        target = os.path.normpath(os.path.join(path if path is not None else os.getcwd(), arc2))
        up = os.path.dirname(target)
        if up and not os.path.exists(up):
            os.makedirs(up)
        if rt.sx_truth(rt.sx_call(getattr(z.filename, 'endswith'), '/')):
            if not os.path.isdir(target):
                os.mkdir(target)
            return target
        f = vfs.sx_open(target, 'wb')
        f.write(z.data)
        f.close()
        return target

    def extractall(self, path=None, members=None, pwd=None):
        for m in (members if members is not None else self.namelist()):
            self.extract(m, path)

    def testzip(self):
        return None

    getinfo = _get

    def close(self):
        if self._blob is not None:
            self.fp.write(self._blob)
            if self.filename is not None:
                self.fp.close()
            self._blob = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


# -- tempfile -----------------------------------------------------------------------------------
def _tempname(f):
    f.tmp += 1
    return 'sx%04d' % f.tmp


def _gettempdir():
    return core.CTX.state.get('tmpdir', '/tmp')


def mkdtemp(suffix='', prefix='tmp', dir=None):
    f = vfs.fs()
    p = get('os.path').join(dir if dir is not None else _gettempdir(),
                            prefix + _tempname(f) + suffix)
    f.mkdir(p, 0o700)
    return p


def mkstemp(suffix='', prefix='tmp', dir=None, text=False):
    f = vfs.fs()
    p = get('os.path').join(dir if dir is not None else _gettempdir(),
                            prefix + _tempname(f) + suffix)
    node = f.open(p, 'w')
    node.mode = 0o600
    return vfs.VFile(f, node, p, 'w+').fileno(), p


class NamedTemp(vfs.VFile):
    delete = True

    def close(self):
        if not self.closed:
            vfs.VFile.close(self)
            if self.delete:
                try:
                    self.fs.unlink(self.name)
                except rt.Py2OSError:
                    pass


def named_temp(mode='w+b', bufsize=-1, suffix='', prefix='tmp', dir=None, delete=True):
    f = vfs.fs()
    p = get('os.path').join(dir if dir is not None else _gettempdir(),
                            prefix + _tempname(f) + suffix)
    node = f.open(p, 'w')
    node.mode = 0o600
    t = NamedTemp(f, node, p, 'w+')
    t.delete = delete
    return t


# -- entry points ----------------------------------------------------------------------------------
class EntryPoint(object):
    def __init__(self, name, module, attr):
        self.name = name
        self.module_name = module
        self.attrs = (attr,)
        self.dist = None

    def load(self, *a, **k):
        m = core.CTX.state['importer'](self.module_name, None, None, ['x'], 0)
        return getattr(m, self.attrs[0])

    resolve = load


class Dist(object):
    version = '0.11.0'
    project_name = key = 'ipkg'
    location = '/repo'


def entry_points(text, group):
    out = []
    cur = None
    for line in text.splitlines():
        line = line.strip()
        if line.startswith('['):
            cur = line[1:-1].strip()
        elif '=' in line and cur == group:
            n, _, t = line.partition('=')
            m, _, a = t.strip().partition(':')
            out.append(EntryPoint(n.strip(), m.strip(), a.strip()))
    return out


# -- the table --------------------------------------------------------------------------------------
class AnyObj(object):
    def __init__(self, *a, **k):
        pass


def _copy(x):
    if type(x) is list:
        return list(x)
    if isstr(x) or x is None or isinstance(x, (int, float, tuple, SymInt)):
        return x
    if isinstance(x, DefaultDict):
        return x.copy()
    if type(x) in (PyDict, PySet, OrderedDict):
        return x.copy()
    if isinstance(x, dict):
        return dict(x)
    m = getattr(type(x), '__copy__', None)
    if m is not None:
        return m(x)
    y = object.__new__(type(x))
    if isinstance(x, PyDict):
        y._init()
        PyDict.update(y, x)
    for k, v in getattr(x, '__dict__', {}).items():
        if k not in ('_e', '_i', '_ns', '_perm'):
            y.__dict__[k] = v
    for c in type(x).__mro__:
        for s in getattr(c, '__slots__', ()) or ():
            if hasattr(x, s):
                setattr(y, s, getattr(x, s))
    return y


def _deepcopy(x, memo=None):
    if type(x) is list:
        return [_deepcopy(y) for y in x]
    if type(x) is tuple:
        return tuple(_deepcopy(y) for y in x)
    if isinstance(x, PyDict):
        y = _copy(x)
        y._init()
        for e in x._e:
            PyDict._set(y, _deepcopy(e.k), _deepcopy(e.v))
        return y
    if isstr(x) or x is None or isinstance(x, (int, float, SymInt, SymBool, type)) or callable(x):
        return x
    y = _copy(x)
    for k, v in list(getattr(y, '__dict__', {}).items()):
        if k not in ('_e', '_i', '_ns', '_perm'):
            y.__dict__[k] = _deepcopy(v)
    return y


def _itemgetter(*ks):
    if len(ks) == 1:
        return lambda o: rt.sx_getitem(o, ks[0])
    return lambda o: tuple(rt.sx_getitem(o, k) for k in ks)


def _attrgetter(*ns):
    def one(o, n):
        for p in n.split('.'):
            o = rt.sx_getattr(o, p)
        return o
    if len(ns) == 1:
        return lambda o: one(o, ns[0])
    return lambda o: tuple(one(o, n) for n in ns)


def _partial(f, *a, **k):
    def p(*b, **j):
        kk = dict(k)
        kk.update(j)
        return rt.sx_call(f, *(a + b), **kk)
    return p


def _wraps(f, *a):
    def deco(g):
        for n in ('__name__', '__doc__', '__module__'):
            try:
                setattr(g, n, getattr(f, n))
            except AttributeError:
                pass
        return g
    return deco


def _total_ordering(cls):
    def lt(a, b):
        return rt.sx_truth(rt.sx_lt(a, b))

    def le(a, b):
        return rt.sx_truth(rt.sx_le(a, b))

    def gt(a, b):
        return rt.sx_truth(rt.sx_gt(a, b))

    def ge(a, b):
        return rt.sx_truth(rt.sx_ge(a, b))

    def eq(a, b):
        return rt.sx_truth(rt.sx_eq(a, b))
    convert = {
        '__lt__': [('__gt__', lambda a, b: not (lt(a, b) or eq(a, b))),
                   ('__le__', lambda a, b: lt(a, b) or eq(a, b)),
                   ('__ge__', lambda a, b: not lt(a, b))],
        '__le__': [('__ge__', lambda a, b: not le(a, b) or eq(a, b)),
                   ('__lt__', lambda a, b: le(a, b) and not eq(a, b)),
                   ('__gt__', lambda a, b: not le(a, b))],
        '__gt__': [('__lt__', lambda a, b: not (gt(a, b) or eq(a, b))),
                   ('__ge__', lambda a, b: gt(a, b) or eq(a, b)),
                   ('__le__', lambda a, b: not gt(a, b))],
        '__ge__': [('__le__', lambda a, b: not ge(a, b) or eq(a, b)),
                   ('__gt__', lambda a, b: ge(a, b) and not eq(a, b)),
                   ('__lt__', lambda a, b: not ge(a, b))]}
    roots = [op for op in convert if getattr(cls, op) is not getattr(object, op)]
    if not roots:
        raise ValueError('must define at least one ordering operation: < > <= >=')
    for op, f in convert[max(roots)]:
        if op not in roots:
            setattr(cls, op, f)
    return cls


def _chainit(*its):
    for i in its:
        for x in rt.sx_iter(i):
            yield x


_chainit.from_iterable = lambda its: _chainit(*its)


def _groupby(it, key=None):
    cur = []
    ck = None
    first = True
    for x in rt.sx_iter(it):
        k = key(x) if key else x
        if first or not rt.sx_truth(rt.sx_eq(k, ck)):
            if not first:
                yield ck, iter(cur)
            cur, ck, first = [], k, False
        cur.append(x)
    if not first:
        yield ck, iter(cur)


def _contextmanager(f):
    class CM(object):
        def __init__(self, g):
            self.g = g

        def __enter__(self):
            return next(self.g)

        def __exit__(self, t, v, tb):
            if t is None:
                try:
                    next(self.g)
                except StopIteration:
                    return False
                raise RuntimeError("generator didn't stop")
            try:
                self.g.throw(v)
            except StopIteration:
                return True
            except BaseException as e:
                if e is not v:
                    raise
                return False

    def helper(*a, **k):
        return CM(f(*a, **k))
    helper.__name__ = f.__name__
    return helper


def _namedtuple(name, fields):
    import collections
    if isstr(fields):
        fields = fields.replace(',', ' ').split()
    t = collections.namedtuple(rt.conc(name), [rt.conc(f) for f in fields])
    t._asdict = lambda self: OrderedDict(list(zip(self._fields, self)))
    return t


def _fn(name):
    def f(self, *a):
        raise core.Unsupported(name)
    return f


class Time(object):
    @staticmethod
    def time():
        s = core.CTX.state
        s['clock'] = s.get('clock', 1400000000.0) + 1.0
        return s['clock']

    @staticmethod
    def sleep(n):
        pass

    @staticmethod
    def strftime(f, *a):
        return 'now'

    @staticmethod
    def localtime(*a):
        return (2014, 5, 13, 16, 53, 20, 1, 133, 0)

    gmtime = localtime

    @staticmethod
    def ctime(*a):
        return 'now'


def build(name):
    """Create the model of module `name` for the running path, or None."""
    if name == 'sys':
        return SysModule()
    if name in ('os.path', 'posixpath'):
        return PathModule() if name == 'os.path' else get('os.path')
    if name == 'os':
        return OsModule()
    if name == 're':
        return remodel.Module()
    if name == 'json':
        return Mod(name, dumps=json_dumps, dump=json_dump, loads=json_loads,
                   load=lambda fp, *a, **k: json_loads(fp.read(), *a, **k),
                   JSONEncoder=JSONEncoder, JSONDecoder=JSONDecoder)
    if name in ('StringIO', 'cStringIO', 'io'):
        return Mod(name, StringIO=StringIO, BytesIO=StringIO,
                   open=io_open if name == 'io' else vfs.sx_open,
                   SEEK_SET=0, SEEK_CUR=1, SEEK_END=2)
    if name == 'hashlib':
        m = Mod(name, new=hash_new, algorithms=tuple(Hash.SIZES))
        m.__dict__.update(HASHES)
        return m
    if name == 'logging':
        return Mod(name, getLogger=_getlogger, DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40,
                   CRITICAL=50, NOTSET=0, StreamHandler=Handler, NullHandler=Handler,
                   FileHandler=Handler, Formatter=Handler, Logger=Logger, Handler=Handler,
                   basicConfig=lambda **k: None, disable=lambda l: None,
                   root=_getlogger('root'),
                   **dict((n, getattr(_getlogger('root'), n)) for n in
                          ('debug', 'info', 'warning', 'error', 'exception', 'critical')))
    if name == 'subprocess':
        m = Mod(name, PIPE=-1, STDOUT=-2, Popen=Popen, CalledProcessError=CalledProcessError)
        return _call(m)
    if name == 'tarfile':
        return _tar()
    if name == 'zipfile':
        return Mod(name, ZipFile=ZipFile, BadZipfile=BadZipfile, error=BadZipfile,
                   ZipInfo=ZipInfo, ZIP_STORED=0, ZIP_DEFLATED=8,
                   is_zipfile=_is_zipfile)
    if name == 'zlib':
        return Mod(name, error=type('error', (Exception,), {}))
    if name == 'errno':
        m = Mod(name)
        for n in dir(_errno):
            setattr(m, n, getattr(_errno, n))
        return m
    if name == 'stat':
        m = Mod(name)
        for n in dir(_stat):
            if n.startswith('S_I') and n[:4] != 'S_IS' or n.startswith('ST_') or \
                    n in ('S_ISUID', 'S_ISGID', 'S_ISVTX'):
                setattr(m, n, getattr(_stat, n))
        for n, v in (('DIR', 0o040000), ('REG', 0o100000), ('LNK', 0o120000), ('CHR', 0o020000),
                     ('BLK', 0o060000), ('FIFO', 0o010000), ('SOCK', 0o140000)):
            setattr(m, 'S_IS' + n, lambda mode, v=v: rt.sx_eq((mode // 4096) * 4096, v))
        m.S_IMODE = lambda mode: mode & 0o7777
        m.S_IFMT = lambda mode: (mode // 4096) * 4096
        return m
    if name == 'operator':
        return Mod(name, eq=rt.sx_eq, ne=rt.sx_ne, lt=rt.sx_lt, le=rt.sx_le, gt=rt.sx_gt,
                   ge=rt.sx_ge, __eq__=rt.sx_eq, __ne__=rt.sx_ne, __lt__=rt.sx_lt,
                   __le__=rt.sx_le, __gt__=rt.sx_gt, __ge__=rt.sx_ge,
                   itemgetter=_itemgetter, attrgetter=_attrgetter, add=lambda a, b: a + b,
                   sub=lambda a, b: a - b, mul=lambda a, b: a * b, mod=rt.sx_mod, div=rt.sx_div,
                   and_=lambda a, b: a & b, or_=lambda a, b: a | b, xor=lambda a, b: a ^ b,
                   not_=rt.sx_not, truth=rt.sx_truth, contains=lambda a, b: rt.sx_in(b, a),
                   is_=rt.sx_is, is_not=rt.sx_isnot, neg=lambda a: -a,
                   methodcaller=lambda n, *a, **k: lambda o: rt.sx_call(
                       rt.sx_getattr(o, n), *a, **k),
                   getitem=rt.sx_getitem)
    if name == 'collections':
        return Mod(name, defaultdict=DefaultDict, OrderedDict=OrderedDict, Counter=Counter,
                   namedtuple=_namedtuple, deque=Deque, Mapping=Mapping,
                   MutableMapping=MutableMapping,
                   Callable=_abstract('Callable', callable),
                   Iterable=_abstract('Iterable', lambda x: isstr(x) or hasattr(x, '__iter__')),
                   Container=_abstract('Container', lambda x: isstr(x) or
                                       hasattr(x, '__contains__')),
                   Sized=_abstract('Sized', lambda x: hasattr(x, '__len__')),
                   Sequence=_abstract('Sequence', lambda x: isstr(x) or
                                      isinstance(x, (list, tuple))),
                   MutableSequence=_abstract('MutableSequence', lambda x: isinstance(x, list)),
                   Set=_abstract('Set', lambda x: isinstance(x, PySet)),
                   Iterator=_abstract('Iterator', lambda x: hasattr(x, '__next__')))
    if name == 'itertools':
        m = Mod(name, chain=_chainit, groupby=_groupby,
                imap=lambda f, *i: iter(rt.sx_map(f, *i)),
                izip_longest=_izip_longest,
                compress=lambda d, s: iter([x for x, y in zip(d, s) if y]),
                ifilter=lambda f, i: iter(rt.sx_filter(f, list(i))),
                ifilterfalse=lambda f, i: iter([x for x in i if not f(x)]),
                izip=lambda *i: iter(list(zip(*[rt.sx_iter(x) for x in i]))))
        for n in ('count', 'cycle', 'repeat', 'islice', 'takewhile', 'dropwhile', 'product',
                  'permutations', 'combinations', 'starmap', 'tee'):
            setattr(m, n, getattr(_itertools, n))
        return m
    if name == 'functools':
        return Mod(name, partial=_partial, wraps=_wraps, reduce=rt.sx_reduce,
                   update_wrapper=lambda g, f, *a: _wraps(f)(g),
                   total_ordering=_total_ordering,
                   cmp_to_key=lambda c: __import__('functools').cmp_to_key(c))
    if name == 'copy':
        return Mod(name, copy=_copy, deepcopy=_deepcopy)
    if name == 'types':
        return Mod(name, FunctionType=types.FunctionType, MethodType=types.MethodType,
                   ModuleType=Mod, StringType=rt.PyStr, StringTypes=(rt.PyStr, rt.PyUnicode),
                   UnicodeType=rt.PyUnicode, ListType=list, TupleType=tuple, DictType=PyDict,
                   IntType=rt.PyInt, NoneType=type(None), ClassType=type('ClassType', (), {}),
                   TypeType=rt.PyType, GeneratorType=types.GeneratorType, LambdaType=types.LambdaType,
                   BooleanType=rt.PyBool, LongType=rt.PyLong, FloatType=rt.PyFloat,
                   BuiltinFunctionType=types.BuiltinFunctionType)
    if name == 'platform':
        def p(k):
            return (core.CTX.state.get('platform') or
                    ('Linux', 'debian', 'trixie/sid', 'x86_64'))[k]
        return Mod(name, system=lambda: p(0), dist=lambda *a, **k: (p(1), p(2), ''),
                   linux_distribution=lambda *a, **k: (p(1), p(2), ''),
                   machine=lambda: p(3), mac_ver=lambda *a, **k: (p(2), ('', '', ''), ''),
                   release=lambda: '6.0', node=lambda: 'host',
                   uname=lambda: (p(0), 'host', '6.0', '#1', p(3), ''))
    if name == 'time':
        m = Time()
        m.__name__ = 'time'
        return m
    if name == 'socket':
        return Mod(name, gethostname=lambda: 'host.example.org', error=rt.Py2IOError,
                   timeout=type('timeout', (rt.Py2IOError,), {}),
                   getfqdn=lambda: 'host.example.org')
    if name == 'tempfile':
        return Mod(name, mkdtemp=mkdtemp, mkstemp=mkstemp, NamedTemporaryFile=named_temp,
                   TemporaryFile=named_temp, gettempdir=_gettempdir, tempdir=None,
                   gettempprefix=lambda: 'tmp', template='tmp',
                   mktemp=lambda suffix='', prefix='tmp', dir=None: get('os.path').join(
                       dir or _gettempdir(), prefix + _tempname(vfs.fs()) + suffix))
    if name == 'pkg_resources':
        real = lib('pkg_resources')
        text = core.CTX.x.program.entry_points
        return Mod(name, parse_version=real.parse_version,
                   iter_entry_points=lambda group, name=None: iter(
                       [e for e in entry_points(text, group)
                        if name is None or rt.sx_truth(rt.sx_eq(e.name, name))]),
                   require=lambda *a: [Dist()], get_distribution=lambda *a: Dist(),
                   EntryPoint=EntryPoint, DistributionNotFound=type(
                       'DistributionNotFound', (Exception,), {}))
    if name == 'requests':
        class RequestException(rt.Py2IOError):
            pass
        classes = {'RequestException': RequestException}
        for n in ('HTTPError', 'ConnectionError', 'Timeout', 'TooManyRedirects',
                  'URLRequired'):
            classes[n] = type(n, (RequestException,), {})
        for n in ('InvalidSchema', 'InvalidURL', 'MissingSchema'):
            classes[n] = type(n, (RequestException, ValueError), {})
        classes['ChunkedEncodingError'] = type('ChunkedEncodingError', (RequestException,), {})
        classes['ContentDecodingError'] = type('ContentDecodingError', (RequestException,), {})
        classes['ReadTimeout'] = type('ReadTimeout', (classes['Timeout'],), {})
        classes['ConnectTimeout'] = type('ConnectTimeout',
                                         (classes['ConnectionError'], classes['Timeout']), {})

        def unstubbed(*a, **k):
            raise core.Unsupported('HTTP request without a stub')
        m = Mod(name, get=unstubbed, codes=Mod('codes', ok=200, OK=200, not_found=404),
                exceptions=Mod('requests.exceptions', **classes), **classes)
        u = {}
        u['HTTPError'] = type('HTTPError', (Exception,), {})

        def pool_init(self, pool, *a):
            Exception.__init__(self, '%s: %s' % (pool, a[-1] if a else ''))
        for n, base in (('PoolError', 'HTTPError'), ('RequestError', 'PoolError'),
                        ('DecodeError', 'HTTPError'), ('ProtocolError', 'HTTPError'),
                        ('TimeoutError', 'HTTPError'), ('ReadTimeoutError', 'TimeoutError'),
                        ('ResponseError', 'HTTPError')):
            u[n] = type(n, (u[base],), {'__init__': pool_init} if n in (
                'PoolError', 'RequestError', 'ReadTimeoutError') else {})
        u['IncompleteRead'] = u['ProtocolError']
        lib3 = Mod('requests.packages.urllib3', exceptions=Mod(
            'requests.packages.urllib3.exceptions', **u))
        m.packages = Mod('requests.packages', urllib3=lib3)
        return m
    if name == 'requests.packages':
        return get('requests').packages
    if name == 'requests.packages.urllib3':
        return get('requests').packages.urllib3
    if name == 'requests.packages.urllib3.exceptions':
        return get('requests').packages.urllib3.exceptions
    if name == 'requests.exceptions':
        return get('requests').exceptions
    if name == 'httplib':
        h = {'HTTPException': type('HTTPException', (Exception,), {})}
        for n in ('NotConnected', 'InvalidURL', 'UnknownProtocol', 'UnimplementedFileMode', 'BadStatusLine',
                  'ImproperConnectionState', 'LineTooLong', 'IncompleteRead'):
            h[n] = type(n, (h['HTTPException'],), {})

        def incomplete_init(self, partial, expected=None):
            self.args = (partial,)
            self.partial = partial
            self.expected = expected
        h['IncompleteRead'].__init__ = incomplete_init
        return Mod(name, **h)
    if name == 'imp':
        def load_source(n, path, *a):
            src = vfs.sx_open(path).read()
            return core.CTX.state['load_source'](n, path, src)
        return Mod(name, load_source=load_source)
    if name == 'threading':
        class Lock(object):
            def acquire(self, *a):
                return True

            def release(self):
                pass

            def __enter__(self):
                return True

            def __exit__(self, *a):
                return False
        return Mod(name, Lock=Lock, RLock=Lock, local=AnyObj)
    if name == 'contextlib':
        class closing(object):
            def __init__(self, x):
                self.x = x

            def __enter__(self):
                return self.x

            def __exit__(self, *a):
                self.x.close()
                return False

        @_contextmanager
        def nested(*ms):
            if not ms:
                yield []
                return
            with ms[0] as v:
                with nested(*ms[1:]) as vs:
                    yield [v] + list(vs)
        return Mod(name, contextmanager=_contextmanager, closing=closing, nested=nested)
    if name == 'importlib':
        return Mod(name, import_module=lambda n, package=None: core.CTX.state['importer'](
            n, None, None, ['x'], 0) if package is None else Unmodelled('relative import')())
    if name == 'inspect':
        return Mod(name, isclass=lambda o: rt.sx_isinstance(o, type),
                   isfunction=lambda o: isinstance(o, types.FunctionType),
                   ismethod=lambda o: isinstance(o, types.MethodType),
                   ismodule=lambda o: isinstance(o, (Mod, types.ModuleType)),
                   isgenerator=lambda o: isinstance(o, types.GeneratorType))
    if name == 'codecs':
        return Mod(name, open=lambda p, mode='rb', encoding=None, *a: io_open(
            p, mode.replace('b', '') if encoding else mode, encoding=encoding)
            if encoding else vfs.sx_open(p, mode))
    if name == 'locale':
        return Mod(name, getpreferredencoding=lambda *a: 'UTF-8', setlocale=lambda *a: 'C',
                   LC_ALL=6, getdefaultlocale=lambda *a: ('en_US', 'UTF-8'))
    if name == 'binascii':
        return Mod(name, hexlify=lambda s: rt.conc(s).encode('latin1').hex(),
                   unhexlify=lambda s: bytes.fromhex(rt.conc(s)).decode('latin1'),
                   Error=ValueError)
    if name == 'base64':
        def b64(f):
            return lambda s: f(rt.conc(s).encode('latin1')).decode('latin1')
        return Mod(name, **dict((n, b64(getattr(_base64, n))) for n in (
            'b64encode', 'b64decode', 'urlsafe_b64encode', 'urlsafe_b64decode', 'b16encode',
            'b32encode')))
    if name == 'urllib':
        def unquote(s):
            return get('urlparse').unquote(s)
        return Mod(name, quote=_quote, unquote=unquote, pathname2url=_quote, url2pathname=unquote,
                   quote_plus=lambda s, safe='': _quote(s, safe + ' ').replace(' ', '+'),
                   unquote_plus=lambda s: unquote(s.replace('+', ' ')))
    if name == 'UserDict':
        return Mod(name, DictMixin=MutableMapping)
    if name == 'traceback':
        return Mod(name, format_exc=lambda *a: '', print_exc=lambda *a, **k: None,
                   format_exception=lambda *a: [])
    if name == 'warnings':
        return Mod(name, warn=lambda *a, **k: None, filterwarnings=lambda *a, **k: None,
                   simplefilter=lambda *a, **k: None)
    if name == 'atexit':
        return Mod(name, register=lambda f, *a, **k: f)
    if name == 'gettext':
        return Mod(name, gettext=lambda s: s, ngettext=lambda a, b, n: a if n == 1 else b)
    if name == 'uuid':
        def uuid4():
            f = vfs.fs()
            f.tmp += 1
            return Mod('uuid', hex='%032x' % f.tmp)
        return Mod(name, uuid4=uuid4)
    if name == 'random':
        return Mod(name, randint=lambda a, b: a, random=lambda: 0.5, choice=lambda s: s[0])
    if name == 'struct':
        return Mod(name, pack=_struct.pack, unpack=_struct.unpack, calcsize=_struct.calcsize,
                   error=_struct.error)
    if name == 'math':
        return Mod(name, **dict((n, getattr(_math, n)) for n in dir(_math)
                                if not n.startswith('_')))
    if name in ('pwd', 'grp'):
        def nokey(*a):
            raise KeyError('no such user')
        return Mod(name, getpwuid=nokey, getpwnam=nokey, getgrgid=nokey, getgrnam=nokey)
    if name == 'abc':
        return Mod(name, ABCMeta=type, abstractmethod=lambda f: f)
    if name == '__builtin__':
        return Mod(name, **core.CTX.x.program.builtins)
    if name == '__future__':
        return Mod(name, with_statement=1, print_function=1, division=1, absolute_import=1,
                   unicode_literals=1)
    if name == 'signal':
        return Mod(name, SIGTERM=15, SIGKILL=9, SIGINT=2, signal=lambda *a: None)
    if name == 'string':
        def maketrans(a, b):
            if len(a) != len(b):
                raise ValueError('maketrans arguments must have same length')
            t = [chr(i) for i in range(256)]
            for x, y in zip(a, b):
                t[ord(x)] = y
            return ''.join(t)
        return Mod(name, Template=Template, maketrans=maketrans, ascii_letters='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
                   ascii_lowercase='abcdefghijklmnopqrstuvwxyz',
                   ascii_uppercase='ABCDEFGHIJKLMNOPQRSTUVWXYZ',
                   letters='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
                   lowercase='abcdefghijklmnopqrstuvwxyz', digits='0123456789',
                   hexdigits='0123456789abcdefABCDEF', whitespace='\t\n\x0b\x0c\r ',
                   punctuation='!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~',
                   join=lambda l, s=' ': strings._join(s, l))
    return None


def _abstract(name, test):
    class Meta(type):
        def __instancecheck__(cls, x):
            return test(x)
    return Meta(name, (object,), {})


class _MappingMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or isinstance(x, (PyDict, dict))


class Mapping(object, metaclass=_MappingMeta):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    has_key = __contains__

    def keys(self):
        return list(self)

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def iterkeys(self):
        return iter(self)

    def itervalues(self):
        return iter(self.values())

    def iteritems(self):
        return iter(self.items())

    def __eq__(self, other):
        return rt.sx_eq(PyDict(self.items()), PyDict(other.items()))

    def __ne__(self, other):
        return rt.sx_not(self == other)

    __hash__ = None


class MutableMapping(Mapping):
    def pop(self, key, *default):
        try:
            v = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        del self[key]
        return v

    def popitem(self):
        for k in self:
            v = self[k]
            del self[k]
            return k, v
        raise KeyError

    def clear(self):
        while True:
            try:
                self.popitem()
            except KeyError:
                return

    def update(self, *a, **k):
        for key, v in PyDict(*a, **k).items():
            self[key] = v

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


def _quote(s, safe='/'):
    out = []
    for c in codes(s):
        if br(core.eor([strings.cset(c, strings.ALNUM)] +
                       [strings.ceq(c, ord(x)) for x in '_.-' + safe])):
            out.append(c)
        else:
            out.extend(map(ord, '%%%02X' % (c if isinstance(c, int) else ord(rt.conc(mk([c]))))))
    return mk(out)


class TextFile(object):
    """io.open in text mode."""

    def __init__(self, f):
        self.f = f

    def read(self, *a):
        return rt.PyUnicode(self.f.read(*a))

    def readline(self, *a):
        return rt.PyUnicode(self.f.readline(*a))

    def readlines(self):
        return [rt.PyUnicode(x) for x in self.f.readlines()]

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        if not rt.sx_isinstance(s, rt.PyUnicode):
            raise TypeError("can't write str to text stream")
        self.f.write(strings._encode(s))

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return self.f.__exit__(*a)


def io_open(path, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
    f = vfs.sx_open(path, mode if 'b' in mode else mode.replace('U', '').replace('t', '') or 'r')
    return f if 'b' in mode else TextFile(f)


class Template(object):
    """string.Template with the usual delimiter."""
    _rx = r'\$(?:(\$)|([_a-z][_a-z0-9]*)|\{([_a-z][_a-z0-9]*)\})'

    def __init__(self, template):
        self.template = template

    def _sub(self, safe, a, k):
        d = PyDict(*a, **k)

        def one(m):
            if m.group(1):
                return '$'
            n = m.group(2) or m.group(3)
            if safe and n not in d:
                return m.group()
            return rt.sx_str(d[n])
        return get('re').sub(self._rx, one, self.template, 0, 2)

    def substitute(self, *a, **k):
        return self._sub(False, a, k)

    def safe_substitute(self, *a, **k):
        return self._sub(True, a, k)


def _is_zipfile(f):
    try:
        if isstr(f):
            f = vfs.sx_open(f, 'rb')
        d = f.read()
    except rt.Py2IOError:
        return False
    return isinstance(d, vfs.Blob) and d.kind == 'zip'


def _izip_longest(*its, **k):
    its = [list(rt.sx_iter(i)) for i in its]
    n = max([len(i) for i in its] or [0])
    return iter([tuple(i[j] if j < len(i) else k.get('fillvalue') for i in its)
                 for j in range(n)])


class Deque(list):
    def __init__(self, it=(), maxlen=None):
        list.__init__(self, rt.sx_iter(it))
        self.maxlen = maxlen
        if maxlen is not None:
            del self[:max(0, len(self) - maxlen)]

    def append(self, x):
        list.append(self, x)
        if self.maxlen is not None:
            del self[:max(0, len(self) - self.maxlen)]

    def extend(self, it):
        for x in rt.sx_iter(it):
            self.append(x)

    def popleft(self):
        if not self:
            raise IndexError('pop from an empty deque')
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)

    def extendleft(self, it):
        for x in it:
            self.insert(0, x)

    def rotate(self, n=1):
        for _ in range(n):
            self.insert(0, self.pop())


LIBS = ('posixpath', 'genericpath', 'os', 'tarfile', 'shutil', 'urlparse', 'shlex', 'argparse',
        'textwrap', 'fnmatch', 'glob', 'pkg_resources', 'bisect', 'heapq', 'ConfigParser',
        'filecmp', 'getopt', 'optparse', 'sets', 'distutils.version')


def get(name):
    mods = core.CTX.state['models']
    m = mods.get(name)
    if m is None:
        m = _shared.get(name)
    if m is None:
        m = build(name)
        if m is None and name in LIBS:
            m = lib(name)
        if m is None and name.split('.')[0] not in ('java', 'javax', 'org') and \
                name in jynames()['*']:
            m = Missing(name)
        _dirty.pop(id(m), None)
        if name not in PER_PATH:
            _shared[name] = m
    mods[name] = m
    return m


def lib(name):
    """The library's own source, instrumented."""
    libs = core.CTX.state.setdefault('libs', {})
    m = libs.get(name)
    if m is None:
        m = libs[name] = core.CTX.x.program.load_lib(name)
    return m
