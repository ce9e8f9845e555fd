"""A POSIX file system held in memory: symbolic names and contents, links, modes,
and a fault schedule over its mutating operations."""
import errno
import posixpath
import stat as _stat
import z3
from . import core, strings
from .core import SymInt
from .strings import SymStr, UStr, isstr, codes, mk, eq_e, br
from . import runtime as rt


class Blob(object):
    """Opaque file content with structure (an archive)."""

    def __init__(self, kind, members, closed=True):
        self.kind = kind
        self.members = members
        self.whole = closed

    def __len__(self):
        return 512 * (len(self.members) + 1)

    def __bool__(self):
        return True

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is not None and i.start >= len(self):
                return ''
            if i.start in (None, 0) and (i.stop is None or i.stop >= len(self)):
                return self
            return Part(self, i)
        return 'B'

    def __add__(self, o):
        if isstr(o) and not o:
            return self
        return Part(self, None)

    __radd__ = __add__


class Part(Blob):
    """A truncated or otherwise damaged archive."""

    def __init__(self, blob, sl):
        Blob.__init__(self, 'damaged', [], False)
        self.of = blob
        self.sl = sl

    def __len__(self):
        return 256


class File(object):
    kind = 'file'

    def __init__(self, content='', mode=0o644):
        self.content = content
        self.mode = mode
        self.mtime = 0
        self.nlink = 1


class Dir(object):
    kind = 'dir'

    def __init__(self, mode=0o755):
        self.ents = []          # [name, node]
        self.mode = mode
        self.mtime = 0
        self.parent = None


class Link(object):
    kind = 'link'
    mode = 0o777
    mtime = 0

    def __init__(self, target):
        self.target = target


class Dev(object):
    kind = 'dev'
    mode = 0o666
    mtime = 0

    def __init__(self):
        self.content = ''


MSG = {errno.ENOENT: 'No such file or directory', errno.EEXIST: 'File exists',
       errno.ENOTDIR: 'Not a directory', errno.EISDIR: 'Is a directory',
       errno.ENOTEMPTY: 'Directory not empty', errno.ELOOP: 'Too many levels of symbolic links',
       errno.ENOSPC: 'No space left on device', errno.EINVAL: 'Invalid argument',
       errno.EXDEV: 'Invalid cross-device link', errno.EIO: 'Input/output error',
       errno.EPERM: 'Operation not permitted', errno.ENAMETOOLONG: 'File name too long',
       errno.EBADF: 'Bad file descriptor', errno.EACCES: 'Permission denied',
       errno.EBUSY: 'Device or resource busy'}


def oserror(no, path=None):
    return rt.Py2OSError(no, MSG.get(no, 'error'), path) if path is not None else \
        rt.Py2OSError(no, MSG.get(no, 'error'))


def ioerror(no, path=None):
    return rt.Py2IOError(no, MSG.get(no, 'error'), path) if path is not None else \
        rt.Py2IOError(no, MSG.get(no, 'error'))


def split_path(p):
    """'/a//b/' -> (absolute, ['a', 'b'], trailing_slash)"""
    if isinstance(p, str):
        parts = [x for x in str.split(p, '/') if x]
        return p[:1] == '/', parts, p[-1:] == '/' and len(p) > 0
    c = p.ch
    absolute = len(c) > 0 and br(strings.ceq(c[0], 47))
    parts = [x for x in strings._split(p, '/') if len(x)]
    trailing = len(c) > 0 and br(strings.ceq(c[-1], 47))
    return absolute, parts, trailing


class FS(object):
    def __init__(self):
        self.root = Dir()
        self.root.parent = self.root
        self.cwd = self.root
        self.cwd_path = '/'
        self.events = 0
        self.crashed = False
        self.armed = None        # dict: mode, at
        self.fired = None
        self.log = []
        self.fds = {}
        self.tmp = 0

    # -- resolution
    def entry(self, d, name):
        for e in d.ents:
            if e[0] is name or br(eq_e(e[0], name)):
                return e
        return None

    def walk(self, path, follow=True, err=oserror, want_parent=False, hops=None):
        """Returns (parent dir, last name, node or None)."""
        if not isstr(path):
            raise TypeError('coercing to Unicode: need string or buffer, %s found'
                            % rt.typename(path))
        absolute, parts, trailing = split_path(path)
        if not len(path):
            raise err(errno.ENOENT, path)
        return self._walk(self.root if absolute else self.cwd, parts, trailing, follow, err,
                          path, hops if hops is not None else [0])

    def _walk(self, cur, parts, trailing, follow, err, path, hops):
        if not parts:
            return cur.parent, '.', cur
        parts = list(parts)
        while parts:
            name = parts.pop(0)
            if not isinstance(cur, Dir):
                raise err(errno.ENOTDIR, path)
            last = not parts
            if _is(name, '.'):
                if last:
                    return cur.parent, '.', cur
                continue
            if _is(name, '..'):
                cur = cur.parent
                if last:
                    return cur.parent, '..', cur
                continue
            e = self.entry(cur, name)
            node = e[1] if e else None
            if isinstance(node, Link) and (not last or follow or trailing):
                hops[0] += 1
                if hops[0] > 20:
                    raise err(errno.ELOOP, path)
                a2, p2, t2 = split_path(node.target)
                if not p2 and not a2:
                    raise err(errno.ENOENT, path)
                par, nm, n2 = self._walk(self.root if a2 else cur, p2, t2, True, err, path, hops)
                if last:
                    if trailing and n2 is not None and not isinstance(n2, Dir):
                        raise err(errno.ENOTDIR, path)
                    return par, nm, n2
                if n2 is None:
                    raise err(errno.ENOENT, path)
                cur = n2
                continue
            if last:
                if trailing and node is not None and not isinstance(node, Dir):
                    raise err(errno.ENOTDIR, path)
                return cur, name, node
            if node is None:
                raise err(errno.ENOENT, path)
            cur = node

    def get(self, path, follow=True, err=oserror):
        p, n, node = self.walk(path, follow, err)
        if node is None:
            raise err(errno.ENOENT, path)
        return node

    def lookup(self, path, follow=True):
        try:
            return self.walk(path, follow)[2]
        except rt.Py2OSError:
            return None

    # -- events
    def event(self, kind, path=None, err=oserror, partial=None):
        """A mutating operation is about to happen.  `partial(n)` persists part of it.
        True: something else happened before, look again."""
        if self.crashed:
            raise rt.Crash()
        i = self.events
        self.events += 1
        self.log.append((kind, path))
        f = self.armed
        if f is None or self.fired is not None:
            return
        at = f['at']
        hit = (at == i)
        if isinstance(hit, core.SymBool):
            hit = bool(hit)
        if not hit:
            return
        self.fired = [kind, path, i, None]
        if partial is not None:
            partial()
        if f['mode'] == 'meanwhile':
            # something else happens before it goes on
            n = self.events
            f['other']()
            self.events = n
            return True
        if f['mode'] == 'crash':
            if f.get('after') and partial is None:
                f['pending'] = True
                return
            self.crashed = True
            raise rt.Crash()
        raise err(f.get('errno', errno.ENOSPC), path)

    # -- operations
    def add(self, parent, name, node):
        parent.ents.append([name, node])
        if isinstance(node, Dir):
            node.parent = parent

    def mkdir(self, path, mode=0o777):
        par, name, node = self.walk(path, False)
        if node is not None:
            raise oserror(errno.EEXIST, path)
        if self.event('mkdir', path):
            return self.mkdir(path, mode)
        self.add(par, name, Dir(mode))

    def rmdir(self, path):
        par, name, node = self.walk(path, False)
        if node is None:
            raise oserror(errno.ENOENT, path)
        if not isinstance(node, Dir):
            raise oserror(errno.ENOTDIR, path)
        if isinstance(name, str) and name == '..':
            raise oserror(errno.ENOTEMPTY, path)
        # Jython's rmdir, unlike the system call, accepts a path ending with '.'
        if node.ents:
            raise oserror(errno.ENOTEMPTY, path)
        if self.event('rmdir', path):
            return self.rmdir(path)
        self._drop(par, node)

    def _drop(self, par, node):
        for k, e in enumerate(par.ents):
            if e[1] is node:
                del par.ents[k]
                return

    def unlink(self, path):
        par, name, node = self.walk(path, False)
        if node is None:
            raise oserror(errno.ENOENT, path)
        if isinstance(node, Dir):
            raise oserror(errno.EISDIR, path)
        if self.event('unlink', path):
            return self.unlink(path)
        e = self.entry(par, name)
        par.ents.remove(e)

    def rename(self, a, b):
        pa, na, x = self.walk(a, False)
        if x is None:
            raise oserror(errno.ENOENT, a)
        pb, nb, y = self.walk(b, False)
        if y is x:
            return
        if isinstance(y, Dir):
            if not isinstance(x, Dir):
                raise oserror(errno.EISDIR, b)
            if y.ents:
                raise oserror(errno.ENOTEMPTY, b)
        elif y is not None and isinstance(x, Dir):
            raise oserror(errno.ENOTDIR, b)
        if self.event('rename', b):
            return self.rename(a, b)
        e = self.entry(pa, na)
        if y is not None:
            f = self.entry(pb, nb)
            pb.ents.remove(f)
        pa.ents.remove(e)
        self.add(pb, nb, x)

    def symlink(self, target, path):
        par, name, node = self.walk(path, False)
        if node is not None:
            raise oserror(errno.EEXIST, path)
        if self.event('symlink', path):
            return self.symlink(target, path)
        self.add(par, name, Link(target))

    def link(self, src, path):
        node0 = self.get(src, False)
        par, name, node = self.walk(path, False)
        if node is not None:
            raise oserror(errno.EEXIST, path)
        if isinstance(node0, Dir):
            raise oserror(errno.EPERM, src)
        if self.event('link', path):
            return self.link(src, path)
        self.add(par, name, node0)

    def readlink(self, path):
        node = self.get(path, False)
        if not isinstance(node, Link):
            raise oserror(errno.EINVAL, path)
        return node.target

    def listdir(self, path):
        node = self.get(path)
        if not isinstance(node, Dir):
            raise oserror(errno.ENOTDIR, path)
        names = [e[0] for e in node.ents]
        if core.CTX.state.get('listdir') == 'any' and len(names) > 1:
            from .containers import choose_order
            names = choose_order(names)
        return names

    def chmod(self, path, mode):
        node = self.get(path)
        if self.event('chmod', path):
            return self.chmod(path, mode)
        node.mode = mode & 0o7777

    def utime(self, path, times):
        node = self.get(path)
        if self.event('utime', path):
            return self.utime(path, times)

    def chown(self, path, follow=True):
        self.get(path, follow)
        if self.event('chown', path):
            return self.chown(path, follow)

    # -- files
    def open(self, path, mode, excl=False):
        creat = mode[0] in 'wa'
        par, name, node = self.walk(path, True, ioerror)
        if isinstance(node, Dir):
            raise ioerror(errno.EISDIR, path)
        if node is None:
            if not creat:
                raise ioerror(errno.ENOENT, path)
            if len(path) and br(strings.ceq(codes(path)[-1], 47)):
                raise ioerror(errno.EISDIR, path)
            if self.event('create', path, ioerror):
                return self.open(path, mode, excl)
            node = File()
            self.add(par, name, node)
        elif mode[0] == 'w' and not isinstance(node, Dev):
            if excl:
                raise oserror(errno.EEXIST, path)
            if self.event('truncate', path, ioerror):
                return self.open(path, mode, excl)
            node.content = ''
        return node

    # -- building / observing
    def tree(self, node=None, prefix=''):
        """[(path, kind, value, mode)] below node, in entry order."""
        out = []
        node = node or self.root
        for name, n in node.ents:
            p = prefix + '/' + name if prefix != '' else name
            if isinstance(n, Dir):
                out.append((p, 'dir', None, n.mode))
                out.extend(self.tree(n, p))
            elif isinstance(n, Link):
                out.append((p, 'link', n.target, None))
            elif isinstance(n, File):
                out.append((p, 'file', n.content, n.mode))
        return out


def _is(name, s):
    if isinstance(name, str):
        return name == s
    return br(eq_e(name, s))


class VFile(object):
    """A file object."""

    def __init__(self, fs, node, path, mode):
        self.fs = fs
        self.node = node
        self.name = path
        self.mode = mode
        self.pos = 0
        self.closed = False
        self.softspace = 0
        self.wbuf = None
        self.readable = 'r' in mode or '+' in mode
        self.writable = mode[0] in 'wa' or '+' in mode
        if mode[0] == 'a':
            self.pos = len(node.content)

    def _chk(self, w=False):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if w and not self.writable:
            raise rt.Py2IOError(errno.EBADF, 'File not open for writing')
        if not w and not self.readable:
            raise rt.Py2IOError(errno.EBADF, 'File not open for reading')

    def _data(self):
        d = self.node.content
        if 'U' in self.mode and not isinstance(d, Blob):
            return d.replace('\r\n', '\n').replace('\r', '\n')
        return d

    def read(self, n=-1):
        self._chk()
        self.flush()
        d = self._data()
        if n is None or n < 0:
            r = d[self.pos:] if self.pos else d
            self.pos = max(self.pos, len(d))
        else:
            n = int(n)
            r = d[self.pos:self.pos + n]
            self.pos = max(self.pos, min(len(d), self.pos + n))
        if isinstance(r, str) and not r:
            return ''
        return r

    def readline(self, n=-1):
        self._chk()
        self.flush()
        rest = self._data()[self.pos:]
        if not len(rest):
            return ''
        c = codes(rest)
        j = 0
        while j < len(c):
            j += 1
            if br(strings.ceq(c[j - 1], 10)):
                break
        r = rest[:j]
        self.pos += len(r)
        return r

    def readlines(self, *a):
        self._chk()
        self.flush()
        rest = self._data()[self.pos:]
        self.pos = max(self.pos, len(self._data()))
        return strings.lines_of(rest)

    def xreadlines(self):
        return self

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(l):
                return
            yield l

    def next(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l

    def seek(self, pos, whence=0):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        self.flush()
        if whence == 1:
            pos = self.pos + pos
        elif whence == 2:
            pos = len(self._data()) + pos
        if pos < 0:
            raise ioerror(errno.EINVAL)
        self.pos = int(pos)

    def tell(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.pos + (len(self.wbuf) if self.wbuf is not None else 0)

    def write(self, data):
        self._chk(True)
        if not isstr(data) and not isinstance(data, Blob):
            raise TypeError('expected a character buffer object')
        if isinstance(self.node, Dev):
            return
        self.wbuf = data if self.wbuf is None else self.wbuf + data

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        if self.wbuf is None:
            return
        data, self.wbuf = self.wbuf, None
        if isstr(data) and not len(data):
            return
        if self.fs.crashed:
            raise rt.Crash()
        if self.mode[0] == 'a':
            self.pos = len(self.node.content)

        done = [0]

        def partial():
            n = len(data)
            cuts = sorted(set([0, 1, n // 2, n - 1, n]))
            cuts = [c for c in cuts if 0 <= c <= n]
            k = cuts[rt.choose(len(cuts), 'partial')]
            self.fs.fired[3] = k
            if k:
                self._put(data[:k])
            done[0] = k
        self.fs.event('write', self.name, ioerror, partial)
        if done[0] < len(data):
            self._put(data[done[0]:])

    def _put(self, data):
        d = self.node.content
        if self.pos == 0 and len(data) >= len(d):
            self.node.content = data
        else:
            if self.pos > len(d):
                d = d + '\0' * (self.pos - len(d))
            self.node.content = d[:self.pos] + data + d[self.pos + len(data):]
        self.pos += len(data)

    def truncate(self, n=None):
        self.flush()
        self.fs.event('truncate', self.name, ioerror)
        self.node.content = self.node.content[:self.pos if n is None else int(n)]

    def fileno(self):
        fd = 3
        while fd in self.fs.fds:
            fd += 1
        self.fs.fds[fd] = self
        return fd

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            try:
                self.flush()
            finally:
                self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if a and a[0] is not None and issubclass(a[0], core.Control):
            self.wbuf = None
            self.closed = True
            return False
        self.close()
        return False


def fs():
    return core.CTX.state['fs']


def sx_open(path, mode='r', buffering=-1):
    mode = str(mode)
    if mode[:1] not in ('r', 'w', 'a', 'U'):
        raise ValueError("mode string must begin with one of 'r', 'w', 'a' or 'U', not '%s'"
                         % mode)
    if mode[0] == 'U':
        mode = 'r' + mode
    f = fs()
    node = f.open(path, mode.replace('U', ''))
    return VFile(f, node, path, mode)


# -- stat ----------------------------------------------------------------------------
class StatResult(object):
    def __init__(self, node):
        fmt = {'file': 0o100000, 'dir': 0o040000, 'link': 0o120000, 'dev': 0o020000}[node.kind]
        self.st_mode = fmt + node.mode
        self.st_size = len(node.content) if node.kind == 'file' else 4096
        self.st_ino = id(node)
        self.st_dev = 1
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        self.st_mtime = self.st_atime = self.st_ctime = 1000000000.0

    def __getitem__(self, i):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink, self.st_uid, self.st_gid,
                self.st_size, 1000000000, 1000000000, 1000000000)[i]
