import os
import errno
import hlib


class Response(object):
    def __init__(self, status, reason, data, length=None):
        self.status_code = status
        self.reason = reason
        self.data = data
        self.raw = self
        self.headers = {} if length is None else {'content-length': str(length)}

    def read(self, n=None):
        data, self.data = self.data, ''
        if isinstance(data, Exception):
            raise data
        return data


def reading(ctx, s, kind):
    """The subject of the error is a text which cannot be read."""
    from ipkg.requirements import Requirement
    from ipkg.platforms import Platform
    from ipkg.utils import parse_package_spec
    if kind == 'requirement':
        t = ctx.choice('beg', ['', 'foo>', 'foo==1,', 'any:foo[']) + s
        say = [t] + t.split(',') + t.split(':', 1) + [t.split(':')[0].strip().lower(), t[3:].strip()]
        return lambda: Requirement(t), say
    if kind == 'platform':
        t = ctx.choice('beg', ['', 'a-b-c-', ' A']) + s
        how = ctx.choice('how', ['parse', 'requirement'])
        if how == 'requirement':
            return lambda: Requirement(t + ':foo'), [t.strip().lower()]
        return lambda: Platform.parse(t), [t.strip().lower()]
    if kind == 'spec':
        t = ctx.choice('beg', ['', 'foo=', 'foo==1:']) + s
        return lambda: parse_package_spec(t), [t]
    if kind == 'compare':
        from ipkg.packages import MetaPackage
        t = ctx.choice('beg', ['', 'foo=']) + s
        p = MetaPackage(hlib.meta('foo'))
        return (lambda: p == t) if ctx.choice('how', [False, True]) else (lambda: p < t), [t]
    if kind == 'merge':
        a = 'foo' + ctx.choice('a', ['', '==1', '>2'])
        b = ctx.choice('b', ['bar', 'a-b-c:foo', 'foo==2', 'foo<1']) + ('' if ctx.choice('c', [False, True]) else s)
        return lambda: Requirement(a) + b, []
    if kind == 'exclusive':
        # selectors which contradict each other
        a = ctx.choice('a', ['==1.57', '>2.57', '>=3.57'])
        b = ctx.choice('b', ['==1.75', '<1.75', '<=1.75', '!=1.57'])
        ctx.assume(a[0] == '>' and b[0] == '<' or a[0] == '=' and b[0] != '<')
        if ctx.choice('how', [False, True]):
            return lambda: Requirement('foo' + a) + ('foo' + b), ['57', '75']
        return lambda: Requirement('foo' + a + ',' + b), ['57', '75']
    if kind == 'current':
        ctx.platform(s, 'a', 'b', 'c')
        return lambda: Platform.current(), [s]


def asking(ctx, s, kind):
    """The subject of the error is something which is not there."""
    from ipkg.environments import Environment
    from ipkg.repositories import PackageRepository
    from ipkg.packages import MetaPackage, PackageFile
    from ipkg.build import Formula
    prefix = ctx.root + '/e'
    if kind == 'uninstall':
        return lambda: Environment(prefix).uninstall(s), [s]
    if kind == 'install':
        return lambda: Environment(prefix).install(s), [s]
    if kind == 'lookup':
        name = s.replace('%', 'x').replace(' ', 'y').replace(':', 'z').replace('\xe9', 'e')
        t = name + ctx.choice('sel', ['', '>1', '==2.0'])
        repository = PackageRepository(ctx.root + '/r')
        if ctx.choice('how', [False, True]):
            env = hlib.make_env(ctx, prefix)
            return lambda: env.install(t, repository), [name]
        return lambda: repository[t], [name]
    if kind == 'dependency':
        name = s.replace('%', 'x').replace(' ', 'y').replace(':', 'z').replace('\xe9', 'e')
        env = hlib.make_env(ctx, prefix)
        hlib.package(ctx, ctx.root + '/p.ipkg', hlib.meta('p', dependencies=[name]))
        repository = PackageRepository(ctx.root + '/r') if ctx.choice('how', [False, True]) else None
        return lambda: env.install(ctx.root + '/p.ipkg', repository), [name]
    if kind == 'meta':
        attr = ctx.choice('attr', ['x', 'x%s', '%(name)s', 'x y', 'version'])
        return lambda: getattr(MetaPackage({'name': 'foo'}), attr), [attr]
    if kind == 'formula':
        path = ctx.root + '/' + s
        if ctx.choice('how', [False, True]):
            ctx.mkfile(path, 'import nothing_like_this')
        return lambda: Formula.from_file(path), [path]
    if kind == 'attribute':
        attr = ctx.choice('attr', ['name', 'version', 'revision', 'sources'])
        d = {'name': 'a', 'version': '1', 'revision': 1, 'sources': 's'}
        d[attr] = None
        return lambda: type('F', (Formula,), d)(), [attr]
    if kind == 'package':
        path = ctx.root + '/' + s
        what = ctx.choice('what', ['junk', 'empty', 'nometa', 'list'])
        if what in ('junk', 'empty'):
            ctx.mkfile(path, 'junk' if what == 'junk' else '')
        elif what == 'list':
            hlib.package(ctx, path, [1])
        else:
            import tarfile
            tar = tarfile.open(path, 'w')
            hlib.add_member(tar, 'bin/x', 'file', 'x')
            tar.close()
        if ctx.choice('how', [False, True]):
            env = hlib.make_env(ctx, prefix)
            return lambda: env.install(path), [path]
        return lambda: PackageFile(path).meta, [path]
    if kind == 'variable':
        from ipkg.environments import Variable, PathListVariable
        cls = ctx.choice('class', [Variable, PathListVariable])
        value = ctx.choice('value', [5, ('a',), ['a', 'b'], {'a': 'b'}, True])
        return lambda: cls('X' + s, value), ['X' + s]
    if kind == 'noenv':
        from ipkg.environments import current
        return current, []
    if kind == 'loop':
        from ipkg.dependencies import Solver
        env = hlib.make_env(ctx, prefix)
        base = ctx.root + '/r'
        index = {}
        for a, b in (('p', 'q'), ('q', 'p')):
            m = hlib.meta(a, dependencies=[b])
            hlib.package(ctx, '%s/%s/%s-1.0-1-%s.ipkg' % (base, a, a, hlib.PLATFORM), m)
            index[a] = [m]
        repository = PackageRepository(base)
        repository.meta.update(index)
        if ctx.choice('how', [False, True]):
            return lambda: env.install('p', repository), ['p', 'q']

        def solve():
            target = repository['p']
            return Solver.from_obj(target, None, [repository]).solve(target)
        return solve, ['p', 'q']


def opening(ctx, s, kind):
    """The subject of the error is a file or an address."""
    import hashlib
    import requests
    from ipkg.files import vopen
    from ipkg.utils import DictFile, mkdir, unarchive, execute
    from ipkg.build import File
    path = ctx.root + '/' + s
    if kind == 'nofile':
        if ctx.choice('how', [False, True]):
            ctx.mkdir(path)
        return lambda: vopen(ctx.choice('beg', ['', 'file://']) + path), [path]
    if kind == 'scheme':
        scheme = ctx.choice('scheme', ['ftp', 'x', 'git+ssh'])
        return lambda: vopen(scheme + '://' + s), [scheme]
    if kind == 'checksum':
        ctx.mkfile(path, 'data')
        kw = {ctx.choice('algorithm', ['md5', 'sha256']): ctx.choice('sum', ['', '0' * 64])}
        return lambda: File(path, **kw).open(), [path]
    if kind == 'http':
        url = 'http://h/' + s
        name = ctx.choice('error', ['status', 'short', 'ConnectionError', 'Timeout', 'InvalidURL', 'socket',
                                    'HTTPException', 'nothing'])

        def get(url, **kw):
            if name == 'status':
                return Response(ctx.choice('status', [404, 500, 204]), ctx.choice('reason', ['', 'R']), 'no')
            if name == 'short':
                return Response(200, 'OK', 'no', 5)
            if name == 'socket':
                import socket
                return Response(200, 'OK', socket.error(errno.ECONNRESET, 'reset'))
            if name == 'HTTPException':
                import httplib
                return Response(200, 'OK', httplib.IncompleteRead('x'))
            if name == 'nothing':
                raise requests.exceptions.ConnectionError()
            raise getattr(requests.exceptions, name)('no')
        ctx.patch('requests', 'get', get)
        return lambda: vopen(url).read(), [url]
    if kind == 'dictfile':
        ctx.mkfile(path, ctx.choice('text', ['{', '[]', '1', 'x']))
        return lambda: DictFile(path), [path]
    if kind == 'mkdir':
        how = ctx.choice('how', ['file', 'dir', 'parent'])
        if how == 'file':
            ctx.mkfile(path, '')
        elif how == 'dir':
            ctx.mkdir(path)
        else:
            path = path + '/x'
        return lambda: mkdir(path), [path]
    if kind == 'archive':
        name = path + ctx.choice('ext', ['.tar.gz', '.zip', '.rar'])
        ctx.mkfile(name, 'junk')
        ctx.mkdir(ctx.root + '/t')
        return lambda: unarchive(vopen(name), ctx.root + '/t'), [name]
    if kind == 'command':
        how = ctx.choice('how', ['fail', 'missing', 'quote', 'none'])

        class Popen(hlib.FakePopen):
            def start(self, args, kw):
                if how == 'missing':
                    raise OSError(errno.ENOENT, 'No such file or directory')

            def finish(self, data):
                return None, None, 3
        ctx.patch('subprocess', 'Popen', Popen)
        if how == 'quote':
            return lambda: execute('"x' + s), ['x' + s]
        if how == 'none':
            return lambda: execute([]), []
        return lambda: execute(['x' + s, s]), ['x' + s + ' ' + s]


READING = ['requirement', 'platform', 'spec', 'compare', 'merge', 'exclusive', 'current']
ASKING = ['uninstall', 'install', 'lookup', 'dependency', 'meta', 'formula', 'attribute', 'package', 'variable',
          'noenv', 'loop']
OPENING = ['nofile', 'scheme', 'checksum', 'http', 'dictfile', 'mkdir', 'archive', 'command']


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.exceptions import IpkgException
    kind = ctx.choice('kind', READING + ASKING + OPENING)
    alphabet = 'a %(s'
    if kind in READING or kind in ('uninstall', 'lookup', 'dependency', 'variable'):
        alphabet += '\xe9'
    if kind in ('uninstall', 'lookup', 'dependency', 'nofile', 'scheme'):
        alphabet += ':'
    s = ctx.text('subject', 3 if ctx.thorough else 2, alphabet, 1)
    if kind in ASKING + OPENING:
        ctx.assume(s[0] != ' ' and s[-1] != ' ')
    if kind in READING:
        ctx.assume(s.strip() != '')
        do, say = reading(ctx, s, kind)
    elif kind in ASKING:
        do, say = asking(ctx, s, kind)
    else:
        do, say = opening(ctx, s, kind)
    try:
        do()
    except IpkgException as exc:
        ctx.reach(kind)
        text = str(exc)
        ctx.out(len(text) > 0)
        ctx.check(len(text) > 0, 'an error says what is wrong')
        ctx.check('%s' % exc == text, 'an error can be shown')
        ctx.check('%s' not in text or '%' in s or kind == 'meta', 'an error can be shown')
        if say:
            ok = False
            for part in say:
                if part and part in text:
                    ok = True
            ctx.check(ok, 'an error names what it is about')
    else:
        ctx.reject()
