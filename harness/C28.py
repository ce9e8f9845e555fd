import os
import hlib


RIGHT = 'right\r\n\r\x00\x1a\xff\n\n'
KINDS = ['.patch', '.diff', '.txt', '.py', '.json', '.ipkg', '.tar.gz', '.tgz', '.tar.bz2', '.zip', '.gz', '.log', '.cfg', '.sh']


class Response(object):
    status_code = 200
    ok = True
    headers = {}

    def __init__(self):
        self.raw = self
        self.left = ['remote']

    def read(self, n=None, *args, **kw):
        return self.left.pop() if self.left else ''

    def iter_content(self, *args, **kw):
        return iter(self.left)

    @property
    def content(self):
        return 'remote'

    def raise_for_status(self):
        pass

    def close(self):
        pass


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.files import vopen
    from ipkg.files.exceptions import UnknownScheme, FilesException
    from ipkg.files.backends import BackendException
    d = ctx.root + '/d'
    ctx.mkfile(d + '/a', 'decoy')
    ctx.mkfile(ctx.root + '/a', 'decoy above')
    ctx.mkfile(d + '/dir/x', 'x')
    requested = []

    def get(url, *args, **kw):
        requested.append(url)
        return Response()
    ctx.patch('requests', 'get', get)
    part = ctx.choice('part', ['name', 'relative', 'scheme', 'ops', 'notfile', 'http', 'kind'])
    ctx.reach(part)
    if part == 'name':
        name = ctx.text('name', 4 if ctx.thorough else 3, 'aA:#?;%2 .&@$~', 1)
        ctx.assume(name != '.' and name != '..' and name != 'a')
        beg = ctx.choice('beg', ['', 'file:', 'file://', 'FILE:', 'file://localhost', '/', '//'])
        ctx.mkfile(d + '/' + name, RIGHT)
        f = vopen(beg + d + '/' + name)
        got = f.read()
        ctx.out(got)
        ctx.check(got == RIGHT, 'a path or file address opens exactly that file')
        sub = d + '/s' + name
        ctx.mkfile(sub + '/f', 'below')
        ctx.check(vopen(beg + sub + '/f').read() == 'below', 'a path or file address opens exactly that file')
    elif part == 'relative':
        os.chdir(d)
        # a colon before the first slash ends a scheme
        name = ctx.text('name', 3, 'aA#?;%2 .$~', 1)
        ctx.assume(name != '.' and name != '..' and name != 'a')
        beg = ctx.choice('beg', ['', './', 'file:', 'dir/', 'dir/../', 'dir/a:', '~/', '$HOME/'])
        if beg == 'dir/a:':
            ctx.mkfile(d + '/dir/a:' + name, 'right')
        elif beg in ('dir/', '~/', '$HOME/'):
            ctx.mkfile(d + '/' + beg + name, 'right')
        else:
            ctx.mkfile(d + '/' + name, 'right')
        got = vopen(beg + name).read()
        ctx.out(got)
        ctx.check(got == 'right', 'a path or file address opens exactly that file')
    elif part == 'scheme':
        scheme = ctx.text('scheme', 4 if ctx.thorough else 3, 'fileFILEhtps+', 2)
        if ctx.choice('near', [False, True]):
            scheme = ctx.choice('beg', ['fi', 'http', 'file', 'https', 'x']) + scheme
        ctx.assume(scheme[0] != '+')
        ctx.assume(scheme.lower() not in ('file', 'http', 'https'))
        url = scheme + ctx.choice('sep', ['://', ':/', ':']) + ctx.choice('rest', ['h/x', d + '/a', 'x'])
        try:
            vopen(url)
        except UnknownScheme:
            ctx.out('refused')
        else:
            ctx.check(False, 'an unknown scheme is refused')
        ctx.check(not requested, 'an unknown scheme is refused')
    elif part == 'kind':
        # whatever its name says it holds
        name = ctx.text('name', 1, 'a1.-', 0) + ctx.choice('ext', KINDS)
        data = ctx.text('data', 3, 'a\n\r\x00\x1a')
        ctx.mkfile(d + '/' + name, data)
        f = vopen(ctx.choice('beg', ['', 'file://']) + d + '/' + name)
        got = f.read()
        ctx.out(got)
        ctx.check(got == data, 'a path or file address opens exactly that file')
    elif part == 'http':
        scheme = ctx.choice('scheme', ['http', 'https', 'HTTP', 'Https'])
        url = scheme + '://h/' + ctx.text('path', 3, 'a/?#;:')
        if ctx.choice('decoy', [False, True]):
            os.chdir(ctx.root)
            ctx.mkfile(ctx.root + '/h/a', 'decoy')
        f = vopen(url)
        ctx.check(f.read() == 'remote', 'a remote address is read from its server')
        ctx.check(requested == [url], 'a remote address is read from its server')
    elif part == 'ops':
        n = 4
        data = ctx.text('data', n, 'ab\n\r')
        path = d + '/f'
        ctx.mkfile(path, data)
        f = vopen(ctx.choice('beg', ['', 'file://']) + path)
        at = 0
        for i in range(3):
            op = ctx.choice('op%d' % i, ['read', 'readn', 'seek', 'tell', 'rel', 'end'])
            if op == 'read':
                ctx.check(f.read() == data[at:], 'reading gives the content from the position')
                at = max(at, len(data))
            elif op == 'readn':
                k = ctx.int('n%d' % i, 0, 3)
                got = f.read(k)
                ctx.check(got == data[at:at + k], 'reading gives the content from the position')
                at += len(got)
            elif op == 'seek':
                at = ctx.int('s%d' % i, 0, n)
                f.seek(at)
            elif op == 'rel':
                f.seek(1, 1)
                at += 1
            elif op == 'end':
                f.seek(0, 2)
                at = len(data)
            ctx.check(f.tell() == at, 'the position is where seeking and reading lead')
        ctx.check(f.name.endswith('/f') and str(f) == f.name, 'the name is the address')
    else:
        what = ctx.choice('what', ['dir', 'missing', 'dangling', 'below', 'todir', 'tofile'])
        beg = ctx.choice('beg', ['', 'file://', 'file:'])
        path = {'dir': d, 'missing': d + '/zz', 'dangling': d + '/l', 'below': d + '/a/x', 'todir': d + '/ld',
                'tofile': d + '/lf'}[what]
        os.symlink('nowhere', os.path.abspath(d + '/l'))
        os.symlink('dir', os.path.abspath(d + '/ld'))
        os.symlink('a', os.path.abspath(d + '/lf'))
        if ctx.choice('slash', [False, True]):
            path += '/'
        try:
            f = vopen(beg + path)
        except BackendException:
            ctx.out('refused')
            ctx.check(what != 'tofile' or path.endswith('/'), 'a file opens')
        else:
            ctx.check(what == 'tofile' and f.read() == 'decoy', 'a path that is not a file is refused')
