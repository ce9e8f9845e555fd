import os
import hlib


class Answer(object):
    def __init__(self, status, data, size):
        self.status_code = status
        self.ok = status < 400
        self.reason = 'reason'
        self.data = data
        self.size = size
        self.raw = self
        self.headers = {'content-length': str(len(data))}

    def read(self, n=None, *args, **kw):
        # a server gives the content piece by piece
        n = min(n or self.size, self.size)
        out, self.data = self.data[:n], self.data[n:]
        return out

    @property
    def content(self):
        return self.data

    def iter_content(self, size=1, *args, **kw):
        while self.data:
            yield self.read(size)

    stream = iter_content

    def raise_for_status(self):
        import requests
        if self.status_code >= 400:
            raise requests.HTTPError('%s Error' % self.status_code)

    def close(self):
        pass


def read(path):
    f = open(path, 'rb')
    data = f.read()
    f.close()
    return data


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.environments import Environment
    from ipkg.exceptions import IpkgException
    from ipkg.repositories import LocalPackageRepository, PackageRepository
    from ipkg.packages import PackageFile
    import requests
    root = ctx.root
    part = ctx.choice('part', ['lookup', 'install', 'upgrade', 'bad', 'file'])
    ctx.reach(part)
    how = ctx.choice('how', ['file', 'http', 'query', 'named']) if part not in ('bad',) else 'http'
    base = root + ('/r?x#y' if how == 'named' else '/r')
    http = 'http://h:80/get?path=/x' if how == 'query' else 'http://h:80/x'
    ctx.mkdir(base)
    plan = {'bad': None, 'status': 200, 'error': None}
    requested = []
    size = ctx.choice('size', [7, 1000000]) if ctx.thorough else 1000000

    def get(url, *args, **kw):
        requested.append(url)
        ctx.check(url.startswith(http + '/'), 'requests go to the repository')
        if plan['bad'] is not None and plan['bad'] in url:
            if plan['error']:
                raise plan['error']
            return Answer(plan['status'], ctx.choice('body', ['', '{}', 'no such file']), size)
        path = base + url[len(http):]
        if not os.path.isfile(path):
            return Answer(404, 'not found', size)
        return Answer(200, read(path), size)
    ctx.patch('requests', 'get', get)

    address = ('file://' + base if how in ('file', 'named') else http) + ctx.choice('slash', ['', '/'])
    content = ctx.text('content', 3 if ctx.thorough else 2, 'a/\x00')
    platform = ctx.choice('platform', [hlib.PLATFORM, 'any']) if part in ('lookup', 'file') else 'any'

    def publish(name, version, revision, members, dependencies=None):
        files = [m[0] for m in members]
        m = hlib.meta(name, version, revision, files, dependencies, None, root + '/e', platform)
        return hlib.package(ctx, '%s/%s/%s-%s-%s-%s.ipkg' % (base, name, name, version, revision, platform), m, members)

    def env(prefix):
        e = hlib.make_env(ctx, root + prefix)
        return e

    def state(e):
        again = Environment(e.prefix)
        return (hlib.clean(ctx.snapshot(e.prefix), '.ipkg.meta'),
                sorted([(p.name, p.version, p.revision, sorted(p.files)) for p in again.packages]))

    def entries(found):
        return [(p.name, p.version, p.revision, p.platform, sorted(p.files)) for p in found]

    publish('b', '1.0', '1', [('lib/b', 'file', content)])
    if part == 'lookup':
        v = ctx.text('v', 1, '0123', 1)
        publish('b', '1.%s' % v if v != '0' else '0.9', '1', [('lib/b', 'file', 'x')])
        publish('b', '1.0', '2', [('lib/b', 'file', 'y')])
        publish('c', '1', '1', [])
    elif part in ('install', 'bad'):
        dep = ctx.choice('dep', ['b', 'b==1.0', 'b>=2'] if part == 'install' else ['b'])
        publish('a', '1.0', '1', [('bin/a', 'file', content), ('l', 'link', 'bin/a')], [dep])
        if dep == 'b>=2' and ctx.choice('has', [True, False]):
            publish('b', '2.0', '1', [('lib/b', 'file', 'two')])
    elif part == 'upgrade':
        publish('a', '1.0', '1', [('one', 'file', content), ('both', 'file', '1')])
    local = LocalPackageRepository(base)
    local.update_metadata()

    if part == 'lookup':
        remote = PackageRepository(address)
        ctx.check(sorted(entries(remote)) == sorted(entries(PackageRepository(base))), 'the same packages are there')
        for r in ('b', 'b>1.0', 'b<1.2', 'b==1.0', 'c', 'zz', 'any:b', hlib.PLATFORM + ':b'):
            want = entries(local.find(r))
            found = remote.find(r)
            ctx.check(entries(found) == want, 'a lookup gives the same packages')
            for p in found:
                ctx.check(p.path.startswith(address), 'the packages are those of the repository')
            if want:
                ctx.check(entries([remote[r]]) == want[:1], 'the same package is chosen')
        # what is found is the package there
        p = remote['b']
        ctx.check(entries([PackageFile(p.path)]) == entries([p]), 'the package file is there')
        p = PackageFile(p.path)
        target = root + '/t'
        ctx.mkdir(target)
        p.extract(target)
        ctx.check('lib/b' in ctx.snapshot(target), 'the package is extracted')
        n = len(requested)
        ctx.check((n == 3) == (how in ('http', 'query')), 'nothing is downloaded which is not needed')
    elif part == 'install':
        one, two = env('/e1'), env('/e2')
        results = []
        for e, repository in ((one, local), (two, PackageRepository(address))):
            try:
                e.install('a', repository)
                results.append(True)
            except IpkgException:
                results.append(False)
        ctx.check(results[0] == results[1], 'the package is installed as from a local repository')
        ctx.check(state(one) == state(two), 'the package is installed as from a local repository')
        ctx.out(results)
        if results[1]:
            ctx.check(ctx.snapshot(two.prefix)['bin/a'] == ('file', content), 'the files are those of the package')
            two.uninstall('a')
            two.uninstall('b')
            ctx.check(state(two)[1] == [], 'it is uninstalled')
    elif part == 'upgrade':
        e = env('/e')
        e.install('a', PackageRepository(address))
        ctx.check(ctx.snapshot(e.prefix)['one'] == ('file', content), 'the files are those of the package')
        rev = ctx.choice('rev', ['1', '2'])
        version = ctx.choice('version', ['1.0', '1.1', '0.9'])
        newer = (version, rev) != ('1.0', '1') and version != '0.9'
        if (version, rev) != ('1.0', '1'):
            publish('a', version, rev, [('two', 'file', '2'), ('both', 'file', '2')])
        local.update_metadata()
        # a new version is seen once the repository is opened again
        e.install('a', PackageRepository(address))
        snap = hlib.clean(ctx.snapshot(e.prefix), '.ipkg.meta')
        ctx.check(('two' in snap) == newer and ('one' in snap) == (not newer), 'the newest package is installed')
        ctx.check(snap['both'] == ('file', '2' if newer else '1'), 'the newest package is installed')
        ctx.check([(p.version, p.revision) for p in Environment(e.prefix).packages] ==
                  [(version, rev) if newer else ('1.0', '1')], 'the newest package is recorded')
    elif part == 'bad':
        # whatever the server answers
        plan['bad'] = ctx.choice('bad', ['repository.json', 'a-1.0-1', 'b-1.0-1'])
        plan['status'] = ctx.choice('status', [404, 403, 500, 503, 204])
        if ctx.choice('fails', [False, True]):
            plan['error'] = ctx.choice('error', [requests.ConnectionError('x'), requests.Timeout('x')])
        e = env('/e')
        before = state(e)
        try:
            e.install('a', PackageRepository(address))
            done = True
        except IpkgException:
            done = False
        ctx.check(not done, 'a file the server does not give is an error')
        packages = state(e)[1]
        ctx.check('a' not in [p[0] for p in packages], 'a package which is not there is not installed')
        if plan['bad'] != 'a-1.0-1':
            ctx.check(state(e) == before, 'nothing is installed')
        # and nothing is lost
        plan['bad'] = None
        e.install('a', PackageRepository(address))
        ctx.check(sorted([p[0] for p in state(e)[1]]) == ['a', 'b'], 'the package is installed later')
        ctx.check(ctx.snapshot(e.prefix)['bin/a'] == ('file', content), 'the package is installed later')
    else:
        # a package given by its own address
        path = '%s/b/b-1.0-1-%s.ipkg' % (address.rstrip('/'), platform)
        p = PackageFile(path)
        e = env('/e')
        e.install(p)
        ctx.check(ctx.snapshot(e.prefix)['lib/b'] == ('file', content), 'the package is installed')
        ctx.check(state(e)[1] == [('b', '1.0', '1', ['lib/b'])], 'the package is recorded')
    ctx.out(state(Environment(root + '/e2'))[1] if part == 'install' else part)
