import os
import json
import hlib


class Response(object):
    status_code = 200
    ok = True
    reason = 'OK'
    headers = {}

    def __init__(self, data):
        self.raw = self
        self.left = [data]

    def read(self, n=None, *args, **kw):
        return self.left.pop() if self.left else ''

    def iter_content(self, *args, **kw):
        return iter(self.left)

    @property
    def content(self):
        return self.left[0]

    def raise_for_status(self):
        pass

    def close(self):
        pass


def load(path):
    """The saved content, read without the code under test; None when unreadable."""
    if not os.path.exists(path):
        return {}
    f = open(path)
    raw = f.read()
    f.close()
    try:
        return json.loads(raw)
    except ValueError:
        return None


def harness(ctx):
    hlib.world(ctx)
    part = ctx.choice('part', ['dict', 'env', 'index', 'cache'])
    ctx.reach(part)
    env = {'PATH': '/bin', 'HOME': '/h'}
    if part == 'cache':
        env['IPKG_CACHE_DIR'] = ctx.root + '/cache'
        ctx.mkdir(ctx.root + '/cache')
    ctx.environ(env)
    if part == 'dict':
        dicts(ctx)
    elif part == 'env':
        environments(ctx)
    elif part == 'index':
        indexes(ctx)
    else:
        caches(ctx)


def run(ctx, first, second):
    """Run second in another process, at any moment of first."""
    got = []

    def other():
        got.append(ctx.process(second))
    result, value = ctx.fault('when', first, 'meanwhile', 60, other=other)
    ctx.check(result == 'ok', 'both processes succeed')
    if not ctx.fired:
        # one after the other
        other()
    return value, got[0]


def dicts(ctx):
    from ipkg.utils import DictFile
    path = ctx.root + '/d.json'
    old = ctx.choice('old', [None, {'k': 'x' * 30}, {}])
    if old is not None:
        ctx.mkfile(path, json.dumps(old))
    before = old or {}
    mine = {'a': ctx.text('mine', 2, 'ab"')}
    theirs = {'b': ctx.text('theirs', 2, 'ab"')}
    long = ctx.choice('long', [None, 'mine', 'theirs'])
    if long == 'mine':
        mine['l'] = 'y' * 20
    elif long == 'theirs':
        theirs['l'] = 'z' * 20
    what = ctx.choice('what', ['read', 'save', 'twice'])

    def first():
        d = DictFile(path)
        for n in list(d):
            del d[n]
        d.update(mine)
        d.save()

    def second():
        from ipkg.utils import DictFile
        d = DictFile(path)
        seen = dict(d)
        if what != 'read':
            for n in list(d):
                del d[n]
            d.update(theirs)
            d.save()
            if what == 'twice':
                d.save()
        return seen
    value, seen = run(ctx, first, second)
    ctx.check(seen == before or seen == mine, 'who reads gets a complete version')
    after = load(path)
    ctx.out(after == mine, after == theirs)
    ctx.check(after == mine or what != 'read' and after == theirs, 'the file left is a complete version')
    ctx.check(dict(DictFile(path)) == after, 'the file left can be read')


def environments(ctx):
    from ipkg.environments import Environment
    prefix = ctx.root + '/env'
    env = hlib.make_env(ctx, prefix)
    packages = {}
    for n, v in (('one', '1'), ('one', '2'), ('two', '1'), ('old', '1')):
        f = 'share/%s/%s' % (n, v)
        path = ctx.root + '/%s-%s.ipkg' % (n, v)
        hlib.package(ctx, path, hlib.meta(n, v, files=[f]), [(f, 'file', n + v)])
        packages[n + v] = path
    a = ctx.choice('a', ['install', 'upgrade', 'uninstall', 'config'])
    b = ctx.choice('b', ['read', 'install', 'uninstall', 'config'])
    env.install(packages['old1'])
    names = {'old': '1'}
    if a in ('upgrade', 'uninstall'):
        env.install(packages['one1'])
        names['one'] = '1'
    states = [(names, {})]           # what the first process leaves, step by step
    last = dict(names)
    config = {}
    if a == 'install':
        last['one'] = '1'
    elif a == 'config':
        config['a'] = '1'
    else:
        del last['one']
        if a == 'upgrade':
            states.append((dict(last), {}))
            last['one'] = '2'
    states.append((last, config))

    def first():
        env = Environment(prefix)
        if a == 'install':
            env.install(packages['one1'])
        elif a == 'upgrade':
            env.install(packages['one2'])
        elif a == 'uninstall':
            env.uninstall('one')
        else:
            env.set_config('a', '1')

    def state(packages, config):
        return dict([(p['name'], p['version']) for p in packages]), config

    def second():
        from ipkg.environments import Environment
        env = Environment(prefix)
        seen = state([p.meta for p in env.packages], dict(env.meta['config']))
        if b == 'install':
            env.install(packages['two1'])
        elif b == 'uninstall':
            env.uninstall('old')
        elif b == 'config':
            env.set_config('b', '2')
        return seen
    value, seen = run(ctx, first, second)
    ctx.check(seen in states, 'who reads gets a complete version')
    after = load(prefix + '/.ipkg.meta')
    ctx.check(after is not None, 'the file left is a complete version')
    now = state(after['packages'].values(), after['config'])
    theirs = dict(seen[0])
    settings = dict(seen[1])
    if b == 'install':
        theirs['two'] = '1'
    elif b == 'uninstall':
        del theirs['old']
    elif b == 'config':
        settings['b'] = '2'
    # when the second one worked before the first one read
    both = dict(last)
    every = dict(config)
    if b == 'install':
        both['two'] = '1'
    elif b == 'uninstall':
        del both['old']
    elif b == 'config':
        every['b'] = '2'
    ctx.out(sorted(now[0]), sorted(now[1]))
    ctx.check(now == states[-1] or now == (theirs, settings) or now == (both, every),
              'the file left is a complete version')


def indexes(ctx):
    from ipkg.repositories import LocalPackageRepository
    base = ctx.root + '/repo'
    for n in ('a', 'b'):
        hlib.package(ctx, '%s/%s/%s-1.0-1-%s.ipkg' % (base, n, n, hlib.PLATFORM), hlib.meta(n))
    before = {}
    if ctx.choice('old', [False, True]):
        LocalPackageRepository(base).update_metadata()
        before = {'a': ['1.0'], 'b': ['1.0']}
    hlib.package(ctx, '%s/a/a-2.0-1-%s.ipkg' % (base, hlib.PLATFORM), hlib.meta('a', '2.0'))
    want = {'a': ['1.0', '2.0'], 'b': ['1.0']}
    what = ctx.choice('what', ['read', 'find', 'update', 'add'])

    def versions(meta):
        return dict([(n, sorted([m['version'] for m in meta[n]])) for n in meta])

    def second():
        from ipkg.repositories import LocalPackageRepository
        from ipkg.exceptions import IpkgException
        repo = LocalPackageRepository(base)
        if what == 'find':
            try:
                return repo['a'].version
            except IpkgException:
                return None
        if what == 'update':
            repo.update_metadata()
        return versions(repo.meta)
    value, seen = run(ctx, lambda: LocalPackageRepository(base).update_metadata(), second)
    ctx.out(seen == want)
    if what == 'find':
        ctx.check(seen == '2.0' or seen == ('1.0' if before else None), 'who reads gets a complete version')
    elif what == 'update':
        ctx.check(seen == want, 'who reads gets a complete version')
    else:
        ctx.check(seen == before or seen == want, 'who reads gets a complete version')
    after = load(base + '/repository.json')
    ctx.check(after is not None and versions(after) == want, 'the file left is a complete version')


def caches(ctx):
    from ipkg.files import vopen
    url = 'http://h/f'
    a = ctx.text('mine', 2, 'a\n\0')
    b = ctx.text('theirs', 3, 'b\n\0')
    answers = [a, b]
    ctx.patch('requests', 'get', lambda *args, **kw: Response(answers.pop(0)))

    def second():
        from ipkg.files import vopen
        return vopen(url).read()
    mine, theirs = run(ctx, lambda: vopen(url).read(), second)
    ctx.out(mine, theirs)
    ctx.check(mine == a, 'who reads gets a complete version')
    ctx.check(theirs == b or theirs == a, 'who reads gets a complete version')
    answers[:] = []

    def third():
        from ipkg.files import vopen
        return vopen(url).read()
    later = ctx.process(third, 4244)
    ctx.check(later == a or later == theirs, 'the file left is a complete version')
