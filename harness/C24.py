import os
import json
import tarfile
import hlib


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.build import Formula, File
    from ipkg.environments import Environment
    from ipkg.repositories import LocalPackageRepository
    part = ctx.choice('part', ['deps', 'graph', 'files', 'path', 'vars'])
    ctx.reach(part)
    prefix = ctx.root + '/e'
    env = hlib.make_env(ctx, prefix)
    ctx.mkfile(prefix + '/bin/mine', 'mine')
    ctx.mkfile(prefix + '/share/mine/x', 'x')
    ctx.mkfile(prefix + '/tmp/y', 'y')
    ctx.mkfile(prefix + '/.hidden', 'h')
    if part != 'vars' or ctx.choice('config', [False, True]):
        env.set_config('key', 'value')
    os.symlink('mine', os.path.abspath(prefix + '/share/link'))
    names = ['a', 'b', 'c']
    # dependencies between the packages of the repository
    edges = {'a': [], 'b': [], 'c': []}
    spelling = '%s'
    if part == 'graph':
        for x, y in (('a', 'b'), ('a', 'c'), ('b', 'c')):
            if ctx.bool(x + y):
                edges[x].append(y)
    elif part == 'deps':
        edges['a'] = ['b']
        spelling = ctx.choice('spelling', ['%s', '%s>=1', '%s==1.0', '%s<=1.0,!=0.5', '%s>=1,<2'])
    ctx.mkdir(ctx.root + '/r')
    for n in names:
        files = ['bin/' + n, 'lib/' + n + '/f', 'lib/' + n + '/l']
        m = hlib.meta(n, '1.0', '1', files, [spelling % d for d in edges[n]] or ctx.choice('none', [None, []])
                      if n == 'a' else [spelling % d for d in edges[n]])
        m['envvars'] = {'X_' + n: '%(prefix)s/' + n} if n != 'c' else None
        hlib.package(ctx, '%s/r/%s/%s-1.0-1-%s.ipkg' % (ctx.root, n, n, hlib.PLATFORM), m,
                     [(files[0], 'file', n), (files[1], 'file', 'f'), (files[2], 'link', 'f')])
    repository = LocalPackageRepository(ctx.root + '/r')
    repository.update_metadata()
    installed = []
    if part in ('deps', 'graph'):
        for n in reversed(names):
            if ctx.bool('has_' + n):
                installed.append(n)
                env.install(n, repository)
    # an unrelated package
    if part == 'deps' and ctx.bool('has_z'):
        m = hlib.meta('z', '1.0', '1', ['bin/z'])
        hlib.package(ctx, ctx.root + '/z.ipkg', m, [('bin/z', 'file', 'z')])
        env.install(ctx.root + '/z.ipkg')
    deps = []
    if part in ('deps', 'graph'):
        for n in names:
            if ctx.bool('needs_' + n):
                deps.append(spelling % n)
        if part == 'deps' and deps and ctx.bool('twice'):
            deps.append(deps[0])
    src = ctx.root + '/s-1.tar.gz'
    tar = tarfile.open(src, 'w:gz')
    hlib.add_member(tar, 's-1/README', 'file', 'readme')
    tar.close()
    added = [('bin/x', 'x')]
    if part == 'files':
        name = ctx.text('name', 3, 'ab. ', 1)
        ctx.assume(name != '.' and name != '..')
        d = ctx.choice('dir', ['', 'bin/', 'share/mine/', 'new/', 'share/link/', prefix[1:] + '/', 'mine/new/'])
        added.append((d + name, ctx.choice('data', ['', 'data'])))
        link = ctx.choice('link', [None, ('share/k', 'mine'), ('k', 'nowhere'), ('bin/k', 'mine'), ('bin/k', '/bin')])
    seen = {}

    def install(self):
        seen['root'] = self.src_root
        seen['build'] = os.path.dirname(self.src_root)
        seen['during'] = sorted([p.name for p in self.environment.packages])
        seen['readme'] = os.path.isfile(self.src_root + '/s-1/README')
        p = self.environment.prefix
        for rel, data in added:
            if not os.path.isdir(os.path.dirname(p + '/' + rel)):
                os.makedirs(os.path.dirname(p + '/' + rel))
            f = open(p + '/' + rel, 'wb')
            f.write(data)
            f.close()
        if part == 'files' and link:
            os.symlink(link[1], os.path.abspath(p + '/' + link[0]))
    attrs = {'name': 'foo', 'version': '1.0', 'sources': File(src), 'dependencies': tuple(deps), 'install': install}
    cls = type('foo', (Formula,), attrs)
    if part == 'vars':
        attrs['build_envvars'] = ctx.choice('build_envvars', [None, {'CFLAGS': '-I%(include)s'}, {'PATH': '/x'}])
        attrs['envvars'] = ctx.choice('envvars', [None, {'X': '%(prefix)s'}, {}])
        cls = type('foo', (Formula,), attrs)
    remove = True
    if part == 'path':
        remove = ctx.choice('remove', [True, False])
        own = ctx.choice('own', [False, True])
        if ctx.choice('decoy', [False, True]):
            # a file of the name of the dependency in the current directory
            os.chdir(ctx.root)
            ctx.mkfile(ctx.root + '/a', 'decoy')
        attrs['dependencies'] = ('a',)
        cls = type('foo', (Formula,), attrs)
        formula = cls(None if own else env)
    else:
        own = False
        formula = cls(env)
    before = hlib.clean(ctx.snapshot(prefix), '.ipkg.meta')
    modes = ctx.modes(prefix)
    packages = dict([(p.name, p.meta) for p in env.packages])
    saved = dict(Environment(prefix).meta)
    ctx.mkdir(ctx.root + '/out')
    path = formula.build(ctx.root + '/out', remove, repository)
    after = ctx.snapshot(prefix)
    ctx.out(sorted(packages))
    ctx.check(hlib.clean(after, '.ipkg.meta') == before, 'the files are the same as before')
    now = ctx.modes(prefix)
    for p in before:
        ctx.check(now.get(p) == modes.get(p), 'the files are the same as before')
    ctx.check(dict([(p.name, p.meta) for p in env.packages]) == packages, 'the installed packages are the same')
    again = Environment(prefix)
    ctx.check(dict([(p.name, p.meta) for p in again.packages]) == packages, 'the installed packages are the same')
    ctx.check(dict(again.meta) == saved, 'the environment remembers what it did')
    ctx.check(os.path.isfile(path) and path[:len(ctx.root) + 5] == ctx.root + '/out/', 'the package is made')
    ctx.check(seen['readme'], 'the sources are there during the build')
    if own:
        ctx.check(seen['during'] == ['a'], 'dependencies are installed during the build')
    else:
        need = set([d[:1] for d in deps] or (['a'] if part == 'path' else []))
        for _ in names:
            for n in list(need):
                if n not in packages:
                    need = need | set(edges[n])
        ctx.check(seen['during'] == sorted(need | set(packages)), 'dependencies are installed during the build')
    ctx.check(os.path.exists(seen['build']) == (not remove), 'the temporary directory is removed unless asked')
    if not remove:
        ctx.check(os.path.isfile(seen['root'] + '/s-1/README'), 'the sources are kept when asked')
