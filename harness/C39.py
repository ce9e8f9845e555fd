import os
import tarfile
import hashlib
import hlib


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    calls = []

    class Popen(hlib.FakePopen):
        def start(self, args, kw):
            self.call = {'args': list(args), 'cwd': kw['cwd'] or os.getcwd(), 'env': dict(kw['env']), 'data': None}
            calls.append(self.call)

        def finish(self, data):
            self.call['data'] = data
            return None, None, 0
    ctx.patch('subprocess', 'Popen', Popen)
    from ipkg.build import Formula, File
    from ipkg.environments import Environment
    from ipkg.exceptions import IpkgException
    from ipkg.repositories import LocalPackageRepository
    part = ctx.choice('part', ['files', 'deps', 'vars'])
    ctx.reach(part)
    ctx.mkdir(ctx.root + '/here')
    os.chdir(ctx.root + '/here')
    ctx.mkfile(ctx.root + '/here/configure', 'decoy')
    prefix = ctx.root + '/e'
    env = hlib.make_env(ctx, prefix) if ctx.choice('env', [False, True]) else None
    # The repository
    base = ctx.root + '/r'
    ctx.mkdir(base)
    names = ['a', 'b']
    lost = ctx.choice('lost', [None, 'a', 'b']) if part == 'deps' else None
    for n in names:
        m = hlib.meta(n, '1.0', '1', ['bin/' + n], ['b'] if n == 'a' else [])
        m['envvars'] = {'X_' + n: '%(prefix)s/' + n, 'BOTH': n}
        if n != lost:
            hlib.package(ctx, '%s/%s/%s-1.0-1-%s.ipkg' % (base, n, n, hlib.PLATFORM), m, [('bin/' + n, 'file', n)])
    repository = LocalPackageRepository(base)
    repository.update_metadata()
    if env is not None and part == 'deps' and lost != 'b' and ctx.choice('installed', [False, True]):
        env.install('b', repository)
    deps = []
    if part != 'files':
        deps = ctx.choice('deps', [[], ['a'], ['b'], ['b', 'a'], ['b>2']] if part == 'deps' else [[], ['b']])
    # The sources
    data = ctx.text('source', 2, 's\n') if part == 'files' else 's'
    top = ctx.choice('top', ['s-1', 'other']) if part == 'files' else 's-1'
    src = ctx.root + '/s-1.tar.gz'
    tar = tarfile.open(src, 'w:gz')
    hlib.add_member(tar, top + '/configure', 'file', data)
    hlib.add_member(tar, top + '/d/x', 'file', 'x')
    tar.close()
    wrong = False
    sums = {}
    kind = ctx.choice('sum', ['none', 'good', 'bad']) if part == 'files' else 'none'
    if kind == 'good':
        f = open(src, 'rb')
        sums['sha256'] = hashlib.sha256(f.read()).hexdigest()
        f.close()
    elif kind == 'bad':
        sums['sha256'] = '0' * 64
        wrong = True
    attrs = {'name': 'foo', 'version': '1.0', 'sources': File(src, **sums), 'dependencies': tuple(deps)}
    patches = []
    expected = []
    if part == 'files':
        paths = ctx.choice('names', [['p0', 'p1', 'p2'], ['p', 'a', 'Z']])
        for i in range(ctx.int('patches', 0, 3)):
            text = ctx.text('patch%d' % i, 2 if i == 0 else 1, '-+\n')
            path = ctx.root + '/' + paths[i]
            ctx.mkfile(path, text)
            sums = {}
            bad = i < 2 and ctx.choice('sum%d' % i, [False, True])
            if bad:
                sums['md5'] = '0' * 32
            patches.append(File(path, **sums))
            wrong = wrong or bad
            if not wrong:
                expected.append(text)
        attrs['patches'] = tuple(patches) if ctx.choice('form', [False, True]) else patches
    want = {}
    if part == 'vars':
        given = ctx.choice('given', [None, 'one', 'two', 'path', 'percent'])
        if given == 'one':
            attrs['build_envvars'] = {'CFLAGS': '-I%(include)s'}
            want['CFLAGS'] = lambda d: '-I' + d['include']
        elif given == 'two':
            attrs['build_envvars'] = {'A': '%(lib)s', 'BOTH': 'c'}
            want['A'] = lambda d: d['lib']
            if not deps:
                want['BOTH'] = lambda d: 'c'
        elif given == 'path':
            attrs['build_envvars'] = {'PATH': '/x'}
            want['PATH'] = lambda d: '/x'
        elif given == 'percent':
            text = ctx.text('value', 2, '%v ')
            ctx.assume('%' not in text)
            attrs['build_envvars'] = {'CFLAGS': text + '%(tmp)s'}
            want['CFLAGS'] = lambda d: text + d['tmp']
    if 'b' in deps or 'a' in deps:
        want['X_b'] = lambda d: d['prefix'] + '/b'
    if 'a' in deps:
        want['X_a'] = lambda d: d['prefix'] + '/a'
    seen = {}

    def install(self):
        seen['ran'] = True
        seen['packages'] = sorted([p.name for p in self.environment.packages])
        seen['present'] = sorted([n for n in names if os.path.isfile(self.environment.prefix + '/bin/' + n)])
        seen['top'] = os.listdir(self.src_root)
        seen['root'] = self.src_root
        f = open(self.src_root + '/' + top + '/configure', 'rb')
        seen['configure'] = f.read()
        f.close()
        seen['tree'] = os.path.isfile(self.src_root + '/' + top + '/d/x')
        seen['calls'] = len(calls)
        seen['directories'] = dict(self.environment.directories)
        self.run_x(['y'])
        ctx.mkfile(self.environment.prefix + '/bin/foo', 'foo')
    attrs['install'] = install
    cls = type('foo', (Formula,), attrs)
    formula = cls(env)
    before = dict(env.variables.as_string_dict()) if env is not None else None
    ctx.mkdir(ctx.root + '/out')
    missing = lost is not None and (lost in deps or lost == 'b' and 'a' in deps)
    for d in deps:
        if d == 'b>2':
            missing = True
    try:
        formula.build(ctx.root + '/out', True, repository)
    except IpkgException:
        ctx.out('refused')
        ctx.check(wrong or missing, 'a build which has all it needs succeeds')
        ctx.check('ran' not in seen, 'nothing is built before all it needs is there')
        ctx.check(os.listdir(ctx.root + '/out') == [], 'no package is made')
    else:
        ctx.out(seen['packages'])
        ctx.check(not wrong, 'a file with another checksum is not used')
        ctx.check(not missing, 'a build without its dependencies is refused')
        ctx.check(seen['top'] == [top] and seen['configure'] == data and seen['tree'], 'the sources are the given ones')
        need = set()
        for d in deps:
            need = need | set(['a', 'b'] if d == 'a' else ['b'])
        if env is not None and part == 'deps':
            for n in seen['packages']:
                ctx.check(n in need or n == 'b', 'only the dependencies are installed')
        else:
            ctx.check(seen['packages'] == sorted(need), 'the dependencies are installed')
        for n in need:
            ctx.check(n in seen['packages'] and n in seen['present'], 'the dependencies are installed')
        run = calls[seen['calls']:]
        ctx.check(len(run) == 1 and run[0]['args'] == ['x', 'y'], 'the install step is run once')
        directories = seen['directories']
        for k in sorted(want):
            ctx.check(run[0]['env'].get(k) == want[k](directories), 'commands run with the variables of the build')
        ctx.check(run[0]['env'].get('IPKG_ENVIRONMENT') == directories['prefix'],
                  'commands run in the environment of the build')
        if 'PATH' not in want:
            ctx.check(run[0]['env']['PATH'] == directories['sbin'] + ':' + directories['bin'] + ':/bin',
                      'commands run in the environment of the build')
        if env is not None:
            ctx.check(env.variables.as_string_dict() == before, 'the variables of a build do not outlive it')
            n = len(calls)
            second = type('bar', (Formula,), {'name': 'bar', 'version': '1.0', 'sources': File(src),
                                              'install': lambda self: self.run_x()})
            second(env).build(ctx.root + '/out', True, repository)
            ctx.check(calls[n]['env'] == before, 'the variables of a build do not outlive it')
    if not missing:
        count = seen['calls'] if 'ran' in seen else len(calls)
        ctx.check(count == len(expected), 'the patches are applied, in their order, before the install step')
        for i in range(len(expected)):
            ctx.check(calls[i]['args'] == ['patch', '-p0'] and calls[i]['data'] == expected[i] and
                      os.path.normpath(calls[i]['cwd']) == formula.src_root + '/' + top,
                      'the patches are applied, in their order, before the install step')
