import os
import tarfile
import hlib


def put(prefix, rel, kind, value, mode=0644):
    path = prefix + '/' + rel
    parent = os.path.dirname(path)
    if not os.path.isdir(parent):
        os.makedirs(parent)
    if kind == 'file':
        f = open(path, 'wb')
        f.write(value)
        f.close()
        os.chmod(path, mode)
    elif kind == 'hard':
        os.link(os.path.abspath(prefix + '/' + value), os.path.abspath(path))
    else:
        os.symlink(value, os.path.abspath(path))


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.build import Formula, File
    from ipkg.environments import Environment
    from ipkg.repositories import LocalPackageRepository, PackageRepository
    src = ctx.root + '/s-1.tar.gz'
    tar = tarfile.open(src, 'w:gz')
    hlib.add_member(tar, 's-1/README', 'file', 'readme')
    tar.close()
    part = ctx.choice('part', ['kinds', 'name', 'meta', 'order', 'prefix'])
    ctx.reach(part)
    own = ctx.choice('own', [False, True])
    env = None if own else hlib.make_env(ctx, ctx.root + '/build')
    attrs = {'name': 'foo', 'version': '1.0', 'sources': File(src)}
    added = []
    if part == 'kinds':
        pool = [None, ('bin/x', 'file', '#!/bin/sh\n', 0755), ('lib/l.so', 'link', 'l.so.1'),
                ('lib/l.so.1', 'file', '\x7fELF\0', 0755), ('lib64', 'link', 'lib'), ('share/ro', 'file', 'ro', 0444),
                ('.hidden', 'file', ''), ('dangling', 'link', 'no/where'), ('share/d/d/d/f', 'file', 'deep'),
                ('share/up', 'link', '../share/ro'), ('.ipkg', 'file', 'near'), ('share/.ipkg.meta', 'file', 'mine')]
        for i in range(3 if ctx.thorough else 2):
            e = ctx.choice('e%d' % i, pool)
            if e is not None:
                ctx.assume(e not in added)
                added.append(e)
    elif part == 'name':
        name = ctx.text('name', 4 if ctx.thorough else 3, 'aA. %-+', 1)
        ctx.assume(name != '.' and name != '..')
        d = ctx.choice('dir', ['', 'bin/', 'a/', 'new/deep/', 'lib/pkgconfig/'])
        if ctx.choice('link', [False, True]):
            added.append((d + name, 'link', ctx.choice('to', ['a', '../a', '.', 'a b', '..', '/'])))
        else:
            added.append((d + name, 'file', ctx.text('data', 2, 'a\n\0\xff'), ctx.choice('mode', [0644, 0755, 0700])))
    elif part == 'order':
        # hard links, and the other names of their files
        added = [('share/a', 'file', 'shared', 0755), ('bin/b', 'hard', 'share/a'), ('share/c', 'hard', 'bin/b')]
        added = added[:ctx.int('n', 1, 3)]
        if ctx.choice('link', [False, True]):
            added.append(('share/l', 'link', 'a'))
    elif part == 'prefix':
        # files which are none of those whose prefix is rewritten
        other = ctx.choice('other', ['share/x', 'share/x.sh', 'etc/init.d/x', 'share/pkgconfig/x.pc', 'x', 'bin2/x',
                                     'bin/d/x', 'share/lib/x.la', 'share/bin/x', 'Lib/x', 'include/lib/x.py'])
        added = [(other, 'file', 'x')]
    else:
        added = [('bin/x', 'file', 'x', 0755)]
        attrs['name'] = ctx.choice('fname', ['foo', 'Foo-bar', 'f_1'])
        attrs['version'] = ctx.choice('version', ['1.0', '2', '1.0-beta_1'])
        attrs['revision'] = ctx.choice('revision', [1, '2', 'r3', 10])
        attrs['platform'] = ctx.choice('platform', [None, 'any', 'debian-any-any'])
        attrs['envvars'] = ctx.choice('envvars', [None, {}, {'A': '%(prefix)s/a', 'B': 'b c'}])
        attrs['homepage'] = 'http://h/' if attrs['revision'] == 1 else None
        if attrs['envvars'] == {} and ctx.choice('slash', [False, True]):
            ctx.platform('Linux', 'debian', 'jessie/sid', 'x86_64')

    seen = {}

    def install(self):
        p = self.environment.prefix
        for e in added:
            if part == 'prefix':
                seen['data'] = {'pc': 'prefix=', 'la': 'libdir='}.get(other[-2:], '#!') + p + '/x'
                put(p, other, 'file', seen['data'])
            else:
                put(p, *e)
    attrs['install'] = install
    cls = type('foo', (Formula,), attrs)
    base = ctx.root + '/r'
    ctx.mkdir(base)
    repository = LocalPackageRepository(base)
    repository.build_formula(cls(env))
    name, version = attrs['name'], attrs['version']
    asked = ctx.choice('asked', ['name', 'exact', 'range']) if part != 'name' else 'name'
    requirement = name + {'name': '', 'exact': '==' + version, 'range': '>=' + version}[asked]
    found = PackageRepository(base).find(requirement)
    ctx.check([(p.name, p.version, p.revision) for p in found] == [(name, version, str(attrs.get('revision', 1)))],
              'a lookup in the repository finds the package')
    target = ctx.root + '/t/e'
    ctx.mkdir(ctx.root + '/t')
    other = hlib.make_env(ctx, target)
    base_files = hlib.clean(ctx.snapshot(target))
    other.install(requirement, ctx.choice('fresh', [True, False]) and PackageRepository(base) or repository)
    got = hlib.clean(ctx.snapshot(target), '.ipkg.meta')
    expected = dict(base_files)
    for e in added:
        if e[1] == 'link':
            expected[e[0]] = ('link', e[2])
        elif e[1] == 'hard':
            expected[e[0]] = ('file', 'shared')
        else:
            expected[e[0]] = ('file', e[2] if part != 'prefix' else seen['data'])
    ctx.out(len(got))
    ctx.check(sorted(got) == sorted(expected), 'every file the build installed is there and no other')
    for p in expected:
        ctx.check(got[p] == expected[p], 'installed files have the built content')
    modes = ctx.modes(target)
    for e in added:
        if len(e) > 3:
            ctx.check(modes[e[0]] == e[3], 'installed files have the built mode')
    ctx.check([p.name for p in other.packages] == [name], 'the package is recorded')
    record = Environment(target).meta['packages'][name]
    platform = attrs.get('platform')
    if platform is None:
        from ipkg.platforms import Platform
        platform = str(Platform.current())
    ctx.check(record['version'] == version and record['revision'] == str(attrs.get('revision', 1)) and
              record['platform'] == platform and record['envvars'] == attrs.get('envvars') and
              record['homepage'] == attrs.get('homepage') and
              sorted(record['files']) == sorted([e[0] for e in added]), 'the record has the metadata of the formula')
