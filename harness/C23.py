import os
import json
import tarfile
import hlib


def read(path):
    f = open(path, 'rb')
    data = f.read()
    f.close()
    return data


def sources(ctx):
    """A source archive of one directory."""
    path = ctx.root + '/src/s-1.tar.gz'
    ctx.mkdir(ctx.root + '/src')
    tar = tarfile.open(path, 'w:gz')
    hlib.add_member(tar, 's-1/README', 'file', 'readme')
    hlib.add_member(tar, 's-1/bin/tool', 'file', 'tool', 0755)
    tar.close()
    return path


def put(prefix, rel, kind, value, mode=0644):
    """What the install step of a formula does."""
    path = prefix + '/' + rel
    parent = os.path.dirname(path)
    if not os.path.isdir(parent):
        os.makedirs(parent)
    if kind == 'file':
        f = open(path, 'wb')
        f.write(value)
        f.close()
        os.chmod(path, mode)
    elif kind == 'dir':
        if not os.path.isdir(path):
            os.mkdir(path)
    elif kind == 'hard':
        os.link(os.path.abspath(prefix + '/' + value), os.path.abspath(path))
    else:
        os.symlink(value, os.path.abspath(path))


def contents(ctx, path):
    """Members of a package file and its metadata."""
    tar = tarfile.open(path)
    members = {}
    dup = False
    meta = None
    for m in tar.getmembers():
        if m.name == '.ipkg.meta':
            meta = json.loads(tar.extractfile(m).read())
        else:
            name = m.name
            dup = dup or name in members
            if m.isreg():
                members[name] = ('file', tar.extractfile(m).read(), m.mode & 0777)
            elif m.issym():
                members[name] = ('link', m.linkname)
            elif m.islnk():
                members[name] = ('file', tar.extractfile(m).read(), m.mode & 0777)
            else:
                members[name] = ('other', m.name)
    tar.close()
    ctx.check(not dup, 'a file is packaged once')
    return members, meta


# files which tools leave alone, or take for something else
ODD = ['tmp/x', 'tmp/d/x', 'lib/m.pyc', 'lib/m.pyo', 'lib/libx.a', 'lib/libx.la', 'lib/libx.so.1', 'x.o', 'x~',
       'x.bak', '.svn/entries', '.git/config', 'share/man/man1/x.1.gz', 'share/info/dir', 'lib/perllocal.pod',
       'include/x.h', 'sbin/X', 'lib/pkgconfig/x.pc', 'etc/x.conf', 'var/log/x.log', 'ipkg.meta', 'share/x.ipkg.meta',
       'x.tmp', 'core', 'lib64/x', 'share/doc/a b/c', 'bin/x.ipkg', 'share/aclocal/x.m4', 'CVS/Root', '_x', '#x#',
       'lib/x/__pycache__/m.pyc', '.DS_Store', 'bin/[', 'share/zoneinfo/Etc/GMT+0']


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    import ipkg.build
    from ipkg.build import Formula, File
    part = ctx.choice('part', ['files', 'name', 'tree', 'meta', 'again', 'odd'])
    ctx.reach(part)
    where = ctx.choice('env', ['own', 'empty', 'used', 'slash', 'relative']) if part == 'tree' else \
        ctx.choice('env', ['own', 'used'])
    prefix = ctx.root + '/e'
    env = None
    before = {}
    if where != 'own':
        given = prefix
        if where == 'slash':
            given += '/'
        elif where == 'relative':
            os.chdir(ctx.root)
            given = 'e'
        env = hlib.make_env(ctx, given)
        if where != 'empty':
            before = {'bin/old': 'old', 'top': 'old', 'lib/sub/old': 'old'}
            for rel in before:
                ctx.mkfile(prefix + '/' + rel, before[rel])
            os.symlink('sub', os.path.abspath(prefix + '/lib/oldlink'))
    source = sources(ctx)
    again = prefix[1:] if where != 'own' else 'w/e'
    added = []
    if part == 'files':
        # up to three entries of every kind
        pool = [None, ('bin/x', 'file', 'x'), ('lib/l', 'link', 'sub'), ('share/d/e/f', 'file', ''),
                ('bin/up', 'link', '../share'), ('dangling', 'link', 'nowhere'), ('empty', 'dir', None),
                ('lib/abs', 'link', '/bin'), ('.hidden', 'file', 'h'), (again + '/f', 'file', 'deep'),
                ('lib/self', 'link', '.')]
        for i in range(3 if ctx.thorough else 2):
            e = ctx.choice('e%d' % i, pool)
            if e is not None:
                ctx.assume(e not in added)
                added.append(e)
    elif part == 'name':
        name = ctx.text('name', 4 if ctx.thorough else 3, 'aA. %-+', 1)
        ctx.assume(name != '.' and name != '..')
        d = ctx.choice('dir', ['', 'bin/', 'a/', again + '/', 'new/deep/', '.ipkg/', 'ipkg.meta/'])
        data = ctx.text('data', 2, 'a\n\0\xff')
        added.append((d + name, 'file', data))
    elif part == 'odd':
        added.append((ctx.choice('odd', ODD), 'file', ctx.choice('data', ['', 'x'])))
        if ctx.choice('more', [False, True]):
            added.append(('share/more', 'file', 'm'))
    elif part == 'tree':
        kind = ctx.choice('kind', ['file', 'link', 'linkdir', 'hard'])
        added.append(('share/x', 'file', 'x', ctx.choice('mode', [0644, 0755, 0600, 0444])))
        d = ctx.choice('dir', ['', 'share/', 'bin/', 'lib/sub/', again + '/', again + again + '/'])
        if kind == 'file':
            added.append((d + 'n', 'file', 'n'))
        elif kind == 'link':
            added.append((d + 'n', 'link', ctx.choice('to', ['share/x', '/', 'n', '../bin/old'])))
        elif kind == 'linkdir':
            added.append((d + 'n', 'link', prefix + '/bin'))
        else:
            added.append((d + 'n', 'hard', 'share/x'))
    else:
        added.append(('bin/x', 'file', 'x'))
    version = ['1.0', '2', '1.0-beta_1']
    attrs = {'name': 'foo', 'version': '1.0', 'revision': 1, 'sources': File(source)}
    if part == 'meta':
        attrs['name'] = ctx.choice('fname', ['foo', 'Foo-bar', 'f_1'])
        attrs['version'] = ctx.choice('version', version)
        attrs['revision'] = ctx.choice('revision', [1, '2', 'r3', 10])
        attrs['platform'] = ctx.choice('platform', [None, 'any', 'osx-10.8-x86_64', 'debian-any-any'])
        attrs['envvars'] = ctx.choice('envvars', [None, {}, {'A': '%(prefix)s/a', 'B': 'b c'}])
        attrs['homepage'] = ctx.choice('homepage', [None, 'http://h/'])
        if ctx.choice('slash', [False, True]):
            ctx.platform('Linux', 'debian', 'jessie/sid', 'x86_64')
    elif part == 'again':
        # dependencies are not part of the package
        m = hlib.meta('dep', '1', '1', ['bin/dep', 'lib/dep/d'])
        hlib.package(ctx, ctx.root + '/r/dep/dep-1-1-debian-7.0-x86_64.ipkg', m,
                     [('bin/dep', 'file', 'dep'), ('lib/dep/d', 'file', 'd')])
        from ipkg.repositories import LocalPackageRepository
        repository = LocalPackageRepository(ctx.root + '/r')
        repository.update_metadata()
        attrs['dependencies'] = ctx.choice('deps', [('dep',), ['dep>=1'], ('dep==1',)])
        added.append(('lib/dep/mine', 'file', 'm'))
    seen = {}

    def install(self):
        p = self.environment.prefix
        seen['prefix'] = p
        for e in added:
            put(p, *e)
    attrs['install'] = install
    cls = type('foo', (Formula,), attrs)
    formula = cls(env)
    out = ctx.root + '/out'
    ctx.mkdir(out)
    path = formula.build(out, True, repository if part == 'again' else None)
    members, meta = contents(ctx, path)
    expected = {}
    for e in added:
        if e[1] == 'file':
            expected[e[0]] = ('file', e[2], e[3] if len(e) > 3 else 0644)
        elif e[1] == 'link':
            expected[e[0]] = ('link', e[2])
        elif e[1] == 'hard':
            expected[e[0]] = ('file', 'x', added[0][3])
    ctx.out(sorted(members) if part not in ('name', 'tree', 'files') else len(members))
    ctx.check(sorted(members) == sorted(expected), 'the package has exactly the files the build installed')
    for name in expected:
        ctx.check(members[name] == expected[name], 'packaged files have their content')
    ctx.check(sorted(meta['files']) == sorted(expected), 'the metadata lists the packaged files')
    platform = attrs.get('platform')
    if platform is None:
        from ipkg.platforms import Platform
        platform = str(Platform.current())
    ctx.check(meta['name'] == attrs['name'] and meta['version'] == attrs['version'] and
              meta['revision'] == str(attrs['revision']) and meta['platform'] == platform,
              'the metadata describes the formula')
    ctx.check(meta['envvars'] == attrs.get('envvars') and meta['homepage'] == attrs.get('homepage') and
              list(meta['dependencies']) == list(attrs.get('dependencies', ())) and
              meta['build_prefix'] == seen['prefix'], 'the metadata describes the formula')
    fields = '%s-%s-%s-%s.ipkg' % (attrs['name'], attrs['version'], attrs['revision'], platform)
    ctx.check(path == out + '/' + fields.replace('/', '_'), 'the file name is made of the fields')
    ctx.check(os.listdir(out) == [os.path.basename(path)], 'one package is made')
