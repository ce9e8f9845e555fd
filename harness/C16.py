import os
import json
import hlib


def record(prefix):
    path = prefix + '/.ipkg.meta'
    if not os.path.exists(path):
        return {}
    f = open(path)
    data = f.read()
    f.close()
    packages = json.loads(data)['packages']
    for n in packages:
        packages[n].pop('checksum', None)
    return packages


def newer(a, b):
    """Versions and revisions are one digit each here."""
    return (a['version'], a['revision']) > (b['version'], b['revision'])


def satisfies(text, m):
    for op in ('==', '>=', '<'):
        if op in text:
            name, v = text.split(op)
            if m['name'] != name:
                return False
            if op == '==':
                return m['version'] == v
            if op == '>=':
                return m['version'] >= v
            return m['version'] < v
    return m['name'] == text


def newest(text, metas):
    best = None
    for m in metas:
        if satisfies(text, m) and (best is None or newer(m, best)):
            best = m
    return best


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.repositories import LocalPackageRepository
    from ipkg.environments import Environment
    from ipkg.packages import PackageFile
    from ipkg.exceptions import IpkgException
    root = ctx.root
    prefix = root + '/env'
    ctx.mkdir(root + '/repo')
    repo = LocalPackageRepository(root + '/repo')
    metas = []
    part = ctx.choice('part', ['graph', 'versions', 'crash', 'upgrade', 'platform', 'near'])
    ctx.reach(part)
    installed = []

    def put(name, version, revision, deps, files=None, platform=hlib.PLATFORM):
        files = files if files is not None else ['bin/' + name, 'share/%s-%s-%s' % (name, version, revision)]
        m = hlib.meta(name, version, revision, files, deps, platform=platform)
        metas.append(m)
        path = '%s/repo/%s/%s-%s-%s-%s.ipkg' % (root, name, name, version, revision, platform)
        hlib.package(ctx, path, m, [(f, 'file', f + version) for f in files])
        repo.add(path)
        return path

    target = 'a'
    before = []
    if part == 'graph':
        deps = {}
        lists = [[], ['b'], ['c'], ['b', 'c'], ['c', 'b'], ['a'], ['d']]
        if ctx.thorough:
            lists += [['a', 'b', 'c'], ['c', 'd'], ['d', 'c']]
        for n in 'abc':
            deps[n] = ctx.choice('d' + n, lists)
            put(n, '1', '1', deps[n])
        # 'd' has no package, but in some worlds one was installed
        if ctx.choice('d', [False, True]):
            before.append(('d', '1', None))
        if ctx.choice('ib', [False, True]):
            before.append(('b', '1', None))
    elif part == 'versions':
        for v in ctx.choice('bv', [['1', '2'], ['2', '1', '3'], ['1']]):
            put('b', v, '1', None)
        if ctx.choice('rev', [False, True]):
            put('b', '1', '2', None)
        put('c', '1', '1', ctx.choice('c', [None, ['b'], ['b>=2']]))
        others = ctx.choice('others', [None, 'first', 'last'])
        if others == 'first':
            put('a', '0', '3', ['d'])
        put('a', '1', '1', ctx.choice('a', [['b'], ['b==1'], ['b>=2'], ['b<2'], ['b>=9'], ['c', 'b'],
                                            ['b', 'c'], ['c', 'b>=2'], ['c', 'b==1'], ['b', 'b']]))
        if others == 'last':
            put('a', '1', '0', ['d'])
        v = ctx.choice('b', [None, '1', '2', '4'])
        if v is not None:
            before.append(('b', v, None))
    elif part == 'crash':
        put('a', '1', '1', ctx.choice('a', [['b'], ['b', 'c']]))
        put('b', '1', '1', ctx.choice('b', [None, ['c']]))
        put('c', '1', '1', None)
    elif part == 'platform':
        plat = ctx.choice('p', ['any-any-any', 'debian-any-x86_64', 'debian-8.0-x86_64', 'osx-10-x86_64'])
        put('a', '1', '1', ['b'])
        put('b', '1', '1', None)
        put('b', '2', '1', None, platform=plat)
    elif part == 'near':
        # other packages with names like that of the dependency
        other = ctx.text('other', 3 if ctx.thorough else 2, 'bB-_1.', 1)
        ctx.assume(other != 'b' and other[0] not in '-_.' and other[-1] not in '-_.')
        put('a', '1', '1', ['b'])
        put('b', '1', '1', None)
        if ctx.choice('has', [False, True]):
            put(other, ctx.choice('v', ['1', '2']), '1', None)
        if ctx.choice('first', [False, True]):
            before.append((other, '1', None))
        if ctx.choice('b', [False, True]):
            before.append(('b', '1', None))
            if ctx.choice('last', [False, True]):
                before.append((other, '1', None))
    else:
        put('a', '2', '1', ctx.choice('a', [['b'], ['d'], ['b>=2'], ['b', 'd'], ['c']]))
        put('b', '1', '1', ctx.choice('b', [None, ['c'], ['d'], ['a']]))
        put('c', '1', '1', ctx.choice('c', [None, ['a'], ['a==1'], ['a>=2']]))
        before.append(('a', '1', None))
    env = hlib.make_env(ctx, prefix)
    for n, v, d in before:
        m = hlib.meta(n, v, '1', ['bin/' + n], d)
        hlib.package(ctx, root + '/old/' + n, m, [('bin/' + n, 'file', 'old ' + n)])
        env.install(root + '/old/' + n)
        installed.append(m)
    old = dict((m['name'], m) for m in installed)
    reach = []          # requirements of the packages needed
    seen = []
    loop = [False]
    missing = [False]

    # what should happen, walking the dependencies
    def walk(m, path):
        if m['name'] in path:
            loop[0] = True
            return
        if m['name'] in seen:
            return
        seen.append(m['name'])
        for text in m['dependencies'] or []:
            reach.append(text)
            name = text.replace('<', '=').replace('>', '=').split('=')[0]
            if name in old and satisfies(text, old[name]):
                continue
            new = newest(text, [x for x in metas if x['platform'] in (hlib.PLATFORM, 'any-any-any',
                                                                     'debian-any-x86_64')])
            if new is None:
                missing[0] = True
            else:
                walk(new, path + [m['name']])
    top = newest('a', metas)
    walk(top, [])
    chosen = {}
    differ = False
    for text in reach:
        name = text.replace('<', '=').replace('>', '=').split('=')[0]
        if name in old and satisfies(text, old[name]):
            pick = old[name]
        else:
            pick = newest(text, [x for x in metas if x['platform'] in (hlib.PLATFORM, 'any-any-any',
                                                                       'debian-any-x86_64')])
        if pick is not None:
            if name in chosen and chosen[name] is not pick:
                differ = True
            chosen[name] = pick
    if 'a' in chosen and chosen['a'] is not top:
        differ = True
    how = ctx.choice('how', ['name', 'path', 'object'])
    if how == 'name':
        what = 'a'
    elif how == 'path':
        what = repo['a'].path
    else:
        what = repo['a']
    snap = ctx.snapshot(prefix)

    if part == 'crash':
        status, value = ctx.fault('install', lambda: env.install(what, repo), mode='crash')
        now = record(prefix)
        for m in metas:
            there = [f for f in m['files'] if os.path.exists(prefix + '/' + f)]
            if there or m['name'] in now:
                for text in m['dependencies'] or []:
                    ctx.check(text in now, 'a dependency is recorded before the package is extracted')
                    for f in ['bin/' + text]:
                        ctx.check(os.path.exists(prefix + '/' + f),
                                  'a dependency is complete before the package is extracted')
        ctx.out(status, sorted(now))
        if status == 'ok':
            ctx.check(sorted(now) == sorted(seen), 'the dependencies are installed')
        return
    try:
        env.install(what, repo)
        result = 'ok'
    except IpkgException:
        result = 'refused'
    now = record(prefix)
    ctx.out(result, sorted([(n, now[n]['version']) for n in now]))
    ctx.check(sorted(now) == sorted([p.name for p in env.packages]), 'the record is the saved one')
    if result == 'ok':
        ctx.check(not missing[0], 'a dependency that cannot be found fails the installation')
        if not differ:
            ctx.check(not loop[0], 'a loop of dependencies fails the installation')
        ctx.check('a' in now and now['a'] == top, 'the package is installed')
        if not differ:
            for text in reach:
                name = text.replace('<', '=').replace('>', '=').split('=')[0]
                ctx.check(name in now and satisfies(text, now[name]),
                          'each dependency is satisfied by an installed package')
                pick = chosen[name]
                for key in ('version', 'revision', 'platform'):
                    ctx.check(now[name][key] == pick[key],
                              'a missing dependency is taken in its newest version, another one left alone')
            want = set(old)
            for name in chosen:
                want.add(name)
            want.add('a')
            ctx.check(set(now) == want, 'nothing else is installed or removed')
            for name in old:
                if name != 'a' and (name not in chosen or chosen[name] is old[name]):
                    ctx.check(now[name] == old[name], 'an installed dependency is left alone')
                    f = open(prefix + '/bin/' + name)
                    ctx.check(f.read() == 'old ' + name, 'an installed dependency is left alone')
                    f.close()
    else:
        if not differ:
            ctx.check(loop[0] or missing[0], 'satisfiable dependencies without loops install')
        if 'a' in old:
            ctx.check(now.get('a') == old['a'], 'a package whose dependencies fail is not recorded')
        else:
            ctx.check('a' not in now, 'a package whose dependencies fail is not recorded')
