import os
import json
import hlib


def record(prefix):
    path = prefix + '/.ipkg.meta'
    if not os.path.exists(path):
        return {}
    f = open(path)
    data = f.read()
    f.close()
    return json.loads(data)['packages']


SCRIPT = '#!/build/bin/x\nrest /build\n'
PC = 'a=1\nprefix=/build\nlibdir=/build/lib\n'


def put(ctx, version, files):
    """A version of the package p."""
    content = {
        'bin/p': ('file', SCRIPT + version, 0755),
        'bin/ro': ('file', '#!/build/' + version, 0555),
        'lib/pkgconfig/p.pc': ('file', PC + version, 0644),
        'share/p/d/f': ('file', '#!/build is kept ' + version, 0644),
        'share/p/l': ('link', 'd/f'),
        'share/p/up': ('link', '../../bin'),
        'share/p/h': ('hard', 'share/p/d/f'),
    }
    members = []
    if 'share/p/h' in files or 'share/p/d/f' in files:
        members.append(('share/p/d', 'dir', None))
    for f in files:
        members.append((f,) + content[f])
    m = hlib.meta('p', version, '1', files, ['o'] if 'needs' in files else None)
    return m, hlib.package(ctx, ctx.root + '/p-%s.ipkg' % version, m, members)


def expected(prefix, version, files):
    """The files of the environment for a version of p: rel -> (kind, content)."""
    out = {}
    for f in files:
        if f == 'bin/p':
            out[f] = ('file', '#!%s/bin/x\nrest /build\n' % prefix + version)
        elif f == 'bin/ro':
            out[f] = ('file', '#!%s/' % prefix + version)
        elif f == 'lib/pkgconfig/p.pc':
            out[f] = ('file', 'a=1\nprefix=%s\nlibdir=/build/lib\n' % prefix + version)
        elif f == 'share/p/d/f' or f == 'share/p/h':
            out[f] = ('file', '#!/build is kept ' + version)
        elif f == 'share/p/l':
            out[f] = ('link', 'd/f')
        else:
            out[f] = ('link', '../../bin')
    return out


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    prefix = ctx.root + '/env'
    env = hlib.make_env(ctx, prefix)
    alone = ctx.choice('alone', [False, True])
    other = hlib.meta('other', '1', '1', ['bin/other', 'share/p2/x', 'lib/other'])
    hlib.package(ctx, ctx.root + '/other.ipkg', other,
                 [('bin/other', 'file', 'other'), ('share/p2/x', 'file', 'x'), ('lib/other', 'link', '../bin')])
    ctx.mkfile(prefix + '/etc/user', 'user')
    rest = {'etc/user': ('file', 'user')}
    if alone:
        env.set_config('k', 'v')
    else:
        env.install(ctx.root + '/other.ipkg')
        rest.update({'bin/other': ('file', 'other'), 'share/p2/x': ('file', 'x'), 'lib/other': ('link', '../bin')})
    part = ctx.choice('part', ['install', 'uninstall', 'upgrade', 'dependency'])
    ctx.reach(part)
    mode = ctx.choice('mode', ['crash', 'error'])
    sets = [['bin/p', 'lib/pkgconfig/p.pc', 'share/p/l'],
            ['bin/ro', 'share/p/d/f', 'share/p/h', 'share/p/up']]
    files = ctx.choice('files', sets)
    one, onep = put(ctx, '1', files)
    packages = {'other': other}
    repo = None
    if part == 'install':
        want, have = {'1': files}, None
        op = 'install'
        target = onep
    elif part == 'uninstall':
        env.install(onep)
        op = 'uninstall'
        target = 'p'
    elif part == 'upgrade':
        env.install(onep)
        newfiles = ctx.choice('new', [sets[0], sets[1], ['bin/p', 'bin/ro']])
        two, target = put(ctx, '2', newfiles)
        op = 'install'
    else:
        from ipkg.repositories import LocalPackageRepository
        ctx.mkdir(ctx.root + '/repo')
        repo = LocalPackageRepository(ctx.root + '/repo')
        path = ctx.root + '/repo/p/p-1-1-%s.ipkg' % hlib.PLATFORM
        os.mkdir(ctx.root + '/repo/p')
        os.rename(onep, path)
        repo.add(path, False)
        repo.meta.save()
        needs = hlib.meta('needs', '1', '1', ['bin/needs'], ['p'])
        target = hlib.package(ctx, ctx.root + '/needs.ipkg', needs, [('bin/needs', 'file', 'needs')])
        op = 'install'

    def run(env):
        if op == 'uninstall':
            env.uninstall(target)
        elif repo is not None:
            from ipkg.repositories import LocalPackageRepository
            env.install(target, LocalPackageRepository(ctx.root + '/repo'))
        else:
            env.install(target)

    def opened():
        from ipkg.environments import Environment
        return Environment(prefix)

    def check_middle(what):
        now = record(prefix)
        snap = hlib.clean(ctx.snapshot(prefix), '.ipkg.meta*')
        env = opened()
        ctx.check(sorted([p.name for p in env.packages]) == sorted(now), 'the environment can still be opened')
        for f in rest:
            ctx.check(snap.get(f) == rest[f], 'the other files stay')
        ctx.check(now.get('other') == (None if alone else other), 'the other packages keep their record')
        ctx.check(env.meta['config'] == ({'k': 'v'} if alone else {}), 'the settings stay')
        if part in ('install', 'dependency') and 'p' in now:
            ctx.check(now['p'] == one, 'the record is the one of the package')
            exp = expected(prefix, '1', files)
            for f in exp:
                ctx.check(snap.get(f) == exp[f], 'a package is recorded only if all of its files are there')
        if part == 'upgrade' and 'p' in now and now['p']['version'] == '2':
            exp = expected(prefix, '2', newfiles)
            for f in exp:
                ctx.check(snap.get(f) == exp[f], 'a package is recorded only if all of its files are there')
        if part == 'dependency' and 'needs' in now:
            ctx.check('p' in now and snap.get('bin/needs') == ('file', 'needs'),
                      'a package is recorded only if all of its files are there')
        return now

    status, value = ctx.fault('f', lambda: run(env), mode=mode, limit=80)
    if status == 'crash':
        ctx.restart()
    fired = ctx.fired
    now = check_middle('f')
    ctx.out(status, sorted(now))
    env = opened()
    if ctx.thorough and fired:
        status, value = ctx.fault('g', lambda: again(ctx, env, run, op, now), mode='error', limit=80)
        now = check_middle('g')
        ctx.out(status, sorted(now))
        env = opened()
    again(ctx, env, run, op, now)
    now = record(prefix)
    snap = hlib.clean(ctx.snapshot(prefix), '.ipkg.meta*')
    exp = dict(rest)
    names = [] if alone else ['other']
    if part == 'upgrade':
        exp.update(expected(prefix, '2', newfiles))
        ctx.check(now.get('p') == two, 'repeating completes the operation')
        names.append('p')
    elif part != 'uninstall':
        exp.update(expected(prefix, '1', files))
        ctx.check(now.get('p') == one, 'repeating completes the operation')
        names.append('p')
    if part == 'dependency':
        exp['bin/needs'] = ('file', 'needs')
        names.append('needs')
    ctx.check(sorted(now) == sorted(names), 'repeating completes the operation')
    ctx.out([(f, snap.get(f), exp.get(f)) for f in sorted(set(snap) | set(exp)) if snap.get(f) != exp.get(f)])
    ctx.check(snap == exp, 'repeating leads to the same files')
    modes = ctx.modes(prefix)
    # extracting ignores a chmod which is refused
    for f, m in (('bin/p', 0755), ('bin/ro', 0555), ('share/p/d/f', 0644)):
        if f in exp and mode == 'crash':
            ctx.check(modes[f] == m, 'repeating leads to the same modes')


def again(ctx, env, run, op, now):
    if op == 'uninstall' and 'p' not in now:
        return
    run(env)
