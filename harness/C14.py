import os
import json
import hlib

POOL = [('bin/a', 'file'), ('share/d/x', 'file'), ('lib/l', 'link'), ('top', 'file'), ('share/d/e/y', 'link')]
TARGETS = ['a', '../nowhere', '/abs/x']


def contents(ctx, tag, which, free):
    out = []
    for i in which:
        path, kind = POOL[i]
        if kind == 'file':
            out.append((path, 'file', ctx.text(tag + 'c', 3, '#!\n\x00') if free == i else tag + str(i)))
        else:
            out.append((path, 'link', ctx.choice(tag + 't%d' % i, TARGETS) if free == i else tag))
    return out


def subset(ctx, tag, pool):
    return [i for i in pool if ctx.bool('%s%d' % (tag, i))]


def record(env, name):
    return [p for p in env.packages if p.name == name]


def check_state(ctx, env, prefix, other, installed, what):
    """other: {path: entry}, installed: {name: (meta, members)}"""
    want = {}
    for p in other:
        want[p] = other[p]
    for n in installed:
        for path, kind, value in installed[n][1]:
            want[path] = (kind, value)
    got = hlib.clean(ctx.snapshot(prefix), '.ipkg.meta')
    for p in want:
        ctx.check(p in got, what + ': every file is there')
        ctx.check(got[p] == want[p], what + ': every file has its content')
    for p in got:
        ctx.check(p in want, what + ': no other file is there')
    from ipkg.environments import Environment
    for e in (env, Environment(prefix)):
        ctx.check(sorted([p.name for p in e.packages]) == sorted(installed),
                  what + ': exactly the installed packages are recorded')
        for n in installed:
            m = installed[n][0]
            r = record(e, n)[0]
            ctx.check(r.version == m['version'] and r.revision == m['revision'] and r.files == m['files'],
                      what + ': the record is the one of the package')


def make(ctx, path, name, version, revision, members, listdirs=False):
    m = hlib.meta(name, version, revision, files=[x[0] for x in members])
    mem = list(members)
    if listdirs:
        mem = [('share', 'dir', None), ('share/d', 'dir', None)] + mem
    hlib.package(ctx, path, m, mem)
    return m


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    prefix = ctx.root + '/env'
    env = hlib.make_env(ctx, prefix)
    from ipkg.environments import Environment, NotInstalled
    from ipkg.packages import PackageFile
    # what was there before
    other = {'bin/user': ('file', 'u'), 'share/d/user': ('file', ''), 'sbin/s': ('link', 'user')}
    for p in other:
        if other[p][0] == 'file':
            ctx.mkfile(prefix + '/' + p, other[p][1])
        else:
            os.symlink(other[p][1], os.path.abspath(prefix + '/' + p))
    part = ctx.choice('part', ['install', 'upgrade', 'uninstall', 'missing', 'again', 'shared'])
    ctx.reach(part)
    one = ctx.root + '/one.ipkg'
    installed = {}
    if part == 'install':
        free = ctx.choice('free', [None, 0, 1, 2, 4])
        members = contents(ctx, 'm', subset(ctx, 's', range(5)) if free is None else [free, 3], free)
        m = make(ctx, one, 'one', '1.0', '1', members, ctx.choice('dirs', [False, True]))
        if ctx.choice('bystander', [False, True]):
            om = make(ctx, ctx.root + '/o.ipkg', 'other', '1', '1', [('bin/o', 'file', 'o')])
            env.install(ctx.root + '/o.ipkg')
            installed['other'] = (om, [('bin/o', 'file', 'o')])
        how = ctx.choice('how', ['path', 'object', 'repository'])
        if how == 'path':
            env.install(one)
        elif how == 'object':
            env.install(PackageFile(one))
        else:
            from ipkg.repositories import LocalPackageRepository
            repo = LocalPackageRepository(ctx.root + '/repo')
            make(ctx, '%s/repo/one/one-1.0-1-%s.ipkg' % (ctx.root, hlib.PLATFORM), 'one', '1.0', '1', members)
            repo.update_metadata()
            env.install('one', repo)
        installed['one'] = (m, members)
        check_state(ctx, env, prefix, other, installed, 'after installing')
    elif part == 'upgrade':
        a = contents(ctx, 'm', subset(ctx, 's', [0, 1, 2, 4]), None)
        b = contents(ctx, 'n', subset(ctx, 't', [0, 1, 2, 4]), None)
        same = [x[0] for x in a] == [x[0] for x in b]
        was, (version, revision) = ctx.choice('new', [
            (('1.0', '1'), ('2.0', '1')), (('1.0', '1'), ('1.0', '2')), (('1.0', '1'), ('0.9', '1'))] + [
                (('1.9', '9'), ('1.9', '10')), (('1.9', '10'), ('1.9', '9')), (('1.10', '2'), ('1.9', '2')),
                (('1.9', '2'), ('1.9.0', '2')), (('1', '2'), ('2', '1'))] * same)
        ma = make(ctx, one, 'one', was[0], was[1], a)
        mb = make(ctx, ctx.root + '/two.ipkg', 'one', version, revision, b)
        env.install(one)
        if ctx.choice('reopen', [False, True]):
            env = Environment(prefix)
        env.install(ctx.root + '/two.ipkg')
        check_state(ctx, env, prefix, other, {'one': (mb, b)}, 'after installing another version')
    elif part == 'uninstall':
        which = subset(ctx, 's', range(5))
        a = contents(ctx, 'm', which, None)
        b = contents(ctx, 'n', [i for i in range(5) if i not in which], None)
        ma = make(ctx, one, 'one', '1.0', '1', a)
        mb = make(ctx, ctx.root + '/two.ipkg', 'two', '1.0', '1', b)
        env.install(one)
        env.install(ctx.root + '/two.ipkg')
        if ctx.choice('reopen', [False, True]):
            env = Environment(prefix)
        if which and ctx.choice('lost', [False, True]):
            # a file of the package is not there any more
            os.unlink(prefix + '/' + a[0][0])
        first = ctx.choice('first', ['one', 'two'])
        env.uninstall(first)
        rest = {'two': (mb, b)} if first == 'one' else {'one': (ma, a)}
        if first == 'two' and which and not os.path.lexists(prefix + '/' + a[0][0]):
            ctx.reject()
        check_state(ctx, env, prefix, other, rest, 'after uninstalling')
        if ctx.choice('both', [False, True]):
            env.uninstall(list(rest)[0])
            check_state(ctx, env, prefix, other, {}, 'after uninstalling both')
    elif part == 'missing':
        a = contents(ctx, 'm', [0, 2], None)
        ma = make(ctx, one, 'one', '1.0', '1', a)
        if ctx.choice('some', [False, True]):
            env.install(one)
            installed['one'] = (ma, a)
        name = ctx.text('name', 3, 'one=1', 1)
        ctx.assume(name != 'one')
        try:
            env.uninstall(name)
        except NotInstalled:
            ctx.out('refused')
        else:
            ctx.check(False, 'uninstalling what is not installed is refused')
        check_state(ctx, env, prefix, other, installed, 'after a refused uninstall')
    elif part == 'again':
        a = contents(ctx, 'm', [0, 1, 2], None)
        ma = make(ctx, one, 'one', '1.0', '1', a)
        env.install(one)
        installed['one'] = (ma, a)
        if ctx.choice('changed', [False, True]):
            make(ctx, ctx.root + '/two.ipkg', 'one', '1.0', '1', contents(ctx, 'n', [0, 3], None))
            one = ctx.root + '/two.ipkg'
        if ctx.choice('reopen', [False, True]):
            env = Environment(prefix)
        edit = ctx.choice('edit', [False, True])
        if edit:
            ctx.mkfile(prefix + '/bin/a', 'edited')
            installed['one'] = (ma, [('bin/a', 'file', 'edited')] + a[1:])
        env.install(one)
        check_state(ctx, env, prefix, other, installed, 'after installing the same again')
    else:
        # directories shared by packages and the user
        a = [('share/d/x', 'file', 'a'), ('share/d/e/x', 'file', 'a'), ('new/n', 'file', 'a')]
        b = [('share/d/e/y', 'file', 'b'), ('new/m', 'file', 'b')]
        ma = make(ctx, one, 'one', '1.0', '1', a, ctx.choice('dirs', [False, True]))
        mb = make(ctx, ctx.root + '/two.ipkg', 'two', '1.0', '1', b)
        order = ctx.perm('order', [one, ctx.root + '/two.ipkg'])
        for p in order:
            env.install(p)
        mine = ctx.choice('mine', [None, 'new/', 'share/d/e/', 'new/u/'])
        if mine:
            name = ctx.choice('name', ['', '.keep', '.gitkeep', '.gitignore', '.DS_Store', 'core', 'README',
                                       '.ipkg.meta', '__pycache__']) or ctx.text('free', 2, '.~xy', 1)
            ctx.assume(name != '.' and name != '..' and name != 'x' and name != 'y')
            mine += name
            if ctx.choice('link', [False, True]):
                if not os.path.isdir(os.path.dirname(prefix + '/' + mine)):
                    os.mkdir(os.path.dirname(prefix + '/' + mine))
                os.symlink('nowhere', os.path.abspath(prefix + '/' + mine))
                other[mine] = ('link', 'nowhere')
            else:
                ctx.mkfile(prefix + '/' + mine, 'mine')
                other[mine] = ('file', 'mine')
        installed = {'one': (ma, a), 'two': (mb, b)}
        for n in ctx.perm('removal', ['one', 'two']):
            env.uninstall(n)
            del installed[n]
            check_state(ctx, env, prefix, other, installed, 'after uninstalling')
    ctx.out(sorted(hlib.clean(ctx.snapshot(prefix), '.ipkg.meta')))
