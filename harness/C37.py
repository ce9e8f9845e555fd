import os
import errno
import hlib

DIRS = ['', 'bin', 'include', 'lib', 'lib/pkgconfig', 'sbin', 'share', 'share/man', 'tmp']


def outside(ctx, prefix):
    """What is not in the environment."""
    out = {}
    snap = ctx.snapshot(ctx.root)
    for p in snap:
        if ctx.root + '/' + p != prefix and not (ctx.root + '/' + p).startswith(prefix + '/'):
            out[p] = snap[p]
    return out


def inside(ctx, prefix):
    out = {}
    snap = ctx.snapshot(ctx.root)
    for p in snap:
        q = ctx.root + '/' + p
        if q == prefix or q.startswith(prefix + '/'):
            out[q[len(prefix) + 1:]] = snap[p]
    return out


def create(ctx):
    from ipkg.environments import Environment
    from ipkg.exceptions import IpkgException
    from ipkg.utils import CannotCreateDirectory
    parent = ctx.choice('parent', ['/a', '/a b', '/none', '/file', '/link', ''])
    ctx.mkfile(ctx.root + '/a/x', 'x')
    ctx.mkdir(ctx.root + '/a b')
    ctx.mkfile(ctx.root + '/file', 'file')
    ctx.mkdir(ctx.root + '/real')
    os.symlink('real', os.path.abspath(ctx.root + '/link'))
    name = ctx.text('name', 2, 'e.%', 1)
    ctx.assume(name != '.' and name != '..')
    prefix = ctx.root + parent + '/' + name
    there = 'none'
    if parent not in ('/none', '/file'):
        there = ctx.choice('there', ['none', 'dir', 'file', 'linkdir', 'dangling'])
    if there == 'dir':
        ctx.mkfile(prefix + '/bin/x', 'x')
    elif there == 'file':
        ctx.mkfile(prefix, 'file')
    elif there == 'linkdir':
        os.symlink(ctx.root + '/a', os.path.abspath(prefix))
    elif there == 'dangling':
        os.symlink('nowhere', os.path.abspath(prefix))
    good = there == 'none' and parent not in ('/none', '/file')
    before = ctx.snapshot(ctx.root)
    if there == 'file' or parent == '/file':
        from ipkg.environments import EnvironmentDirectories
        directories = EnvironmentDirectories(prefix)
    else:
        directories = Environment(prefix).directories
        ctx.check(ctx.snapshot(ctx.root) == before, 'opening an environment creates nothing')
    ctx.check(directories['prefix'] == prefix and directories['bin'] == prefix + '/bin' and
              directories['man'] == prefix + '/share/man' and directories['tmp'] == prefix + '/tmp' and
              directories['pkgconfig'] == prefix + '/lib/pkgconfig', 'the directories are those of the prefix')
    how = ctx.choice('faulty', ['no', 'fault', 'intruder'])
    if how == 'intruder':
        # something comes in the way while the environment is created
        ctx.assume(good and parent == '/a')
        real = os.mkdir
        way = ctx.choice('way', DIRS[1:])

        def mkdir(path, *args):
            real(path, *args)
            if path == prefix + '/' + os.path.dirname(way) or path == prefix and os.path.dirname(way) == '':
                ctx.mkfile(prefix + '/' + way, 'way')
        ctx.patch('os', 'mkdir', mkdir)
        try:
            result, value = 'ok', directories.create()
        except IpkgException as e:
            result, value = 'exc', e
        good = False
    elif how == 'fault':
        # a directory which cannot be made
        result, value = ctx.fault('fault', directories.create, 'error', 20)
    else:
        try:
            result, value = 'ok', directories.create()
        except IpkgException as e:
            result, value = 'exc', e
        good = good or result == 'ok'
    after = ctx.snapshot(ctx.root)
    for p in before:
        ctx.check(after.get(p) == before[p], 'creating an environment leaves what was there')
    if result == 'ok':
        ctx.check(good and there == 'none', 'an environment is not created where there is something')
        top = prefix
        got = sorted([os.path.join(prefix, d).rstrip('/') for d in DIRS])
        new = sorted([ctx.root + '/' + p for p in after if p not in before])
        if parent == '/link':
            got = [os.path.join(ctx.root + '/real', g[len(ctx.root + '/link/'):]) for g in got]
        ctx.check(new == got, 'an environment has its own directories')
        for g in got:
            ctx.check(os.path.isdir(g) and not os.path.islink(g), 'an environment has its own directories')
    else:
        ctx.check(isinstance(value, CannotCreateDirectory), 'the documented error is raised')
        if isinstance(value, CannotCreateDirectory):
            ctx.check(value.directory in directories.values() and value.directory in str(value) and
                      value.reason and value.reason in str(value),
                      'the error names the directory and the reason')
    ctx.out(result)


def complete(ctx):
    from ipkg.environments import Environment
    prefix = ctx.root + '/e'
    kept = []
    for d in DIRS[1:]:
        if ctx.bool('has ' + d):
            ctx.mkdir(prefix + '/' + d)
    where = ctx.choice('where', DIRS)
    ctx.mkfile(prefix + '/' + where + '/f', 'f')
    if not os.path.exists(prefix + '/sbin') and where != 'sbin' and ctx.choice('link', [False, True]):
        ctx.mkdir(prefix + '/bin')
        os.symlink('bin', os.path.abspath(prefix + '/sbin'))
    before = ctx.snapshot(ctx.root)
    Environment(prefix).directories.create(False)
    after = ctx.snapshot(ctx.root)
    for p in before:
        ctx.check(after.get(p) == before[p], 'completing an environment leaves what was there')
    for d in DIRS:
        ctx.check(os.path.isdir(prefix + '/' + d), 'an environment has its own directories')
    for p in after:
        ctx.check(p in before or p in [('e/' + d).rstrip('/') for d in DIRS], 'nothing else is created')
    ctx.out(sorted(after))


def temporary(ctx):
    from ipkg.environments import Environment
    prefix = ctx.root + '/e'
    env = hlib.make_env(ctx, prefix)
    ctx.mkfile(prefix + '/bin/x', 'x')
    ctx.mkfile(prefix + '/tmpx/x', 'x')
    ctx.mkfile(ctx.root + '/out/x', 'x')
    before = ctx.snapshot(ctx.root)
    tmp = prefix + '/tmp'
    for i in range(2):
        kind = ctx.choice('kind%d' % i, ['none', 'file', 'deep', 'link', 'linkfile', 'dangling', 'up', 'ro'] if i == 0 else
                          ['none', 'dir', 'link'])
        p = tmp + '/' + ('.n' if i else 'n')
        if kind in ('file', 'ro'):
            ctx.mkfile(p, 'x', 0400 if kind == 'ro' else 0644)
        elif kind == 'dir':
            ctx.mkdir(p)
        elif kind == 'deep':
            ctx.mkfile(p + '/d/x', 'x')
            os.symlink('../../../../out', os.path.abspath(p + '/d/l'))
        elif kind in ('link', 'linkfile', 'dangling', 'up'):
            os.symlink({'link': ctx.root + '/out', 'linkfile': '../../out/x', 'dangling': 'nowhere', 'up': '..'}[kind],
                       os.path.abspath(p))
    made = []
    n = ctx.int('n', 0, 3)
    for i in range(n):
        how = ctx.choice('how%d' % i, [None, 'n', ''] if i == 0 else [None, 'a b'])
        d = env.mktmpdir(how) if i or ctx.choice('arg', [False, True]) else env.mktmpdir(prefix=how)
        ctx.check(os.path.dirname(d) == tmp and os.path.isdir(d) and not os.path.islink(d),
                  'a temporary directory is in the tmp directory')
        ctx.check(os.listdir(d) == [], 'a temporary directory is empty')
        ctx.check(os.path.basename(d).startswith(how or ''), 'its name begins with the given prefix')
        ctx.check(d not in made, 'a temporary directory is new')
        made.append(d)
        ctx.mkfile(d + '/x', 'x')
    env.cleanup_tmpdir()
    after = ctx.snapshot(ctx.root)
    ctx.check(os.path.isdir(tmp) and not os.path.islink(tmp) and os.listdir(tmp) == [],
              'cleaning removes everything in the tmp directory')
    ctx.check(after == before, 'cleaning removes nothing else')
    if n:
        d = env.mktmpdir()
        ctx.check(os.path.dirname(d) == tmp and os.path.isdir(d), 'a temporary directory can be made again')


def settings(ctx):
    from ipkg.environments import Environment
    prefix = ctx.root + '/e'
    env = hlib.make_env(ctx, prefix)
    want = {}
    hlib.package(ctx, ctx.root + '/p.ipkg', hlib.meta('p', files=['bin/p']), [('bin/p', 'file', 'p')])
    for i in range(2):
        key = ctx.text('key%d' % i, 1, 'k"\\') if i else ctx.choice('key', ['k', '', 'packages', '%(prefix)s'])
        value = ctx.text('value%d' % i, 2 if i == 0 else 1, 'v"\\\n%' if i == 0 else 'v%')
        env.set_config(key, value)
        want[key] = value
        between = ctx.choice('between%d' % i, ['none', 'reopen', 'install', 'uninstall'] if i == 0 else ['none', 'uninstall'])
        if between == 'reopen':
            env = Environment(prefix)
        elif between != 'none':
            env.install(ctx.root + '/p.ipkg')
            if between == 'uninstall':
                env.uninstall('p')
    for i in range(2):
        e = env if i == 0 else Environment(prefix)
        for k in sorted(want):
            ctx.check(e.get_config(k) == want[k], 'a setting reads back the same')
            ctx.out(e.get_config(k))
        for k in ('zz', 'name', 'config', 'packages'):
            if k not in want:
                ctx.check(e.get_config(k) is None, 'a setting which was not set is nothing')
        for p in e.packages:
            ctx.check(p.name == 'p', 'settings are not packages')
        e.set_config('zz', '')
        ctx.check(e.get_config('zz') == '', 'a setting reads back the same')
        want['zz'] = ''


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    part = ctx.choice('part', ['create', 'complete', 'temporary', 'settings'])
    ctx.reach(part)
    {'create': create, 'complete': complete, 'temporary': temporary, 'settings': settings}[part](ctx)
