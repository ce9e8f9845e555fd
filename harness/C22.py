import os
import errno
import hlib


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    prefix = ctx.root + '/e'
    from ipkg.exceptions import IpkgException
    env = hlib.make_env(ctx, prefix)
    part = ctx.choice('part', ['libs', 'mode', 'two'])
    ctx.reach(part)
    build = ctx.choice('build', ['/b', '/b/c'])
    path = ctx.choice('path', ['bin/x', 'lib/y.so', 'lib64/sub/z'])
    magic = ctx.choice('magic', ['\xce\xfa\xed\xfe', '\xcf\xfa\xed\xfe'])
    mode = 0755
    libs = []
    outcome = 'ok'
    otool = 'ok'
    if part == 'libs':
        if path != 'bin/x' and build == '/b/c':
            ctx.reject()
        for i in range(ctx.int('n', 0, 2)):
            libs.append(ctx.choice('beg%d' % i, [build + '/', build, '/usr/', '@rpath/', prefix + '/', '/x' + build + '/'])
                        + ctx.text('t%d' % i, 3 if ctx.thorough else 2, 'ab/ (', 1))
        for l in libs:
            ctx.assume(l[-1] != ' ')
    elif part == 'mode':
        mode = ctx.choice('mode', [0755, 0555, 0644, 0444, 0400, 0600, 0111, 0, 0570, 04755, 04555, 02575])
        outcome = ctx.choice('outcome', ['ok', 'fails', 'missing', 'refused'])
        otool = ctx.choice('otool', ['ok', 'fails', 'missing'])
        libs = ctx.choice('libs', [[], ['/usr/lib/a', build + '/lib/a'], [build + '/a', build + '/b c']])
    else:
        libs = ctx.choice('libs', [[build + '/a', build + '/a', build + 'x/a', '/usr/' + build],
                                   [build + '/libx.1', build + '/lib/y.so.2', build + '/z'],
                                   [build + '/lib/second', '/usr/lib/x']])
    full = prefix + '/' + path
    names = [path]
    members = [(path, 'file', magic + 'body /b', mode)]
    if part == 'two':
        names.append('bin/second')
        members.append(('bin/second', 'file', magic + '2', 0555))
    calls = []

    class Popen(hlib.FakePopen):
        """otool and install_name_tool."""
        def start(self, command, kw):
            name = os.path.basename(command[0])
            how = otool if name == 'otool' else outcome
            if how == 'missing':
                raise OSError(errno.ENOENT, 'No such file or directory')
            if how == 'refused':
                raise OSError(errno.EACCES, 'Permission denied')
            self.code = 1 if how == 'fails' else 0
            self.out = None
            if name == 'otool':
                ctx.check(len(command) == 3 and command[1] == '-L', 'otool -L lists the libraries')
                if how == 'ok':
                    self.out = command[2] + ':\n'
                    for l in libs:
                        self.out += '\t%s (compatibility version 1.0.0, current version 1.2.3)\n' % l
            else:
                target = command[-1]
                calls.append((list(command), os.stat(target).st_mode & 0200))

        def finish(self, data):
            return self.out, None, self.code
    ctx.patch('subprocess', 'Popen', Popen)
    m = hlib.meta('p', '1', '1', names, None, build_prefix=build)
    hlib.package(ctx, ctx.root + '/p.ipkg', m, members)
    if mode & 0400 == 0:
        # only root can install these
        ctx.reject()
    try:
        env.install(ctx.root + '/p.ipkg')
        result = 'ok'
    except IpkgException:
        result = 'failed'
    now = os.stat(full).st_mode & 07777
    ctx.out(result, calls, now)
    ctx.check(now == mode, 'the mode is the same afterwards')
    ctx.check((result == 'ok') == (outcome == 'ok' and otool == 'ok'), 'a failing command fails the installation')
    want = []
    for l in libs:
        if l.startswith(build + '/'):
            want.append((l, prefix + l[len(build):]))
    if result == 'ok':
        ctx.check(len(calls) == len(names), 'one command on each file')
    for command, writable in calls:
        ctx.check(writable, 'the file is writable while the command runs')
        rest = command[1:-1]
        target = command[-1]
        ctx.check(os.path.basename(command[0]) == 'install_name_tool', 'install_name_tool changes the file')
        seen = []
        ids = []
        while rest:
            if rest[0] == '-change':
                seen.append((rest[1], rest[2]))
                rest = rest[3:]
            else:
                ctx.check(rest[0] == '-id', 'only the identifier and the libraries change')
                ids.append(rest[1])
                rest = rest[2:]
        ctx.check(ids == [target], 'the identifier is the path of the file')
        for old, new in want:
            ctx.check(len([1 for a, b in seen if a == old]) > 0, 'each library of the build prefix is redirected')
        for a, b in seen:
            match = [new for old, new in want if old == a]
            ctx.check(len(match) > 0, 'no other library is touched')
            ctx.check(os.path.normpath(b) == os.path.normpath(match[0]),
                      'a library is redirected to the same path under the new prefix')
    if result == 'ok':
        targets = sorted([c[0][-1] for c in calls])
        ctx.check(targets == sorted([prefix + '/' + n for n in names]), 'the command is run on that file')
