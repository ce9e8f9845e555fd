import os
import sys
import json
import tarfile
import hlib

FORMULA = '''
from ipkg.build import Formula, File


class %(cls)s(Formula):
    name = %(name)r
    version = '1.0'
    sources = File(%(src)r)
    dependencies = %(deps)r

    def install(self):
        %(body)s
'''


def read(path):
    f = open(path, 'rb')
    data = f.read()
    f.close()
    return data


def harness(ctx):
    hlib.world(ctx)
    root = ctx.root
    base = {'PATH': '/bin', 'HOME': '/h'}
    ctx.environ(base)
    calls = []
    plan = {'code': 0, 'error': None}

    class Popen(hlib.FakePopen):
        def start(self, args, kw):
            calls.append((list(args), kw['env'], kw['cwd'], kw['stdout']))
            if plan['error']:
                raise OSError(plan['error'], 'No such file or directory')

        def finish(self, data):
            return None, None, plan['code']
    ctx.patch('subprocess', 'Popen', Popen)
    sys.argv = ['ipkg']
    from ipkg.cli import ipkg
    from ipkg.environments import Environment
    from ipkg.repositories import LocalPackageRepository, PackageRepository
    shown = []

    def run(*argv):
        """Runs the program; True when it succeeds."""
        sys.argv = ['ipkg'] + list(argv)
        out, err, log = len(ctx.stdout()), len(ctx.stderr()), len(ctx.log())
        code = None
        try:
            ipkg()
        except SystemExit as exc:
            code = exc.code
        ok = code is None or code == 0
        shown.append(ctx.stdout()[out:])
        message = ctx.stderr()[err:] + ''.join(['%s' % m for l, m in ctx.log()[log:] if l >= 40])
        ctx.out(ok)
        if not ok:
            ctx.check(isinstance(code, (int, long)) and code & 255 != 0 or len(message) > 0 and message is code,
                      'a failure gives a non-zero exit status')
            ctx.check(len(message.strip()) > 0, 'a failure gives a message')
        return ok

    def state(prefix):
        return (hlib.clean(ctx.snapshot(prefix), '.ipkg.meta'),
                sorted([p.name for p in Environment(prefix).packages]), Environment(prefix).meta['config'])

    part = ctx.choice('part', ['which', 'fail', 'run', 'build', 'mkenv', 'repos', 'usage', 'debug'])
    ctx.reach(part)
    one, two = root + '/one', root + '/two'
    repo = root + '/repo'
    ctx.mkdir(repo)
    for n in ('a', 'b'):
        deps = ['b'] if n == 'a' else []
        m = hlib.meta(n, '1.0', '1', ['bin/' + n], deps)
        hlib.package(ctx, '%s/%s/%s-1.0-1-%s.ipkg' % (repo, n, n, hlib.PLATFORM), m, [('bin/' + n, 'file', n)])
    repository = LocalPackageRepository(repo)
    repository.update_metadata()
    if part == 'which':
        # the environment of the command line, else the current one, else an error
        for prefix in (one, two):
            env = hlib.make_env(ctx, prefix)
            env.install('b', repository)
            env.set_config('k', 'v ' + prefix)
        given = ctx.choice('given', [None, '-e', '--environment', '=', 'glued'])
        current = ctx.choice('current', [False, True])
        if current:
            ctx.environ(dict(base, IPKG_ENVIRONMENT=two))
        before = dict([(p, state(p)) for p in (one, two)])
        command = ctx.choice('command', ['list', 'install', 'uninstall', 'config:get', 'config:set', 'missing',
                                         'unknown'])
        args = {'list': [], 'install': ['a', '-r', repo], 'uninstall': ['b'], 'config:get': ['k'],
                'config:set': ['k', 'new'], 'missing': ['zz', '-r', repo], 'unknown': ['zz']}[command]
        name = {'missing': 'install', 'unknown': 'uninstall'}.get(command, command)
        options = {None: [], '-e': ['-e', one], '--environment': ['--environment', one],
                   '=': ['--environment=' + one], 'glued': ['-e' + one]}[given]
        if ctx.choice('last', [False, True]):
            args = args + options
        else:
            args = options + args
        if command == 'install' and ctx.choice('decoy', [False, True]):
            # not a package file
            ctx.mkdir(root + '/cwd/a')
            os.chdir(root + '/cwd')
        ok = run(name, *args)
        used = one if given else two if current else None
        ctx.check(ok == (used is not None and command not in ('missing', 'unknown')),
                  'a command succeeds exactly when it can be done')
        for p in (one, two):
            files, packages, config = before[p]
            if p == used and command == 'install':
                files = dict(files)
                files['bin/a'] = ('file', 'a')
                packages = ['a', 'b']
            elif p == used and command == 'uninstall':
                files = dict(files)
                files.pop('bin/b')
                packages = []
            elif p == used and command == 'config:set':
                config = {'k': 'new'}
            ctx.check(state(p) == (files, packages, config), 'a command acts on the environment given, or the current')
        if ok:
            want = {'list': 'b==1.0\n', 'config:get': 'v %s\n' % used}.get(command, '')
            ctx.check(shown[0] == want, 'a command shows what the environment has')
    elif part == 'fail':
        # whatever goes wrong in ipkg is reported
        ctx.mkfile(root + '/bad/.ipkg.meta', 'not json')
        ctx.mkfile(root + '/badrepo/repository.json', ctx.choice('json', ['[', '[]', '"x"']))
        ctx.mkfile(root + '/empty.py', 'x = 1\n')
        ctx.mkfile(root + '/requirements', ctx.choice('requirements', ['zz\n', 'a==2\n', 'a >\n', 'a\nzz\n']))
        ctx.mkfile(root + '/junk.ipkg', 'junk')
        hlib.make_env(ctx, one)
        bad, badrepo = root + '/bad', root + '/badrepo'
        cases = [
            ['list', '-e', bad], ['install', '-e', bad, 'a'], ['uninstall', '-e', bad, 'a'], ['mkenv', bad],
            ['printenv', bad], ['exec', bad, 'x'], ['shell', bad], ['config:get', '-e', bad, 'k'],
            ['config:set', '-e', bad, 'k', 'v'], ['build', '-e', bad, root + '/empty.py'],
            ['install', '-e', one, '-r', badrepo, 'a'], ['mkrepo', badrepo], ['mkenv', '-r', badrepo, two],
            ['install', '-e', one, 'a'], ['install', '-e', one, 'a!', '-r', repo],
            ['install', '-e', one, 'a>=2', '-r', repo], ['install', '-e', one, root + '/junk.ipkg'],
            ['install', '-e', one, 'ftp://h/a', '-r', repo], ['install', '-e', one, 'a', '-r', 'ftp://h/r'],
            ['uninstall', '-e', one, 'a'], ['mkenv', one], ['mkenv', two, '-R', root + '/none'],
            ['mkenv', two, '-R', root + '/requirements'], ['mkenv', two, '-R', root + '/requirements', '-r', repo],
            ['mkenv', two, '-R', 'ftp://h/x'], ['mkenv', root + '/no/where'],
            ['build', root + '/none.py'], ['build', root + '/empty.py'], ['build', '-u', root + '/empty.py'],
            ['list'], ['config:get', 'k'], ['install', 'a'],
        ]
        args = ctx.choice('case', cases)
        if ctx.choice('debug', [False, True]):
            args = ['-D'] + args
        before = state(one)
        ctx.check(not run(*args), 'a command which fails is never a success')
        ctx.check(state(one) == before, 'a command which fails changes nothing in the other environment')
    elif part == 'run':
        env = hlib.make_env(ctx, one)
        if ctx.choice('decoy', [False, True]):
            ctx.environ(dict(base, IPKG_ENVIRONMENT=two))
        env.variables.add({})
        expected = Environment(one).variables.as_string_dict()
        outcome = ctx.choice('outcome', ['ok', 'code', 'error'])
        if outcome == 'code':
            plan['code'] = ctx.choice('code', [1, 2, 127, 255, -9, -15])
        elif outcome == 'error':
            plan['error'] = 2
        how = ctx.choice('how', ['exec', 'args', 'shell', 'other', 'default'])
        if how == 'exec':
            word = ctx.text('word', 3 if ctx.thorough else 2, 'a =/')
            ok = run('exec', one, 'x', word, word)
            want = ['x', word, word]
        elif how == 'args':
            word = ctx.text('option', 3 if ctx.thorough else 2, 'a =/-')
            ctx.assume(word != '--')
            ok = run('exec', one, '--', 'x', '-l', '--environment', two, word)
            want = ['x', '-l', '--environment', two, word]
        elif how == 'shell':
            ok = run('shell', '-s', '/bin/zsh', one)
            want = ['/bin/zsh']
        elif how == 'other':
            ok = run('shell', one, '--shell', '/bin/sh -l')
            want = ['/bin/sh', '-l']
        else:
            ok = run('shell', one)
            want = ['/bin/bash']
        ctx.check(ok == (outcome == 'ok'), 'a command which fails is never a success')
        ctx.check(len(calls) == 1 and calls[0][0] == want, 'the program is run with its arguments')
        ctx.check(calls[0][1] == expected, 'the program is run in the environment')
    elif part == 'build':
        src = root + '/s-1.tar.gz'
        tar = tarfile.open(src, 'w:gz')
        hlib.add_member(tar, 's-1/README', 'file', 'readme')
        tar.close()
        os.mkdir(root + '/out')
        body = "self.run_x(); f = open(self.environment.prefix + '/f', 'w'); f.write('f'); f.close()"
        deps = ctx.choice('deps', [(), ('b',)])
        ctx.mkfile(root + '/foo-1.0.py', FORMULA % {
            'cls': 'foo', 'name': 'foo', 'src': src, 'deps': deps, 'body': body})
        if ctx.choice('fails', [False, True]):
            plan['code'] = 1
        options = ['-p', root + '/out']
        env = ctx.choice('env', [None, 'given', 'current'])
        if env == 'given':
            options += ['-e', one]
            hlib.make_env(ctx, one)
        elif env == 'current':
            hlib.make_env(ctx, one)
            ctx.environ(dict(base, IPKG_ENVIRONMENT=one))
        with_repo = ctx.choice('repo', [False, True])
        if with_repo:
            options += ['--repository', repo]
        update = ctx.choice('update', [None, '-u', '--update-repository'])
        if update:
            options.append(update)
        keep = ctx.choice('keep', [None, '-k', '--keep-build-dir'])
        if keep:
            options.append(keep)
        verbose = ctx.choice('verbose', [False, True])
        if verbose:
            options.append('-v')
        ok = run('build', root + '/foo-1.0.py', *options)
        good = not plan['code'] and (with_repo or not update and not deps)
        ctx.check(ok == good, 'a build succeeds exactly when it can be done')
        name = 'foo-1.0-1-%s.ipkg' % hlib.PLATFORM
        inrepo = repo + '/foo/' + name
        ctx.check(os.path.exists(inrepo) == (good and update is not None), 'the package goes where asked')
        ctx.check(os.path.exists(root + '/out/' + name) == (good and update is None), 'the package goes where asked')
        ctx.check(sorted([p.name for p in PackageRepository(repo)]) ==
                  ['a', 'b'] + (['foo'] if good and update else []), 'the repository is updated when asked')
        if calls:
            prefix = calls[0][1]['IPKG_ENVIRONMENT']
            ctx.check((prefix == one) == (env == 'given'), 'the build is done in the given environment')
            ctx.check((calls[0][3] is sys.stdout) == verbose, 'the output of the commands is shown when asked')
            if good:
                ctx.check(os.path.isdir(calls[0][2]) == (keep is not None), 'the build directory is kept when asked')
        else:
            ctx.check(not good, 'the formula is built')
    elif part == 'mkenv':
        lines = ctx.choice('lines', [None, '', 'a', 'a\n', 'b\na\n', 'b==1.0\n', 'a>=1', 'b\nzz\na', 'zz\nb',
                                     'b\n%s/b/b-1.0-1-%s.ipkg\n' % (
            repo, hlib.PLATFORM)])
        options = [two]
        if lines is not None:
            ctx.mkfile(root + '/req', lines)
            options += [ctx.choice('option', ['-R', '--requirements']), root + '/req']
        with_repo = ctx.choice('repo', [False, True])
        if with_repo:
            options = ['-r', repo] + options
        good = with_repo and 'zz' not in (lines or '') or not lines
        ctx.any_order('sets')
        ok = run('mkenv', *options)
        if with_repo and not ok:
            ctx.check(state(two)[1] == (['b'] if lines == 'b\nzz\na' else []), 'the requirements are followed in order')
        ctx.check(ok == good, 'the environment is made exactly when it can be')
        if ok:
            names = [] if not lines else ['a', 'b'] if lines in ('a', 'a\n', 'b\na\n', 'a>=1') else ['b']
            ctx.check(state(two)[1] == names, 'the environment has the required packages')
            export = ctx.choice('export', [None, '-x', '--export'])
            ctx.check(run('printenv', two, *([export] if export else [])), 'variables are shown')
            ctx.check(shown[1] == Environment(two).variables.as_string(export is not None),
                      'the variables of the environment are shown')
    elif part == 'repos':
        src = root + '/s-1.tar.gz'
        tar = tarfile.open(src, 'w:gz')
        hlib.add_member(tar, 's-1/README', 'file', 'readme')
        tar.close()
        formulas = root + '/formulas'
        ctx.mkdir(formulas)
        made = []
        for n in ('x', 'y'):
            if ctx.bool('has_' + n):
                made.append(n)
                ctx.mkfile('%s/%s/%s-1.0.py' % (formulas, n, n), FORMULA % {
                    'cls': n, 'name': n, 'src': src, 'deps': ('x',) if n == 'y' and 'x' in made else (),
                    'body': "f = open(self.environment.prefix + '/%s', 'w'); f.write('f'); f.close()" % n})
        if ctx.choice('index', [True, False]):
            os.unlink(repo + '/repository.json')
            ctx.check(run('mkrepo', repo), 'a repository is indexed')
            ctx.check(sorted([p.name for p in PackageRepository(repo)]) == ['a', 'b'], 'a repository is indexed')
        options = []
        if ctx.choice('env', [False, True]):
            hlib.make_env(ctx, one)
            options = ['-e', one]
        ctx.check(run('build-repository', repo, formulas, *options), 'the formulas are built')
        ctx.check(sorted([p.name for p in PackageRepository(repo)]) == ['a', 'b'] + made, 'the formulas are built')
        ctx.check(run('build-repository', repo, formulas, *options), 'the repository is up to date')
        ctx.check(sorted([p.name for p in PackageRepository(repo)]) == ['a', 'b'] + made, 'the repository is up to date')
    elif part == 'usage':
        hlib.make_env(ctx, one)
        args = ctx.choice('args', [
            [], ['nothing'], ['list', 'x'], ['install'], ['uninstall', '-e', one], ['mkenv'], ['printenv'], ['exec', one],
            ['shell'], ['build'], ['mkrepo'], ['build-repository', repo], ['config:get', '-e', one],
            ['config:set', '-e', one, 'k'], ['list', '-e'], ['list', '-x'], ['-x', 'list']])
        ctx.check(not run(*args), 'a command which is not complete fails')
    else:
        hlib.make_env(ctx, one)
        command = ctx.choice('command', ['list', 'config:get', 'version', 'help', 'sub'])
        args = {'list': ['-D', 'list', '-e', one], 'config:get': ['--debug', 'config:get', '-e', one, 'none'],
                'version': ['--version'], 'help': ['-h'], 'sub': ['install', '--help']}[command]
        ctx.check(run(*args), 'a command that succeeds does not exit with an error')
