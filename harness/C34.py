import os
import tarfile
import hlib


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    calls = []
    plan = {'fail': None}

    class Popen(hlib.FakePopen):
        def start(self, args, kw):
            self.n = len(calls)
            self.call = dict(kw)
            self.call['args'] = list(args)
            self.call['cwd'] = kw['cwd'] or os.getcwd()
            self.call['data'] = None
            calls.append(self.call)
            if plan['fail'] == ('start', self.n):
                raise OSError(2, 'No such file or directory')

        def finish(self, data):
            self.call['data'] = data
            return None, None, 3 if plan['fail'] == ('code', self.n) else 0
    ctx.patch('subprocess', 'Popen', Popen)
    from ipkg.build import Formula, File, IncompleteFormula
    from ipkg.environments import Environment
    from ipkg.utils import ExecutionFailed
    part = ctx.choice('part', ['run', 'chars', 'default', 'override', 'missing', 'patch'])
    ctx.reach(part)
    ctx.mkdir(ctx.root + '/here')
    ctx.mkdir(ctx.root + '/other')
    os.chdir(ctx.root + '/here')
    src = ctx.root + '/s-1.tar.gz'
    tar = tarfile.open(src, 'w:gz')
    hlib.add_member(tar, 's-1/README', 'file', 'readme')
    tar.close()
    prefix = ctx.root + '/e'
    attrs = {'name': 'foo', 'version': '1.0', 'sources': File(src)}
    if part == 'missing':
        lacking = []
        for attr in ('name', 'version', 'revision', 'sources'):
            how = ctx.choice(attr, ['given', 'none'] if attr == 'revision' else ['given', 'none', 'absent'])
            if how != 'given':
                lacking.append(attr)
                if how == 'none':
                    attrs[attr] = None
                else:
                    attrs.pop(attr)
        cls = type('foo', (Formula,), attrs)
        if ctx.choice('sub', [False, True]):
            cls = type('sub', (cls,), {})
        try:
            cls()
        except IncompleteFormula as exc:
            ctx.check(exc.attr in lacking, 'a formula which lacks nothing is created')
            ctx.out(exc.attr)
        else:
            ctx.check(not lacking, 'a formula that lacks an attribute is refused')
        return
    expected = []
    sources = []
    failing = None
    if part in ('run', 'chars'):
        env = hlib.make_env(ctx, prefix)
        steps = []
        if part == 'chars':
            args = []
            for i in range(ctx.int('n', 0, 2)):
                args.append(ctx.text('a%d' % i, 3 if i == 0 else 2, 'a "$-' if i == 0 else "'\\ "))
            steps.append((ctx.choice('tool', ['x', 'make', 'x_y', 'run']), args, None, None))
            steps.append(('x', None, None, None))
        else:
            for i in range(3):
                form = ctx.choice('f%d' % i, ['none', 'list', 'tuple', 'string', 'empty', 'shared'])
                extra = ctx.choice('k%d' % i, ['', 'cwd', 'data']) if i < 2 or ctx.thorough else ''
                args = {'none': None, 'list': ['a', 'b c'], 'tuple': ('t',), 'string': 'u  v', 'empty': [],
                        'shared': ['-s', 'w']}[form]
                steps.append((ctx.choice('t%d' % i, ['x', 'y'] if i else ['x']), args,
                              ctx.root + '/other' if extra == 'cwd' else None, 'in' if extra == 'data' else None))
        objects = ctx.choice('objects', ['one', 'bound', 'two']) if part == 'run' else 'one'
        cls = type('foo', (Formula,), attrs)
        formula = cls(env)
        second = cls(env)
        bound = formula.run_x
        shared = ['-s', 'w']
        for i in range(len(steps)):
            tool, args, cwd, data = steps[i]
            kw = {}
            if cwd is not None:
                kw['cwd'] = cwd
            if data is not None:
                kw['data'] = data
            f = getattr(second if objects == 'two' and i == 1 else formula, 'run_' + tool)
            if objects == 'bound' and tool == 'x':
                f = bound
            given = shared if args == ['-s', 'w'] else args
            if args is None:
                f(**kw)
            elif cwd is not None:
                f(args=given, **kw)
            else:
                f(given, **kw)
            words = []
            if args is not None:
                words = ['u', 'v'] if args == 'u  v' else list(args)
            expected.append(([tool] + words, cwd or ctx.root + '/here', data))
        ctx.check(shared == ['-s', 'w'], 'the arguments are not modified')
    else:
        env = hlib.make_env(ctx, prefix) if ctx.choice('env', [False, True]) else None
        formula_args = ('--prefix=%(prefix)s',)
        top = []
        if part == 'default':
            choice = ctx.choice('args', [None, [], ['--a', '--man=%(man)s'], ('--lib=%(lib)s:%(bin)s', '100%%'),
                                         ['%(include)s %(tmp)s'], ['--with=b c', "--q='x'"],
                                         ['-x', 'a', '-x', 'b', '', 'a']])
            if choice is not None:
                formula_args = attrs['configure_args'] = choice
        elif part == 'override':
            def install(self):
                self.run_configure()
                self.run_make()
                self.run_make(['check'], cwd=self.environment.prefix)
                self.run_command(['make', 'install'])
                self.run_command('ln  -s "a b" c')
                self.run_make('-j 2 install')
            attrs['install'] = install
        else:
            count = ctx.int('count', 0, 2)
            patches = []
            for i in range(count):
                data = ctx.text('patch%d' % i, 2, '-+\n')
                ctx.mkfile(ctx.root + '/p%d' % i, data)
                patches.append(File(ctx.root + '/p%d' % i))
                top.append((['patch', '-p0'], None, data))
            attrs['patches'] = ctx.choice('form', [tuple(patches), patches])
        cls = type('foo', (Formula,), attrs)
        formula = cls(env)
        if ctx.choice('fails', [False, True]):
            failing = ctx.int('failing', 0, 4)
            plan['fail'] = (ctx.choice('how', ['code', 'start']), failing)
        ctx.mkdir(ctx.root + '/out')
        error = None
        try:
            formula.build(ctx.root + '/out')
        except ExecutionFailed as exc:
            error = exc
        p = formula.environment.prefix
        sub = dict([(d, p + '/' + d) for d in ('bin', 'sbin', 'lib', 'include', 'man', 'tmp')])
        sub['prefix'] = p
        for d in ('bin', 'sbin', 'lib', 'include', 'man', 'tmp'):
            ctx.check(formula.environment.directories[d][:len(p) + 1] == p + '/', 'directories are in the prefix')
            sub[d] = formula.environment.directories[d]
        where = formula.src_root + '/s-1'
        expected = top + [(['./configure'] + [a % sub for a in formula_args], None, None), (['make'], None, None)]
        if part == 'override':
            expected += [(['make', 'check'], p, None), (['make', 'install'], None, None),
                         (['ln', '-s', 'a b', 'c'], None, None), (['make', '-j', '2', 'install'], None, None)]
        else:
            expected += [(['make', 'install'], None, None)]
        expected = [(a, c or where, d) for a, c, d in expected]
        if failing is not None and failing < len(expected):
            ctx.check(error is not None, 'the build stops at the first command that fails')
            ctx.check(list(error.command) == expected[failing][0], 'the build stops at the first command that fails')
            expected = expected[:failing + 1]
            ctx.check(os.listdir(ctx.root + '/out') == [], 'no package is made when a command fails')
            if plan['fail'][0] == 'start' and expected[failing][2] is not None:
                expected[failing] = (expected[failing][0], expected[failing][1], None)
        else:
            ctx.check(error is None, 'the build succeeds when no command fails')
            ctx.check(len(os.listdir(ctx.root + '/out')) == 1, 'a package is made')
    ctx.out(len(calls))
    ctx.check(len(calls) == len(expected), 'exactly the asked commands are run')
    for i in range(len(expected)):
        args, cwd, data = expected[i]
        ctx.check(calls[i]['args'] == args and not calls[i]['shell'],
                  'a command runs with exactly the arguments of its call')
        ctx.check(os.path.normpath(calls[i]['cwd']) == cwd, 'a command runs in the sources directory or the given one')
        ctx.check(calls[i]['data'] == data, 'a command receives its data')
