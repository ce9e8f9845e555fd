import os
import errno
import hlib


def split(s):
    """Words of a command line, as a POSIX shell splits them; None if a quote or an escape is open."""
    words = []
    cur = None
    quote = ''
    i = 0
    while i < len(s):
        c = s[i]
        i += 1
        if quote == "'":
            if c == "'":
                quote = ''
            else:
                cur += c
        elif quote == '"':
            if c == '"':
                quote = ''
            elif c == '\\':
                if i >= len(s):
                    return None
                if s[i] not in '"\\':
                    cur += c
                cur += s[i]
                i += 1
            else:
                cur += c
        elif c in ' \t\n':
            if cur is not None:
                words.append(cur)
            cur = None
        else:
            if cur is None:
                cur = ''
            if c == "'" or c == '"':
                quote = c
            elif c == '\\':
                if i >= len(s):
                    return None
                cur += s[i]
                i += 1
            else:
                cur += c
    if quote:
        return None
    if cur is not None:
        words.append(cur)
    return words


def harness(ctx):
    hlib.world(ctx)
    given = {'PATH': '/bin', 'HOME': '/h'}
    ctx.environ(given)
    calls = []
    plan = {'error': None, 'code': 0, 'out': None, 'err': None}

    class Popen(hlib.FakePopen):
        def start(self, args, kw):
            call = dict(kw)
            call['args'] = args
            call['data'] = None
            calls.append(call)
            self.call = call
            if len(args) == 0:
                raise IndexError('list index out of range')
            if plan['error'] is not None:
                raise OSError(plan['error'], os.strerror(plan['error']))

        def finish(self, data):
            self.call['data'] = data
            return plan['out'], plan['err'], plan['code']
    ctx.patch('subprocess', 'Popen', Popen)
    from ipkg.utils import execute, which, ExecutionFailed, PIPE
    part = ctx.choice('part', ['list', 'string', 'fail', 'which', 'env', 'path', 'code'])
    ctx.reach(part)
    if part in ('which', 'path'):
        dirs = ['a', 'b', 'c d']
        if part == 'which':
            for i in range(3):
                d = ctx.root + '/' + dirs[i]
                what = ctx.choice('in%d' % i, ['none', 'empty', 'file', 'dir', 'link', 'dangling', 'linkdir'] if i == 0 else
                                  ['none', 'empty', 'file', 'dir'])
                if what != 'none':
                    ctx.mkdir(d)
                if what == 'file':
                    ctx.mkfile(d + '/x', '', ctx.choice('mode%d' % i, [0644, 0755]) if i == 0 else 0755)
                elif what == 'dir':
                    ctx.mkfile(d + '/x/x', '')
                elif what == 'link':
                    ctx.mkfile(ctx.root + '/real', '')
                    os.symlink('../real', os.path.abspath(d + '/x'))
                elif what == 'linkdir':
                    os.symlink('.', os.path.abspath(d + '/x'))
                elif what == 'dangling':
                    os.symlink('nowhere', os.path.abspath(d + '/x'))
            order = ctx.perm('order', range(3))
            entries = [ctx.root + '/' + dirs[i] for i in order][:ctx.int('n', 1, 3)]
            name = 'x'
        else:
            ctx.mkfile(ctx.root + '/a/x', '')
            ctx.mkfile(ctx.root + '/aa', '')
            os.chdir(ctx.root + '/a')
            entries = ctx.choice('path', [[], [''], ['', ''], [ctx.root], [ctx.root, '', ctx.root + '/b'], ['.'],
                                          [ctx.root + '/a/'], ['/nowhere', ctx.root + '/a'], ['..', '../a']])
            name = ctx.text('name', 2, 'ax', 1)
        if entries:
            ctx.environ({'PATH': ':'.join(entries), 'HOME': '/h'})
        else:
            ctx.environ({'HOME': '/h'})
        found = None
        for e in entries:
            if found is None and os.path.isfile(os.path.join(e, name)):
                found = os.path.join(e, name)
        got = which(name)
        ctx.out(got)
        if found is None:
            ctx.check(got is None, 'nothing is returned when there is no such file')
        else:
            ctx.check(got is not None and os.path.normpath(got) == os.path.normpath(found),
                      'the first file of that name along PATH is returned')
        return
    kw = {}
    command = ['x', 'y z']
    argv = command
    expected = {'cwd': None, 'env': given, 'data': None}
    captured = []
    if part == 'list':
        argv = ['x']
        for i in range(ctx.int('n', 0, 2)):
            argv.append(ctx.text('arg%d' % i, 2, 'a "$' if i == 0 else '\'\\*'))
        command = argv if ctx.choice('tuple', [False, True]) else tuple(argv)
    elif part == 'string':
        command = ctx.choice('beg', ['', 'x ']) + ctx.text('line', 6 if ctx.thorough else 4, 'a "\'\\$')
        argv = split(command)
    elif part == 'env':
        from ipkg.environments import Environment
        env = Environment(ctx.root + '/e')
        if ctx.choice('add', [False, True]):
            env.variables.add({'X': ctx.text('x', 2, 'a %')})
        kw = {}
        expected['env'] = env.variables.as_string_dict()
    if part in ('fail', 'env'):
        cwd = ctx.choice('cwd', ['none', 'dir', 'missing'])
        if cwd != 'none':
            kw['cwd'] = expected['cwd'] = ctx.root + '/' + cwd
        ctx.mkdir(ctx.root + '/dir')
        data = ctx.choice('data', [None, '', 'data\n', 'text'] if part == 'env' else [None, ''])
        if data == 'text':
            data = ctx.text('text', 2, 'a\n\0')
        if data is not None:
            kw['data'] = expected['data'] = data
    if part == 'fail':
        e = ctx.choice('environ', [None, {}, {'A': '1'}, {'PATH': '', 'B': ''}])
        if e is not None:
            kw['env'] = expected['env'] = e
        for s in ('stdin', 'stdout', 'stderr'):
            how = ctx.choice(s, ['default', 'none', 'other'] if s == 'stdin' else ['default', 'pipe', 'none', 'other'])
            if how == 'pipe':
                kw[s] = PIPE
                captured.append(s)
            elif how == 'none':
                kw[s] = None
            elif how == 'other':
                kw[s] = 77
    else:
        kw['stdout'] = kw['stderr'] = PIPE
        captured = ['stdout', 'stderr']
    outcome = ctx.choice('outcome', ['code', 'error']) if part in ('fail', 'env') else 'code'
    if outcome == 'code':
        plan['code'] = ctx.int('code', -64, 255) if part == 'code' else ctx.choice('some', [0, 3, -9])
        if part != 'env':
            plan['out'], plan['err'] = 'out', 'err'
        else:
            plan['out'] = ctx.text('out', 1, 'o\n\xff')
            plan['err'] = ctx.text('err', 1, 'e\0')
    else:
        plan['error'] = ctx.choice('errno', [errno.ENOENT, errno.EACCES, errno.ENOEXEC, errno.ENOMEM] if part == 'env' else
                                   [errno.ENOENT, errno.ENOTDIR])
    runs = bool(argv)
    good = runs and outcome == 'code' and plan['code'] == 0
    try:
        if part == 'env':
            result = env.execute(command, **kw)
        else:
            result = execute(command, **kw)
    except ExecutionFailed as exc:
        ctx.out('failed')
        ctx.check(not good, 'a command which exits with code 0 succeeds')
        if argv is not None:
            ctx.check(list(exc.command) == list(argv), 'the error carries the command')
        text = str(exc)
        ctx.check(exc.reason and exc.reason in text, 'the error carries the reason')
        if argv:
            ctx.check(argv[0] in text, 'the error carries the command')
        if runs and outcome == 'code':
            ctx.check(str(plan['code']) in exc.reason, 'the error carries the exit code')
        elif runs and plan['error'] != errno.ENOENT:
            ctx.check(exc.reason == os.strerror(plan['error']), 'the error carries the reason')
        elif runs and expected['cwd'] is not None and cwd == 'missing':
            ctx.check('ommand not found' not in exc.reason, 'the error carries the reason')
    else:
        ctx.check(good, 'a command which does not start or exit with code 0 fails')
        ctx.check(tuple(result) == (plan['out'] if 'stdout' in captured else None,
                                    plan['err'] if 'stderr' in captured else None),
                  'what it wrote on captured streams is returned')
        ctx.out(list(result))
    if not runs:
        return
    ctx.check(len(calls) == 1, 'a command is started once')
    call = calls[0]
    ctx.check(list(call['args']) == list(argv) and not call['shell'] and call['executable'] in (None, argv[0]),
              'the program receives exactly the given arguments')
    ctx.check(call['cwd'] == expected['cwd'], 'the program runs in the given directory')
    ctx.check((given if call['env'] is None else call['env']) == expected['env'],
              'the program receives exactly the given variables')
    if outcome == 'code':
        ctx.check(call['data'] == expected['data'], 'the program receives exactly the given data')
        ctx.check((call['stdin'] == -1) == (expected['data'] is not None), 'the program receives exactly the given data')
    if part == 'fail':
        for s in ('stdout', 'stderr'):
            if s in kw and kw[s] is not None:
                ctx.check(call[s] == kw[s], 'the output goes where asked')
        if kw.get('stdin') is not None and data is None:
            ctx.check(call['stdin'] == kw['stdin'], 'the input comes from where asked')
