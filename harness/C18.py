import hlib


def without(l, items):
    return [x for x in l if x not in items]


def harness(ctx):
    part = ctx.choice('part', ['vars', 'environ', 'execute', 'print'])
    ctx.reach(part)
    system = 'Linux'
    if part in ('vars', 'environ'):
        system = ctx.choice('system', ['Linux', 'Darwin'])
    ctx.platform(system, 'debian', '7.0', 'x86_64')
    prefix = ctx.root + '/env'
    lib = 'LD_LIBRARY_PATH'
    other = 'DYLD_LIBRARY_PATH'
    if system == 'Darwin':
        lib, other = other, lib
    own = {'PATH': [prefix + '/sbin', prefix + '/bin'], 'C_INCLUDE_PATH': [prefix + '/include'],
           'MANPATH': [prefix + '/share/man'], 'PKG_CONFIG_PATH': [prefix + '/lib/pkgconfig'],
           lib: [prefix + '/lib']}
    if part in ('vars', 'environ'):
        defaults = {}
        # one list variable with free entries, the others from a few shapes
        which = ctx.choice('which', ['PATH', 'C_INCLUDE_PATH', 'MANPATH', 'PKG_CONFIG_PATH', lib])
        entries = []
        for i in range(ctx.choice('n', [0, 1, 2, 3])):
            kind = ctx.choice('k%d' % i, ['free', 'own', 'other'])
            if kind == 'free':
                entries.append(ctx.text('e%d' % i, 2, '/ab', 0 if i else 1))
            elif kind == 'own':
                entries.append(own[which][ctx.choice('o%d' % i, [0, -1])])
            else:
                entries.append(prefix + ctx.choice('x%d' % i, ['', '/bin/x', '/li', '/sbin']))
        if entries:
            defaults[which] = ':'.join(entries)
        elif ctx.bool('empty'):
            defaults[which] = ''
        for name in own:
            if name != which and name not in defaults and ctx.thorough:
                d = ctx.choice('d.' + name, [None, '/x:/y'])
                if d is not None:
                    defaults[name] = d
        free, value, others = 'LDFLAGS', '-L/x:y', False
        if len(entries) < 2:
            free = ctx.choice('free', ['FOO', 'LDFLAGS', 'CFLAGS', 'LANG', 'ipkg'] if entries else
                              ['FOO', 'LDFLAGS', 'ipkg', 'IPKG_CACHE', 'IPKG_', '_', 'LD_PRELOAD', 'XPATH', 'PATH_',
                               'MANPATHS', 'PYTHONPATH', 'LIBRARY_PATH', 'TEMP', 'TMP', 'DYLD_X'])
            value = ctx.text('value', 3, 'a:%$ =/')
            others = ctx.bool('others')
        defaults[free] = value
        if others:
            defaults['TMPDIR'] = '/tmp'
            defaults['IPKG_ENVIRONMENT'] = '/elsewhere'
            defaults['PS1'] = '$ '
            defaults[other] = '/z'
        if part == 'environ':
            ctx.environ(defaults)
        else:
            ctx.environ({'HOME': '/h', 'PATH': '/never', 'NEVER': '1'})
        from ipkg.environments import EnvironmentVariables, EnvironmentDirectories, Environment
        if part == 'environ':
            v = Environment(prefix).variables
        else:
            v = EnvironmentVariables(EnvironmentDirectories(prefix), defaults)
        s = v.as_string_dict()
        ctx.out(s)
        for name in own:
            before = defaults.get(name)
            if before is None or before == '':
                before = []
            else:
                before = before.split(':')
            if name == 'MANPATH' and name not in defaults:
                before = ['/usr/share/man']
            want = own[name] + without(before, own[name])
            ctx.check(s[name] == ':'.join(want),
                      '%s starts with the directory of the environment and keeps the rest' % (
                          'the library path' if name == lib else name))
        ctx.check(s[free] == value, 'a variable ipkg does not manage keeps its value')
        if other in defaults:
            ctx.check(s[other] == '/z', 'a variable ipkg does not manage keeps its value')
        ctx.check(s['IPKG_ENVIRONMENT'] == prefix, 'IPKG_ENVIRONMENT is the prefix')
        ctx.check(s['TMPDIR'] == prefix + '/tmp', 'TMPDIR is the tmp directory')
        ctx.check('NEVER' not in s, 'variables start from the given defaults')
        return
    # running commands, printing
    a = ctx.text('a', 3, 'ab:= %')
    defaults = {'PATH': '/bin:/usr/bin', 'A': a, 'HOME': '/h'}
    ctx.environ(defaults)
    calls = []

    class Popen(hlib.FakePopen):
        def start(self, command, kw):
            calls.append((command, kw))
    ctx.patch('subprocess', 'Popen', Popen)
    from ipkg.environments import Environment
    env = hlib.make_env(ctx, prefix)
    if ctx.bool('added'):
        env.variables.add('B', 'b')
    expected = env.variables.as_string_dict()
    ctx.check(expected['A'] == a, 'a variable ipkg does not manage keeps its value')
    if part == 'execute':
        env.execute(['cmd', 'x'], stdout=None, stderr=None, stdin=None)
        ctx.check(len(calls) == 1, 'the command runs once')
        got = calls[0][1].get('env')
        ctx.check(got is not None, 'the command gets the variables of the environment')
        ctx.check(dict(got) == expected, 'the command gets exactly the variables of the environment')
        ctx.check(calls[0][0] == ['cmd', 'x'], 'the command gets its arguments')
    else:
        export = ctx.bool('export')
        text = env.variables.as_string(export=True) if export else env.variables.as_string()
        if not export and ctx.bool('str'):
            text = str(env.variables)
        pre = 'export ' if export else ''
        lines = text.split('\n')
        ctx.check(lines[-1] == '', 'the printed form ends with a line end')
        lines = lines[:-1]
        ctx.out(sorted(lines))
        ctx.check(len(lines) == len(expected), 'each variable is printed once')
        for n in expected:
            want = pre + n + '=' + expected[n]
            ctx.check(want in lines, 'each variable is printed as NAME=value')
