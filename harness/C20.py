import os
import hlib

NAMES = ['prefix', 'bin', 'sbin', 'include', 'lib', 'share', 'man', 'pkgconfig', 'tmp']


def expand(text, dirs):
    """%(name)s and %% replaced; the text itself when it is no valid template."""
    out = ''
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c != '%':
            out = out + c
            i = i + 1
            continue
        if i + 1 < n and text[i + 1] == '%':
            out = out + '%'
            i = i + 2
            continue
        if i + 1 < n and text[i + 1] == '(':
            j = i + 2
            while j < n and text[j] != ')' and text[j] != '(':
                j = j + 1
            if j + 1 < n and text[j] == ')' and text[j + 1] == 's':
                name = text[i + 2:j]
                for known in NAMES:
                    if name == known:
                        break
                else:
                    return text
                out = out + dirs[known]
                i = j + 2
                continue
        return text
    return out


def template(ctx, tag):
    kind = ctx.choice(tag + '.kind', ['free', 'name', 'two'])
    if kind == 'free':
        return ctx.text(tag + '.t', 6 if ctx.thorough else 5, '%()sdbinr 5')
    a = ctx.choice(tag + '.a', NAMES + ['nope', ''])
    pre = ctx.text(tag + '.pre', 2 if ctx.thorough else 1, '%/a')
    post = ctx.text(tag + '.post', 2 if ctx.thorough else 1, '%/as')
    t = pre + '%(' + a + ')s' + post
    if kind == 'two':
        t = t + '%(' + ctx.choice(tag + '.b', ['lib', 'nope']) + ctx.choice(tag + '.c', [')s', ')', ''])
    return t


def harness(ctx):
    hlib.world(ctx)
    prefix = ctx.root + '/env'
    ctx.environ({'PATH': '/bin', 'V': 'old', 'HOME': '/h'})
    from ipkg.environments import Environment, EnvironmentDirectories, EnvironmentVariables
    dirs = EnvironmentDirectories(prefix)
    part = ctx.choice('part', ['add', 'install', 'many'])
    ctx.reach(part)
    if part == 'add':
        t = template(ctx, 't')
        want = expand(t, dirs)
        v = EnvironmentVariables(dirs, {'PATH': '/bin'})
        if ctx.choice('how', ['pair', 'dict']) == 'pair':
            v.add('V', t)
        else:
            v.add({'V': t, 'W': 'w'})
            ctx.check(str(v['W']) == 'w', 'every variable of the package is added')
        ctx.out(str(v['V']))
        ctx.check(str(v['V']) == want, 'a package variable is expanded or kept')
        ctx.check(v.as_string_dict()['V'] == want, 'commands get the expanded variable')
        return
    env = hlib.make_env(ctx, prefix)
    if part == 'install':
        t = ctx.text('t', 3, '%s a') if ctx.bool('free') else \
            ctx.choice('t0', ['%(lib)s/x', '%(nope)s', '100%', '%s', 'plain', ''])
        want = expand(t, dirs)
        name = 'V'
        if t in ('plain', '%(lib)s/x'):
            # also those ipkg manages
            name = ctx.choice('name', ['V', 'PATH', 'C_INCLUDE_PATH', 'LD_LIBRARY_PATH', 'MANPATH',
                                       'PKG_CONFIG_PATH', 'HOME', 'PS1', 'NEW'])
        before = env.variables.as_string_dict().get(name)
        how = ctx.choice('how', ['file', 'package', 'repository', 'dependency'])
        pkg = hlib.package(ctx, ctx.root + '/repo/p/p-1.0-1-%s.ipkg' % hlib.PLATFORM, hlib.meta('p', envvars={name: t}))
        if how == 'file':
            env.install(pkg)
        elif how == 'package':
            from ipkg.packages import PackageFile
            env.install(PackageFile(pkg))
        else:
            from ipkg.repositories import LocalPackageRepository
            q = hlib.package(ctx, ctx.root + '/repo/q/q-1.0-1-%s.ipkg' % hlib.PLATFORM,
                             hlib.meta('q', dependencies=['p']))
            repository = LocalPackageRepository(ctx.root + '/repo')
            repository.update_metadata()
            env.install('p' if how == 'repository' else q, repository)
        ctx.check(str(env.variables[name]) == want, 'installing sets the variables of the package')
        again = Environment(prefix)
        ctx.out(str(again.variables[name]))
        ctx.check(str(again.variables[name]) == want,
                  'reopening gives the variables of installed packages')
        env.uninstall('p')
        ctx.check(Environment(prefix).variables.as_string_dict().get(name) == before,
                  'variables of uninstalled packages are gone after reopening')
        return
    # several packages, installed and removed in any order
    packages = ['p', 'q', 'r']
    for n in ctx.perm('order', packages):
        envvars = {'%sV' % n.upper(): '%(bin)s/' + n}
        if n == 'q':
            envvars = ctx.choice('qv', [None, {}, {'QV': '%(bin)s/q', 'Q2': '5%'}])
        env.install(hlib.package(ctx, ctx.root + '/%s.ipkg' % n, hlib.meta(n, envvars=envvars)))
    gone = ctx.choice('gone', [None, 'p', 'q', 'r'])
    if gone is not None:
        env.uninstall(gone)
    again = Environment(prefix)
    s = again.variables.as_string_dict()
    for n in packages:
        v = '%sV' % n.upper()
        if n == gone:
            ctx.check(v not in s, 'variables of uninstalled packages are gone after reopening')
        elif n != 'q' or v in env.variables:
            ctx.check(s.get(v) == prefix + '/bin/' + n,
                      'reopening gives the variables of installed packages')
    ctx.out(sorted(s.keys()))
