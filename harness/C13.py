import os
import json
import hlib


def read(path):
    """The saved content, read without the code under test; None when unreadable."""
    if not os.path.exists(path):
        return {}
    f = open(path)
    raw = f.read()
    f.close()
    if raw == '':
        return {}
    try:
        return json.loads(raw)
    except ValueError:
        return None


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    mode = ctx.choice('mode', ['crash', 'error'])
    part = ctx.choice('part', ['dict', 'config', 'install', 'uninstall', 'update', 'add', 'upgrade'])
    ctx.reach(part)
    prefix = ctx.root + '/env'
    if part == 'dict':
        from ipkg.utils import DictFile
        path = ctx.root + '/d.json'
        d = DictFile(path)
        if ctx.bool('old'):
            d['a'] = ctx.choice('oldv', ['x', 'x' * 30])
            d.save()
        before = dict(d)
        d['a'] = ctx.text('newv', 2, 'ab"')
        d['b'] = ['c']
        after = dict(d)
        op = d.save
    elif part in ('config', 'install', 'uninstall', 'upgrade'):
        from ipkg.environments import Environment
        env = hlib.make_env(ctx, prefix)
        path = prefix + '/.ipkg.meta'
        one = hlib.package(ctx, ctx.root + '/one.ipkg', hlib.meta('one', files=['bin/one']),
                           [('bin/one', 'file', 'echo one')])
        env.install(one)
        before = read(path)
        after = json.loads(json.dumps(before))
        two = hlib.meta('two', files=['bin/two', 'share/d/x'])
        twop = hlib.package(ctx, ctx.root + '/two.ipkg', two,
                            [('bin/two', 'file', '#!/bin/sh'), ('share/d/x', 'file', 'x')])
        new = hlib.meta('one', '2.0', files=['bin/one2'])
        newp = hlib.package(ctx, ctx.root + '/one2.ipkg', new, [('bin/one2', 'file', 'echo two')])
        between = None
        if part == 'config':
            after['config']['k'] = 'v'

            def op():
                env.set_config('k', 'v')
        elif part == 'install':
            after['packages']['two'] = two

            def op():
                env.install(twop)
        elif part == 'uninstall':
            del after['packages']['one']

            def op():
                env.uninstall('one')
        else:
            between = json.loads(json.dumps(before))
            del between['packages']['one']
            after['packages']['one'] = new

            def op():
                env.install(newp)
    else:
        from ipkg.repositories import LocalPackageRepository
        base = ctx.root + '/repo'
        path = base + '/repository.json'
        for n in ('a', 'b'):
            hlib.package(ctx, '%s/%s/%s-1.0-1-%s.ipkg' % (base, n, n, hlib.PLATFORM),
                         hlib.meta(n))
        repo = LocalPackageRepository(base)
        if ctx.bool('old'):
            repo.update_metadata()
        before = read(path)
        hlib.package(ctx, '%s/a/a-2.0-1-%s.ipkg' % (base, hlib.PLATFORM), hlib.meta('a', '2.0'))
        again = LocalPackageRepository(base)
        if part == 'update':
            op = again.update_metadata
            names = {'a': ['1.0', '2.0'], 'b': ['1.0']}
        else:
            def op():
                again.add('%s/a/a-2.0-1-%s.ipkg' % (base, hlib.PLATFORM))
                again.meta.save()
            names = {'a': ['2.0']}
            for n in before:
                names.setdefault(n, [])
                names[n] = names[n] + [m['version'] for m in before[n]]
        after = None
    result, value = ctx.fault('fault', op, mode, 60)
    ctx.out(result)
    if not ctx.fired:
        ctx.check(result == 'ok', 'saving works')
    ctx.restart()
    got = read(path)
    ctx.check(got is not None, 'the saved metadata is readable after an interrupted save')
    ctx.out(sorted(got.keys()))
    if after is None:
        # the new index: the right packages
        new = {}
        for n in got:
            new[n] = sorted([m['version'] for m in got[n]])
        want = {}
        for n in names:
            want[n] = sorted(names[n])
        ctx.check(got == before or new == want,
                  'an interrupted save leaves the old or the new index')
        if result == 'ok':
            ctx.check(new == want, 'a successful save leaves the new index')
    else:
        ok = got == before or got == after
        if part == 'upgrade':
            ok = ok or got == between
        ctx.check(ok, 'an interrupted save leaves the complete old or the complete new content')
        if result == 'ok':
            ctx.check(got == after, 'a successful save leaves the new content')
    # and the code itself reads it
    from ipkg.utils import DictFile
    ctx.check(dict(DictFile(path)) == got, 'the saved metadata can be opened again')
    if part in ('install', 'uninstall', 'config', 'upgrade'):
        from ipkg.environments import Environment
        env = Environment(prefix)
        if part in ('install', 'config'):
            ctx.check('one' in [p.name for p in env.packages],
                      'the record of installed packages survives')
