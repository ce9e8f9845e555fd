import os
import json
import tarfile
import hlib


def read(path):
    f = open(path)
    data = f.read()
    f.close()
    return data


def escapes(name):
    return name.startswith('/') or os.path.normpath(name).split('/')[0] == '..'


def is_meta(name):
    return os.path.normpath(name) == '.ipkg.meta'


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.environments import Environment
    from ipkg.exceptions import IpkgException
    prefix = ctx.root + '/p/env'
    ctx.mkdir(ctx.root + '/p')
    env = hlib.make_env(ctx, prefix)
    env.meta.save()
    # the world outside
    out = ctx.root + '/p/out'
    ctx.mkfile(out + '/secret', '#!/build/x', 0640)
    ctx.mkfile(out + '/d/deep', 'deep', 0600)
    ctx.mkfile(ctx.root + '/p/a', 'neighbour')
    ctx.mkfile(ctx.root + '/p/envy', 'neighbour')
    files = []
    members = []
    must_refuse = False
    other = hlib.meta('other', '1', '1', files=['bin/o'])
    hlib.package(ctx, ctx.root + '/o.ipkg', other, [('bin/o', 'file', 'o')])
    env.install(ctx.root + '/o.ipkg')
    part = ctx.choice('part', ['name', 'through', 'hard', 'files', 'before', 'alias'])
    ctx.reach(part)
    if part == 'name':
        kind = ctx.choice('kind', ['file', 'link', 'dir', 'hard'])
        beg = ctx.choice('beg', ['', 'bin/', '../env', 'x/../../', out + '/', '.ipkg.meta', './', 'out'])
        name = beg + ctx.text('name', 4, './a')
        ctx.assume(name != '')
        members.append((name, kind, {'file': 'EVIL', 'link': '../out', 'dir': None, 'hard': 'bin/o'}[kind]))
        if ctx.choice('listed', [False, True]):
            files.append(name)
        must_refuse = escapes(name) or is_meta(name) and name != '.ipkg.meta'
        if name == '.ipkg.meta':
            ctx.reject()
    elif part == 'through':
        target = ctx.choice('target', ['../out', out, out + '/secret', '../out/d', '.', '..', '/', 'bin',
                                       '../a', '../envy', '../out/new', '.ipkg.meta', 'm', '../env'])
        where = ctx.choice('where', ['l', 'bin/l', './l'])
        if where == 'bin/l' and not target.startswith('/'):
            target = '../' + target
        members.append((where, 'link', target))
        tail = ctx.choice('tail', ['', '/secret', '/d', '/d/deep', '/new/x', '/.ipkg.meta', '/a', '/out/secret'])
        kind = ctx.choice('kind', ['file', 'link', 'dir', 'hard'])
        value = {'file': 'EVIL', 'link': 'x', 'dir': None, 'hard': 'bin/o'}[kind]
        members.append((os.path.normpath(where) + tail, kind, value))
        if ctx.choice('order', [False, True]):
            members = [members[1], members[0]]
        files = [m[0] for m in members] if ctx.choice('listed', [False, True]) else []
        if tail == '' and kind == 'link':
            ctx.reject()
    elif part == 'hard':
        source = ctx.choice('source', ['../out/secret', out + '/secret', 'l', 'l/secret', '.ipkg.meta',
                                       './.ipkg.meta', 'bin/o', 'm/.ipkg.meta', 'bin/../../out/secret'])
        members.append(('l', 'link', ctx.choice('l', ['../out', out + '/secret', '../out/secret'])))
        members.append(('m', 'link', '.'))
        name = ctx.choice('name', ['h', 'bin/h'])
        members.append((name, 'hard', source))
        # writes, and changes the mode, of what the hard link names
        if ctx.choice('again', [False, True]):
            members.append((name, ctx.choice('k', ['file', 'dir']), 'EVIL'))
        files = [m[0] for m in members] if ctx.choice('listed', [False, True]) else [name]
    elif part == 'files':
        beg = ctx.choice('beg', ['', '../', 'bin/../../', out + '/', ctx.root + '/p/', '../out/', 'bin/'])
        name = beg + ctx.choice('s', ['', 'secret', 'out/secret', 'd/deep', 'out/d/deep']) \
            if ctx.choice('known', [False, True]) else beg + ctx.text('name', 3, './ao', 1)
        ctx.assume(name != '')
        files = [name, 'bin/x']
        members.append(('bin/x', 'file', '#!/build/x'))
    elif part == 'before':
        # links that were there before the package, made by the user or by another package
        where = ctx.choice('where', ['bin/l', 'l', 'lib/l', 'libx'])
        target = ctx.choice('target', [out, out + '/secret', '../../out', '../out'])
        if ctx.choice('by', ['user', 'package']) == 'user':
            os.symlink(target, os.path.abspath(prefix + '/' + where))
        else:
            m = hlib.meta('linker', files=[where])
            hlib.package(ctx, ctx.root + '/l.ipkg', m, [(where, 'link', target)])
            env.install(ctx.root + '/l.ipkg')
        name = where + ctx.choice('tail', ['', '/secret', '/d/deep', '/new', '/d/new', '/n/x'])
        kind = ctx.choice('kind', ['file', 'dir', 'link', None])
        if kind is not None:
            members.append((name, kind, {'file': '#!/build/x', 'dir': None, 'link': 'x'}[kind]))
        files = [name]
        if kind == 'dir' and ctx.choice('empty', [False, True]):
            files = []
    else:
        # other names of the metadata of the environment
        alias = ctx.choice('alias', ['m', 'bin/m'])
        members.append((alias, 'link', ctx.choice('to', ['.', '..', '.ipkg.meta', '../.ipkg.meta', prefix,
                                                         prefix + '/.ipkg.meta', '../env'])))
        # the metadata is written under another name first
        name = ctx.choice('way', [alias, '.', '']) + ctx.choice('tail', ['', '/.ipkg.meta', '/x', '/.ipkg.meta.tmp'])
        ctx.assume(name not in ('', '.'))
        if name[0] == '/':
            name = name[1:]
        kind = ctx.choice('kind', ['file', 'dir', 'link', 'hard'])
        members.append((name, kind, out + '/secret' if kind == 'link' and name[-1] == 'p' else 'bin/o'))
        if name == '.ipkg.meta':
            ctx.reject()
        files = [m[0] for m in members] if ctx.choice('listed', [False, True]) else []
    m = hlib.meta('evil', files=files)
    hlib.package(ctx, ctx.root + '/evil.ipkg', m, members)
    outside = {}
    mode = {}

    def world():
        out = {}
        snap = ctx.snapshot(ctx.root + '/p')
        md = ctx.modes(ctx.root + '/p')
        for p in snap:
            if p != 'env' and not p.startswith('env/'):
                out[p] = (snap[p], md.get(p))
        return out
    before = world()
    meta_before = read(prefix + '/.ipkg.meta')
    linked = os.path.islink(prefix)
    try:
        env.install(ctx.root + '/evil.ipkg')
        result = 'ok'
    except IpkgException:
        result = 'refused'
    except (OSError, IOError, tarfile.TarError):
        result = 'failed'
    ctx.out(result)
    ctx.check(world() == before, 'installing touches nothing outside the prefix')
    if must_refuse:
        ctx.check(result == 'refused', 'a package with a file outside the prefix is refused')
    ctx.check(os.path.isfile(prefix + '/.ipkg.meta') and not os.path.islink(prefix + '/.ipkg.meta'),
              'the environment keeps its metadata file')
    if result != 'ok':
        ctx.check(read(prefix + '/.ipkg.meta') == meta_before, 'a refused package leaves the metadata as it was')
    else:
        packages = json.loads(read(prefix + '/.ipkg.meta'))['packages']
        ctx.check('evil' in packages and packages['other'] == other, 'the metadata is the one of the environment')
        ctx.check(packages['evil']['files'] == files, 'the metadata is the one of the environment')
        Environment(prefix).uninstall('evil')
        ctx.check(world() == before, 'uninstalling touches nothing outside the prefix')
        packages = json.loads(read(prefix + '/.ipkg.meta'))['packages']
        ctx.check('evil' not in packages and packages['other'] == other,
                  'the metadata is the one of the environment')
