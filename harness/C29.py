import os
import tarfile
import zipfile
import hlib


def archive(path, members):
    """members: (name, kind, content or target)"""
    if path.endswith('.zip'):
        z = zipfile.ZipFile(path, 'w')
        for name, kind, value in members:
            z.writestr(zipfile.ZipInfo(name), value if kind == 'file' else '')
        z.close()
    else:
        tar = tarfile.open(path, 'w:bz2' if path.endswith('bz2') else 'w:gz')
        for m in members:
            hlib.add_member(tar, *m)
        tar.close()


def parts_of(name):
    """The components of a path, None when it is absolute or goes up."""
    if name[:1] == '/':
        return None
    out = []
    cur = ''
    for c in name + '/':
        if c != '/':
            cur += c
            continue
        if cur == '..':
            return None
        if cur != '' and cur != '.':
            out.append(cur)
        cur = ''
    return out


def read(path):
    f = open(path, 'rb')
    data = f.read()
    f.close()
    return data


def unpack(ctx, path, members, shape=True):
    """Unpacks and compares with what the members say. shape: the members make a tree."""
    from ipkg.files import vopen
    from ipkg.utils import unarchive
    from ipkg.exceptions import IpkgException
    target = ctx.root + '/t/sources'
    ctx.mkdir(target)
    roots = []
    links = []
    inside = True
    for name, kind, value in members:
        for n in (value, name) if kind == 'hard' else (name,):
            parts = parts_of(n)
            if parts is None:
                inside = False
                continue
            if len(parts) and parts[0] not in roots:
                roots.append(parts[0])
            for link in links:
                if parts[:len(link)] == link:
                    # it can lead anywhere
                    shape = False
        if kind == 'link' and parts is not None:
            links.append(parts)
    good = inside and len(roots) == 1
    before = ctx.snapshot(ctx.root)
    try:
        result = unarchive(vopen(path), target)
    except IpkgException:
        ctx.out('refused')
        ctx.check(not (good and shape), 'an archive of one directory is unpacked')
        ctx.check(ctx.snapshot(ctx.root) == before, 'nothing is written when an archive is refused')
        return
    except (EnvironmentError, KeyError):
        if shape:
            raise
        result = None
        ctx.out('failed')
    after = ctx.snapshot(ctx.root)
    # nothing is changed outside of the target
    for p in set(before) | set(after):
        if p != 't/sources' and p[:10] != 't/sources/':
            ctx.check(before.get(p) == after.get(p), 'nothing is written outside of the target directory')
    if result is None:
        return
    ctx.out(result[len(target):])
    ctx.check(good, 'an archive with anything else than one top-level entry is refused')
    ctx.check(os.path.normpath(result) == target + '/' + roots[0], 'the path of the top-level entry is returned')
    if not shape:
        return
    for name, kind, value in members:
        p = target + '/' + '/'.join(parts_of(name))
        if kind == 'file':
            ctx.check(os.path.isfile(p) and read(p) == value, 'all members are extracted')
        elif kind == 'dir':
            ctx.check(os.path.isdir(p), 'all members are extracted')
        elif kind == 'link':
            ctx.check(os.path.islink(p) and os.readlink(p) == value, 'all members are extracted')
        else:
            ctx.check(read(p) == read(target + '/' + '/'.join(parts_of(value))), 'all members are extracted')


def conflict(a, b):
    """Two members which cannot both be files."""
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': ctx.root + '/bin', 'HOME': '/h'})
    ctx.mkfile(ctx.root + '/bin/xz', '')
    ctx.mkfile(ctx.root + '/out/x', 'outside')
    ctx.mkfile(ctx.root + '/t/x', 'above')
    commands = []

    def execute(command, *args, **kw):
        commands.append(command)
        return kw['data'], None
    ctx.patch('ipkg.utils', 'execute', execute)
    part = ctx.choice('part', ['paths', 'two', 'names', 'link', 'formats', 'bad', 'tree'])
    ctx.reach(part)
    root = ctx.root
    if part == 'paths':
        # one free path and an ordinary member
        ext = ctx.choice('ext', ['.tar.gz', '.zip'])
        name = ctx.text('name', 6 if ctx.thorough else 5, 'a./', 1)
        kind = ctx.choice('kind', ['file', 'dir'])
        parts = parts_of(name)
        if kind == 'file':
            # not a file
            ctx.assume(parts is None or len(parts) and name[-1] != '/' and name[-2:] != '/.')
        elif ext == '.zip':
            name += '/'
        members = [(name, kind, 'data' if kind == 'file' else None)]
        other = ctx.choice('other', [None, 'a/r', 'b', '..a/x', 'a'])
        if other is not None:
            p = parts_of(other)
            if kind == 'file':
                ctx.assume(parts is None or not conflict(parts, p))
            elif parts is not None:
                ctx.assume(parts[:len(p)] != p)
            members.insert(ctx.choice('at', [0, 1]), (other, 'file', 'other'))
        archive(root + '/s' + ext, members)
        unpack(ctx, root + '/s' + ext, members)
    elif part == 'two':
        # two short free paths
        a = ctx.text('a', 3, 'ab/', 1)
        b = ctx.text('b', 3, 'ab/', 1)
        pa, pb = parts_of(a), parts_of(b)
        ctx.assume(pa is None or len(pa))
        ctx.assume(pb is None or len(pb))
        ctx.assume(a[-1] != '/' and b[-1] != '/')
        ctx.assume(pa is None or pb is None or not conflict(pa, pb))
        members = [(a, 'file', '1'), (b, 'file', '2')]
        ext = ctx.choice('ext', ['.tar.bz2', '.zip'])
        archive(root + '/s' + ext, members)
        unpack(ctx, root + '/s' + ext, members)
    elif part == 'names':
        # any name of the archive itself
        name = ctx.choice('beg', ['', 's.', 's.tar.', 's.zip.', 'tar.', 's', '.tar', 's-1.2.3.4.5.tar.']) + ctx.text(
            'name', 3, '.gzipbx', 1)
        ctx.assume(name != '.' and name != '..' and name != 'a')
        known = name[-7:] == '.tar.gz' or name == 'tar.gz' or name[-8:] == '.tar.bz2' or name == 'tar.bz2' or \
            name[-7:] == '.tar.xz' or name == 'tar.xz' or name[-4:] == '.zip'
        path = root + '/n/' + name
        ctx.mkdir(root + '/n')
        members = [('a/x', 'file', 'x')]
        archive(path, members)
        if known and name != 'tar.gz' and name != 'tar.xz' and name != 'tar.bz2':
            unpack(ctx, path, members)
        elif not known:
            from ipkg.files import vopen
            from ipkg.utils import unarchive
            from ipkg.exceptions import IpkgException
            ctx.mkdir(root + '/t/sources')
            before = ctx.snapshot(root)
            try:
                unarchive(vopen(path), root + '/t/sources')
            except IpkgException:
                ctx.out('refused')
            else:
                ctx.check(False, 'an archive of an unknown type is refused')
            ctx.check(ctx.snapshot(root) == before, 'nothing is written when an archive is refused')
    elif part == 'link':
        # links which lead out of the target, or to other members
        lead = ctx.choice('lead', ['out', 'up', 'in', 'down', 'here', 'file', 'hard', 'hardlink', 'hardabs'])
        where = {'out': root + '/out', 'up': '../..', 'in': 'd', 'down': '../a/d', 'here': '.', 'file': root + '/t/x',
                 'hard': 'a/d/f', 'hardlink': 'a/k', 'hardabs': root + '/out/x'}[lead]
        name = ctx.choice('name', ['a/l', 'a', './a/l', 'a//l', 'a/d/../l', 'b/l', 'a/l/'])
        if lead[:4] == 'hard':
            if lead == 'hard' and ctx.choice('far', [False, True]):
                where = ctx.choice('where', ['../x', 'a/../../x', '/etc/passwd', '../../out/x'])
            members = [('a/d/f', 'file', 'f'), ('a/k', 'link', root + '/out/x'), (name, 'hard', where)]
        else:
            members = [('a/d/f', 'file', 'f'), (name, 'link', where)]
        if parts_of(name) == ['a']:
            members = members[1:]
        through = ctx.choice('through', [None, 'x', 'l/x', 'a/l/x', 'a/l', './a/l/x', 'a//l/x', 'a/l/d/x', 'b/l/x',
                                         'a/x', 'a/./l/x', 'a'])
        clean = name in ('a/l', './a/l', 'a//l') and lead[:4] != 'hard' or name == 'a/l' and lead == 'hard'
        if through is not None:
            kind = ctx.choice('kind', ['file', 'dir', 'link'])
            if parts_of(through) == ['a'] or parts_of(through) == parts_of(name) or lead == 'hard':
                clean = clean and parts_of(through) == ['a', 'x']
            members.append((through, kind, 'new' if kind != 'dir' else None))
            if ctx.choice('before', [False, True]):
                members.insert(0, members.pop())
                clean = clean and through == 'a/x'
        archive(root + '/s.tar.gz', members)
        unpack(ctx, root + '/s.tar.gz', members, clean)
    elif part == 'formats':
        ext = ctx.choice('ext', ['.tar.gz', '.tar.bz2', '.tar.xz', '.zip'])
        data = ctx.text('data', 3, 'a\n\0\xff')
        members = [('s-1.0/x', 'file', data), ('s-1.0/d/y', 'file', 'y')]
        for i in range(2):
            extra = ctx.choice('e%d' % i, [None, ('s-1.0/', 'dir', None), ('s-1.0/e/', 'dir', None),
                                           ('other', 'file', 'o'), ('s-1.0/.hidden', 'file', 'h'),
                                           ('S-1.0/x', 'file', 'o'), ('s-1.0/d/f.tar.gz', 'file', '')])
            if extra is not None:
                members.insert(ctx.choice('p%d' % i, [0, 1, 2]), extra)
        if ext != '.zip' and ctx.choice('empty', [False, True]):
            members = []
        path = root + '/' + (ctx.choice('base', ['s-1.0', 'S_1.0.2.0-rc.1+x', 'a b.zip'])
                             if len(members) == 2 else 's-1.0') + ext
        archive(path, members)
        was = ctx.choice('was', ['empty', 'other', 'same']) if len(members) < 4 else 'empty'
        if was == 'other':
            ctx.mkfile(root + '/t/sources/old/x', 'old')
        elif was == 'same':
            # sources of another time
            ctx.mkfile(root + '/t/sources/s-1.0/x', 'older')
            ctx.mkfile(root + '/t/sources/s-1.0/old', 'old')
        if ext == '.tar.xz' and ctx.choice('noxz', [False, True]):
            os.unlink(root + '/bin/xz')
            from ipkg.files import vopen
            from ipkg.utils import unarchive
            from ipkg.exceptions import IpkgException
            try:
                unarchive(vopen(path), root + '/t')
            except IpkgException:
                ctx.check(not commands, 'nothing runs without the tool')
            else:
                ctx.check(False, 'an xz archive is refused without the tool')
            return
        unpack(ctx, path, members)
        ctx.check(commands == (['xz -d -c'] if ext == '.tar.xz' else []), 'the right tool is used')
    elif part == 'bad':
        from ipkg.files import vopen
        from ipkg.utils import unarchive
        from ipkg.exceptions import IpkgException
        ext = ctx.choice('ext', ['.tar.gz', '.tar.bz2', '.tar.xz', '.zip'])
        ctx.mkfile(root + '/s' + ext, ctx.text('data', 3, 'PK\x1fB'))
        ctx.mkdir(root + '/t/sources')
        before = ctx.snapshot(root)
        try:
            unarchive(vopen(root + '/s' + ext), root + '/t/sources')
        except IpkgException:
            ctx.out('refused')
        else:
            ctx.check(False, 'a file which is not an archive is refused')
        ctx.check(ctx.snapshot(root) == before, 'nothing is written when an archive is refused')
    else:
        # a whole tree, in any order
        members = [('r/a', 'file', 'A'), ('r/d/b', 'file', 'B'), ('r/l', 'link', 'd/b'), ('r/e/c', 'file', 'C')]
        order = ctx.perm('order', range(4))
        members = [members[i] for i in order]
        top = ctx.choice('top', ['none', 'r', './r', './'])
        if top != 'none':
            members.insert(0, (top, 'dir', None))
        if top[:1] == '.':
            members = [(n if n[:1] == '.' else './' + n, k, v) for n, k, v in members]
        if ctx.choice('hard', [False, True]):
            members.append(('r/h', 'hard', members[[m[2] for m in members].index('A')][0]))
        archive(root + '/s.tar.bz2', members)
        unpack(ctx, root + '/s.tar.bz2', members)
