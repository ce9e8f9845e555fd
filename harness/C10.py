import os
import json
import hashlib
import tarfile
import StringIO
import hlib

KINDS = ['good', 'good2', 'text', 'empty', 'nometa', 'list', 'badjson', 'incomplete', 'dir', 'metadir', 'link', 'broken', 'linkdir',
         'gz', 'plain']


def name_of(meta):
    return '%s-%s-%s-%s.ipkg' % (meta['name'], meta['version'], meta['revision'], meta['platform'])


def raw_tar(path, content):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    tar = tarfile.open(path, 'w:bz2')
    hlib.add_member(tar, 'bin/x', 'file', 'x')
    if content == 'dir':
        hlib.add_member(tar, '.ipkg.meta', 'dir', None)
    elif content is not None:
        hlib.add_member(tar, '.ipkg.meta', 'file', content)
    tar.close()


def sha(path):
    f = open(path)
    data = f.read()
    f.close()
    return hashlib.sha256(data).hexdigest()


def put(ctx, base, i, kind, note):
    """Makes one entry of the package directory foo; returns its metadata if it is a package."""
    d = base + '/foo'
    m = hlib.meta('foo', '1.%d' % i)
    m['homepage'] = note
    if note is not None and kind == 'good':
        # whatever else a package says about itself
        m.update(ctx.choice('extra', [{}, {'checksum': 'stale'}, {'path': '/x', 'files': None}]))
    path = d + '/' + name_of(m)
    if kind in ('good', 'good2'):
        if kind == 'good2':
            m['platform'] = 'any-any-any'
            path = d + '/' + name_of(m)
        hlib.package(ctx, path, m, [('bin/f%d' % i, 'file', 'f')])
        return m, path
    if kind == 'link':
        # the file itself lies elsewhere
        hlib.package(ctx, ctx.root + '/pool/%d' % i, m, [('bin/f%d' % i, 'file', 'f')])
        os.symlink(ctx.root + '/pool/%d' % i, path)
        return m, path
    if kind in ('gz', 'plain'):
        hlib.package(ctx, path, m, [('bin/f%d' % i, 'file', 'f')], mode={'gz': 'w:gz', 'plain': 'w'}[kind])
        return m, path
    if kind == 'text':
        ctx.mkfile(path, 'hello world')
    elif kind == 'broken':
        os.symlink('nowhere', path)
    elif kind == 'linkdir':
        ctx.mkfile(ctx.root + '/pool/dir/x', 'y')
        os.symlink(ctx.root + '/pool/dir', path)
    elif kind == 'empty':
        ctx.mkfile(path, '')
    elif kind == 'nometa':
        raw_tar(path, None)
    elif kind == 'list':
        raw_tar(path, '[1]')
    elif kind == 'badjson':
        raw_tar(path, '{')
    elif kind == 'incomplete':
        raw_tar(path, '{"name": "foo"}')
    elif kind == 'metadir':
        raw_tar(path, 'dir')
    else:
        ctx.mkfile(path + '/x', 'y')
    return None, path


def compare(ctx, repo, want, what):
    """want: [(meta, path)]"""
    got = []
    for p in repo:
        got.append(p)
    ctx.check(len(got) == len(want), what + ' has one entry for each package file')
    for m, path in want:
        found = [p for p in got if p.path == path]
        ctx.check(len(found) == 1, what + ' lists each package file once')
        entry = dict(found[0].meta)
        ctx.check(entry.pop('checksum', None) == sha(path), what + ' has the checksum of the file')
        m = dict(m)
        m.pop('checksum', None)
        ctx.check(entry == m, what + ' has the metadata stored in the file')


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.repositories import LocalPackageRepository, PackageRepository
    from ipkg.packages import PackageFile
    base = ctx.root + '/repo'
    part = ctx.choice('part', ['update', 'twice', 'add', 'root', 'lookup'])
    ctx.reach(part)
    want = []
    ctx.mkdir(base + '/foo')
    if part == 'update':
        n = ctx.int('n', 0, 3)
        for i in range(n):
            m, path = put(ctx, base, i, ctx.choice('k%d' % i, KINDS if i < 1 or ctx.thorough else
                                                   ['good', 'good2', 'text', 'nometa', 'incomplete']),
                          (ctx.text('note', 3, 'a"\\') if n < 2 else 'a"') if i == 0 else None)
            if m is not None:
                want.append((m, path))
        ctx.any_listdir()
        repo = LocalPackageRepository(base)
        repo.update_metadata()
        compare(ctx, repo, want, 'the updated index')
    elif part == 'twice':
        m0, p0 = put(ctx, base, 0, 'good', None)
        m1, p1 = put(ctx, base, 1, 'good', None)
        repo = LocalPackageRepository(base)
        repo.update_metadata()
        want = [(m0, p0), (m1, p1)]
        if ctx.choice('reopen', [False, True]):
            repo = LocalPackageRepository(base)
        change = ctx.choice('change', ['none', 'remove', 'removeall', 'new', 'content', 'spoil', 'othername'])
        if change == 'remove':
            os.unlink(p0)
            want = want[1:]
        elif change == 'removeall':
            os.unlink(p0)
            os.unlink(p1)
            want = []
        elif change == 'new':
            want.append(put(ctx, base, 2, 'good', None))
        elif change == 'content':
            m0['homepage'] = 'new'
            hlib.package(ctx, p0, m0, [('bin/f0', 'file', 'changed')])
        elif change == 'spoil':
            ctx.mkfile(p0, 'spoilt')
            want = want[1:]
        elif change == 'othername':
            m = hlib.meta('bar', '3')
            want.append((m, hlib.package(ctx, base + '/bar/' + name_of(m), m)))
        repo.update_metadata()
        compare(ctx, repo, want, 'the index updated again')
    elif part == 'add':
        m0, p0 = put(ctx, base, 0, 'good', None)
        m1, p1 = put(ctx, base, 1, 'good', None)
        repo = LocalPackageRepository(base)
        start = ctx.choice('start', ['empty', 'both', 'one'])
        if start != 'empty':
            repo.add(p0)
            want.append((m0, p0))
        if start == 'both':
            repo.add(p1)
            want.append((m1, p1))
        if ctx.choice('change', [False, True]):
            m0['homepage'] = 'new'
            m0['files'] = ['bin/g']
            hlib.package(ctx, p0, m0, [('bin/g', 'file', 'g')])
        repo.add(p0 if ctx.choice('as', ['path', 'file']) == 'path' else PackageFile(p0))
        if start == 'empty':
            want.append((m0, p0))
        repo.meta.save()
        compare(ctx, repo, want, 'the index after adding')
    elif part == 'root':
        # other things at the root of the repository
        want.append(put(ctx, base, 0, 'good', None))
        for i in range(2):
            what = ctx.choice('w%d' % i, ['file', 'emptydir', 'pkgfile', 'index', 'nested', 'otherdir', 'none', 'aside'])
            if what == 'file':
                ctx.mkfile(base + '/README', 'x')
            elif what == 'emptydir':
                ctx.mkdir(base + '/empty')
            elif what == 'pkgfile':
                m = hlib.meta('bar', '3')
                hlib.package(ctx, base + '/' + name_of(m), m)
            elif what == 'index':
                ctx.mkfile(base + '/repository.json', json.dumps({'old': [hlib.meta('old')]}))
            elif what == 'nested':
                m = hlib.meta('bar', '3')
                hlib.package(ctx, base + '/foo/deep/' + name_of(m), m)
            elif what == 'aside':
                # the directory of a package lies elsewhere
                m = hlib.meta('baz', '3')
                hlib.package(ctx, ctx.root + '/pool/baz/' + name_of(m), m)
                if not os.path.lexists(base + '/baz'):
                    os.symlink(ctx.root + '/pool/baz', base + '/baz')
                path = base + '/baz/' + name_of(m)
                want = [w for w in want if w[1] != path] + [(m, path)]
            elif what == 'otherdir':
                m = hlib.meta('bar', '3')
                path = hlib.package(ctx, base + '/bar/' + name_of(m), m)
                want = [w for w in want if w[1] != path] + [(m, path)]
        repo = LocalPackageRepository(base)
        repo.update_metadata()
        compare(ctx, repo, want, 'the index')
    else:
        metas = []
        n = 2
        for i in range(n):
            m = hlib.meta('foo', ctx.text('v%d' % i, 2, '12', 1), str(i))
            path = base + '/foo/' + name_of(m)
            hlib.package(ctx, path, m)
            metas.append((m, path))
        repo = LocalPackageRepository(base)
        how = ctx.choice('how', ['update', 'add'])
        if how == 'update':
            repo.update_metadata()
        else:
            for m, path in metas:
                repo.add(path)
            repo.meta.save()
        want = metas
        req = 'foo' + ctx.choice('op', ['==', '>', '<=']) + ctx.text('sv', 2, '12', 1)
        again = PackageRepository(base)
        a = [p.path for p in repo.find(req)]
        b = [p.path for p in again.find(req)]
        ctx.out(len(a))
        ctx.check(a == b, 'the saved index gives the same lookups')
        compare(ctx, repo, want, 'the index')
    compare(ctx, PackageRepository(base), want, 'the saved index')
    ctx.out(len(want))
    for m, path in want:
        ctx.check(os.path.isfile(path), 'package files are kept')
