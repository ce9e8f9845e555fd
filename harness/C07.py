import hlib


class Fake(object):
    def __init__(self, name, version, revision):
        self.name = name
        self.version = version
        self.revision = revision


def harness(ctx):
    hlib.world(ctx)
    part = ctx.choice('part', ['roundtrip', 'equal', 'file', 'bad'])
    ctx.reach(part)
    big = 8 if ctx.thorough else 4
    from ipkg.utils import make_package_spec, parse_package_spec
    from ipkg.packages import MetaPackage, make_filename
    from ipkg.exceptions import InvalidPackage
    if part == 'roundtrip':
        name = ctx.text('n', big, 'aZ0_-', 1)
        give = ctx.choice('give', ['name', 'version', 'all', 'object', 'number', 'numbered'])
        version = None
        revision = None
        if give != 'name':
            version = ctx.text('v', big, '1b.-_', 1)
        if give in ('all', 'object'):
            revision = ctx.text('r', 3, '1a_', 1)
        elif give in ('number', 'numbered'):
            revision = ctx.int('rn', 0, 20)
        if give in ('object', 'numbered'):
            spec = make_package_spec(Fake(name, version, revision))
        else:
            d = {'name': name}
            if version is not None or ctx.choice('explicit', [False, True]):
                d['version'] = version
            if revision is not None or ctx.choice('explicitr', [False, True]):
                d['revision'] = revision
            spec = make_package_spec(d)
        ctx.out(spec)
        got = parse_package_spec(spec)
        ctx.check(got['name'] == name, 'the name is kept')
        ctx.check(got['version'] == version, 'the version is kept')
        ctx.check(got['revision'] == (None if revision is None else str(revision)),
                  'the revision is kept')
    elif part == 'equal':
        vary = ctx.choice('vary', ['name', 'version', 'revision'])
        a = ['p', '1', '1']
        b = ['p', '1', '1']
        i = ['name', 'version', 'revision'].index(vary)
        alpha = ['aZ0_-', '1b.-_', '1a_'][i]
        a[i] = ctx.text('a', big, alpha, 1)
        b[i] = ctx.text('b', big, alpha, 1)
        n = ctx.choice('parts', [1, 2, 3])
        if n == 3:
            spec = make_package_spec(Fake(*b))
        else:
            spec = make_package_spec(dict(zip(['name', 'version'], b[:n])))
        x = MetaPackage({'name': a[0], 'version': a[1], 'revision': a[2]})
        got = x == spec
        ctx.out(bool(got))
        ctx.check(bool(got) == (a[:n] == b[:n]), 'a spec equals the packages it names and no other')
        ctx.check(bool(x != spec) == (not got), '!= is the negation of ==')
    elif part == 'file':
        from ipkg.regex import PACKAGE_FILE
        name = ctx.text('n', 5 if ctx.thorough else 3, 'aZ0_-', 1)
        version = ctx.text('v', 3, '1b._', 1)
        revision = ctx.text('r', 1, '1a_', 1)
        plat = ctx.choice('p', [['debian', '7.0', 'x86_64'], ['osx', '10.8', 'i386'], ['any', 'any', 'any']])
        f = make_filename(name=name, version=version, revision=revision, platform='-'.join(plat))
        ctx.out(f)
        ctx.check(f == name + '-' + version + '-' + revision + '-' + '-'.join(plat) + '.ipkg',
                  'the file name is made of name, version, revision and platform')
        m = PACKAGE_FILE.match(f)
        ctx.check(m is not None, 'package file names are recognised')
        d = m.groupdict()
        ctx.check([d['name'], d['version'], d['revision'], d['os_name'], d['os_release'], d['arch']] ==
                  [name, version, revision] + plat, 'package file names are recognised part by part')
        other = PACKAGE_FILE.match(f + ctx.choice('bad', ['x', '.ipkg.tmp', '/']))
        ctx.check(other is None, 'other files are not recognised')
    else:
        # texts which are no specs
        t = ctx.choice('beg', ['', 'p', 'p==1', 'p==1:2']) + ctx.text('t', 5 if ctx.thorough else 4, '=:/ 1a', 1)
        try:
            d = parse_package_spec(t)
        except InvalidPackage:
            ctx.out('refused')
            return
        back = d['name']
        if d['version'] is not None:
            back += '==' + d['version']
            if d['revision'] is not None:
                back += ':' + d['revision']
        ctx.out(back)
        ctx.check(back == t, 'a spec has no part that is ignored')
