import json
import hlib

FORMULA = '''
from ipkg.build import Formula

class thing(Formula):
    name = %r
    version = %r
    revision = %r
    sources = 's'
    platform = %r
'''
BASES = ['/r', '/r/', 'http://h/r']


def fits(sel, v):
    if sel is None:
        return True
    o, w = sel
    if o == '==':
        return v == w
    if o == '!=':
        return v != w
    if o == '>=':
        return v >= w
    return v < w


def newest_first(ctx, got):
    """got: (version, revision) numbers"""
    for a, b in zip(got, got[1:]):
        ctx.check(a >= b, 'the results are newest first')


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.repositories import PackageRepository, FormulaRepository, RequirementNotFound
    part = ctx.choice('part', ['packages', 'platforms', 'names', 'formulas', 'many'])
    ctx.reach(part)
    sel = None
    if part == 'formulas':
        base = ctx.root + '/f'
        vs = ctx.choice('vs', [[('1.0', 1), ('1.10', 1), ('1.9', 2)],
                               [('1.9', 10), ('1.10', 1), ('1.9', 2)]])
        special = ctx.int('special', 0, 2)
        plat = ctx.choice('p', [None, 'any', 'osx-1-x'])
        for i, (v, r) in enumerate(vs):
            ctx.mkfile('%s/foo/foo-%s%s.py' % (base, v, '' if i == 0 else '-' + str(i)),
                       FORMULA % ('foo', v, r, plat if i == special else None))
        if ctx.choice('other', [False, True]):
            ctx.mkfile(base + '/README', 'hello')
            ctx.mkfile(base + '/foo/notes.txt', 'hello')
        else:
            ctx.mkfile(base + '/bar/bar-1.0.py', FORMULA % ('bar', '1.0', 1, None))
        if special == 0:
            ctx.any_listdir()
        repo = FormulaRepository(base)
        want = [(v, r) for i, (v, r) in enumerate(vs)]
        req = ctx.choice('req', ['foo', 'foo>1.0', 'foo==1.9', 'any:foo', 'baz'])
        got = repo.find(req)
        ctx.out([(c.version, c.revision) for c in got])
        want = []
        for c in repo.meta['foo']:
            ok = True
            if req == 'baz':
                ok = False
            if req == 'foo>1.0':
                ok = c.version != '1.0'
            if req == 'foo==1.9':
                ok = c.version == '1.9'
            if req != 'any:foo' and c.platform == 'osx-1-x':
                ok = False
            if ok:
                want.append(c)
        ctx.check(len(repo.meta['foo']) == len(vs), 'a formula repository has all its formulas')
        ctx.check(len(got) == len(want), 'a lookup returns exactly the matching entries')
        for c in want:
            ctx.check(len([g for g in got if g is c]) == 1, 'a lookup returns each entry once')
        rank = {'1.0': 0, '1.9': 1, '1.10': 2}
        newest_first(ctx, [(rank[c.version], c.revision) for c in got])
        try:
            first = repo[req]
        except RequirementNotFound:
            ctx.check(not got, 'indexing finds what a lookup finds')
        else:
            ctx.check(len(got) > 0 and first is got[0], 'indexing returns the first result')
        return
    base = ctx.root + '/r' if part != 'packages' else ctx.root + ctx.choice('base', ['/r', '/r/'])
    n = 6 if part == 'many' else ctx.int('n', 0, 3)
    if part == 'many':
        # more entries, in any of a few orders
        pool = [('1', '1'), ('1', '2'), ('1', '10'), ('2', '1'), ('2', '9'), ('3', '1')]
        shift = ctx.int('shift', 0, 5)
        step = ctx.choice('step', [1, 5])
        pool = [pool[(shift + step * i) % 6] for i in range(6)]
    entries = []
    # packages of several platforms have the same version and revision
    same = part == 'platforms' and ctx.choice('same', [False, True])
    for i in range(n):
        e = hlib.meta('foo')
        if part == 'packages':
            e['version'] = ctx.text('v%d' % i, 1, '123', 1)
            e['revision'] = ctx.text('r%d' % i, 2, '12', 1)
        elif part == 'many':
            e['version'], e['revision'] = pool[i]
        elif part == 'platforms':
            e['platform'] = '-'.join([ctx.choice('p%d' % i, ['debian', 'any'] + ['osx'] * (i < 2)),
                                      ctx.choice('q%d' % i, ['7.0', 'any', '8']), 'x86_64'])
            e['revision'] = '1' if same else str(i)
        else:
            e['name'] = ctx.choice('n%d' % i, ['foo', 'bar', 'baz-1'])
            e['revision'] = str(i)
        entries.append(e)
    for i in range(n):
        for j in range(i):
            # one entry per package file
            ctx.assume(entries[i] != entries[j])
    index = {}
    for e in entries:
        if e['name'] not in index:
            index[e['name']] = []
        index[e['name']].append(e)
    from ipkg.utils import DictFile
    if part != 'packages' or ctx.choice('saved', [False, True]):
        ctx.mkfile(base + ('' if base[-1] == '/' else '/') + 'repository.json', json.dumps(index))
        repo = PackageRepository(base)
    else:
        repo = PackageRepository(base)
        repo.meta.update(index)
    name = 'foo'
    text = 'foo'
    plat = hlib.PLATFORM
    if part in ('packages', 'many'):
        if ctx.choice('sel', [False, True]):
            sel = (ctx.choice('op', ['==', '>=', '<', '!=']), ctx.text('sv', 1, '123', 1))
            text += sel[0] + sel[1]
    elif part == 'platforms':
        plat = ctx.choice('plat', [hlib.PLATFORM, 'debian-7.0-x86_64', 'any', 'osx-any-x86_64'])
        if ctx.choice('explicit', [False, True]):
            text = plat + ':' + text
        else:
            plat = hlib.PLATFORM
    else:
        name = ctx.choice('name', ['foo', 'bar', 'baz-1', 'fo', 'baz'])
        text = name
    if plat == 'any':
        plat = 'any-any-any'
    want = []
    for e in entries:
        ok = e['name'] == name and fits(sel, e['version'])
        for a, b in zip(e['platform'].split('-'), plat.split('-')):
            ok = ok and (a == b or a == 'any' or b == 'any')
        if ok:
            want.append(e)
    kind = ctx.choice('as', ['text', 'object']) if part == 'names' else 'text'
    req = text
    if kind == 'object':
        from ipkg.requirements import Requirement
        req = Requirement(text)
    got = repo.find(req)
    ctx.out([(p.version, p.revision) for p in got])
    ctx.check(len(got) == len(want), 'a lookup returns exactly the matching entries')
    for e in want:
        ctx.check(len([p for p in got if p.meta == e]) == 1, 'a lookup returns each matching entry once')
    newest_first(ctx, [(int(p.version.split('.')[0]), int(p.revision)) for p in got])
    sep = '' if base[-1] == '/' else '/'
    for p in got:
        ctx.check(p.path == base + sep + p.name + '/' + p.name + '-' + p.version + '-' + p.revision + '-' +
                  p.platform + '.ipkg', 'an entry refers to its package file')
    try:
        first = repo[req]
    except RequirementNotFound:
        ctx.out('none')
        ctx.check(not want, 'indexing finds what a lookup finds')
    else:
        ctx.check(len(want) > 0, 'indexing finds nothing when nothing matches')
        ctx.check(first.meta == got[0].meta and first.path == got[0].path, 'indexing returns the first result')
    # the whole repository
    ctx.check(len(list(repo)) == n, 'a repository iterates over all its entries')
