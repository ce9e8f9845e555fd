from pkg_resources import parse_version
import hlib


class Thing(object):
    def __init__(self, name, version, revision='1'):
        self.name = name
        self.version = version
        self.revision = revision
        self.dependencies = []


def wanted(ctx, a, b):
    """Dotted numbers compare as numbers (independently of parse_version)."""
    return a < b


def harness(ctx):
    hlib.world(ctx)
    part = ctx.choice('part', ['sort', 'recent', 'parser', 'numbers', 'select', 'extract'])
    ctx.reach(part)
    from ipkg import versions
    if part in ('sort', 'recent'):
        n = ctx.int('n', 1, 3)
        vs = [ctx.text('v%d' % i, 2 if n == 3 and not ctx.thorough else 3, '1.a-' if n < 3 else '1a', 1)
              for i in range(n)]
        if part == 'recent':
            got = versions.most_recent(vs)
            ctx.out(got)
            ctx.check(got in vs, 'the most recent version is one of the versions')
            for v in vs:
                ctx.check(not (parse_version(got) < parse_version(v)),
                          'no version exceeds the most recent one')
            return
        rev = ctx.bool('reverse')
        got = versions.sorted(list(vs), reverse=rev)
        ctx.out(got)
        left = list(vs)
        for g in got:
            ctx.check(g in left, 'sorting returns a permutation')
            left.remove(g)
        ctx.check(not left, 'sorting returns a permutation')
        for a, b in zip(got, got[1:]):
            if rev:
                a, b = b, a
            ctx.check(not (parse_version(b) < parse_version(a)), 'versions are in version order')
    elif part == 'numbers':
        # the order of dotted numbers and pre-releases, without parse_version
        a = [ctx.int('a0', 0, 11), ctx.choice('a1', [0, 2, 10])]
        b = [ctx.int('b0', 0, 11), ctx.choice('b1', [0, 2, 10])]
        pa = ctx.choice('pa', ['', 'a', 'rc1'])
        pb = ctx.choice('pb', ['', 'b'])
        va = '1.%d.%d%s' % (a[0], a[1], pa)
        vb = '1.%d.%d%s' % (b[0], b[1], pb)
        rank = {'': 3, 'a': 0, 'b': 1, 'rc1': 2}
        ka = (a[0], a[1], rank[pa])
        kb = (b[0], b[1], rank[pb])
        # 1.2.0a and 1.2a are the same version
        got = versions.sorted([va, vb])
        if ka <= kb:
            ctx.check(got == [va, vb], 'dotted numbers sort as numbers, pre-releases first')
        else:
            ctx.check(got == [vb, va], 'dotted numbers sort as numbers, pre-releases first')
        ctx.check(versions.most_recent([va, vb]) == (va if ka >= kb else vb),
                  'the most recent of two versions')
        ctx.out(got)
    elif part == 'parser':
        # a parser with another order: the last character first
        n = ctx.int('n', 1, 3)
        vs = [ctx.text('v%d' % i, 2, '123', 2) for i in range(n)]
        kind = ctx.choice('kind', ['last', 'negative'])
        if kind == 'last':
            parser = lambda v: v[1]
        else:
            parser = lambda v: -int(v)
        rev = ctx.bool('reverse')
        got = versions.sorted(list(vs), parser=parser, reverse=rev)
        ctx.check(sorted(got) == sorted(vs), 'sorting returns a permutation')
        for x, y in zip(got, got[1:]):
            if rev:
                x, y = y, x
            ctx.check(not (parser(y) < parser(x)), 'sorting follows the given parser')
        best = versions.most_recent(list(vs), parser)
        ctx.out(got, best)
        ctx.check(best in vs, 'the most recent version is one of the versions')
        for v in vs:
            ctx.check(not (parser(best) < parser(v)), 'the most recent follows the given parser')
    elif part == 'select':
        ctx.any_order('sets')
        from ipkg.dependencies import select_most_recent_version, Node
        n = ctx.int('n', 1, 3)
        kind = ctx.choice('kind', ['objects', 'nodes', 'set'])
        objs = [Thing('p', ctx.text('v%d' % i, 2, '01.a', 1) if n < 3 else
                      ctx.text('v%d' % i, 2, '19', 1)) for i in range(n)]
        given = objs
        if kind != 'objects':
            given = [Node(o) for o in objs]
        if kind == 'set':
            given = set(given)
        got = select_most_recent_version(given)
        ctx.out(parse_version(got.version))
        ctx.check(len([o for o in objs if o is got]) == 1, 'the selected package is one of those given')
        for o in objs:
            ctx.check(not (parse_version(got.version) < parse_version(o.version)),
                      'no package exceeds the selected one')
    else:
        # entries sort by version, then revision
        kind = ctx.choice('kind', ['text', 'number'])
        es = []
        for i in range(2):
            if kind == 'text':
                es.append({'version': ctx.text('v%d' % i, 2, '01a', 1),
                           'revision': ctx.text('r%d' % i, 2, '019', 1)})
            else:
                es.append({'version': ctx.text('w%d' % i, 1, '12', 1), 'revision': ctx.int('n%d' % i, 0, 12)})
        given = es
        if ctx.choice('obj', [False, True]):
            given = [Thing('p', e['version'], e['revision']) for e in es]
        got = versions.sorted(given, versions.extract)
        k = [(parse_version(e['version']), parse_version(str(e['revision']))) for e in es]
        if k[0] <= k[1]:
            ctx.check(got[0] is given[0] and got[1] is given[1], 'entries sort by version then revision')
        else:
            ctx.check(got[0] is given[1] and got[1] is given[0], 'entries sort by version then revision')
