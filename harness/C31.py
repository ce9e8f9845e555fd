import hlib

LONG = ['1.2', '1.9', '1.10', '1.9.1.10', '1.9.1.2', '1.9.1.1', '1.10b1', '2']
RANK = {'1.2': 0, '1.9': 1, '1.9.1.1': 2, '1.9.1.2': 3, '1.9.1.10': 4, '1.10b1': 5, '1.10': 6, '2': 7}
OPS = ['', '==', '!=', '<', '<=', '>', '>=']


def fits(op, v, w):
    """Does version v fit the selector `op w`?"""
    if op == '':
        return True
    if op == '==':
        return v == w
    if op == '!=':
        return v != w
    if op == '<':
        return v < w
    if op == '<=':
        return v <= w
    if op == '>':
        return v > w
    return v >= w


def harness(ctx):
    if ctx.choice('long', [False, True]):
        return longer(ctx)
    hlib.world(ctx)
    from ipkg.build import Formula
    from ipkg.dependencies import Solver
    from ipkg.environments import Environment
    from ipkg.exceptions import IpkgException
    from ipkg.repositories import BaseRepository, PackageRepository
    root = ctx.root
    digits = '1234' if ctx.thorough else '123'

    needs = {}           # (name, version) -> [(name, operator, version)]

    def need(tag, name, ops, values=digits):
        op = ctx.choice(tag + '_op', ops)
        return name, op, ctx.text(tag + '_v', 1, values, 1) if op else ''

    def text(reqs):
        return [n + op + v for n, op, v in reqs]

    def formula(n, v, reqs):
        class F(Formula):
            name = n
            version = v
            dependencies = text(reqs)
        needs[F] = reqs
        return F

    def metadata(n, v, reqs):
        return {'name': n, 'version': v, 'revision': '1', 'platform': 'any', 'dependencies': text(reqs)}

    part = ctx.choice('part', ['versions', 'diamond', 'back', 'installed', 'missing', 'chain', 'two', 'many'])
    ctx.reach(part)
    if part in ('missing', 'two') or ctx.thorough:
        ctx.any_order('sets')
    kinds = {'versions': ['packages'], 'two': ['packages'], 'diamond': ['formulas']}
    if ctx.thorough:
        kinds = {}
    kind = ctx.choice('kind', kinds.get(part, ['formulas', 'packages']))
    world = []           # (name, version, requirements), the candidates
    installed = []
    if part == 'versions':
        # one name, several versions, two selectors from two packages
        versions = [ctx.text('v%d' % i, 1, digits, 1) for i in range(3 if ctx.thorough else 2)]
        for i in range(len(versions)):
            for j in range(i):
                ctx.assume(versions[i] != versions[j])
        world = [('c', v, []) for v in versions]
        target = [need('a', 'c', OPS), ('b', '', '')]
        world.append(('b', '1', [need('b', 'c', OPS)]))
    elif part == 'diamond':
        # the versions of b need c differently
        cs = ctx.perm('cs', ['1', '2']) if ctx.thorough else ['1', '2']
        world = [('c', v, []) for v in cs]
        few = ['', '<', '>=']
        for v in ctx.perm('bs', ['1', '2']):
            if ctx.choice('b%s_needs' % v, [True, False]):
                world.append(('b', v, [need('b' + v, 'c', few, '12')]))
            else:
                world.append(('b', v, []))
        target = [need('ab', 'b', few, '12'), need('ac', 'c', few, '12')]
        if ctx.thorough and ctx.choice('swap', [False, True]):
            target.reverse()
    elif part == 'back':
        # other versions need the target, or one another
        v = ctx.text('v', 1, '12', 1)
        w = ctx.text('w', 1, '12', 1)
        first = ctx.choice('first', ['a', 'c', None])
        second = ctx.choice('second', ['a', 'b', 'd', None])
        world = [('b', v, [(first, '', '')] if first else []), ('b', '3', [('c', '', '')]),
                 ('c', w, [(second, '', '')] if second else []), ('c', '3', []), ('d', '1', [])]
        if ctx.choice('self', [False, True]):
            world.append(('a', '1', []))
        target = [need('a', 'b', ['', '<', '>']), ('c', '', '')]
    elif part == 'installed':
        # b and c may be installed
        iv = ctx.text('iv', 1, digits, 1)
        rv = ctx.text('rv', 1, digits, 1)
        deps = ctx.choice('deps', [[], [('c', '', '')], [('zz', '', '')]])
        installed = [('b', iv, deps)]
        if ctx.choice('c_too', [False, True] if not deps or ctx.thorough else [False]):
            installed.append(('c', '1', []))
        world = [('b', rv, [('c', '', '')] if ctx.choice('rc', [True, False]) else []), ('c', '2', [])]
        target = [need('b', 'b', OPS), need('c', 'c', ['', '<', '>'])]
    elif part == 'missing':
        # anything may be missing
        target = [('b', '', ''), need('c', 'c', ['', '>'])]
        v = ctx.text('v', 1, digits, 1)
        if ctx.bool('has_b'):
            world.append(('b', v, [need('d', 'd', ['', '==', '<'])]))
        if ctx.bool('has_c'):
            world.append(('c', v, [('d', '', '')]))
        if ctx.bool('has_d'):
            world.append(('d', v, [(ctx.choice('self', ['d', 'c', 'e']), '', '')]
                          if ctx.choice('d_needs', [False, True]) else []))
    elif part == 'many':
        # more packages in various shapes, the last one with a choice of versions
        names = ['b', 'c', 'd', 'e', 'f', 'g']
        shape = ctx.choice('shape', ['chain', 'fan', 'deep', 'pairs', 'all'])
        if ctx.choice('reverse', [False, True]):
            names.reverse()
        deps = dict([(n, []) for n in names])
        if shape == 'chain':
            asked = names[:1]
            for n, m in zip(names, names[1:]):
                deps[n] = [m]
        elif shape == 'fan':
            asked = names
        elif shape == 'deep':
            asked = names[:4]
            deps[names[ctx.int('at', 0, 3)]] = names[4:5]
            deps[names[4]] = names[5:]
        elif shape == 'pairs':
            asked = names[:3]
            for n, m in zip(names, names[3:]):
                deps[n] = [m]
        else:
            asked = names[:1]
            for i, n in enumerate(names):
                deps[n] = names[i + 1:]
        target = [(n, '', '') for n in asked]
        world = [(n, '1', [(m, '', '') for m in deps[n]]) for n in names]
        world.append((names[-1], ctx.choice('v', ['2', '1.5', '0']), []))
    elif part == 'chain':
        # every relation between three packages
        names = ctx.perm('names', ['b', 'c', 'd'])
        target = [(n, '', '') for n in names if ctx.bool('a' + n)]
        for n in names:
            world.append((n, '1', [(m, '', '') for m in ('b', 'c', 'd') if m != n and ctx.bool(n + m)]))
    else:
        # the candidates come from two repositories
        v, w = ctx.text('v', 1, digits, 1), ctx.text('w', 1, digits, 1)
        target = [need('b', 'b', ['', '!=', '>=']), ('c', '', '')]
        world = [('b', v, []), ('b', w, []), ('c', '1', [need('cb', 'b', ['<=', '!='])])]

    repositories = [BaseRepository('f1'), BaseRepository('f2')]
    if kind == 'packages':
        repositories = [PackageRepository(root + '/p1'), PackageRepository(root + '/p2')]
    for i in range(len(world)):
        n, v, reqs = world[i]
        meta = repositories[1 if part == 'two' and i == 1 else 0].meta
        if n not in meta:
            meta[n] = []
        meta[n].append(formula(n, v, reqs) if kind == 'formulas' else metadata(n, v, reqs))
    environment = None
    if part == 'installed':
        environment = Environment(root + '/env')
        for n, v, reqs in installed:
            environment.meta['packages'][n] = metadata(n, v, reqs)
    obj = formula('a', '2', target)

    try:
        solver = Solver.from_obj(obj, environment, repositories)
        order = solver.solve(obj)
    except IpkgException:
        ctx.reach('refused')
        if part not in ('diamond', 'back', 'installed'):
            ctx.out('refused')
        return
    ctx.reach('solved')
    ctx.check(len(order) > 0 and order[-1] is obj, 'the target comes last')
    names = [o.name for o in order]
    ctx.check(len(set(names)) == len(names), 'no package occurs twice')
    got = {}
    for n, v, reqs in installed:
        got[n] = [v]
    asked = [(n, op, w) for n, op, w in target]
    for n, v, reqs in world:
        asked.extend(reqs)
    for o in order:
        reqs = target if o is obj else None
        if reqs is None:
            mine = [r for n, v, r in world if n == o.name and v == o.version]
            ctx.check(len(mine) > 0, 'only candidates are listed')
            reqs = mine[0]
            if part == 'two' and o.name == 'b':
                reqs = []
        for n, op, w in reqs:
            ctx.check(len([v for v in got.get(n, []) if fits(op, v, w)]) > 0,
                      'a package comes after what it requires')
        got.setdefault(o.name, []).append(o.version)
        if o is not obj and o.name not in [n for n, v, r in installed]:
            # nothing newer would suit everyone
            for n, v, r in world:
                if n == o.name:
                    ctx.check(not (v > o.version and
                                   len([1 for m, op, w in asked if m == n and not fits(op, v, w)]) == 0),
                              'the newest package which suits everyone is chosen')
    # which of several solutions is found depends on the order of the dictionaries
    if part not in ('diamond', 'back', 'installed'):
        ctx.out(sorted([(o.name, o.version) for o in order]))


def longer(ctx):
    """Versions of several parts."""
    hlib.world(ctx)
    ctx.any_order('sets')
    from ipkg.build import Formula
    from ipkg.dependencies import Solver
    from ipkg.exceptions import IpkgException
    from ipkg.repositories import BaseRepository
    versions = []
    for i in range(3 if ctx.thorough else 2):
        versions.append(ctx.choice('v%d' % i, LONG))
        ctx.assume(len(set(versions)) == len(versions))
    op = ctx.choice('op', OPS)
    asked = ['c' + op + (ctx.choice('w', LONG) if op else '')]
    if ctx.thorough:
        op2 = ctx.choice('op2', OPS)
        asked.append('c' + op2 + (ctx.choice('w2', LONG) if op2 else ''))

    def formula(n, v, reqs):
        class F(Formula):
            name = n
            version = v
            dependencies = reqs
        return F

    repository = BaseRepository('f')
    repository.meta['c'] = [formula('c', v, []) for v in versions]
    # the version is chosen twice, for two names, one of them asking nothing
    repository.meta['b'] = [formula('b', v, asked[1:]) for v in versions]
    obj = formula('a', '1', asked[:1] + ['b'])
    ok = []
    for v in versions:
        good = True
        for r in asked:
            o = r[1:].rstrip('0123456789.b')
            w = r[1 + len(o):]
            if not fits(o, RANK[v], RANK[w] if w else None):
                good = False
        if good:
            ok.append(v)
    try:
        order = Solver.from_obj(obj, None, [repository]).solve(obj)
    except IpkgException:
        ctx.out('refused')
        ctx.check(not ok, 'a requirement which a candidate meets is solved')
        return
    got = dict([(o.name, o.version) for o in order])
    ctx.out([got['b'], got['c']])
    ctx.check(got['c'] in ok, 'a package comes after what it requires')
    ctx.check(RANK[got['c']] == max([RANK[v] for v in ok]) and
              RANK[got['b']] == max([RANK[v] for v in versions]),
              'the newest package which suits everyone is chosen')
