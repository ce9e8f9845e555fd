import hlib

OPS = ['', '==', '!=', '<', '>=']


def fits(op, v, w):
    """Does version v fit the selector `op w`?"""
    if op == '':
        return True
    if op == '==':
        return v == w
    if op == '!=':
        return v != w
    if op == '<':
        return v < w
    return v >= w


def harness(ctx):
    hlib.world(ctx)
    from ipkg.build import Formula
    from ipkg.dependencies import Solver
    from ipkg.environments import Environment
    from ipkg.exceptions import IpkgException
    from ipkg.repositories import BaseRepository, PackageRepository
    root = ctx.root
    ctx.steps(20000)

    def formula(n, v, reqs):
        class F(Formula):
            name = n
            version = v
            dependencies = [m + op + w for m, op, w in reqs]
        return F

    def metadata(n, v, reqs):
        return {'name': n, 'version': v, 'revision': '1', 'platform': 'any',
                'dependencies': [m + op + w for m, op, w in reqs]}

    part = ctx.choice('part', ['graph', 'order', 'selectors', 'installed', 'absent'])
    ctx.reach(part)
    kind = 'formulas'
    others = ['b', 'c', 'd']
    known_target = (part == 'graph' or part == 'order' and ctx.thorough) and ctx.bool('target_in_repository')
    if part == 'graph':
        kind = ctx.choice('kind', ['formulas', 'packages'])
        if known_target and not ctx.thorough:
            others = ['b', 'c']
    if part == 'order' or ctx.thorough and part != 'graph':
        ctx.any_order('sets')
        if not ctx.thorough:
            others = ['b', 'c']
    if part in ('selectors', 'installed') and not ctx.thorough:
        others = ['b', 'c']
    digits = '123' if ctx.thorough else '12'
    versions = {'a': '1'}
    for n in others:
        versions[n] = '1'
        if part == 'selectors' and (n == 'c' or ctx.thorough):
            versions[n] = ctx.text('v' + n, 1, digits, 1)
    # who needs whom: decided as far as the target reaches
    needs = {}
    queue = ['a']
    while queue:
        n = queue.pop(0)
        if n in needs:
            continue
        needs[n] = []
        for m in ['a'] + others:
            # the target in the repository is another object, with the same dependencies
            if part in ('selectors', 'installed', 'absent') and m <= n:
                continue
            if m == n and (len(others) > 2 or part == 'order') and not ctx.thorough:
                continue
            if m == 'a' and n != others[-1] and not known_target:
                continue
            if ctx.bool(n + m):
                op, w = '', ''
                if part == 'selectors':
                    op = ctx.choice('op_' + n + m, OPS if m == 'c' or ctx.thorough else ['', '<'])
                    if op:
                        w = ctx.text('w_' + n + m, 1, digits, 1)
                needs[n].append((m, op, w))
                queue.append(m)
    there = dict([(n, True) for n in ['a'] + others])
    if part == 'absent':
        for n in others:
            if n in needs:
                there[n] = ctx.bool('there_' + n)
    installed = []
    environment = None
    if part == 'installed':
        environment = Environment(root + '/env')
        for n in others:
            if n in needs and ctx.bool('installed_' + n):
                installed.append(n)
                environment.meta['packages'][n] = metadata(n, '1', needs[n])

    repository = BaseRepository('f')
    if kind == 'packages':
        repository = PackageRepository(root + '/p')
    make = formula if kind == 'formulas' else metadata
    # the target is found in the repository, or not
    target = formula('a', '1', needs['a'])
    if known_target:
        again = ctx.bool('same') if kind == 'formulas' and part == 'graph' else False
        repository.meta['a'] = [target if again else make('a', '1', needs['a'])]
    else:
        there['a'] = False
    for n in others:
        if n in needs and there[n]:
            repository.meta[n] = [make(n, versions[n], needs[n])]

    # what is needed, and whether there is a loop, missing or unsuitable package
    reached = []
    queue = ['a']
    while queue:
        n = queue.pop(0)
        if n in reached:
            continue
        reached.append(n)
        if n in installed:
            continue
        queue.extend([m for m, op, w in needs[n]])
    free = []                # no loop among these
    more = True
    while more:
        more = False
        for n in reached:
            if n not in free and len([m for m, op, w in needs[n] if m not in free and n not in installed]) == 0:
                free.append(n)
                more = True
    loop = len(free) < len(reached)
    asked = {}
    solvable = not loop
    for n in reached:
        if n not in installed:
            for m, op, w in needs[n]:
                asked.setdefault(m, []).append((op, w))
                if not there[m] and m not in installed or not fits(op, versions[m], w):
                    solvable = False
    for m in asked:
        ops = [op for op, w in asked[m]]
        if '==' in ops and ('<' in ops or '>=' in ops):
            solvable = None          # both an exact version and a range: may be refused
    try:
        solver = Solver.from_obj(target, environment, [repository])
        order = [o.name for o in solver.solve(target)]
    except IpkgException:
        ctx.reach('refused')
        order = None
    if loop:
        ctx.reach('loop')
        ctx.check(order is None, 'a dependency loop is refused')
    elif solvable:
        ctx.check(order is not None, 'dependencies without loops are solved')
    elif solvable is not None:
        ctx.check(order is None, 'dependencies which cannot be satisfied are refused')
    if order is not None:
        ctx.reach('solved')
        ctx.check(sorted(order) == sorted([n for n in reached if n not in installed]),
                  'the solution is the target and all that it needs')
        for n in order:
            ctx.check(len([m for m, op, w in needs[n] if m not in installed and
                           order.index(m) >= order.index(n)]) == 0, 'dependencies come first')
    ctx.out(order is not None)
