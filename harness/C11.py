import os
import hlib

NAMES = ['a', 'b', 'c', 'd']


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.repositories import LocalPackageRepository
    from ipkg.build import Formula, BuildError
    part = ctx.choice('part', ['graph', 'fail', 'versions', 'packaged'])
    ctx.reach(part)
    base = ctx.root + '/repo'
    ctx.mkdir(base)
    n = 3
    if part == 'graph':
        n = 4
    fail = None
    error = 'build'
    packaged = None
    spelling, extra, last = '%s', None, False
    if part == 'fail':
        fail = ctx.choice('fail', list(range(n)) + ['all'])
        error = ctx.choice('error', ['build', 'os', 'type', 'badfile'])
    elif part == 'packaged':
        packaged = ctx.int('packaged', 0, n - 1)
        spelling, extra, last, old = ctx.choice('variant', [
            ('%s', None, False, ('1.0', '1')), ('%s>=1', None, False, ('1.0', '1')),
            ('%s==1.0', None, False, ('1.0', '1')), ('%s', 'missing', False, ('1.0', '1')),
            ('%s', 'missing', True, ('1.0', '1')), ('%s', 'bad requirement!', False, ('1.0', '1')),
            ('%s', None, False, ('1.0', '2')), ('%s', None, False, ('0.9', '1'))])
    edges = {}
    for i in range(n):
        edges[i] = []
        for j in range(n):
            if i != j or i == 0 and part == 'packaged':
                if ctx.bool('d%d%d' % (i, j)):
                    edges[i].append(j)
    attempts = []
    built = []

    def fake_build(self, package_dir, remove_build_dir=True, repository=None):
        attempts.append((self.name, self.version))
        if fail == 'all' or fail is not None and self.name == NAMES[fail]:
            if error == 'build':
                raise BuildError('no')
            elif error == 'os':
                raise OSError(28, 'No space left on device')
            elif error == 'type':
                raise TypeError('a bug in the formula')
            path = package_dir + '/junk.ipkg'
            ctx.mkfile(path, 'junk')
            return path
        m = hlib.meta(self.name, self.version, str(self.revision))
        path = '%s/%s-%s-%s-%s.ipkg' % (package_dir, self.name, self.version, self.revision, hlib.PLATFORM)
        hlib.package(ctx, path, m)
        built.append(path)
        return path

    versions = ['1.0'] * n
    if part == 'versions':
        # a second version of a, which some may ask for
        n = 4
        edges[3] = [j for j in range(1, 3) if ctx.bool('d3%d' % j)]
        versions = ['1.0', '1.0', '1.0', '2.0']
        wants = ctx.choice('wants', ['a', 'a>=2', 'a<2', 'a!=1.0'])
    names = NAMES[:n]
    if part == 'versions':
        names = ['a', 'b', 'c', 'a']
    classes = []
    needs = {}
    for i in range(n):
        deps = []
        needs[i] = []
        for j in edges[i]:
            if names[j] == 'a' and part == 'versions':
                deps.append(wants)
                needs[i] += [k for k in (0, 3) if k != i and
                             (wants == 'a' or (wants == 'a<2') == (k == 0))]
            else:
                deps.append(spelling % names[j])
                if j != i:
                    needs[i].append(j)
        if extra:
            deps = deps + [extra] if last else [extra] + deps
        classes.append(type(names[i], (Formula,), {
            'name': names[i], 'version': versions[i], 'revision': 1, 'sources': 's',
            'dependencies': tuple(deps), 'build': fake_build}))
    repo = LocalPackageRepository(base)
    todo = list(range(n))
    if packaged is not None:
        p = names[packaged]
        path = '%s/%s/%s-%s-%s-%s.ipkg' % (base, p, p, old[0], old[1], hlib.PLATFORM)
        hlib.package(ctx, path, hlib.meta(p, *old))
        repo.add(path)
        if old == ('1.0', '1'):
            todo.remove(packaged)
    ctx.steps(60000)
    got = repo.build_formulas(classes)
    ctx.out(attempts)
    ctx.check(sorted(attempts) == sorted([(names[i], versions[i]) for i in todo]),
              'every formula which is not packaged is attempted once')
    # what leads to a dependency loop
    needs = dict([(i, [j for j in needs[i] if j in todo]) for i in todo])
    reach = dict([(i, set(needs[i])) for i in todo])
    for _ in todo:
        for i in todo:
            for j in list(reach[i]):
                reach[i] = reach[i] | reach[j]
    loopy = set([i for i in todo if i in reach[i]])
    leads = set([i for i in todo if i in loopy or reach[i] & loopy])
    pos = dict([(a, k) for k, a in enumerate(attempts)])
    for i in todo:
        for j in needs[i]:
            if i not in leads:
                ctx.check(pos[(names[j], versions[j])] < pos[(names[i], versions[i])],
                          'a formula is built after the dependencies waiting to be built')
    ctx.check(sorted(got) == sorted(built), 'the files of the built packages are returned')
    found = sorted([p.path for p in LocalPackageRepository(base)])
    want = sorted(built + ([path] if packaged is not None else []))
    ctx.check(found == want, 'the built packages are in the repository')
