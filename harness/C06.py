from pkg_resources import parse_version
import hlib


class Fake(object):
    def __init__(self, name, version, revision):
        self.name = name
        self.version = version
        self.revision = revision


def make(ctx, tag, n, v, r):
    from ipkg.packages import MetaPackage
    from ipkg.mixins import NameVersionRevisionComparable

    class Comparable(NameVersionRevisionComparable):
        def __init__(self, name, version, revision):
            self.name = name
            self.version = version
            self.revision = revision
    kind = ctx.choice(tag, ['meta', 'object'])
    if kind == 'meta':
        return MetaPackage({'name': n, 'version': v, 'revision': r})
    return Comparable(n, v, r)


def older(a, b):
    """name, version, revision; None means not given"""
    if a[0] != b[0] or b[1] is None:
        return False
    if a[1] == b[1]:
        if b[2] is None:
            return False
        return parse_version(str(a[2])) < parse_version(str(b[2]))
    return parse_version(a[1]) < parse_version(b[1])


def newer(a, b):
    if a[0] != b[0] or b[1] is None:
        return False
    if a[1] == b[1]:
        if b[2] is None:
            return False
        return parse_version(str(a[2])) > parse_version(str(b[2]))
    return parse_version(a[1]) > parse_version(b[1])


def same(a, b):
    if a[0] != b[0]:
        return False
    if b[1] is None:
        return True
    if a[1] != b[1]:
        return False
    if b[2] is None:
        return True
    return str(a[2]) == str(b[2])


def laws(ctx, x, y, a, b, what):
    eq = x == y
    lt = x < y
    gt = x > y
    ctx.out(bool(eq), bool(lt), bool(gt))
    ctx.check(bool(eq) == bool(same(a, b)), 'equality with ' + what)
    ctx.check(bool(x != y) == (not eq), '!= is the negation of == with ' + what)
    ctx.check(bool(lt) == bool(older(a, b)), '< with ' + what)
    ctx.check(bool(gt) == bool(newer(a, b)), '> with ' + what)
    ctx.check(bool(x <= y) == bool(eq or lt), '<= with ' + what)
    ctx.check(bool(x >= y) == bool(eq or gt), '>= with ' + what)
    return eq, lt, gt


def harness(ctx):
    hlib.world(ctx)
    part = ctx.choice('part', ['version', 'revision', 'name', 'spec', 'order', 'other', 'formula'])
    ctx.reach(part)
    if part in ('version', 'revision', 'name', 'formula'):
        a = ['p', '1', '1']
        b = ['p', '1', '1']
        if part == 'version':
            for x, t in ((a, 'a'), (b, 'b')):
                x[1] = ctx.text(t, 3 if ctx.thorough else 2, '01a.', 1)
                x[2] = ctx.choice(t + 'r', ['1', '2'])
        elif part == 'revision':
            for x, t in ((a, 'a'), (b, 'b')):
                x[2] = ctx.text(t, 2, '019a', 1) if ctx.choice(t + 'k', ['text', 'number']) == 'text' \
                    else ctx.int(t + 'n', 0, 12)
        elif part == 'name':
            for x, t in ((a, 'a'), (b, 'b')):
                x[0] = ctx.text(t, 2, 'aA-', 1)
            b[1] = ctx.choice('v', ['0', '1', '2'])
        if part == 'formula':
            from ipkg.build import Formula
            xs = []
            for x, t in ((a, 'a'), (b, 'b')):
                class F(Formula):
                    name = 'p'
                    version = ctx.text(t, 2, '12a', 1)
                    revision = ctx.choice(t + 'r', [1, 2])
                    sources = 's'
                x[1] = F.version
                x[2] = F.revision
                xs.append(F())
            x, y = xs
        else:
            x = make(ctx, 'xk', *a)
            y = make(ctx, 'yk', *b) if ctx.choice('fake', [False, True]) else Fake(*b)
        eq, lt, gt = laws(ctx, x, y, a, b, 'a package')
        if not isinstance(y, Fake):
            ctx.check(bool(y == x) == bool(eq), 'equality is symmetric')
            ctx.check(bool(y < x) == bool(gt), '< is the converse of >')
            ctx.check(not (lt and gt), '< is asymmetric')
        ctx.check(x == x and not (x < x) and not (x > x), '== is reflexive and < irreflexive')
    elif part == 'spec':
        a = ['p', ctx.text('av', 2, '01a', 1), ctx.choice('ar', ['1', '2', 1, '01'])]
        x = make(ctx, 'xk', *a)
        b = [ctx.choice('bn', ['p', 'q']), None, None]
        spec = b[0]
        if ctx.choice('hasv', [False, True]):
            b[1] = ctx.text('bv', 2, '01a.', 1)
            spec += '==' + b[1]
            if ctx.choice('hasr', [False, True]):
                b[2] = ctx.text('br', 2, '012', 1)
                spec += ':' + b[2]
        laws(ctx, x, spec, a, b, 'a spec')
    elif part == 'order':
        # transitivity
        vs = [(ctx.text('v%d' % i, 2, '01a', 1), ctx.choice('r%d' % i, ['1', '2'])) for i in range(3)]
        ps = [make(ctx, 'k', 'p', v, r) if i == 0 else None for i, (v, r) in enumerate(vs)]
        from ipkg.packages import MetaPackage
        for i in range(3):
            if ps[i] is None:
                ps[i] = MetaPackage({'name': 'p', 'version': vs[i][0], 'revision': vs[i][1]})
        if ps[0] < ps[1] and ps[1] < ps[2]:
            # revisions only decide between versions of the same text
            for i in range(3):
                for j in range(i):
                    if vs[i][0] != vs[j][0] and parse_version(vs[i][0]) == parse_version(vs[j][0]):
                        ctx.reject()
            ctx.out(True)
            ctx.check(ps[0] < ps[2], '< is transitive')
            ctx.check(ps[2] > ps[0], '> is transitive')
    else:
        x = make(ctx, 'xk', 'p', '1', '1')
        y = ctx.choice('y', [None, 1, (), {'name': 'p'}, ['p']])
        ctx.check(not (x == y) and x != y, 'a package differs from anything else')
        ctx.check(not (x < y) and not (x > y) and not (x <= y) and not (x >= y),
                  'a package is not ordered with anything else')
