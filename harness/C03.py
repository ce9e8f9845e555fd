import hlib


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def harness(ctx):
    hlib.world(ctx)
    from ipkg.requirements import Requirement, InvalidRequirement
    from ipkg.platforms import Platform, InvalidPlatform
    from ipkg.utils import parse_package_spec
    from ipkg.exceptions import IpkgException
    from ipkg.packages import MetaPackage
    part = ctx.choice('part', ['requirement', 'versions', 'extras', 'prefixed', 'long', 'platform',
                               'spec', 'package'])
    ctx.reach(part)
    invalid = False
    if part in ('requirement', 'versions', 'extras', 'prefixed', 'long'):
        more = 1 if ctx.thorough else 0
        if part == 'requirement':
            t = ctx.text('t', 3 + more, 'a=> /[],')
        elif part == 'versions':
            t = 'foo' + ctx.choice('v', ['', '>=1', '==']) + ctx.text('t', 3 + more, '1=!<>,. ')
        elif part == 'extras':
            t = 'foo[' + ctx.text('t', 4 + more, 'a, ]=1')
        elif part == 'prefixed':
            t = ctx.text('t', 4, 'ay-: ') + ctx.choice('s', ['', ':foo', '-c:foo>=1', 'foo:'])
        else:
            t = 'foo' + ' >=1,' * ctx.choice('n', [4, 12]) + ctx.text('t', 2, '1 ,/')
        try:
            r = Requirement(t)
        except IpkgException:
            invalid = True
            ctx.out('refused')
        else:
            ctx.out(r.name, len(r.extras))
            str(r)
            hash(r)
            r.satisfied_by({'name': 'foo', 'version': '1'})
        other = Requirement('foo')
        try:
            same = other == t
        except IpkgException:
            same = None
        ctx.check(not (invalid and same), 'an invalid text never equals a requirement')
        try:
            differs = other != t
        except IpkgException:
            differs = None
        ctx.check(same is None or differs == (not same), '!= negates == with a text')
        try:
            other + t
        except IpkgException:
            pass
    elif part == 'platform':
        t = ctx.text('t', 5, 'anyA-: ')
        try:
            p = Platform.parse(t)
        except IpkgException:
            invalid = True
            ctx.out('refused')
        else:
            ctx.out(p.os_name)
            str(p)
        try:
            same = Platform('a', 'b', 'c') == t
        except IpkgException:
            same = None
        ctx.check(not (invalid and same), 'an invalid text never equals a platform')
    else:
        tail = ctx.choice('tail', ['', 'foo', 'foo==', 'foo==1:'])
        t = tail + ctx.text('t', 3, 'f=1:_/ \n')
        try:
            d = parse_package_spec(t)
        except IpkgException:
            invalid = True
            ctx.out('refused')
        else:
            ctx.out(d['name'], d.get('version'), d.get('revision'))
        if part == 'package':
            pkg = MetaPackage({'name': 'foo', 'version': '1', 'revision': '1'})
            results = []
            for op in (lambda a, b: a == b, lambda a, b: a < b, lambda a, b: a > b,
                       lambda a, b: a <= b, lambda a, b: a >= b):
                try:
                    results.append(bool(op(pkg, t)))
                except IpkgException:
                    results.append(None)
            ctx.check(not (invalid and (results[0] or results[3] or results[4])),
                      'an invalid text never equals a package')
            try:
                ctx.check((pkg != t) != results[0], '!= negates ==')
            except IpkgException:
                pass
