FIELDCHARS = 'abnyx1.'


def fields(ctx, tag, short):
    out = []
    for i in range(3):
        if short == i:
            out.append(ctx.text('%s%d' % (tag, i), 2, FIELDCHARS))
        else:
            out.append(ctx.text('%s%d' % (tag, i), 3, FIELDCHARS, 3))
    return out


def same(a, b):
    return a == b or a == 'any' or b == 'any'


def spelled(text):
    """What a text spells: three fields, or None."""
    t = text.strip().lower()
    if t == 'any':
        return ['any', 'any', 'any']
    parts = t.split('-')
    if len(parts) != 3:
        return None
    return parts


def harness(ctx):
    from ipkg.platforms import Platform, InvalidPlatform
    part = ctx.choice('part', ['eq', 'text', 'parse', 'str', 'current', 'other'])
    ctx.reach(part)
    if part == 'eq':
        f = fields(ctx, 'p', ctx.choice('ps', [None, 0, 1, 2]))
        g = fields(ctx, 'q', ctx.choice('qs', [None, 0, 1, 2]))
        p = Platform(f[0], f[1], f[2])
        q = Platform(g[0], g[1], g[2])
        want = same(f[0], g[0]) and same(f[1], g[1]) and same(f[2], g[2])
        got = p == q
        ctx.out(bool(got))
        ctx.check(bool(got) == bool(want), 'two platforms compare field by field with any')
        ctx.check(bool(q == p) == bool(got), 'platform equality is symmetric')
        ctx.check(bool(p != q) == (not got), '!= is the negation of == on platforms')
    elif part == 'text':
        f = ctx.choice('f', [['any', 'b', 'c'], ['a', 'b', 'c'], ['a', 'any', 'any'],
                             ['any', 'any', 'any']])
        p = Platform(f[0], f[1], f[2])
        t = ctx.text('t', 7 if ctx.thorough else 6, 'aAbBcCnNyY- \t', 0)
        s = spelled(t)
        if s is None:
            want = False
        else:
            want = same(f[0], s[0]) and same(f[1], s[1]) and same(f[2], s[2])
        got = p == t
        ctx.out(bool(got))
        ctx.check(bool(got) == bool(want), 'comparing with a text is comparing with what it spells')
        ctx.check(bool(p != t) == (not got), '!= is the negation of == with a text')
    elif part == 'parse':
        t = ctx.text('t', 9 if ctx.thorough else 8, 'aAnNyY- \t')
        s = spelled(t)
        try:
            p = Platform.parse(t)
        except InvalidPlatform:
            ctx.out('refused')
            ctx.check(s is None, 'a text of three fields is accepted')
            return
        ctx.check(s is not None, 'a text that has not three fields is refused')
        ctx.out(p.os_name, p.os_release, p.architecture)
        ctx.check([p.os_name, p.os_release, p.architecture] == s,
                  'the fields are those of the text')
    elif part == 'str':
        f = [ctx.text('f%d' % i, 3, 'anyz09._/+') for i in range(3)]
        p = Platform(f[0], f[1], f[2])
        t = str(p)
        q = Platform.parse(t)
        ctx.out(t)
        ctx.check([q.os_name, q.os_release, q.architecture] == f,
                  'the text form of a platform parses back to its fields')
    elif part == 'other':
        f = ctx.choice('f', [['any', 'any', 'any'], ['a', 'b', 'c']])
        p = Platform(f[0], f[1], f[2])
        o = ctx.choice('o', [None, 0, 'any', {}, ['any', 'any', 'any'], object])
        if o == 'any':
            ctx.reject()
        ctx.out(bool(p == o))
        ctx.check(not (p == o), 'a platform equals no other kind of object')
        ctx.check(bool(p != o), 'a platform equals no other kind of object')
    else:
        system = ctx.choice('system', ['Linux', 'Darwin', 'Windows', ''])
        dist = ctx.text('dist', 3, 'aAZ0. _/')
        release = ctx.text('release', 3, 'aB09./ _')
        machine = ctx.text('machine', 3, 'iX86_4 ')
        ctx.platform(system, dist, release, machine)
        try:
            p = Platform.current()
        except InvalidPlatform:
            ctx.out('refused')
            ctx.check(system not in ('Linux', 'Darwin'), 'a supported system is accepted')
            return
        ctx.check(system in ('Linux', 'Darwin'), 'an unsupported system is refused')
        ctx.out(p.os_name, p.os_release, p.architecture)
        if system == 'Linux':
            ctx.check(p.os_name == dist.lower(), 'the os name is the distribution')
        else:
            ctx.check(p.os_name == 'osx', 'the os name is osx on Darwin')
        ctx.check(p.os_release == release, 'the release is the one of the system')
        ctx.check(p.architecture == machine, 'the architecture is the machine')
