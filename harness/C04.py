import hlib

ALPHA = '01a.-'
PROBES = ['0', '1', '1.0', '1.a', '1-a', '2', '0.1', '1-1', '1dev', '1final', 'a', '10', '1.1', '1_', '1-']


def piece(ctx, tag, deep):
    kind = ctx.choice(tag + 'k', ['free', 'word', 'long'] if deep else ['free'])
    if kind == 'free':
        return ctx.text(tag, 4 if deep else 2, ALPHA if deep else '01a-', 1)
    elif kind == 'word':
        return ctx.text(tag + 'l', 1, '01-.') + \
            ctx.choice(tag + 'w', ['dev', 'rc', 'final', 'finalb', 'pre', '_', 'A', 'zz']) + \
            ctx.text(tag + 'r', 2, '01-_')
    return ctx.choice(tag + 'z', ['', '1.']) + ctx.choice(tag + 'n', ['00000000', '000000001', '0000000000', '20010000',
                                                                     '10000000', '12345678901'])


def harness(ctx):
    hlib.world(ctx)
    ctx.any_order('sets')
    from ipkg.requirements import Requirement, InvalidRequirement
    part = ctx.choice('part', ['text', 'extras', 'pair', 'platform'])
    ctx.reach(part)
    if part == 'platform':
        f = [ctx.text('f%d' % i, 2, 'any1.', 1) for i in range(3)]
        if ctx.choice('default', [False, True]):
            ctx.platform('Linux', f[0], f[1], f[2])
            ra = Requirement('foo>=1')
        else:
            ra = Requirement('-'.join(f) + ':foo>=1')
        t = str(ra)
        ctx.out(t)
        rb = Requirement(t)
        ctx.check(rb == ra and hash(rb) == hash(ra), 'the text form spells an equal requirement')
        ctx.check([rb.platform.os_name, rb.platform.os_release, rb.platform.architecture] ==
                  [ra.platform.os_name, ra.platform.os_release, ra.platform.architecture],
                  'the text form keeps the platform')
        return
    if part == 'text':
        a = 'foo' + ctx.choice('op', ['==', '!=']) + piece(ctx, 'v', True)
    elif part == 'extras':
        n = ctx.int('n', 0, 2)
        sp = ctx.text('sp', 1, ' ')
        ext = [ctx.text('e%d' % i, 2, 'aZ_', 1) for i in range(n)]
        a = 'foo' + sp + ('[' + sp + (sp + ',' + sp).join(ext) + sp + ']' if n else '') + \
            ctx.choice('s', ['', '>=1', '>1,<3,!=2', '!=1,!=2'])
    else:
        a = 'foo' + ctx.choice('oa', ['==', '!=', '>=', '>']) + piece(ctx, 'va', False)
    try:
        ra = Requirement(a)
    except InvalidRequirement:
        ctx.reject()
    if part != 'pair':
        t = str(ra)
        ctx.out(t)
        rb = Requirement(t)
        ctx.check(rb == ra and ra == rb, 'the text form spells an equal requirement')
        ctx.check(not (rb != ra), '!= is the negation of ==')
        ctx.check(hash(rb) == hash(ra), 'equal requirements have equal hashes')
        ctx.check(rb.name == ra.name and rb.extras == ra.extras, 'the text form keeps name and extras')
        if part == 'extras':
            ctx.check(ra.extras == ext, 'the extras are those given')
        ctx.check(ra == t, 'a requirement equals its text form')
    else:
        kind = ctx.choice('kind', ['version', 'name', 'extras', 'platform', 'two'])
        if kind == 'version':
            b = ' foo ' + ctx.choice('ob', ['==', '!=', '>=', '>']) + ' ' + piece(ctx, 'vb', False)
        elif kind == 'name':
            b = 'fo' + ctx.text('nb', 1, 'oO', 1) + '>=1'
        elif kind == 'extras':
            b = 'foo[x]>=1'
        elif kind == 'platform':
            b = ctx.choice('pl', ['any', hlib.PLATFORM, 'debian-7.0-any']) + ':foo>=1'
        else:
            b = 'foo>=1,' + ctx.choice('o2', ['>=', '>', '<=', '!=']) + ctx.text('v2', 1, '012', 1)
        try:
            rb = Requirement(b)
        except InvalidRequirement:
            ctx.reject()
        same = ra == rb
        ctx.out(bool(same))
        ctx.check(bool(rb == ra) == bool(same), 'equality is symmetric')
        ctx.check(bool(ra != rb) == (not same), '!= is the negation of ==')
        ctx.check(bool(ra == b) == bool(same), 'comparing with a text is comparing with what it spells')
        if not same:
            return
        ctx.check(hash(rb) == hash(ra), 'equal requirements have equal hashes')
    for v in PROBES:
        for plat in ('any', 'debian-7.0-x86_64', 'osx-1-x'):
            pkg = {'name': 'foo', 'version': v, 'platform': plat}
            ctx.check(bool(ra.satisfied_by(pkg)) == bool(rb.satisfied_by(pkg)),
                      'equal requirements match the same packages')
            if part != 'pair':
                break
    if part == 'pair':
        ctx.check(ra.name == rb.name, 'equal requirements are for the same package')
