import hlib

OPS = ['==', '!=', '<', '<=', '>', '>=']


def key(v):
    return int(v)


def fits(sel, v):
    ok = True
    for o, w in sel:
        if o == '==':
            ok = ok and v == w
        elif o == '!=':
            ok = ok and v != w
        elif o == '<':
            ok = ok and v < w
        elif o == '<=':
            ok = ok and v <= w
        elif o == '>':
            ok = ok and v > w
        else:
            ok = ok and v >= w
    return ok


def bounds(sel):
    lows = [(v, o) for o, v in sel if o[0] == '>']
    highs = [(v, o) for o, v in sel if o[0] == '<']
    return lows, highs


def contradictory(sel):
    pins = [v for o, v in sel if o == '==']
    nots = [v for o, v in sel if o == '!=']
    for p in pins:
        if not fits(sel, p):
            return True
    lows, highs = bounds(sel)
    for lv, lo in lows:
        for hv, ho in highs:
            if lv > hv:
                return True
            if lv == hv and (lo == '>' or ho == '<' or lv in nots):
                return True
    return False


def pinned(sel):
    """Only one version fits, or == is used."""
    lows, highs = bounds(sel)
    for o, v in sel:
        if o == '==':
            return True
    for lv, lo in lows:
        for hv, ho in highs:
            if lv == hv:
                return True
    return False


def ranged(sel):
    lows, highs = bounds(sel)
    return len(lows) + len(highs) > 0


def side(ctx, tag, n):
    sel = []
    for i in range(n):
        sel.append((ctx.choice('%so%d' % (tag, i), OPS), ctx.text('%sv%d' % (tag, i), 1, '0123', 1)))
    return sel


def text(prefix, name, extras, sel):
    return prefix + name + ('[' + ','.join(extras) + ']' if extras else '') + \
        ','.join([o + v for o, v in sel])


def harness(ctx):
    hlib.world(ctx)
    ctx.any_order('sets')
    from ipkg.requirements import Requirement, InvalidRequirement
    from ipkg.platforms import InvalidPlatform, Platform
    part = ctx.choice('part', ['versions', 'platform', 'extras', 'name'])
    ctx.reach(part)
    if part == 'versions':
        na, nb = ctx.choice('n', [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1)] +
                            ([(2, 2), (0, 2), (2, 0)] if ctx.thorough else []))
        a = side(ctx, 'a', na)
        b = side(ctx, 'b', nb)
        pv = ctx.text('pv', 1, '0123', 1)
        try:
            ra = Requirement(text('', 'foo', [], a))
            rb = Requirement(text('', 'foo', [], b))
        except InvalidRequirement:
            ctx.reject()
        asstring = ctx.choice('asstring', [False, True]) if na + nb == 2 else False
        try:
            m = ra + (text('', 'foo', [], b) if asstring else rb)
        except InvalidRequirement:
            ctx.out('refused')
            ctx.check(contradictory(a + b) or
                      ((pinned(a) or pinned(b)) and (ranged(a) or ranged(b))),
                      'compatible requirements can be merged')
            return
        got = bool(m.satisfied_by({'name': 'foo', 'version': pv}))
        ctx.out(got)
        ctx.check(got == bool(fits(a, pv) and fits(b, pv)),
                  'the merged requirement matches exactly what both match')
        ctx.check(m.name == 'foo' and not m.extras, 'the merged requirement is for the same package')
    elif part == 'platform':
        one = ctx.choice('field', [0, 1, 2])
        rest = ctx.choice('rest', [('x', 'x', 'x'), ('x', 'any', 'x'), ('any', 'y', 'any'),
                                   ('x', 'y', 'x')])
        fa = [rest[0]] * 3
        fb = [rest[1]] * 3
        fp = [rest[2]] * 3
        fa[one] = ctx.choice('a', ['any', 'x', 'y'])
        fb[one] = ctx.choice('b', ['any', 'x', 'y'])
        fp[one] = ctx.choice('p', ['any', 'x', 'y'])
        clash = False
        want = True
        for i in range(3):
            if fa[i] != fb[i] and fa[i] != 'any' and fb[i] != 'any':
                clash = True
        ra = Requirement('-'.join(fa) + ':foo>=1')
        rb = Requirement('-'.join(fb) + ':foo<=3')
        pkg = {'name': 'foo', 'version': '2', 'platform': '-'.join(fp)}
        want = ra.satisfied_by(pkg) and rb.satisfied_by(pkg)
        try:
            m = ra + rb
        except (InvalidRequirement, InvalidPlatform):
            ctx.out('refused')
            ctx.check(clash, 'requirements with compatible platforms can be merged')
            return
        ctx.check(not clash, 'requirements for different platforms are not merged')
        got = bool(m.satisfied_by(pkg))
        ctx.out(got)
        ctx.check(got == bool(want), 'the merged requirement matches the platforms both match')
    elif part == 'extras':
        ea = [ctx.text('a%d' % i, 1, 'xyz', 1) for i in range(ctx.int('na', 0, 2))]
        eb = [ctx.text('b%d' % i, 1, 'xyz', 1) for i in range(ctx.int('nb', 0, 2))]
        sel = ctx.choice('sel', [[], [('>=', '1')], [('!=', '1')]])
        m = Requirement(text('', 'foo', ea, sel)) + Requirement(text('', 'foo', eb, sel))
        ctx.out(sorted(m.extras))
        ctx.check(set(m.extras) == set(ea + eb), 'the merged requirement has the extras of both')
        ctx.check(str(m) == str(Requirement(str(m))), 'the merged requirement can be spelled')
        v = ctx.text('pv', 1, '012', 1)
        ctx.check(bool(m.satisfied_by_version(v)) == fits(sel, v),
                  'merging extras does not change the versions')
    else:
        na = ctx.text('na', 2, 'aA-', 1)
        nb = ctx.text('nb', 2, 'aA-', 1)
        ra = Requirement('any:' + na)
        rb = Requirement('any:' + nb)
        try:
            m = ra + (nb if ctx.choice('string', [False, True]) else rb)
        except InvalidRequirement:
            ctx.out('refused')
            ctx.check(na != nb, 'requirements for the same package can be merged')
            return
        ctx.out(m.name)
        ctx.check(na == nb and m.name == na, 'requirements for different packages are not merged')
