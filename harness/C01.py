import operator
from pkg_resources import parse_version
import hlib

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
       '<=': operator.le, '>': operator.gt, '>=': operator.ge}


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def refusable(selectors):
    """The selectors contradict each other, or == is combined with a range."""
    pins = [v for o, v in selectors if o == '==']
    nots = [v for o, v in selectors if o == '!=']
    lows = [(v, o) for o, v in selectors if o[0] == '>']
    highs = [(v, o) for o, v in selectors if o[0] == '<']
    if pins:
        if lows or highs:
            return True
        for p in pins:
            if p != pins[0] or p in nots:
                return True
    for lv, lo in lows:
        for hv, ho in highs:
            if lv > hv:
                return True
            if lv == hv and (lo == '>' or ho == '<' or lv in nots):
                return True
    return False


def harness(ctx):
    hlib.world(ctx)
    from ipkg.requirements import Requirement, InvalidRequirement
    from ipkg.platforms import Platform
    part = ctx.choice('part', ['ops', 'version', 'blanks', 'commas', 'platform', 'name'])
    ctx.reach(part)
    name = 'foo'
    pname = 'foo'
    prefix = ''
    pplat = 'any'
    kind = 'dict'
    sel = []
    pv = '1'
    sp = ['', '', '', '', '', '', '']
    wantplat = True
    stray = ['', '', '']
    if part == 'ops':
        n = ctx.int('n', 0, 3)
        for i in range(n):
            # at least two of the selectors concern the same side when there are three
            sel.append((ctx.choice('op%d' % i, ['==', '!=', '<', '<=', '>', '>=']),
                        ctx.text('v%d' % i, 1, '0123' if ctx.thorough else '012', 1)))
        pv = ctx.text('pv', 1, '0123' if ctx.thorough else '012', 1)
    elif part == 'version':
        size = 3
        sel.append((ctx.choice('op', ['==', '!=', '<', '<=', '>', '>=']),
                    ctx.text('v', size, '0a.-', 1)))
        pv = ctx.text('pv', 2, '0b1-', 1)
    elif part == 'blanks':
        sp = [ctx.text('s%d' % i, 1, ' ') for i in range(7)]
        sel = [('>=', '1'), ('<', '3')]
        pv = ctx.choice('pv', ['0', '1', '2', '3'])
        prefix = ctx.choice('prefix', ['', 'any:', ' any : '])
    elif part == 'commas':
        # not well-formed, but not silently ignored
        stray = [ctx.text('stray%d' % i, 2 if i == 0 else 1, ', ') for i in range(3)]
        sel = [(ctx.choice('op', ['>=', '!=']), '1'), ('<', '3')][:ctx.int('n', 1, 2)]
        pv = ctx.choice('pv', ['0', '1', '2', '3'])
    elif part == 'platform':
        kind = ctx.choice('kind', ['dict', 'object', 'string'])
        how = ctx.choice('how', ['explicit', 'default', 'none', 'null'])
        if how == 'explicit':
            have = [ctx.choice('p%d' % i, ['any', 'x', 'y']) for i in range(3)]
            want = [ctx.choice('q%d' % i, ['any', 'x', 'y']) for i in range(3)]
            prefix = '-'.join(want) + ':'
        else:
            want = hlib.PLATFORM.split('-')
        if how in ('none', 'null'):
            have = ['any'] * 3
            pplat = None
        elif how == 'default':
            have = list(want)
            i = ctx.choice('i', [None, 0, 1, 2])
            if i is not None:
                have[i] = ctx.choice('h', ['any', 'x'])
        if pplat is not None:
            pplat = '-'.join(have)
            if kind == 'object':
                pplat = Platform(*have)
        for i in range(3):
            if have[i] != want[i] and have[i] != 'any' and want[i] != 'any':
                wantplat = False
    else:
        name = ctx.text('name', 3, 'aAb0_-', 1)
        pname = ctx.text('pname', 3, 'aAb0_-', 1)
        kind = ctx.choice('kind', ['dict', 'object'])
        sel = ctx.choice('sel', [[], [('>=', '1')]])
    text = prefix + sp[0] + name + sp[1]
    text += stray[0] + (sp[2] + ',' + stray[1] + sp[3]).join([o + sp[4] + v for o, v in sel]) + sp[5] + stray[2]
    parsed = [(o, parse_version(v)) for o, v in sel]
    try:
        r = Requirement(text)
    except InvalidRequirement:
        ctx.out('refused')
        ctx.check(refusable(parsed) or ',' in ''.join(stray), 'a consistent requirement is accepted')
        return
    if kind == 'dict':
        obj = {'name': pname, 'version': pv}
        if pplat is not None or part == 'platform' and how == 'null':
            obj['platform'] = pplat
    else:
        obj = Thing(name=pname, version=pv)
        if pplat is not None or part == 'platform' and how == 'null':
            obj.platform = pplat
    got = bool(r.satisfied_by(obj))
    ctx.out(got)
    want = wantplat and pname == name
    pv = parse_version(pv)
    for o, v in parsed:
        if not OPS[o](pv, v):
            want = False
    ctx.check(got == bool(want), 'a requirement matches exactly what its selectors describe')
