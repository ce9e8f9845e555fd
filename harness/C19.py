def without(l, item):
    return [x for x in l if x != item]


def put(l, item, index):
    r = without(l, item)
    return r[:index] + [item] + r[index:]


def harness(ctx):
    from ipkg.environments import PathListVariable, InvalidVariableValue
    part = ctx.choice('part', ['history', 'value'])
    ctx.reach(part)
    if part == 'value':
        bad = ctx.choice('bad', [1, ['a'], ('a',), {'a': 1}, 2.5, True])
        v = PathListVariable('V', ctx.choice('init', [None, 'x:y']))
        before = str(v)
        try:
            v.set(bad)
        except InvalidVariableValue:
            ctx.out('refused')
        else:
            ctx.check(False, 'a value that is not text is refused')
        ctx.check(str(v) == before, 'a refused value changes nothing')
        try:
            PathListVariable('V', bad)
        except InvalidVariableValue:
            return
        ctx.check(False, 'a value that is not text is refused')
        return
    n = ctx.choice('n', [0, 1, 2, 3])
    if n == 0:
        v = PathListVariable('V', ctx.choice('none', [None, '']))
        want = []
    else:
        # n entries of at most two characters
        entries = []
        for i in range(n):
            entries.append(ctx.text('e%d' % i, 2 if n < 3 or ctx.thorough else 1, 'abc/.'))
        ctx.assume(not (n == 1 and entries[0] == ''))
        v = PathListVariable('V', ':'.join(entries))
        want = entries
    ctx.check(str(v) == ':'.join(want), 'the text form lists the entries in order')
    for k in range(3 if ctx.thorough else 2):
        op = ctx.choice('op%d' % k, ['insert', 'insertat', 'append', 'remove', 'reread', 'stop'])
        if op == 'stop':
            break
        if op == 'reread':
            v = PathListVariable('V', str(v))
        else:
            item = ctx.text('item%d' % k, 2, 'abc/.', 1)
            if op == 'insert':
                v.insert(item)
                want = put(want, item, 0)
            elif op == 'insertat':
                index = ctx.choice('index%d' % k, [0, 1, 2, 3])
                v.insert(item, index)
                want = put(want, item, index)
            elif op == 'append':
                v.append(item)
                want = without(want, item) + [item]
            else:
                v.remove(item)
                want = without(want, item)
                # the list of one empty entry has the text of the empty list
                ctx.assume(want != [''])
        got = str(v)
        ctx.out(op, got)
        ctx.check(got == ':'.join(want), 'list variable after %s' % op)
