import os
import json
import hlib

CH = 'aZ"\\\n\x01 {:%'


def value(ctx, tag, depth):
    kinds = ['text', 'int', 'bool', 'none']
    if depth:
        kinds = kinds + ['list', 'dict', 'empty']
    k = ctx.choice(tag + '.k', kinds)
    if k == 'text':
        return ctx.text(tag + '.t', 2 if depth else 1, CH)
    if k == 'int':
        return ctx.int(tag + '.i', -2, 11)
    if k == 'bool':
        return ctx.choice(tag + '.b', [True, False])
    if k == 'none':
        return None
    if k == 'empty':
        return ctx.choice(tag + '.e', [[], {}])
    if k == 'list':
        return [value(ctx, tag + '.0', depth - 1), value(ctx, tag + '.1', 0)]
    return {ctx.text(tag + '.n', 1, CH): value(ctx, tag + '.v', depth - 1), 'k': 1}


def harness(ctx):
    hlib.world(ctx)
    from ipkg.utils import DictFile, InvalidDictFileContent
    path = ctx.root + '/d.json'
    part = ctx.choice('part', ['save', 'history', 'content', 'keys', 'accents'])
    ctx.reach(part)
    if part == 'save':
        v = value(ctx, 'v', 2 if ctx.thorough else 1)
        d = DictFile(path)
        d['key'] = v
        d.save()
        e = DictFile(path)
        ctx.out(dict(e))
        ctx.check(e == {'key': v}, 'a saved dictionary reads back the same')
        ctx.check(e == d and d == e, 'a saved dictionary reads back equal')
        f = json.loads(open(path).read())
        ctx.check(f == {'key': v}, 'the file holds the dictionary as JSON')
    elif part == 'accents':
        # texts which are not ASCII, saved here or by something else
        said = ctx.choice('value', [u'\xe9', u'a\u20ac', u'\x7f', u'\x80'])
        key = ctx.choice('key', ['k', u'\xe9', u'\u20ac'])
        how = ctx.choice('how', ['unicode', 'bytes', 'file', 'escaped'])
        if how in ('unicode', 'bytes'):
            d = DictFile(path)
            d[key if how == 'unicode' else key.encode('utf-8')] = \
                [said if how == 'unicode' else said.encode('utf-8')]
            d.save()
        else:
            raw = u'{"' + key + u'": ["' + said + u'"]}'
            ctx.mkfile(path, raw.encode('utf-8') if how == 'file' else json.dumps({key: [said]}))
        for i in range(2):
            e = DictFile(path)
            ctx.check(e == {key: [said]}, 'a saved dictionary reads back the same')
            e.save()
        ctx.out(sorted(e.items()) == [(key, [said])])
    elif part == 'keys':
        d = DictFile(path)
        a = ctx.text('a', 2, CH)
        b = ctx.text('b', 2 if ctx.thorough else 1, CH)
        d[a] = 1
        d[b] = {a: [b]}
        d.save()
        e = DictFile(path)
        ctx.out(dict(e))
        ctx.check(len(e) == (1 if a == b else 2), 'every key is saved')
        ctx.check(e[b] == {a: [b]} and e[a] == d[a], 'every key keeps its value')
    elif part == 'history':
        old = ctx.choice('old', [None, '', '{}', '{"o": 1, "long": "' + 'x' * 60 + '"}'])
        if old is not None:
            ctx.mkfile(path, old)
        d = DictFile(path)
        want = json.loads(old) if old else {}
        saved = dict(want)
        for k in range(4 if ctx.thorough else 3):
            op = ctx.choice('op%d' % k, ['stop', 'set', 'del', 'clear', 'save', 'reopen'])
            if op == 'stop':
                break
            if op == 'set':
                d['o'] = want['o'] = ctx.choice('w%d' % k, ['', 'yy', ['a']])
            elif op == 'del':
                for n in list(d):
                    del d[n]
                want = {}
            elif op == 'clear':
                d.clear()
                want = {}
                saved = {}
            elif op == 'save':
                d.save()
                saved = dict(want)
            else:
                d = DictFile(path)
                want = dict(saved)
            ctx.check(d == want, 'the dictionary after %s' % op)
            ctx.check(DictFile(path) == saved, 'the file after %s' % op)
        ctx.out(dict(d))
    else:
        how = ctx.choice('how', ['free', 'fixed'])
        if how == 'free':
            raw = ctx.text('raw', 5 if ctx.thorough else 4, '{}[]"1 \nnt')
            s = raw.strip()
            ok = raw == '' or (len(s) >= 2 and s[0] == '{' and s[-1] == '}' and
                               s[1:-1].strip() == '')
        else:
            raw, ok = ctx.choice('raw', [
                ('[]', False), ('[["a", 1]]', False), ('[[1, 2]]', False), ('"ab"', False),
                ('null', False), ('true', False), ('0', False), ('1.5', False), ('{', False),
                ('{"a": 1', False), ('{"a": 1}}', False), ('{"a" 1}', False), ("{'a': 1}", False),
                ('garbage', False), ('\x00', False), ('["a"]', False), ('{} x', False),
                (' {"a": 1} ', True), ('{}', True)])
        ctx.mkfile(path, raw)
        try:
            d = DictFile(path)
        except InvalidDictFileContent:
            ctx.out('refused')
            ctx.check(not ok, 'a JSON object is accepted')
            return
        ctx.out(dict(d))
        ctx.check(ok, 'content that is not a JSON object is refused')
        if how == 'free':
            ctx.check(d == {}, 'an empty object reads as empty')
