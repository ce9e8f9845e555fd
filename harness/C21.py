import os
import hlib

BUILD = '/b'

SCRIPTS = ['bin/x', 'sbin/x', 'lib/x', 'lib64/x', 'libexec/x', 'lib/sub/x', 'lib/x.pc', 'lib/sub/x.la',
           'lib/pkgconfig/x.pc.in', 'lib/pkgconfig/sub/x.pc', 'bin/x.la', 'lib/xpc']
PCS = ['lib/pkgconfig/x.pc', 'lib64/pkgconfig/x.pc', 'lib/pkgconfig/a b.pc']
LAS = ['lib/x.la', 'lib64/libx.la']
OUT = ['share/x', 'x', 'etc/x', 'share/bin/x', 'share/pkgconfig/x.pc', 'include/x.la']


def read(path):
    f = open(path, 'rb')
    data = f.read()
    f.close()
    return data


def substituted(line, new):
    """Each occurrence of the build prefix is replaced."""
    out = ''
    while line:
        if line[:len(BUILD)] == BUILD:
            out += new
            line = line[len(BUILD):]
        else:
            out += line[0]
            line = line[1:]
    return out


def lines_of(data):
    """Lines with their line feed."""
    out = []
    cur = ''
    for c in data:
        cur += c
        if c == '\n':
            out.append(cur)
            cur = ''
    if cur != '':
        out.append(cur)
    return out


def expected(path, data, new):
    lines = lines_of(data)
    if path in PCS or path in LAS:
        start = 'prefix=' if path in PCS else 'libdir='
        for i in range(len(lines)):
            if lines[i][:7] == start:
                lines[i] = substituted(lines[i], new)
                break
    elif path in SCRIPTS:
        if data[:2] == '#!':
            lines[0] = substituted(lines[0], new)
    return ''.join(lines)


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    prefix = ctx.root + '/e'
    env = hlib.make_env(ctx, prefix)
    part = ctx.choice('part', ['script', 'pc', 'la', 'other', 'link', 'magic', 'same'])
    ctx.reach(part)
    mode = 0644
    members = []
    files = []
    if part == 'script':
        path = ctx.choice('path', SCRIPTS)
        n = 8 if ctx.thorough else 6
        if path == 'bin/x':
            data = ctx.choice('beg', ['', '#!', '#!/b', '\n#!/b', '#! /b']) + ctx.text('data', n, '/b\n\r')
        elif path == 'sbin/x':
            data = ''
            for i in range(3):
                data += ctx.choice('k%d' % i, ['#!', '', 'prefix=', ' #!', 'libdir='])
                data += '/b' + ctx.text('t%d' % i, 1, '/\n', 1)
        else:
            data = ctx.choice('beg', ['', '#!', ' #!', 'prefix=', '#!/b\nlibdir=']) + ctx.text('data', 3, '/b\n')
        mode = ctx.choice('mode', [0755, 0555, 0700])
    elif part in ('pc', 'la'):
        path = ctx.choice('path', PCS if part == 'pc' else LAS)
        key = 'prefix=' if part == 'pc' else 'libdir='
        keys = ['', key, ' ' + key, 'exec_' + key, '#!', 'libdir=' if part == 'pc' else 'prefix=', key[:-1] + ' =']
        data = ''
        full = path in (PCS[0], LAS[0])
        for i in range(3 if full and (part == 'pc' or ctx.thorough) else 2):
            k = ctx.choice('k%d' % i, keys if full and (i < 2 or ctx.thorough) else keys[:2] if full else keys[:3])
            data += k + ctx.text('t%d' % i, 4 if ctx.thorough else (3, 2 if full and part == 'pc' else 3, 1)[i], '/b\n' if i or (full and part == 'pc' and not ctx.thorough) else '/b\n\r')
        mode = 0644 if full and not ctx.thorough else ctx.choice('mode', [0644, 0444])
    elif part == 'other':
        path = ctx.choice('path', OUT)
        data = ctx.choice('beg', ['#!/b', 'prefix=/b\n', 'libdir=/b\n']) + ctx.text('data', 3, '/b\n')
    elif part == 'link':
        # a link in bin to a file elsewhere, and one to a file which is rewritten itself
        path = ctx.choice('path', ['share/x', 'bin/x'])
        data = '#!/b/x\n' + ctx.text('data', 3, '/b\n')
        link = ctx.choice('link', ['bin/l', 'lib/l.la', 'lib/pkgconfig/l.pc', 'sbin/l'])
        members.append((link, 'link', '../' * link.count('/') + path))
        files.append(link)
    elif part == 'magic':
        path = ctx.choice('path', ['bin/x', 'lib/x', 'lib64/x.so'])
        data = ctx.choice('beg', ['\x7fELF', '\xfe\xed\xfa\xce', '\xca\xfe\xba\xbe', '\xcf\xfa\xed', '#', '', '\n#!',
                                  '\xef\xbb\xbf#!', 'MZ']) + '/b' + ctx.text('data', 3, '/b\n\0\xff')
    else:
        path = 'bin/x'
        data = '#!' + ctx.text('data', 3, '/be\n')
    members.append((path, 'file', data, mode))
    files.append(path)
    build = prefix if part == 'same' else BUILD
    m = hlib.meta('p', '1', '1', files, None, build_prefix=build)
    hlib.package(ctx, ctx.root + '/p.ipkg', m, members)
    ctx.mkfile(prefix + '/bin/mine', '#!/b/x\n')
    ctx.mkfile(prefix + '/lib/pkgconfig/mine.pc', 'prefix=/b\n')
    env.install(ctx.root + '/p.ipkg')
    got = read(prefix + '/' + path)
    ctx.out(got)
    if part == 'same':
        ctx.check(got == data, 'nothing changes when the prefix is the same')
    else:
        ctx.check(got == expected(path, data, prefix), 'only the build prefix on the targeted line is replaced')
    ctx.check(os.stat(prefix + '/' + path).st_mode & 07777 == mode, 'the mode stays the same')
    if part == 'link':
        ctx.check(os.path.islink(prefix + '/' + link), 'a link stays a link')
    ctx.check(read(prefix + '/bin/mine') == '#!/b/x\n' and
              read(prefix + '/lib/pkgconfig/mine.pc') == 'prefix=/b\n', 'files of others are not rewritten')
