import hashlib
import hlib

ORDER = ['sha512', 'sha384', 'sha256', 'sha224', 'sha1', 'md5']


class Response(object):
    """What the server answers, in pieces."""
    status_code = 200
    ok = True
    reason = 'OK'
    headers = {}

    def __init__(self, pieces):
        self.pieces = list(pieces)
        self.raw = self
        self.closed = False

    def read(self, n=None, *args, **kw):
        if not self.pieces:
            return ''
        if n is None or n < 0:
            out = ''.join(self.pieces)
            self.pieces = []
            return out
        data = self.pieces.pop(0)
        if len(data) > n:
            self.pieces.insert(0, data[n:])
            data = data[:n]
        return data

    def iter_content(self, size=1, *args, **kw):
        while self.pieces:
            yield self.read(size)

    @property
    def content(self):
        return self.read()

    def raise_for_status(self):
        pass

    def close(self):
        self.closed = True


def digest(name, data):
    return getattr(hashlib, name)(data).hexdigest()


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.build import File
    from ipkg.files.backends import InvalidChecksum
    from ipkg.exceptions import IpkgException
    size = 4 if ctx.thorough else 3
    content = ctx.text('content', size, 'ab\n\0')
    part = ctx.choice('part', ['one', 'two', 'none', 'odd', 'backend'])
    ctx.reach(part)
    where = ctx.choice('where', ['local', 'http']) if part in ('one', 'two', 'none') else 'local'
    asked = []
    if where == 'local':
        url = ctx.root + ctx.choice('file', ['/f', '/f?x#y', '/.f', '/d.d/f.tar.gz'] if part in ('one', 'none') else ['/f'])
        ctx.mkfile(url, content)
    else:
        url = ctx.choice('url', ['http://h/f.tar.gz', 'http://h/d/', 'https://h/f?a=b#sha1=0', 'http://h'] if
                         part in ('one', 'none') else ['http://h/f.tar.gz'])
        cut = ctx.int('cut', 0, 2)

        def get(*args, **kw):
            asked.append(args)
            return Response([p for p in (content[:cut], content[cut:]) if len(p)])
        ctx.patch('requests', 'get', get)
        if ctx.choice('cache', [False, True]):
            ctx.mkdir(ctx.root + '/cache')
            ctx.environ({'PATH': '/bin', 'IPKG_CACHE_DIR': ctx.root + '/cache'})
    kw = {}
    if part in ('one', 'backend'):
        name = ctx.choice('name', ORDER)
        other = ctx.text('other', size, 'ab\n\0')
        kw[name] = digest(name, other)
        good = other == content
    elif part == 'two':
        # the strongest of the declared checksums counts
        i = ctx.int('i', 0, 5)
        j = ctx.int('j', 0, 5)
        ctx.assume(i < j)
        right = content + 'x'
        which = ctx.choice('which', ['both', 'strong', 'weak', 'none'])
        kw[ORDER[i]] = digest(ORDER[i], content if which in ('both', 'strong') else right)
        kw[ORDER[j]] = digest(ORDER[j], content if which in ('both', 'weak') else right)
        good = which in ('both', 'strong')
    elif part == 'odd':
        name = ctx.choice('name', ORDER)
        real = digest(name, content)
        value = ctx.choice('value', ['', 'cut', 'long', 'blank', 'other', 'text'])
        if value == 'cut':
            value = real[:-1]
        elif value == 'long':
            value = real + '0'
        elif value == 'blank':
            value = real + ' '
        elif value == 'other':
            value = digest(ORDER[ORDER.index(name) - 1], content)
        elif value == 'text':
            value = '0' * len(real)
        kw[name] = value
        good = False
    else:
        good = True
    if part == 'backend':
        from ipkg.files import vopen
        f = vopen(url, expected_hash=kw[name], hash_class=getattr(hashlib, name))
        at = ctx.int('at', 0, size)
        f.seek(at)
        try:
            f.verify_checksum()
        except InvalidChecksum:
            ctx.check(not good, 'a file with its checksum is accepted')
            ctx.out('refused')
            return
        ctx.check(good, 'a file with another checksum is refused')
        got = f.read()
        ctx.out(got)
        ctx.check(got == content[at:], 'the position is the one before the check')
        return
    resource = File(url, **kw)
    try:
        f = resource.open()
    except InvalidChecksum:
        ctx.out('refused')
        ctx.check(not good, 'a file with its checksum opens')
        return
    ctx.check(good, 'a file with another checksum is refused')
    how = ctx.choice('how', ['all', 'parts'])
    if how == 'all':
        got = f.read()
    else:
        got = f.read(1)
        got += f.read()
    ctx.out(got)
    ctx.check(got == content, 'what is read is the verified content from the start')
    again = resource.open().read()
    ctx.check(again == content, 'opening again gives the content')
