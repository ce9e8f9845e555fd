import os
import errno
import hlib

MB = 1024 * 1024


class Response(object):
    """What the server answers, in pieces; a piece can be an exception."""
    def __init__(self, status, pieces, length):
        self.status_code = status
        self.ok = status < 400
        self.reason = 'reason'
        self.pieces = list(pieces)
        self.raw = self
        self.headers = {}
        if length is not None:
            self.headers['content-length'] = str(length)

    def read(self, n=None, *args, **kw):
        out = ''
        while self.pieces:
            data = self.pieces[0]
            if isinstance(data, Exception):
                if n is None and out:
                    pass
                self.pieces.pop(0)
                raise data
            if n is not None and len(out) + len(data) > n:
                self.pieces[0] = data[n - len(out):]
                return out + data[:n - len(out)]
            self.pieces.pop(0)
            out += data
            if n is not None:
                return out
        return out

    def stream(self, n=1, *args, **kw):
        while self.pieces:
            yield self.read(n)

    def iter_content(self, size=1, *args, **kw):
        while self.pieces:
            yield self.read(size)

    @property
    def content(self):
        return self.read()

    def raise_for_status(self):
        import requests
        if self.status_code >= 400:
            raise requests.HTTPError('%s Error' % self.status_code)

    def close(self):
        pass


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    from ipkg.files import vopen
    from ipkg.files.exceptions import FilesException
    import requests
    size = 4 if ctx.thorough else 3
    part = ctx.choice('part', ['read', 'fail', 'cache', 'two', 'crash', 'big'])
    ctx.reach(part)
    env = {'PATH': '/bin'}
    cache = ctx.root + '/cache'
    kind = ctx.choice('cached', ['none', 'dir', 'missing', 'file']) if part in ('read', 'fail', 'big') else 'dir'
    if kind != 'none':
        env['IPKG_CACHE_DIR'] = cache
    if kind == 'dir':
        ctx.mkdir(cache)
    elif kind == 'file':
        ctx.mkfile(cache, 'x')
    ctx.environ(env)
    requested = []
    answers = {}

    def get(url, *args, **kw):
        requested.append(url)
        answer = answers[url]()
        if isinstance(answer, Exception):
            raise answer
        return answer
    ctx.patch('requests', 'get', get)
    url = ctx.choice('scheme', ['http', 'https']) + '://h/f'

    def serve(url, data, cuts=(), headers=True):
        def answer():
            pieces = []
            at = 0
            for c in list(cuts) + [len(data)]:
                if c > at:
                    pieces.append(data[at:c])
                    at = c
            return Response(200, pieces, len(data) if headers else None)
        answers[url] = answer

    def files():
        return sorted(os.listdir(cache)) if kind == 'dir' else []

    if part == 'read':
        data = ctx.text('data', size, 'a\n\0\xff')
        cuts = [ctx.int('c0', 0, 2), ctx.int('c1', 0, 3)]
        serve(url, data, cuts, ctx.choice('headers', [False, True]))
        f = vopen(url)
        ops = ctx.choice('ops', ['all', 'parts', 'seek', 'tell', 'twice'])
        if ops == 'all':
            got = f.read()
        elif ops == 'parts':
            got = f.read(1)
            got += f.read(2)
            got += f.read()
        elif ops == 'seek':
            n = ctx.int('n', 0, 3)
            got = f.read(n)
            f.seek(0)
            ctx.check(f.read() == data, 'reading again gives the content')
            f.seek(len(got))
            got += f.read()
        elif ops == 'tell':
            got = f.read(1)
            ctx.check(f.tell() == len(got), 'the position follows what is read')
            got += f.read()
            ctx.check(f.tell() == len(data), 'the position follows what is read')
        else:
            f.read()
            f.seek(0)
            got = f.read()
        ctx.out(got)
        ctx.check(got == data, 'reading gives exactly the content the server sent')
        ctx.check(len(requested) == 1, 'a file is downloaded once')
        g = vopen(url)
        ctx.check(g.read() == data, 'opening again gives the content')
        ctx.check(len(requested) == (1 if kind == 'dir' else 2), 'a cached file is not requested again')
    elif part == 'fail':
        data = ctx.text('data', 2, 'ab', 1)
        how = ctx.choice('how', ['status', 'get', 'read', 'short', 'long'])
        if how == 'status':
            status = ctx.choice('status', [400, 403, 404, 410, 500, 503, 304, 204, 301])
            answers[url] = lambda: Response(status, [data], len(data))
        elif how == 'get':
            name = ctx.choice('exc', ['ConnectionError', 'Timeout', 'TooManyRedirects', 'InvalidURL', 'HTTPError'])
            answers[url] = lambda: getattr(requests.exceptions, name)('no')
        elif how == 'read':
            exc = ctx.choice('exc', ['ProtocolError', 'ReadTimeoutError', 'DecodeError', 'socket', 'io',
                                     'ChunkedEncodingError', 'ConnectionError', 'incomplete'])
            where = ctx.int('where', 0, 2)

            def fail():
                import socket
                from requests.packages.urllib3 import exceptions
                if exc == 'socket':
                    return socket.error(errno.ECONNRESET, 'reset')
                if exc == 'io':
                    return IOError(errno.EIO, 'error')
                if exc == 'incomplete':
                    from httplib import IncompleteRead
                    return IncompleteRead('')
                if exc == 'ReadTimeoutError':
                    return exceptions.ReadTimeoutError(None, None, 'timeout')
                if exc in ('ChunkedEncodingError', 'ConnectionError'):
                    return getattr(requests.exceptions, exc)('no')
                return getattr(exceptions, exc)('no')
            answers[url] = lambda: Response(200, [x for x in (data[:where], fail(), data[where:])
                                                  if not isinstance(x, str) or len(x)], None)
        elif how == 'short':
            answers[url] = lambda: Response(200, [data], len(data) + 1)
        else:
            ctx.reject()
        f = vopen(url)
        op = ctx.choice('op', ['read', 'tell', 'seek'])
        for i in range(2):
            try:
                if op == 'read':
                    f.read()
                elif op == 'tell':
                    f.tell()
                else:
                    f.seek(1)
            except FilesException:
                ctx.out('refused')
            else:
                ctx.check(False, 'error responses and failed transfers raise a file error')
        ctx.check(files() == [], 'error responses and failed transfers are never cached')
        good = ctx.text('good', 1, 'ab')
        serve(url, good)
        ctx.check(vopen(url).read() == good, 'a later download gives the content')
    elif part in ('cache', 'two'):
        urls = ['http://h/f', 'https://h/f', 'http://h/f?a', 'http://h/g', 'http://h/F', 'http://h/f#x', 'http://h//f',
                'http://h/f/']
        u = ctx.choice('u', urls)
        v = ctx.choice('v', urls)
        if part == 'cache':
            v = 'http://h/' + ctx.text('tail', 2, 'fF?/#', 1)
        a = ctx.text('a', 2, 'xy')
        serve(u, a)
        ctx.check(vopen(u).read() == a, 'reading gives exactly the content the server sent')
        # the content changes, for who asks again
        b = ctx.text('b', 2, 'yz')
        serve(u, b)
        ctx.check(vopen(u).read() == a, 'a later opening reads the same content from the cache')
        ctx.check(len(requested) == 1, 'a cached file is not requested again')
        if u != v:
            serve(v, b)
            ctx.check(vopen(v).read() == b, 'distinct addresses never share an entry')
            ctx.check(len(requested) == 2, 'distinct addresses never share an entry')
            ctx.check(vopen(u).read() == a and vopen(v).read() == b, 'distinct addresses never share an entry')
        ctx.out(a, b)
    elif part == 'big':
        data = ctx.choice('beg', ['', 'abc']) + 'x' * ctx.choice('size', [MB - 3, MB, MB + 1, 2 * MB]) + 'y'
        serve(url, data, ctx.choice('cuts', [[], [1], [MB - 1, MB], [MB + 1]]))
        ctx.check(vopen(url).read() == data, 'reading gives exactly the content the server sent')
        ctx.check(vopen(url).read() == data, 'reading gives exactly the content the server sent')
        ctx.out(len(data))
    else:
        data = ctx.choice('data', ['', 'x', 'some longer content'])
        serve(url, data)
        mode = ctx.choice('mode', ['crash', 'error'])
        status, value = ctx.fault('f', lambda: vopen(url).read(), mode=mode)
        ctx.out(status)
        if status == 'ok':
            ctx.check(value == data, 'a cache which cannot be written does not matter')
        else:
            ctx.check(status == 'crash', 'a cache which cannot be written does not matter')
        if status == 'crash':
            ctx.restart()
            from ipkg.files import vopen as reopen
        else:
            reopen = vopen
        n = len(requested)
        ctx.check(reopen(url).read() == data, 'an interrupted write never gives partial content')
        ctx.check(reopen(url).read() == data, 'an interrupted write never gives partial content')
        ctx.check(len(requested) <= n + 1, 'a cached file is not requested again')
