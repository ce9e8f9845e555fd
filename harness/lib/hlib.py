"""Shared by the harnesses (Python 2, runs under the engine and under Jython)."""
import os
import json
import tarfile
import StringIO

PLATFORM = 'debian-7.0-x86_64'


def world(ctx):
    """A plain Linux host."""
    ctx.platform('Linux', 'debian', '7.0', 'x86_64')


def meta(name, version='1.0', revision='1', files=(), dependencies=None, envvars=None,
         build_prefix='/build', platform=PLATFORM):
    return {'name': name, 'version': version, 'revision': revision, 'files': list(files),
            'dependencies': dependencies, 'envvars': envvars, 'build_prefix': build_prefix,
            'platform': platform, 'homepage': None, 'hostname': 'h', 'timestamp': 1}


def add_member(tar, name, kind, value, mode=0644):
    info = tarfile.TarInfo(name)
    if kind == 'file':
        info.size = len(value)
        info.mode = mode
        tar.addfile(info, StringIO.StringIO(value))
    elif kind == 'dir':
        info.type = tarfile.DIRTYPE
        info.mode = 0755
        tar.addfile(info)
    elif kind == 'link':
        info.type = tarfile.SYMTYPE
        info.linkname = value
        tar.addfile(info)
    elif kind == 'hard':
        info.type = tarfile.LNKTYPE
        info.linkname = value
        tar.addfile(info)


def package(ctx, path, meta, members=(), mode='w:bz2'):
    """Writes a package file; members: (name, kind, content or target)."""
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    tar = tarfile.open(path, mode)
    for m in members:
        add_member(tar, *m)
    add_member(tar, '.ipkg.meta', 'file', json.dumps(meta))
    tar.close()
    return path


def make_env(ctx, prefix):
    """An environment with its directories."""
    from ipkg.environments import Environment
    env = Environment(prefix)
    env.directories.create(False)
    return env


def clean(snap, *ignored):
    """A snapshot without directories and the ignored paths (or beginnings of paths)."""
    starts = tuple([n[:-1] for n in ignored if n.endswith('*')])
    out = {}
    for p in snap:
        k, v = snap[p]
        if k != 'dir' and p not in ignored and not (starts and p.startswith(starts)):
            out[p] = (k, v)
    return out


class Pipe(object):
    """An end of a pipe to a command."""
    def __init__(self, process, index=None):
        self.process = process
        self.index = index
        self.data = []
        self.closed = False

    def write(self, text):
        self.data.append(text)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def read(self, *args):
        if not self.data:
            self.process.end()
            self.data.append(self.process.results[self.index] or '')
            return self.data[0]
        return ''

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())


class FakePopen(object):
    """Stands for subprocess.Popen: start() is called with the arguments, and
       finish() with what the command reads; it returns (output, errors, code).
    """
    pid = 42

    def __init__(self, args, bufsize=0, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=False, shell=False, cwd=None, env=None, universal_newlines=False, startupinfo=None,
                 creationflags=0):
        self.returncode = None
        self.results = None
        self.start(args, {'stdin': stdin, 'stdout': stdout, 'stderr': stderr, 'shell': shell, 'cwd': cwd, 'env': env,
                          'executable': executable})
        self.stdin = Pipe(self) if stdin == -1 else None
        self.stdout = Pipe(self, 0) if stdout == -1 else None
        self.stderr = Pipe(self, 1) if stderr == -1 else None

    def start(self, args, kw):
        pass

    def finish(self, data):
        return None, None, 0

    def end(self, data=None):
        if self.results is None:
            if self.stdin is None:
                data = None
            elif self.stdin.data:
                data = ''.join(self.stdin.data) + (data or '')
            out, err, code = self.finish(data)
            self.results = (out if self.stdout is not None else None, err if self.stderr is not None else None)
            self.returncode = code

    def communicate(self, input=None):
        self.end(input)
        return self.results

    def wait(self):
        self.end()
        return self.returncode

    def poll(self):
        self.end()
        return self.returncode

    def kill(self):
        pass
    terminate = kill
