"""The program under test: /repo's sources, parsed by Jython, instrumented for the engine."""
import gzip
import hashlib
import json
import os
import re
import subprocess
import sys
import types
from . import containers, core, models, py2ast, vfs
from . import runtime as rt
from .containers import PyDict

REPO = os.environ.get('SX_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/usr/share/java/jython.jar'
PKGRES = '/opt/jy/site/pkg_resources.py'
JARLIBS = ('posixpath', 'genericpath', 'os', 'tarfile', 'shutil', 'urlparse', 'shlex', 'argparse',
           'textwrap', 'fnmatch', 'glob', 'bisect', 'heapq', 'ConfigParser', 'filecmp', 'getopt',
           'optparse', 'sets', 'distutils.version')
RARE = frozenset('lib:' + n for n in JARLIBS[11:])
PKGRES_NAMES = ('component_re', 'replace', '_parse_version_parts', 'parse_version')
OS_NAMES = ('walk', 'makedirs', 'removedirs', 'renames')


def jy_env(scratch=None):
    return {'HOME': scratch or '/root', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
            'PATH': '/bin:/usr/bin:/usr/sbin:/sbin', 'SX_JYTHON_JAR': JAR,
            'JYTHONPATH': '%s:/opt/jy/shim:/opt/jy/site' % REPO, 'PYTHONDONTWRITEBYTECODE': '1',
            'PIP_NO_INDEX': '1'}


def jython(*args):
    tmp = []
    return ['java', '-Xss16m', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC',
            '-jar', JAR, '-Dpython.home=/usr/share/jython', '-Dpython.executable=/usr/bin/jython',
            '-Dpython.cachedir.skip=true', '-B'] + tmp + list(args)


class Program(object):
    def __init__(self, scratch, harness=None):
        self.scratch = scratch
        self.harness = harness
        self.code = {}          # module name -> (code, is_package) or SyntaxError text
        self.functions = {}
        self.asts = {}
        self.pkgs = set()
        self.files = {}
        self.builtins = None
        self.dump()

    # -- front end ------------------------------------------------------------------
    def sources(self):
        out = []
        base = os.path.join(REPO, 'ipkg')
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), REPO)
                    mod = rel[:-3].replace('/', '.')
                    if mod.endswith('.__init__'):
                        mod = mod[:-9]
                        self.pkgs.add(mod)
                    out.append((mod, os.path.join(d, f)))
        return out

    def parse(self, pairs):
        """{name: syntax tree}, by Jython's own parser."""
        out = os.path.join(self.scratch, 'ast.json')
        r = subprocess.run(jython(os.path.join(HERE, 'sx', 'jydump.py'), out,
                                  *['%s=%s' % p for p in pairs]),
                           env=jy_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=120)
        if r.returncode:
            raise RuntimeError('parsing failed:\n' + r.stdout.decode('utf8', 'replace'))
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        return d

    def dump(self):
        pairs = self.sources()
        self.repo_mods = [m for m, _ in pairs]
        pairs.append(('setup', os.path.join(REPO, 'setup.py')))
        for d, _, files in os.walk(os.path.join(HERE, 'harness')):
            for f in sorted(files):
                if f.endswith('.py') and (self.harness in (None, f[:-3]) or
                                          not re.match(r'C\d+$', f[:-3])):
                    pairs.append((f[:-3], os.path.join(d, f)))
        self.asts = self.parse(pairs)
        self.asts.update(self.libs())
        self.entry_points = self._entry_points(self.asts.pop('setup'))

    def libs(self):
        """The trees of the library modules (of fixed files: kept, by content)."""
        pairs = [('lib:' + n, 'jar:Lib/%s.py' % n.replace('.', '/')) for n in JARLIBS]
        pairs.append(('lib:pkg_resources', PKGRES))
        h = hashlib.sha256()
        for p in (JAR, PKGRES):
            with open(p, 'rb') as f:
                h.update(f.read())
        h.update(repr(pairs).encode())
        cache = os.path.join(HERE, 'sx', 'libast.json.gz')
        if os.path.exists(cache):
            with gzip.open(cache, 'rt') as f:
                d = json.load(f)
            if d['key'] == h.hexdigest():
                return d['asts']
        d = {'key': h.hexdigest(), 'asts': self.parse(pairs)}
        if os.environ.get('SX_SAVE_LIBS'):
            with open(cache, 'wb') as f:
                with gzip.GzipFile('', 'wb', 9, f, mtime=0) as g:
                    g.write(json.dumps(d, sort_keys=True).encode())
        return d['asts']

    def _entry_points(self, d):
        """The entry_points text given to setup()."""
        found = []

        def walk(n):
            if isinstance(n, dict):
                if n.get('t') == 'keyword' and n.get('arg') == 'entry_points':
                    found.append(n['value'])
                for v in n.values():
                    walk(v)
            elif isinstance(n, list):
                for v in n:
                    walk(v)
        walk(d.get('ast'))
        for v in found:
            try:
                x = py2ast.literal(v)
            except ValueError:
                continue
            if isinstance(x, dict):
                return '\n'.join('[%s]\n%s' % (k, '\n'.join(e if not isinstance(e, str) else
                                                            e for e in es))
                                 for k, es in x.items())
            return x
        return ''

    def compiled(self, name):
        c = self.code.get(name)
        if c is None:
            d = self.asts[name]
            if 'error' in d:
                raise RuntimeError('%s: %s' % (d['path'], d['error']))
            a = d['ast']
            if name == 'lib:os':
                a = dict(a, body=[s for s in a['body'] if s.get('t') == 'FunctionDef'
                                  and s.get('name') in OS_NAMES])
            elif name == 'lib:pkg_resources':
                a = dict(a, body=[s for s in a['body'] if self._pkgres(s)])
            elif name == 'lib:urlparse':      # a constant table, made once by the host
                a = dict(a, body=[s for s in a['body'] if not (
                    s.get('t') == 'Assign' and s['targets'][0].get('id') == '_hextochr')])
            code, fns = py2ast.from_json(a, name, d['path'])
            self.functions[name] = fns
            c = self.code[name] = code
        return c

    @staticmethod
    def _pkgres(s):
        if s.get('t') == 'FunctionDef':
            return s['name'] in PKGRES_NAMES
        if s.get('t') == 'Assign':
            return any(t.get('id') in PKGRES_NAMES for t in s['targets'])
        return False

    def compile_all(self):
        for n in list(self.asts):
            if n in RARE:
                continue
            try:
                self.compiled(n)
            except RuntimeError:
                pass

    def syntax_errors(self):
        return ['%s: %s' % (n, d['error']) for n, d in self.asts.items() if 'error' in d]

    _hex = None
    lib_builtins = None

    def hextochr(self):
        if self._hex is None:
            d = '0123456789ABCDEFabcdef'
            self._hex = PyDict(dict((a + b, chr(int(a + b, 16))) for a in d for b in d))
        return self._hex

    # -- per path -----------------------------------------------------------------------
    def load_lib(self, name):
        m = types.ModuleType(name)
        g = m.__dict__
        if self.lib_builtins is None:
            self.lib_builtins = rt.make_builtins(lib_import)
        g['__builtins__'] = self.lib_builtins
        if name == 'os':
            o = models.get('os')
            for n in dir(o):
                if not n.startswith('__'):
                    g[n] = getattr(o, n)
        elif name == 'pkg_resources':
            g['re'] = models.get('re')
        elif name == 'urlparse':
            g['_hextochr'] = self.hextochr()
        g['__name__'] = name
        code = self.compiled('lib:' + name)
        core.CTX.state['libs'][name] = m
        containers.LIBLOAD[0] += 1
        try:
            exec(code, g)
        except BaseException:
            core.CTX.state['libs'].pop(name, None)
            raise
        finally:
            containers.LIBLOAD[0] -= 1
        return m


def lib_import(*a, **k):
    return core.CTX.state['importer'](*a, **k)


class Importer(object):
    """__import__ of one path."""

    def __init__(self, program):
        self.p = program
        self.mods = {}
        self.builtins = rt.make_builtins(self.imp)
        program.builtins = self.builtins

    def known(self, name):
        return name in self.p.asts and not name.startswith('lib:')

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if self.known(name):
            parent, _, leaf = name.rpartition('.')
            if parent and self.known(parent):
                self.load(parent)
                m = self.mods.get(name)
                if m is not None:
                    return m
            code = self.p.compiled(name)
            m = types.ModuleType(name)
            g = m.__dict__
            g['__builtins__'] = self.builtins
            g['__file__'] = self.p.asts[name]['path']
            pk = name if name in self.p.pkgs else parent
            g['__package__'] = pk
            if name in self.p.pkgs:
                g['__path__'] = [os.path.dirname(self.p.asts[name]['path'])]
            self.mods[name] = m
            try:
                exec(code, g)
            except BaseException:
                self.mods.pop(name, None)
                raise
            if parent and parent in self.mods:
                setattr(self.mods[parent], leaf, m)
            return m
        m = models.get(name)
        if m is None:
            if name.split('.')[0] in ('pip', 'setuptools', 'nose', 'mock', 'vagrant', 'fabric',
                                      'unittest2', 'six', 'java', 'javax', 'org'):
                raise core.Unsupported('import of %s' % name)
            raise ImportError('No module named %s' % name)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level and level > 0:
            pk = globals.get('__package__') or ''
            for _ in range(level - 1):
                pk = pk.rpartition('.')[0]
            full = pk + ('.' + name if name else '')
        else:
            full = name
            pk = (globals or {}).get('__package__')
            if pk and self.known(pk + '.' + name.split('.')[0]) and level != -99:
                full = pk + '.' + name
        m = self.load(full)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and self.known(full + '.' + f):
                    self.load(full + '.' + f)
            return m
        if full != name:
            top = full[:len(full) - len(name)] + name.split('.')[0]
        else:
            top = full.split('.')[0]
        if top == full:
            return m
        return self.load(top)


def load_source(program, importer):
    """imp.load_source: the text of a formula, parsed by the host (formulas in
    harnesses are written in the common subset of Python 2 and 3)."""
    def load(name, path, src):
        from . import strings
        strings_concretise = strings.concretise
        if not isinstance(src, str):
            src = strings_concretise(src)
        key = src
        code = program.__dict__.setdefault('formula_code', {}).get(key)
        if code is None:
            code, fns = py2ast.from_source(src, 'formula', path if isinstance(path, str)
                                           else '<formula>')
            program.formula_code[key] = code
        # a module which is already loaded under that name is loaded again, into the same module
        loaded = core.CTX.state.setdefault('loaded_sources', [])
        m = None
        for n, mod in list(importer.mods.items()) + loaded:
            if name == n:
                m = mod
                break
        if m is None:
            if isinstance(name, str) and models.get(name) is not None:
                raise core.Unsupported('loading a source as module %s' % name)
            m = types.ModuleType('formula')
            loaded.append((name, m))
        g = m.__dict__
        g['__builtins__'] = importer.builtins
        g['__file__'] = path
        g['__package__'] = ''
        exec(code, g)
        return m
    return load
