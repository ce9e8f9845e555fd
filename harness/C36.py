import os
import hlib

ONE = '''
from ipkg.build import Formula
import os

WHO = %r


class Helper(object):
    pass


class %s(Formula):
    name = WHO
    version = '1.0'
    sources = 's'
    dependencies = ('x>1',)

    def install(self):
        return WHO
'''
PRIVATE = '''
from ipkg.build import Formula as _Formula, File


class _Base(_Formula):
    revision = 3
    sources = File('s')


class %s(_Base):
    name = %r
    version = '1.0'

    def install(self):
        return self.name
'''
NONE = '''
from ipkg.build import File, Formula
name = 'foo'


class Thing(object):
    name = 'foo'
'''
SEVERAL = '''
from ipkg.build import Formula


class A(Formula):
    name = 'foo'


class B(A):
    version = '2'
'''
MISSING = '''
from ipkg.nowhere import Formula


class A(Formula):
    name = 'foo'
'''
OTHER = '''
from ipkg.build import Formula
import nothing_like_this


class A(Formula):
    name = 'foo'
'''


def is_name(s):
    for c in s:
        if not (c.isalnum() or c in '_-'):
            return False
    return len(s) > 0


def is_version(s):
    for c in s:
        if not (c.isalnum() or c in '_-.'):
            return False
    return len(s) > 0


def is_formula_file(name):
    """<name>-<version>.py"""
    if name[-3:] != '.py':
        return False
    stem = name[:-3]
    for i in range(len(stem)):
        if stem[i] == '-' and is_name(stem[:i]) and is_version(stem[i + 1:]):
            return True
    return False


def repository(ctx):
    from ipkg.build import Formula
    from ipkg.exceptions import IpkgException
    from ipkg.repositories import FormulaRepository
    base = ctx.root + '/f'
    ctx.mkdir(base)
    files = []
    for i in range(2):
        d = ctx.choice('dir', ['foo', 'bar', '.']) if i == 0 else 'foo'
        stem = ctx.text('file%d' % i, (4 if ctx.thorough else 3) if i == 0 else 1, 'a-1.~' if i == 0 else 'a.~', 1)
        ctx.assume(stem != '.' and stem != '..')
        name = ctx.choice('beg%d' % i, ['', 'a-'] if i == 0 else ['a-']) + stem + ctx.choice(
            'ext%d' % i, ['.py', '.pyc', ''] if i == 0 else ['.py'])
        ctx.assume(name != '.' and name != '..' and name != 'foo' and name != 'bar')
        files.append((d, name))
    ctx.assume(files[0] != files[1])
    want = []
    broken = False
    for i, (d, name) in enumerate(files):
        who = ctx.choice('name', ['foo', 'a_B', 'Foo-1']) if i == 0 else 'foo'
        ok = is_formula_file(name) and d != '.'
        what = ctx.choice('what', ['good', 'same', 'none', 'missing']) if i == 0 and ok else 'good'
        text = ONE % (who, 'Thing' if what == 'same' else 'Thing%d' % i)
        if what == 'none':
            text = NONE
        elif what == 'missing':
            text = MISSING
        if ok and what in ('none', 'missing'):
            broken = True
        elif ok:
            want.append(who)
        ctx.mkfile(base + '/' + d + '/' + name, text)
    ctx.mkdir(base + '/empty')
    try:
        repo = FormulaRepository(base)
    except IpkgException:
        ctx.out('refused')
        ctx.check(broken, 'formulas which can be loaded are in the repository')
        return
    ctx.check(not broken, 'a formula which cannot be loaded is refused')
    found = [c.name for c in repo]
    ctx.check(sorted(found) == sorted(want), 'the repository has exactly the formulas of its files')
    ctx.out(sorted(found))
    for name in ('foo', 'a_B', 'Foo-1', 'a-B', 'Foo'):
        got = repo.find(name)
        ctx.check(len(got) == len([w for w in want if w == name]), 'a lookup finds the formulas')
        for c in got:
            ctx.check(c.name == name and issubclass(c, Formula), 'a lookup finds the formulas')


def harness(ctx):
    hlib.world(ctx)
    ctx.environ({'PATH': '/bin', 'HOME': '/h'})
    part = ctx.choice('part', ['file', 'repository'])
    ctx.reach(part)
    if part == 'repository':
        return repository(ctx)
    from ipkg.build import Formula
    from ipkg.exceptions import IpkgException
    os.chdir(ctx.root)
    kinds = ['one', 'private', 'none', 'several', 'missing', 'other', 'absent']
    loaded = []
    for i in range(2):
        if i == 1 and loaded[0][1] not in ('one', 'private'):
            kinds = ['one', 'private']
        elif i == 1:
            kinds = ['one', 'private', 'none', 'several', 'absent']
        kind = ctx.choice('kind%d' % i, kinds)
        cls = ctx.choice('class%d' % i, ['A', 'foo']) if i == 0 and kind in ('one', 'private') else 'A'
        who = 'who%d' % i
        # a second time the same file, with another content, or another one of the same name
        same = i == 1 and loaded[0][1] in ('one', 'several', 'absent') and ctx.choice('same', [False, True])
        if same:
            name = loaded[0][0][3:]
        else:
            name = ctx.text('stem%d' % i, 2, 'a.p', 1) + ctx.choice('ext%d' % i, ['.py', '', '-1.0.py'])
            ctx.assume(name != '.' and name != '..')
        path = ('d0/' if i == 0 or same and ctx.choice('again', [False, True]) else 'd1/') + name
        if kind == 'one':
            text = ONE % (who, cls)
        elif kind == 'private':
            text = PRIVATE % (cls, who)
        else:
            text = {'none': NONE, 'several': SEVERAL, 'missing': MISSING, 'other': OTHER}.get(kind)
        if text is not None:
            ctx.mkfile(ctx.root + '/' + path, text)
        elif path[:2] == 'd0' and i == 1 and loaded[0][1] != 'absent':
            os.unlink(ctx.root + '/' + path)
        how = ctx.choice('path', ['absolute', 'relative']) if i == 0 and kind == 'one' else 'absolute'
        good = kind in ('one', 'private')
        try:
            c = Formula.from_file((ctx.root + '/' if how == 'absolute' else '') + path)
        except IpkgException as exc:
            ctx.out('refused')
            ctx.check(not good, 'a file which defines one formula is loaded')
            ctx.check(len(str(exc)) > 0, 'the error says what is wrong')
            c = None
        else:
            ctx.check(good, 'a file which does not define one formula is refused')
            ctx.check(issubclass(c, Formula) and c.__name__ == cls, 'the formula of the file is loaded')
        loaded.append((path, kind, c, who))
    for path, kind, c, who in loaded:
        if c is not None:
            f = c()
            ctx.out([f.name, f.version, f.revision])
            ctx.check(f.name == who and f.version == '1.0', 'the formula has the attributes the file gives it')
            ctx.check(f.revision == (3 if kind == 'private' else 1), 'the formula has the attributes the file gives it')
            ctx.check(f.install() == who, 'the formula keeps working whatever is loaded afterwards')
    ctx.check(Formula.name is None, 'loading a formula changes nothing else')
