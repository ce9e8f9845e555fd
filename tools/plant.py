"""python3 tools/plant.py SPEC.py [ID...]: makes /verif/seeded/<id> out of the entries of SPEC.py
(BUGS: dicts with id, property, edits [(file, old, new)], demo, needs, breaks), after
confirming them on a copy of /repo (never in /repo itself)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

PRE = '''import sys, os, json, tarfile, StringIO, tempfile, shutil
root = sys.argv[1]


def meta(name, version='1', revision='1', files=(), dependencies=None, envvars=None, build_prefix='/build', platform='any-any-any'):
    return dict(name=name, version=version, revision=revision, files=list(files), dependencies=dependencies,
                envvars=envvars, build_prefix=build_prefix, platform=platform, homepage=None)


def package(path, meta, members=()):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    tar = tarfile.open(path, 'w')
    for name, kind, value in list(members) + [('.ipkg.meta', 'file', json.dumps(meta))]:
        info = tarfile.TarInfo(name)
        if kind == 'file':
            info.size = len(value)
            tar.addfile(info, StringIO.StringIO(value))
        else:
            info.type = {'link': tarfile.SYMTYPE, 'hard': tarfile.LNKTYPE, 'dir': tarfile.DIRTYPE}[kind]
            info.linkname = value or ''
            tar.addfile(info)
    tar.close()
    return path


def make_env(path):
    from ipkg.environments import Environment
    env = Environment(path)
    env.directories.create()
    return env


def read(path):
    return open(path).read()


def write(path, data):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, 'w') as f:
        f.write(data)


def expect(cond, what):
    if not cond:
        print 'FAILED:', what
        sys.exit(1)


'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
export TMPDIR=$d
export HOME=$d
cd "$d" && $JYTHON "$here/demo.py" "$d"
'''
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) \
    if os.path.exists('/opt/vp/BASELINE.json') else set()


def on_copy(copy, script, *args):
    """Runs a script of /opt/vp, or a demo, against the copy."""
    work = tempfile.mkdtemp(prefix='plant-vp-')
    try:
        vp = os.path.join(work, 'vp')
        shutil.copytree('/opt/vp', vp)
        for r, _, fs in os.walk(vp):
            for f in fs:
                p = os.path.join(r, f)
                if p.endswith(('.sh', '.py')):
                    s = open(p).read()
                    s = re.sub(r'/repo\b', copy, s).replace('/opt/vp', vp)
                    open(p, 'w').write(s)
        if script.endswith('demo.sh'):
            d = os.path.join(work, 'demo')
            shutil.copytree(os.path.dirname(script), d)
            s = open(os.path.join(d, 'demo.sh')).read().replace('/opt/vp', vp)
            open(os.path.join(d, 'demo.sh'), 'w').write(s)
            script = os.path.join(d, 'demo.sh')
        else:
            script = os.path.join(vp, script)
        r = subprocess.run(['bash', script] + list(args), cwd=copy, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return r.returncode, r.stdout.decode('latin-1')
    finally:
        shutil.rmtree(work)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    ids = sys.argv[2:]
    for b in spec['BUGS']:
        if ids and b['id'] not in ids:
            continue
        dest = '/verif/seeded/' + b['id']
        if os.path.exists(dest) and not ids:
            continue
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            copy = os.path.join(tmp, 'copy')
            subprocess.check_call(['cp', '-a', '/repo', copy])
            demo = os.path.join(tmp, 'demo')
            os.mkdir(demo)
            open(os.path.join(demo, 'demo.sh'), 'w').write(SH)
            open(os.path.join(demo, 'demo.py'), 'w').write(PRE + b['demo'])
            rc, out = on_copy(copy, os.path.join(demo, 'demo.sh'))
            if rc != 0:
                print(b['id'], 'demo fails on the clean tree', out[-1500:])
                continue
            bad = False
            for f, old, new in b['edits']:
                p = os.path.join(copy, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'text found', s.count(old), 'times in', f)
                    bad = True
                    break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                continue
            diff = subprocess.check_output(['git', '-C', copy, 'diff'])
            blame = False
            for h in re.findall(rb'^@@ -(\d+)(?:,(\d+))?', diff, re.M):
                pass
            # removed lines must be lines of the original repository
            for f in set(e[0] for e in b['edits']):
                lines = subprocess.check_output(['git', '-C', copy, 'blame', '-s', 'HEAD', '--', f]).decode('latin-1').split('\n')
                n = 0
                d = subprocess.check_output(['git', '-C', copy, 'diff', '-U0', f]).decode('latin-1')
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                    a, k = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
                    for i in range(a, a + k):
                        if not lines[i - 1].startswith('^'):
                            print(b['id'], 'WARNING not an original line:', lines[i - 1])
                            blame = True
            rc, out = on_copy(copy, 'build.sh')
            if rc:
                print(b['id'], 'does not build', out[-800:])
                continue
            res = os.path.join(tmp, 'res.json')
            rc, out = on_copy(copy, 'test.sh', res)
            last = out.strip().split('\n')[-1]
            if '111 passed' not in last:
                r = json.load(open(res))
                print(b['id'], 'tests:', last, str([k for k, v in r.items() if v not in ('passed', 'pass')] if isinstance(r, dict) else '')[:600])
                continue
            rc, out = on_copy(copy, os.path.join(demo, 'demo.sh'))
            if rc == 0:
                print(b['id'], 'demo passes with the change', out[-800:])
                continue
            if os.path.exists(dest):
                shutil.rmtree(dest)
            os.makedirs(dest)
            for f in os.listdir(demo):
                shutil.copy(os.path.join(demo, f), dest)
            open(os.path.join(dest, 'patch.diff'), 'wb').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(dest, 'meta.json'), 'w'), indent=1)
            env = dict(os.environ, SX_REPO=copy)
            r = subprocess.run(['python3-vt', '/verif/check.py', b['property']], env=env, cwd='/verif',
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = r.stdout.decode('latin-1').strip().split('\n')
            print(b['id'], 'kept;', 'CAUGHT' if r.returncode == 1 else 'MISSED (%d)' % r.returncode,
                  t[-1][:200], '| demo:', out.strip().split('\n')[-1][:200])
        finally:
            shutil.rmtree(tmp)
        sys.stdout.flush()


main()
