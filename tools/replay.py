"""python3-vt tools/replay.py evidence/replay-Cxx.json: runs one counterexample on the real code."""
import json
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from sx import program


def main():
    t = json.load(open(sys.argv[1]))
    prop = os.path.basename(t['harness'])[:-3]
    scratch = tempfile.mkdtemp(prefix='sx-replay-')
    try:
        prog = program.Program(scratch, prop)
        rep = check.Replayer(prog, scratch, prop, t.get('tier', 'quick'))
        res, hung, code = rep.run([dict(t)], 60)
        print(json.dumps(res, indent=1), 'hung' if hung else '', code)
        print(rep.last_log)
    finally:
        shutil.rmtree(scratch)


main()
