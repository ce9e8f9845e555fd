"""Decides one property: python3-vt check.py C01 [--tier quick|thorough]

Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer."""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sx import engine, program, core   # noqa: E402


def findings():
    known = {}
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    # finding: property=C01 tag=xyz <what fails>
                    p = line.split(None, 3)
                    known[(p[1].split('=')[1], p[2].split('=')[1])] = p[3]
    except IOError:
        pass
    return known


class Replayer(object):
    def __init__(self, prog, scratch, harness, tier):
        self.prog = prog
        self.scratch = scratch
        self.harness = harness
        self.tier = tier
        self.n = 0
        base = os.path.join(scratch, 'jy')
        os.makedirs(base)
        shutil.copytree(os.path.join(program.REPO, 'ipkg'), os.path.join(base, 'repo', 'ipkg'))
        egg = os.path.join(base, 'repo', 'ipkg.egg-info')
        os.makedirs(egg)
        with open(os.path.join(egg, 'PKG-INFO'), 'w') as f:
            f.write('Metadata-Version: 1.0\nName: ipkg\nVersion: 0.11.0\n')
        with open(os.path.join(egg, 'entry_points.txt'), 'w') as f:
            f.write('\n'.join(l.strip() for l in prog.entry_points.splitlines()) + '\n')
        shutil.copytree(os.path.join(HERE, 'harness'), os.path.join(base, 'harness'))
        shutil.copy(os.path.join(HERE, 'sx', 'replay_jy.py'), base)
        self.base = base
        self.root = os.geteuid() == 0

    def run(self, traces, timeout, junk=0):
        """Runs the traces in one JVM; returns the results obtained in time."""
        self.n += 1
        d = os.path.join(self.base, 'job%d' % self.n)
        work = os.path.join(d, 'a', 'b', 'c', 'work')      # deep: room for escapes upwards
        os.makedirs(work)
        job = os.path.join(d, 'job.json')
        out = os.path.join(d, 'out.jsonl')
        ts = [dict(t, harness=self.harness, tier=self.tier, junk=junk) for t in traces]
        with open(job, 'w') as f:
            json.dump({'traces': ts, 'scratch': work,
                       'harness_dir': os.path.join(self.base, 'harness')}, f)
        open(out, 'w').close()
        os.chmod(self.scratch, 0o755)
        for x in (d, os.path.join(d, 'a'), os.path.join(d, 'a', 'b'),
                  os.path.join(d, 'a', 'b', 'c'), work, out):
            os.chmod(x, 0o777)
        env = program.jy_env(work)
        env['JYTHONPATH'] = '%s:/opt/jy/shim:/opt/jy/site' % os.path.join(self.base, 'repo')
        env['TMPDIR'] = work
        cmd = program.jython(os.path.join(self.base, 'replay_jy.py'), job, out)
        if self.root:
            cmd = ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups'] + cmd
        hung = False
        with open(os.path.join(d, 'log'), 'wb') as lg:
            p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=lg, stderr=lg,
                                 cwd=work, start_new_session=True)
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                hung = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        res = {}
        with open(out) as f:
            for line in f:
                try:
                    r = json.loads(line)
                    res[r['i']] = r
                except ValueError:
                    pass
        with open(os.path.join(d, 'log')) as f:
            self.last_log = f.read()[-2000:]
        return res, hung, p.returncode


BAD = ('fail', 'exc')


def confirm(rep, cand, timeout=40):
    """Does the real code misbehave on this input?"""
    order = any(k == 'order' for _, k, _ in cand['inputs'])
    for junk in ((0, 13, 101, 977) if order else (0,)):
        res, hung, rc = rep.run([cand], timeout, junk)
        r = res.get(0)
        if r is None:
            if hung:
                return {'status': 'hang', 'msg': 'no answer within %d s' % timeout}
            continue
        if r['status'] in BAD:
            return r
    return None


def confirm_some(rep, cands):
    """The candidates of one batch that the real code confirms (first one only)."""
    plain = [c for c in cands if not any(k == 'order' for _, k, _ in c['inputs'])]
    if len(plain) > 1:
        res, hung, rc = rep.run(plain, 60)
        for i, c in enumerate(plain):
            r = res.get(i)
            if r is not None and r['status'] in BAD:
                r = confirm(rep, c)
                if r is not None:
                    return c, r
        if len(res) < len(plain):
            c = plain[len(res)]
            r = confirm(rep, c)
            if r is not None:
                return c, r
        rest = [c for c in cands if c not in plain]
    else:
        rest = cands
    for c in rest[:6]:
        r = confirm(rep, c)
        if r is not None:
            return c, r
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('SX_WORKERS', '8')))
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--trace', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='sx-%s-' % a.prop)
    try:
        return check(a, scratch, seed, t0)
    finally:
        shutil.rmtree(scratch, True)


def check(a, scratch, seed, t0):
    prop = a.prop
    meta_path = os.path.join(HERE, 'harness', prop + '.json')
    meta = json.load(open(meta_path)) if os.path.exists(meta_path) else {}
    thorough = a.tier == 'thorough'
    prog = program.Program(scratch, prop)
    errs = prog.syntax_errors()
    errs = [e for e in errs if not e.startswith('lib:')]
    if errs:
        print('syntax errors: %s' % errs)
        return 2
    rep = Replayer(prog, scratch, prop, a.tier)
    opts = {'seed': seed, 'trace': a.trace}
    opts.update(meta.get('opts', {}))
    if thorough:
        opts.update(meta.get('thorough_opts', {}))
    budget = a.budget or (meta.get('thorough_budget', 600) if thorough
                          else meta.get('quick_budget', 130))
    pool = engine.Pool(prog, prop, a.tier, opts, a.workers)
    known = findings()
    t_front = time.time() - t0
    deadline = time.time() + budget
    seen = set()
    confirmed = []
    unconfirmed = []
    found_known = {}
    state = {'t': None}

    def groups():
        """One candidate per message not handled yet (known findings apart)."""
        out = []
        for v in pool.violations:
            tags = [t for t in v['tags'] if (prop, t) in known]
            if tags:
                for t in tags:
                    found_known[t] = found_known.get(t, 0) + 1
                    state.setdefault('kx', {}).setdefault(t, v)
                v['done'] = True
            if not v.get('done'):
                out.append(v)
        return out

    def stop(p):
        for v in p.violations:
            if not v.get('done') and not any((prop, t) in known for t in v['tags']):
                if state['t'] is None:
                    state['t'] = time.time()
                return time.time() > state['t'] + 2.0
        return False

    exhaustive = False
    tries = 0
    while True:
        exhaustive = pool.explore(deadline, stop)
        new = groups()
        if a.verbose:
            print('explored: %d paths, %d left, %d violations' % (
                pool.stats.paths, len(pool.pool), len(new)))
        if pool.errors:
            break
        if not new:
            break
        bymsg = {}
        for v in new:
            bymsg.setdefault(v['msg'], []).append(v)
        cands = []
        for msg, vs in bymsg.items():
            cands += vs[:max(1, 6 // len(bymsg) + 1)]
        cands = cands[:24]
        for v in cands:
            v['done'] = True
        if a.no_replay:
            for v in cands:
                print('CANDIDATE %s %s' % (v['msg'], json.dumps(v['inputs'])))
            continue
        tries += 1
        got = confirm_some(rep, cands)
        if got is not None:
            confirmed.append(got)
        else:
            unconfirmed += cands
            if a.verbose:
                for v in cands:
                    print('UNCONFIRMED %s %s %s' % (v['msg'], json.dumps(v['inputs']),
                                                    v.get('faults')))
                print(rep.last_log[-500:])
            for msg, vs in bymsg.items():
                if len([u for u in unconfirmed if u['msg'] == msg]) >= 12:
                    for v in vs:
                        v['done'] = True
        if confirmed:
            break
        state['t'] = None
        if exhaustive and not groups():
            break
        if time.time() > deadline + 60:
            break
    complete = exhaustive and not pool.errors
    # paths the encoding had to give up: run their inputs on the real code
    if not confirmed and not a.no_replay:
        ab = [v for v in pool.aborted if not any((prop, t) in known for t in v['tags'])]
        ab_l = [v for v in ab if v['kind'] == 'steplimit'][:2]
        for v in ab_l:
            r = confirm(rep, v, 20)
            if r is not None and (r['status'] in ('hang', 'fail') or r['status'] == 'exc'):
                confirmed.append((v, r))
                break
        ab_u = [v for v in ab if v['kind'] != 'steplimit'][:20]
        if ab_u and not confirmed:
            res, hung, rc = rep.run(ab_u, 120)
            for i, v in enumerate(ab_u):
                r = res.get(i)
                if r and r['status'] in ('fail', 'exc'):
                    r2 = confirm(rep, v)
                    if r2 is not None:
                        confirmed.append((v, r2))
                        break
    # translation validation of passing paths on the real code
    validated = mismatched = 0
    mism = []
    samples = pool.samples
    n_val = int(os.environ.get('SX_VALIDATE', 0)) or meta.get('validate', 24 if not thorough else 120)
    if not confirmed and not a.no_replay and samples:
        import random
        rng = random.Random(seed)
        samples = sorted(samples, key=lambda s: json.dumps(s['inputs']))
        pick = rng.sample(samples, min(n_val, len(samples)))
        res, hung, rc = rep.run(pick, 150 if len(pick) < 200 else 1500)
        # what only a sampled run of the real code shows is a mismatch of the model, to be
        # repaired there: the verdict is the solver's
        for i, s in enumerate(pick):
            r = res.get(i)
            if r is None or r['status'] == 'reject':
                if a.verbose:
                    print('NOT REPLAYED', s, r, rep.last_log if r is None else '')
                continue
            if r['status'] != 'pass':
                mismatched += 1
                mism.append({'inputs': s['inputs'], 'real': r})
                continue
            if s['order'] or r['outs'] == s['outs']:
                validated += 1
            else:
                mismatched += 1
                mism.append({'inputs': s['inputs'], 'real': r['outs'], 'model': s['outs']})
    pool.close()
    st = pool.stats
    if a.verbose:
        for m in mism[:10]:
            print('MISMATCH', json.dumps(m)[:3000])
        for v in pool.aborted[:5]:
            print('ABORTED', v['kind'], v['msg'], json.dumps(v['inputs'])[:400])
    fns = sorted(f for f in st.functions if f.startswith('ipkg') )
    libf = sorted(f for f in st.functions if f.startswith('lib:'))
    status = 'violation' if confirmed else ('error' if pool.errors else 'held')
    ev = {
        'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': st.nodes + st.paths, 'transitions': st.branches,
            'traces_validated_against_impl': validated,
            'samples': [dict(inputs=s['inputs'], outs=s['outs']) for s in samples[:4]] or
                       [dict(inputs=v['inputs'], msg=v['msg']) for v, _ in confirmed[:1]],
            'paths_explored': st.paths, 'paths_infeasible_or_assumed_away': st.pruned,
            'exhaustive_within_bounds': bool(complete and not st.unsupported and not
                                             st.steplimit and not st.concretised),
            'open_path_prefixes': len(pool.pool),
            'solver_queries': st.queries, 'solver_seconds': round(st.solver_s, 2),
            'assertions_decided': st.checks, 'solver_unknown': st.unknown,
            'paths_unsupported': st.unsupported, 'paths_over_step_limit': st.steplimit,
            'values_concretised': st.concretised,
            'functions_encoded': fns, 'library_functions_encoded': libf,
            'reached': st.reached, 'notes': dict(sorted(st.notes.items())[:30]),
            'bounds': meta.get('bounds', {}).get(a.tier) or meta.get('bounds', {}).get('quick', ''),
            'assumptions': meta.get('assumptions', []),
            'model_mismatches': mismatched,
            'unconfirmed_candidates': len(unconfirmed),
            'known_findings_met': found_known,
            'seconds_front_end': round(t_front, 2),
        },
        'status': status, 'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %d paths (%d cut), %d queries, %.1f s in the solver, %s, %d/%d traces agree '
          'with the real code, %.1f s' % (
              prop, a.tier, st.paths, st.pruned, st.queries, st.solver_s,
              'exhaustive' if ev['coverage']['exhaustive_within_bounds'] else
              'not exhaustive (%d open, %d unsupported, %d over step limit, %d concretised)' % (
                  len(pool.pool), st.unsupported, st.steplimit, st.concretised),
              validated, validated + mismatched, time.time() - t0))
    if a.verbose:
        print('reached', st.reached)
        print('notes', st.notes)
    for t in sorted(k for p, k in known if p == prop):
        if t in found_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[(prop, t)]))
    if confirmed:
        v, r = confirmed[0]
        path = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'message': v['msg'], 'inputs': v['inputs'],
                       'faults': v.get('faults'), 'real': r,
                       'harness': 'harness/%s.py' % prop, 'tier': a.tier}, f, indent=1)
        print('%s' % v['msg'])
        print('  inputs: %s' % json.dumps(v['inputs']))
        print('  real code: %s %s' % (r['status'], r.get('msg', '')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if pool.errors:
        print(pool.errors[0])
        return 2
    if st.paths == 0:
        print('no path could be decided: %s' % st.notes)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
