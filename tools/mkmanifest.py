"""Writes MANIFEST.json from properties.jsonl and harness/*.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Bounded symbolic execution of the current source: z3 decides every branch and every '
        'assertion for all values within the bounds of the evidence file; counterexamples are '
        'replayed on the real code under Jython before they are reported. Trusts the Python 2 '
        'semantics and library models of sx/ (sampled paths are re-run on the real code and '
        'compared).')
NA = {}
checks, na = [], []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(H, 'harness', p['id'] + '.json')
    if os.path.exists(f):
        m = json.load(open(f))
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
            'technique': 'SMT-based bounded symbolic execution of the real Python source (z3)',
            'level': 'model_checking',
            'level_note': NOTE + ' ' + m.get('note', ''),
        })
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')})
json.dump({'version': 1,
           'setup_cmd': 'python3-vt -c "import z3" && test -f /usr/share/java/jython.jar',
           'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
