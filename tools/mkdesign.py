"""Writes DESIGN.md from the text below, properties.jsonl, harness/*.json, known_findings.txt and
seeded/*/meta.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Solver-based checking of ipkg

One technique decides every property: **bounded symbolic execution of the real Python source with z3**.
`python3-vt check.py Cxx --tier quick|thorough` does the following on every run, with nothing kept from earlier runs.

1. **Front end.** The current `/repo/ipkg/*.py` are parsed by Jython's own parser (Jython 2.7 is the interpreter
   ipkg runs on here; `sx/jydump.py`), the syntax trees are translated to Python 3 code in which every operation
   whose meaning depends on Python 2 or on its operands is a hook (`sx/py2ast.py`, `sx/runtime.py`). The library
   modules the code relies on (`tarfile`, `shutil`, `posixpath`, `os`, `argparse`, `shlex`, `urlparse`, `pkg_resources`,
   `fnmatch`, `glob`, `textwrap`) are the ones of that Jython, executed symbolically in the same way
   (`sx/libast.json.gz` keeps their parsed form: they are not part of /repo).
2. **Symbolic values.** Texts have a concrete length and characters which are 8-bit z3 terms (`sx/strings.py`);
   integers and booleans are z3 terms; dictionaries and sets compare symbolic keys and can be iterated in an order
   the solver picks (`sx/containers.py`). Regular expressions run through a backtracking matcher over symbolic characters
   (`sx/remodel.py`). The file system is an in-memory POSIX model with symbolic names, contents, links and modes, and a
   fault schedule: any mutating operation can crash the process or be refused, a write can persist any of several prefixes;
   or a second process (fresh modules, its own pid) runs at that moment, the first one going on afterwards (`sx/vfs.py`). Hashes are ideal (injective), JSON, zlib, subprocess, requests and the like are models (`sx/models.py`).
3. **Exploration.** A harness (`harness/Cxx.py`) makes the inputs, calls the real code and states the property as
   assertions. Every branch on a symbolic value asks z3 which sides are feasible; both are explored (`sx/core.py`, depth-first,
   8 processes with one incremental solver each, work sharing in `sx/engine.py`). On each path every assertion is a z3 query over
   **all** values that remain on it. The bound of a property is the size of its inputs and histories; loops are
   not cut (a path over the step limit is reported, and is a violation when the real code hangs on it).
4. **Counterexamples** are z3 models. Each is replayed in Jython, on the unmodified code, in a scratch directory, as an
   unprivileged user (`sx/replay_jy.py`); only one the real code reproduces is a `VIOLATION` (exit 1, inputs saved in
   `evidence/replay-Cxx.json`, `tools/replay.py FILE` runs it again). A candidate that does not reproduce is counted as
   unconfirmed in the evidence and raises no alarm.
5. **Validation.** Up to 24 passing paths are also run on the real code: property and observed outputs must agree
   (`traces_validated_against_impl`, `model_mismatches`).
6. **Evidence** (`evidence/Cxx.json`): functions of ipkg and of the library encoded, bounds, paths, queries, solver seconds,
   whether the space within the bounds was exhausted, what was reached.

`SX_REPO=/some/copy` checks another tree. Nothing depends on the text of the source: functions are executed, not matched. The
harnesses use the public interface, and patch only the library boundary (`subprocess.Popen`, `requests.get`, `platform.*`).

Quick tiers are exhaustive within their bounds in some 10 to 75 s each; the thorough tiers run with larger bounds for up to ten
minutes and say in the evidence whether they exhausted them.

**Trust.** The Python 2 semantics of `sx/runtime.py` and the models; a wrong model can hide a violation, or raise
candidates which the replay discards. Loss of file operations after a power cut (reordering) is outside of the fault model; so
are threads (ipkg has none), real network and compilers.

**Destructive effects.** In the engine all files are virtual. Replays run as `nobody` in a fresh scratch directory, several levels
deep, with `subprocess` and network calls replaced where the property is about them.

## Properties

'''

ORACLE = {
 'C01': 'selectors evaluated one by one over the version order, written independently of the simplifier; contradictions from interval reasoning',
 'C02': 'conjunction of both original requirements on every package version; refusal only in the cases of the statement',
 'C03': 'only IpkgException may escape, for free text over the characters the grammars distinguish; comparisons with invalid text are never equal',
 'C04': 'round trip through the text form, equality and hash compared with matching on probe versions',
 'C05': 'permutation, pairwise order and maximality; an independent order for dotted numbers and pre-releases',
 'C06': 'the laws themselves over pairs and triples, against an independent comparison of (version, revision)',
 'C07': 'round trip of the parts; equality of the spec with exactly the packages that have the parts given',
 'C08': 'field-wise comparison written independently; the platform module is a symbolic stand-in',
 'C09': 'filter and sort written independently over the entries of the repository',
 'C10': 'the set of package files in the virtual file system, with the ideal hash of their bytes',
 'C11': 'the trace of build attempts against the dependency graph',
 'C12': 'the dictionary that was put in, compared after reopening, for every history',
 'C13': 'after a fault at each operation, reopening reads the old or the new content',
 'C14': 'snapshot of the prefix before and after against the members of the package',
 'C15': 'snapshot of everything outside of the prefix, which must not change for any member name or link',
 'C16': 'closure of the dependencies over the installed record; order of extraction from the file system trace',
 'C17': 'a fault at each operation, then reopening and repeating; compared with the undisturbed run',
 'C18': 'the composition rule written over lists of entries',
 'C19': 'list operations written independently',
 'C20': 'an independent expansion of %(name)s',
 'C21': 'an independent rewriting of the targeted line over symbolic bytes',
 'C22': 'the recorded tool invocations against the symbolic list of libraries; mode before, during and after',
 'C23': 'the members of the package file against what the install step wrote',
 'C24': 'snapshot of the environment before and after the build',
 'C25': 'snapshot of the target environment against what the install step wrote',
 'C26': 'acceptance if and only if the ideal hash of the whole symbolic content is the declared one',
 'C27': 'the bytes the stand-in server sent; a fault at each cache operation',
 'C28': 'the virtual file system at that very path',
 'C29': 'the member list of the archive; snapshot of the file system inside and outside of the target',
 'C30': 'the recorded start of the process and its planned outcome',
 'C31': 'validity of the order against the requirement text of each chosen package; maximality over the candidates',
 'C32': 'reachability and loop detection on the symbolic graph, written independently',
 'C33': 'files, record and configuration of both environments after the command; exit status and message',
 'C34': 'the recorded commands against the calls of the formula',
 'C35': 'the same operations on the local directory',
 'C36': 'what the text of the file defines; the file name rule written independently; methods of the first formula called after the second is loaded',
 'C37': 'snapshot of the file system before and after; the list of directories; the last value set',
 'C38': 'the subject of each error occurs in its text',
 'C40': 'the versions the two processes are asked to save against what is read meanwhile and left',
 'C39': 'the declared files, packages and variables against what the install step and the recorded commands see',
}

TAIL = '''
## False alarms met and corrected

Candidates which the real code did not reproduce were errors of the models and were corrected there (the candidate never was a
violation): Jython's `os.rmdir` of paths ending in `.`, its `os.link`/`readlink` of relative paths after `chdir`, its bz2
reader at the end of a stream, an empty zip archive, a refused `chmod` which `tarfile` ignores (C17), state of library modules
kept between paths (C33).
Properties which were too strong for what ipkg means were restated: versions with dashes in file names (C07), platform texts
in upper case (C08), formulas which lead to a loop (C11), temporary files and empty directories left by a crash (C17), builds
which replace an installed package or change files that were there (C24), relative paths that look like a scheme (C28),
a name asked for both exactly and by a range (C02, C32).

## Genuine defects

All were repaired; `known_findings.txt` lists them and no finding is left unrepaired. The repairs in `/repo` are one commit
each.

'''
out = [HEAD]
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(H, 'harness', p['id'] + '.json')
    out.append('### %s %s\n\n' % (p['id'], p['title']))
    if not os.path.exists(f):
        out.append('No check: see not_applicable in MANIFEST.json.\n\n')
        continue
    m = json.load(open(f))
    out.append('- Symbolic: %s.\n' % p['quantifier']['text'])
    out.append('- Code: %s.\n' % '; '.join('%s (%s)' % (x['name'], x['where']) for x in p['anchors']['mechanism']))
    out.append('- Oracle: %s.\n' % ORACLE[p['id']])
    out.append('- Quick bounds: %s.\n' % m['bounds']['quick'])
    out.append('- Thorough bounds: %s.\n' % m['bounds']['thorough'])
    for a in m.get('assumptions', []):
        out.append('- Assumes: %s.\n' % a)
    if m.get('note'):
        out.append('- Note: %s\n' % m['note'])
    out.append('- Why tests cannot settle it: %s\n\n' % p['why_tests_cant'])
out.append(TAIL)
for line in open(os.path.join(H, 'known_findings.txt')):
    if line.startswith('fixed:'):
        p = line.split(None, 3)
        out.append('- %s (`%s`): %s\n' % (p[1].split('=')[1], p[2], p[3].strip()))
out.append('\n## Planted changes\n\nEach is in `seeded/<id>/`; "caught by" is what the checks said when it was planted (see also '
           '`tools/plant.py`).\n\n')
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    out.append('- `%s` (%s): %s Needs: %s **%s**\n' % (
        os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs'],
        'Caught by %s.' % m.get('caught_by', m['property']) if m.get('caught', True) else 'Missed.'))
extra = os.path.join(H, 'tools', 'design_mutants.md')
if os.path.exists(extra):
    out.append('\n' + open(extra).read())
open(os.path.join(H, 'DESIGN.md'), 'w').write(''.join(out))
