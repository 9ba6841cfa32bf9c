"""Development aid: try a planted bug of /verif/seeded in a scratch copy of /repo.

  plant.py ID [--new DIR]    checks: applies, touches original lines only, tests pass, demo 0/nonzero, and which checks report it
  plant.py --all             every planted bug, printing one summary line each
  plant.py --edit FILE.diff PROP...   apply a behaviour-preserving diff and run the given checks (must stay quiet)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '19e0e75'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    return d, d + '/repo'


def tests(repo):
    junit = repo + '-junit.xml'
    sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-n', '0', '-o', 'junit_family=xunit2',
        '--junitxml=' + junit], cwd=repo, env=dict(ENV, PYTHONPATH=repo))
    if not os.path.exists(junit):
        sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2',
            '--junitxml=' + junit], cwd=repo, env=dict(ENV, PYTHONPATH=repo))
    import xml.etree.ElementTree as ET
    bad, n = [], 0
    for tc in ET.parse(junit).getroot().iter('testcase'):
        n += 1
        if any(c.tag in ('failure', 'error') for c in tc):
            bad.append(tc.get('classname') + '::' + tc.get('name'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return n, [b for b in bad if b in stable]


def run_check(prop, repo, tier='quick'):
    ev = repo + '-evidence'
    r = sh(['/opt/venv/bin/python', VERIF + '/check.py', prop, '--tier', tier], cwd=VERIF,
           env=dict(ENV, PYDV_REPO=repo, PYDV_EVIDENCE=ev, VERIF_SEED='1', VERIF_TIER=tier))
    lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('UNDECIDED')]
    return r.returncode, lines, r.stdout + r.stderr


def main():
    if sys.argv[1] == '--edit':
        d, repo = scratch()
        try:
            r = sh(['git', 'apply', os.path.abspath(sys.argv[2])], cwd=repo)
            if r.returncode:
                print('does not apply', r.stderr)
                return
            for p in sys.argv[3:]:
                rc, lines, out = run_check(p, repo)
                print(p, 'rc', rc, *[x[:200] for x in lines[:6]], sep='\n  ')
                print('  ', out.strip().splitlines()[-1][:300])
        finally:
            shutil.rmtree(d)
        return
    root = VERIF + '/seeded'
    ids = sorted(os.listdir(root)) if sys.argv[1] == '--all' else [a for a in sys.argv[1:] if not a.startswith('--')]
    fast = '--fast' in sys.argv
    for i in ids:
        p = f'{root}/{i}'
        meta = json.load(open(p + '/meta.json'))
        d, repo = scratch()
        try:
            notes = []
            demo = shutil.copytree(p, d + '/demo', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
            if not fast:
                r = sh(['bash', d + '/demo/demo.sh'], cwd='/repo', env=ENV)
                if r.returncode:
                    notes.append('DEMO FAILS ON CLEAN TREE: ' + (r.stdout + r.stderr)[-400:])
            r = sh(['git', 'apply', p + '/patch.diff'], cwd=repo)
            if r.returncode:
                print(i, 'DOES NOT APPLY', r.stderr[:300])
                continue
            added = {l[1:] for l in sh(['git', 'diff', BASE, 'HEAD', '-U0'], cwd='/repo').stdout.splitlines() if l.startswith('+') and not l.startswith('+++')}
            for l in open(p + '/patch.diff'):
                if l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n') in added:
                    notes.append('touches a line of a fix commit: ' + l.strip())
            if not fast:
                n, bad = tests(repo)
                if bad:
                    notes.append('TESTS FAIL: ' + ' '.join(bad))
                r = sh(['bash', d + '/demo/demo.sh'], cwd=repo, env=dict(ENV, PYTHONPATH=repo))
                if r.returncode == 0:
                    notes.append('DEMO PASSES WITH THE BUG')
            rc, lines, out = run_check(meta['property'], repo)
            caught = rc == 1 and any(l.startswith('VIOLATION') for l in lines)
            if not caught and rc not in (0, 1):
                notes.append(out[-500:])
            print(i, meta['property'], 'CAUGHT' if caught else 'missed', f'rc={rc}', '|'.join(x[:160] for x in lines[:2]), ' '.join(notes), flush=True)
        finally:
            shutil.rmtree(d)


main()
