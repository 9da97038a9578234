#!/usr/bin/env python3
"""Plants and tries the bugs of /verif/seeded (no check uses this), each in a scratch clone of /repo.

  plant.py try ID...   builds the clone with the change: tests, demo without and with it, the check of its property
  plant.py all-checks ID...   the same, with every check
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO, HERE = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def sh(*args, timeout=1800, cwd=None, env=None):
    r = subprocess.run(args, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
    return r.returncode, r.stdout, r.stderr


def lost(clone, stable):
    """The stable tests that do not pass in the clone."""
    xml = os.path.join(clone, '.plant.xml')
    sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
       '-o', 'junit_family=xunit2', '--junitxml=' + xml, '--ignore=tests/test_utils.py', '--ignore=tests/test_exps.py',
       'tests', cwd=clone, env=dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                                    PYTHONPATH=clone + ':' + clone + '/nonasymptotic'))
    out = os.path.join(clone, '.plant.json')
    sh('/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + xml)
    got = set(json.load(open(out))['passed'])
    return sorted(stable - got)


def main():
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDED))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        clone = tempfile.mkdtemp(prefix='plant_')
        try:
            sh('git', 'clone', '-q', REPO, clone + '/repo')
            clone_repo = clone + '/repo'
            demo = os.path.join(d, 'demo.sh')
            before = sh('bash', demo, cwd=clone_repo, timeout=300)
            rc, _, err = sh('git', '-C', clone_repo, 'apply', os.path.join(d, 'patch.diff'))
            if rc:
                print(i, 'DOES NOT APPLY', err)
                continue
            after = sh('bash', demo, cwd=clone_repo, timeout=300)
            gone = lost(clone_repo, stable)
            checks = [meta['property']]
            if mode == 'all-checks':
                checks = sorted(c['property_id'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks'])
            res = {}
            for c in checks:
                res[c] = sh('./check', c, cwd=HERE, env={'VERIF_REPO': clone_repo, 'VERIF_OUT': clone})[0]
        finally:
            shutil.rmtree(clone, ignore_errors=True)
        ok = before[0] == 0 and after[0] != 0 and not gone
        print(i, 'VALID' if ok else 'INVALID demo %d/%d, tests lost %s' % (before[0], after[0], gone[:3]),
              'caught' if res.get(meta['property']) == 1 else 'MISSED rc=%s' % res.get(meta['property']),
              'by ' + ','.join(c for c in res if res[c] == 1), flush=True)
        if not ok:
            print(before[1][-500:], before[2][-800:], '---', after[1][-300:], after[2][-500:])


main()
