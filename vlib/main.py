"""Entry point of a check:  python3 -m vlib.main <ID> [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import core  # noqa: E402

PY = {'venv': '/opt/venv/bin/python', 'vt': '/opt/veriftools/pyvenv/bin/python'}

CRASHES = (-4, -6, -7, -8, -11)


def child_env(tmp):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               MPLCONFIGDIR=os.path.join(tmp, 'mpl'), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               MKL_NUM_THREADS='1', TMPDIR=tmp, VERIF_REPO=core.REPO, PYTHONWARNINGS='ignore')
    env.pop('PYTHONPATH', None)
    return env


def temp_listing():
    d = os.path.join(core.REPO, 'temp')
    return set(os.listdir(d)) if os.path.isdir(d) else set()


def crashing_case(p, cmd, out, procs, shards, deadline, tmp):
    """A worker that a crash ended (not somebody's kill) is run again, noting its cases: the one it dies in, if it does."""
    if p.returncode not in CRASHES:
        return None
    s = [o for _, o, _ in procs].index(out)
    wd = tempfile.mkdtemp(dir=tmp)
    env = dict(child_env(wd), VERIF_JOURNAL='1')
    try:
        again = subprocess.run(cmd + [str(s), str(shards), repr(max(deadline, time.time() + 120)), out + '.again'], env=env,
                               cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                               start_new_session=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None
    if again.returncode != p.returncode or not os.path.exists(out + '.again.case'):
        return None
    with open(out + '.again.case') as f:
        v = json.load(f)
    return dict(v, message='an input of the stated domain made the process die of signal %d' % -p.returncode)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int, default=8)
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args()
    pid = a.pid
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    py, _ = core.header(pid)
    exe = PY[py]
    if not os.path.exists(exe):
        print('ERROR interpreter %s is missing' % exe)
        return 3
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    before = temp_listing()
    core_py = os.path.join(VERIF, 'vlib', 'core.py')
    try:
        if a.replay:
            rc = subprocess.run([exe, '-W', 'ignore', core_py, '--replay', pid, os.path.abspath(a.replay)],
                                env=child_env(tmp), cwd=tmp).returncode
            if rc in CRASHES:
                print('the process died of signal %d\nVIOLATION property=%s replay=%s' % (-rc, pid, a.replay))
                return 1
            return rc
        t0 = time.time()
        budget = a.budget or (420 if a.tier == 'quick' else 780)
        deadline = t0 + budget
        procs = []
        for s in range(a.shards):
            out = os.path.join(tmp, 'out%d.json' % s)
            wd = os.path.join(tmp, 'w%d' % s)
            os.makedirs(wd)
            log = open(os.path.join(tmp, 'log%d' % s), 'wb')
            env = child_env(wd)
            p = subprocess.Popen([exe, '-W', 'ignore', core_py, pid, a.tier, str(seed), str(s), str(a.shards),
                                  repr(deadline), out], env=env, cwd=wd, stdout=log, stderr=log,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append((p, out, log.name))
            log.close()
        hard = t0 + budget + 330
        results = []
        stop_at = None
        while True:
            alive = [p for p, _, _ in procs if p.poll() is None]
            if not alive:
                break
            # once one shard has a violation, the others get a little time and are stopped
            for p, out, _ in procs:
                if p.poll() is not None and stop_at is None and os.path.exists(out):
                    try:
                        with open(out) as f:
                            if json.load(f).get('violation'):
                                stop_at = time.time() + 5
                    except ValueError:
                        pass
            if time.time() > hard or (stop_at and time.time() > stop_at):
                for p in alive:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                break
            time.sleep(0.05)
        limit = None
        violation = None
        subs = {}
        done = True
        for p, out, log in procs:
            if not os.path.exists(out):
                done = False
                v = None if stop_at else crashing_case(p, [exe, '-W', 'ignore', core_py, pid, a.tier, str(seed)], out,
                                                       procs, a.shards, t0 + budget, tmp)
                if v:
                    violation = violation or v
                elif not stop_at:
                    with open(log, errors='replace') as f:
                        limit = limit or {'message': 'worker died (exit %s): %s' % (p.returncode, f.read()[-1500:])}
                continue
            with open(out) as f:
                r = json.load(f)
            done = done and bool(r.get('done'))
            if r.get('violation'):
                v = r['violation']
                if violation is None or len(json.dumps(v['case'], default=str)) < len(
                        json.dumps(violation['case'], default=str)):
                    violation = v
            if r.get('limit'):
                limit = limit or r['limit']
            for name, d in r['subs'].items():
                e = subs.setdefault(name, {'cases': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'wall': 0.0,
                                           'skipped': 0})
                e['cases'] += d['cases']
                e['nontrivial'] |= set(d['nontrivial'])
                e['skipped'] += d['skipped']
                e['wall'] = max(e['wall'], d['wall'])
                if len(e['samples']) < 2:
                    e['samples'] += d['samples'][:2 - len(e['samples'])]
                for k, c in d['labels'].items():
                    e['labels'][k] = e['labels'].get(k, 0) + c
        if not violation and not limit and not done:
            limit = {'message': 'a worker was stopped before it finished'}
        meta = json.load(open(os.path.join(VERIF, 'checks', 'meta.json')))[pid]
        evidence = {
            'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': sum(e['cases'] for e in subs.values()),
                'distinct_nontrivial': sum(len(e['nontrivial']) for e in subs.values()),
                'rule': meta['rule'],
                'samples': [{'check': n, 'case': c} for n, e in subs.items() for c in e['samples']],
                'per_check': {n: {'cases': e['cases'], 'distinct_nontrivial': len(e['nontrivial']),
                                  'labels': e['labels'], 'wall_s': e['wall'],
                                  'cases_skipped_when_the_time_budget_ran_out': e['skipped']}
                              for n, e in subs.items()},
            },
            'assumptions': meta['assumptions'],
            'wall_s': round(time.time() - t0, 2),
            'violations': 1 if violation else 0,
        }
        dest = os.environ.get('VERIF_OUT') or VERIF
        os.makedirs(os.path.join(dest, 'evidence'), exist_ok=True)
        with open(os.path.join(dest, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
        if violation:
            os.makedirs(os.path.join(dest, 'replays'), exist_ok=True)
            rp = os.path.join(dest, 'replays', '%s-%s.json' % (pid, violation['sub']))
            with open(rp, 'w') as f:
                json.dump(dict(violation, property=pid, seed=seed, tier=a.tier), f, indent=1, default=str)
            print('%s / %s: %s' % (pid, violation['sub'], violation['message']))
            print('case: %s' % json.dumps(violation['case'], default=str)[:2000])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        if limit:
            print('ERROR (no verdict) %s: %s' % (pid, limit.get('message')))
            if limit.get('case') is not None:
                print('case: %s' % json.dumps(limit['case'], default=str)[:2000])
            return 2
        for k in core.load_known(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        print('%s held: %d cases, %d distinct non-trivial, %.1fs' % (
            pid, evidence['coverage']['evaluations'], evidence['coverage']['distinct_nontrivial'],
            evidence['wall_s']))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        d = os.path.join(core.REPO, 'temp')
        for fn in temp_listing() - before:
            if fn.endswith(('.nkbg003', '.txt', '.nkb', '.npy')):
                try:
                    # (a file this young may be in use by another check of the same tree)
                    if time.time() - os.path.getmtime(os.path.join(d, fn)) > 20:
                        os.remove(os.path.join(d, fn))
                except OSError:
                    pass


if __name__ == '__main__':
    sys.exit(main())
