# PY: venv
# STUBS: core pandaslite scipylite tamp
"""P30: tuning, deployment and aggregation start and count every experiment exactly once."""
import contextlib
import importlib.util
import io
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vlib import scripts
from vlib.core import HarnessLimit, REPO, Sub, VERIF, require

ID = 'P30'
EXPS = os.path.join(REPO, 'exps')
TAMP = os.path.join(EXPS, 'tamp_environment')


def sibling(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(VERIF, 'checks', name + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


p29 = sibling('p29_planning_runs')


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix='p30_'))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def program(d, name, text):
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write('#!/bin/bash\n' + text + '\n')
    os.chmod(p, 0o755)


LOGGED = '{ for a in "$@"; do printf "%s\\0" "$a"; done; printf "\\n"; } >> "$CALL_LOG"'


def logged(path):
    """The calls a LOGGED program wrote down."""
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [r.split('\0')[:-1] for r in f.read().split('\n')[:-1]]


# ---- tuning

SWEEP = [1, 2, 4, 8, 16, 24, 32, 48]


@st.composite
def tunings(draw):
    return {'kind': draw(st.sampled_from(['narrow', 'line', 'knn'])), 'what': draw(st.sampled_from(['nppn', 'threads'])),
            'other': draw(st.one_of(st.sampled_from(SWEEP), st.integers(1, 60))),
            'config': {k: draw(st.integers(0, 9)) for k in draw(st.lists(st.sampled_from(['a', 'b', 'name', 'triples']),
                                                                        unique=True))},
            'file': draw(st.sampled_from(['c.json', 'conf/x y.json', './c.json']))}


def run_tuning(case, ctx):
    with scratch() as d:
        for n in os.listdir(EXPS):
            if n.endswith('.py'):
                os.symlink(os.path.join(EXPS, n), os.path.join(d, n))
        os.mkdir(os.path.join(d, 'results'))
        path = os.path.join(d, case['file'])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(case['config'], f)
        binary = os.path.join(d, '.bin')
        program(binary, 'LLsub', LOGGED)
        for p in ('python', 'python3'):
            program(binary, p, 'exec %s -B "$@"' % sys.executable)
        env = dict(os.environ, PATH=binary + os.pathsep + os.environ['PATH'], CALL_LOG=os.path.join(d, '.log'))
        r = subprocess.run(['python', 'tune_experiment_triples.py', '--type', case['kind'], '--config-path', case['file'],
                            '--triple-to-test', case['what'], '--other-arg-fill-in', str(case['other'])], cwd=d, env=env,
                           capture_output=True, text=True, timeout=600)
        require(r.returncode == 0, 'tuning %s with %d failed: %s', case['what'], case['other'], r.stderr.strip()[-300:])
        calls = logged(env['CALL_LOG'])
        want = [[1, n, case['other']] if case['what'] == 'nppn' else [1, case['other'], n] for n in SWEEP
                if n * case['other'] <= 48]
        got = []
        for c in calls:
            require(len(c) == 2, 'launched %s', c)
            triple = json.loads(c[1])
            got.append(triple)
            e = os.path.dirname(os.path.join(d, c[0]))
            with open(os.path.join(e, 'config.json')) as f:
                conf = json.load(f)
            require(conf.pop('triples') == triple, 'launched with %s, the configuration says otherwise', triple)
            conf.pop('name')
            require(conf == {k: v for k, v in case['config'].items() if k not in ('name', 'triples')},
                    'the configuration became %s', conf)
            with open(os.path.join(d, c[0])) as f:
                text = f.read()
            wanted = {'narrow': 'run_narrow_passage_clearance_trial.py', 'line': 'run_straight_line_optimality_trial.py',
                      'knn': 'run_knn_radius_trial.py'}[case['kind']]
            require(wanted in text, 'tuning %s runs %s', case['kind'], re.findall(r'run_\w+\.py', text))
        require(sorted(got) == sorted(want), 'tuning %s with %d for the other tries the triples %s instead of %s',
                case['what'], case['other'], sorted(got), sorted(want))
        require(len({c[0] for c in calls}) == len(calls), 'two settings share one experiment')
        ctx.nt(1 < len(want) < len(SWEEP))
        ctx.label('%d settings' % len(want))


# ---- aggregation

@st.composite
def results(draw):
    names = draw(st.lists(st.sampled_from(['a', 'ab', 'out', 'out1', 'b', 'a_tune', 'c', 'agg', 'a_agg_out']), min_size=1, max_size=4))
    value = st.one_of(st.integers(0, 2 ** 40).map(lambda i: i / 1024), st.integers(0, 50).map(float))
    dirs = []
    for i, n in enumerate(names):
        files = {}
        for t in draw(st.lists(st.integers(0, 12), min_size=1, max_size=4, unique=True)):
            files[str(t)] = [[draw(value), draw(value), draw(st.integers(0, 99))] for _ in range(draw(st.integers(1, 5)))]
        dirs.append(['%s_%02d' % (n, i), files, draw(st.integers(0, 10 ** 6))])
    if draw(st.integers(0, 7)) == 0:     # many tasks, or a long-running one
        files = dirs[-1][1]
        kind = draw(st.sampled_from(['tasks', 'rows']))
        many = range(draw(st.sampled_from([14, 101, 120]))) if kind == 'tasks' else ['3']
        rows = 1 if kind == 'tasks' else draw(st.sampled_from([60, 300]))
        top = draw(st.integers(1, 2 ** 20))
        for t in many:
            files[str(t)] = [[((int(t) * 7 + i) * 9973 % top) / 64, float((int(t) + 3 * i) % 11), i] for i in range(rows + int(t) % 3)]
    return {'dirs': dirs, 'prefix': draw(st.sampled_from(names)), 'out': draw(st.sampled_from([None, None, 'all', 'out', 'out7'])),
            'cuts': draw(st.lists(st.integers(1, 4), max_size=3)), 'again': draw(st.booleans()), 'kind': draw(st.sampled_from(['narrow', 'narrow', 'knn'])),
            'stray': draw(st.booleans())}


def run_aggregate(case, ctx):
    times = [d[2] for d in case['dirs']]
    if len(set(times)) < len(times):
        ctx.label('equally old')
        return
    cols = ['build_time', 'check_time', 'seed'] if case['kind'] == 'narrow' else ['build_time', 'eff_rad', 'seed']
    import pandas as pd
    with scratch() as d:
        os.mkdir(os.path.join(d, 'results'))
        for name, files, when in case['dirs']:
            p = os.path.join(d, 'results', name)
            os.mkdir(p)
            for t, rows in files.items():
                # as the trials write them: one frame after the other, each numbered from 0
                ends = [c for c in sorted(set(case.get('cuts', []))) if c < len(rows)] + [len(rows)]
                frames = [pd.DataFrame(rows[a:b], columns=cols) for a, b in zip([0] + ends, ends)]
                pd.concat(frames).to_csv(os.path.join(p, 'out%s.csv' % t))
            with open(os.path.join(p, 'config.json'), 'w') as f:
                f.write('{}')
            if case['stray']:
                with open(os.path.join(p, 'out0.csv.tmp'), 'w') as f:
                    f.write('torn')
            os.utime(p, (1e9 + when, 1e9 + when))
        mine = [x for x in case['dirs'] if x[0].startswith(case['prefix'])]
        name, files, _ = max(mine, key=lambda x: x[2])
        args = ['--name-prefix', case['prefix']] + (['--df-out-name', case['out']] if case['out'] else [])
        target = os.path.join(d, 'results', name, '%s_agg_out.csv' % (case['out'] or case['prefix']))
        before = {x: sorted(os.listdir(os.path.join(d, 'results', x))) for x in os.listdir(os.path.join(d, 'results'))}
        for _ in range(2 if case['again'] else 1):
            def body():
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    scripts.run_script('exps/aggregate_runtimes_for_tuning.py', args, cwd=d)
                return out.getvalue()
            r = scripts.in_child(body)
            require(r.status == 'ok', 'aggregating %s ended with %r', args, r.status)
            text = r.payload
        after = {x: sorted(os.listdir(os.path.join(d, 'results', x))) for x in os.listdir(os.path.join(d, 'results'))}
        before[name] = sorted(set(before[name]) | {os.path.basename(target)})
        require(after == before, 'aggregating left the files %s', {k: v for k, v in after.items() if before.get(k) != v})
        got = pd.read_csv(target, index_col=0)
        require(list(got.columns) == cols, 'the aggregate has the columns %s', list(got.columns))
        rows = sorted(tuple(got[c].tolist()[i] for c in cols) for i in range(len(got)))
        want = sorted(tuple(r) for f in files.values() for r in f)
        require(rows == want, 'the aggregate has %d rows, the tasks wrote %d%s', len(rows), len(want),
                '' if len(rows) != len(want) else ' (other values)')
        for k, c in enumerate(('build_time', 'check_time')):
            line = [x for x in text.splitlines() if ('build' if k == 0 else 'check') in x.lower()]
            if c not in cols:
                require(not any(re.search(r'\d\.\d', x) for x in line), 'a %s is stated for an experiment without one: %s', c, line)
                continue
            require(len(line) == 1, 'the %s is stated %d times', c, len(line))
            nums = re.findall(r'(?:nan|[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)', line[0].split(':', 1)[-1])
            require(len(nums) == 2, 'the line %r does not state a mean and a deviation', line[0])
            vals = [r[k] for f in files.values() for r in f[1:]]
            m = math.fsum(vals) / len(vals) if vals else math.nan
            s = math.sqrt(math.fsum((v - m) ** 2 for v in vals) / (len(vals) - 1)) if len(vals) > 1 else math.nan
            for what, a, b in (('mean', float(nums[0]), m), ('deviation', float(nums[1]), s)):
                require((a != a and b != b) or abs(a - b) <= 2e-6 + 1e-9 * abs(b), 'the %s of %s is given as %s, without the '
                        'first row of every task it is %s', what, c, a, b)
        ctx.nt(len(files) > 1 and len(want) > len(files))
        ctx.label('%d experiments fit the prefix' % len(mine))


# ---- array jobs

@st.composite
def arrays(draw):
    kind = draw(st.sampled_from(['deploy_experiments.sh', 'deploy_experiments_kuka.sh', 'deploy_experiments_kuka_adaptive.sh']))
    lo = draw(st.integers(3, 2000))
    return {'script': kind, 'task': draw(st.one_of(st.integers(1, 200), st.sampled_from([1, 2, 199, 200]))),
            'other': draw(st.integers(1, 200)), 'lo': lo, 'hi': lo + draw(st.integers(0, 5000)),
            'adaptive': draw(st.booleans()), 'delta': draw(st.integers(3, 20)) / 100, 'buffer': draw(st.integers(0, 4)) / 100,
            'margin': draw(st.integers(1, 50)) / 100}


def run_array(case, ctx):
    path = os.path.join(TAMP, case['script'])
    if not os.path.exists(path):
        raise HarnessLimit('%s is gone' % path)
    which = 'turtlebot' if case['script'] == 'deploy_experiments.sh' else 'kuka'
    if which == 'kuka' and case['script'].endswith('adaptive.sh'):
        args = [case['delta'], case['buffer'], case['margin']]
        want = {'delta': case['delta'], 'collision_buffer': case['buffer'], 'theta_margin': case['margin'], 'adaptive_n': True}
    elif case['adaptive']:
        args, want = [0, 0, 1], {'adaptive_n': True}
    else:
        args = [case['lo'], case['hi'], 0]
        want = {'adaptive_n': False, 'min_samples': case['lo'], 'max_samples': case['hi']}
    dirs = {}
    with scratch() as d:
        program(os.path.join(d, 'bin'), 'python', LOGGED)
        program(os.path.join(d, 'bin'), 'python3', LOGGED)
        for task in (case['task'], case['other']):
            log = os.path.join(d, 'log%d' % task)
            if os.path.exists(log):
                continue
            env = dict(os.environ, PATH=os.path.join(d, 'bin') + os.pathsep + os.environ['PATH'], CALL_LOG=log,
                       SLURM_ARRAY_TASK_ID=str(task))
            r = subprocess.run(['bash', path] + [str(a) for a in args], cwd=d, env=env, capture_output=True, text=True,
                               timeout=300)
            require(r.returncode in (0, 1), 'the job %s ended with %d: %s', case['script'], r.returncode, r.stderr[-300:])
            calls = logged(log)
            require(len(calls) == 1, 'task %d of %s runs %d programs', task, case['script'], len(calls))
            c = [x for x in calls[0] if x != '-u']
            require(os.path.realpath(os.path.join(TAMP, c[0])) == os.path.realpath(os.path.join(
                TAMP, 'turtlebot_move' if which == 'turtlebot' else 'kuka_carry', 'run.py')), 'task %d runs %s', task, c[0])
            # what the program makes of it
            save = os.path.join(d, 'save%d' % task)

            def solver(problem, **kw):
                return None, math.inf, []
            p29.run_main(which, c[1:] + ['--save-dir', save], solver)
            _, lines = p29.read_log(save, dict(want, seed=task), [], '', 'task %d with %s' % (task, args))
            sd = [x for i, x in enumerate(c) if x.startswith('--save-dir=') or (i and c[i - 1] == '--save-dir')]
            require(len(sd) == 1, 'task %d saves to %s', task, sd)
            dirs[task] = sd[0]
            env['CALL_LOG'] = log + 'x'
            env['SLURM_ARRAY_TASK_ID'] = str(task + 200)
            if task % 7 == 0:
                subprocess.run(['bash', path] + [str(a) for a in args], cwd=d, env=env, capture_output=True, timeout=300)
                require(logged(log + 'x') == [], 'task %d runs something', task + 200)
    require(len(set(dirs.values())) == len(dirs), 'tasks %s save to the same directory', sorted(dirs))
    ctx.label(case['script'])
    ctx.nt(case['task'] != case['other'])


# ---- feeding the queue

@st.composite
def queues(draw):
    script = draw(st.sampled_from(['deploy_tamp_experiments.py', 'deploy_tamp_experiments.py', 'deploy_tamp_experiments_kuka.py',
                                   'deploy_tamp_experiments_kuka.py', 'deploy_tamp_adaptive_kuka.py']))
    sizes = [draw(st.one_of(st.tuples(st.one_of(st.integers(0, 120), st.sampled_from([0, 1, 48, 49, 50, 51])),
                                      st.sampled_from(['none', 'none', 'all', 'some'])).map(list),
                            st.sampled_from([[1, 'all'], [1, 'all'], [1, 'none'], [2, 'some'], [2, 'all'], [99, 'all']])))
             for _ in range(draw(st.integers(1, 8)))]
    return {'script': script, 'sizes': sizes, 'lock': draw(st.sampled_from([None, None, 0, 1, 7, 60])), 'seed': draw(
        st.integers(0, 2 ** 30))}


def run_queue(case, ctx):
    with scratch() as d:
        lock = os.path.join(d, 'tmux_lock.txt')
        if case['lock'] != 0:
            open(lock, 'w').close()
        binary, log = os.path.join(d, 'bin'), os.path.join(d, 'log')
        program(binary, 'scancel', 'set -- scancel "$@"; ' + LOGGED)
        program(binary, 'squeue', 'set -- squeue; %s; n=$(cat count 2>/dev/null || echo 0); echo $((n+1)) > count; '
                                  'if [ -e "answer$n" ]; then cat "answer$n"; else echo JOBID; fi' % LOGGED)
        program(binary, 'sbatch', 'set -- sbatch "$@"; %s; %s' % (
            LOGGED, '' if not case['lock'] else 'n=$(grep -c ^sbatch "$CALL_LOG"); if [ $n -ge %d ]; then rm -f tmux_lock.txt; fi'
            % case['lock']))
        for i, (n, held) in enumerate(case['sizes']):
            rows = ['JOBID PARTITION NAME USER ST TIME NODELIST(REASON)']
            for j in range(n):
                bad = held == 'all' or (held == 'some' and j % 2 == 0 and n > 1)
                rows.append(' %d xeon deploy u PD 0:00 (%s)' % (j, 'JobHeldUser' if bad else 'Resources'))
            with open(os.path.join(d, 'answer%d' % i), 'w') as f:
                f.write('\n'.join(rows) + '\n')

        def body():
            import random
            import time
            import numpy as np
            time.sleep = lambda s: None
            random.seed(case['seed'])
            np.random.seed(case['seed'])
            os.environ.update(PATH=binary + os.pathsep + os.environ['PATH'], CALL_LOG=log, USER='somebody')
            try:
                scripts.run_script('exps/tamp_environment/' + case['script'], [], cwd=d)
            except AssertionError:
                return 'refused'
            return 'done'
        r = scripts.in_child(body)
        require(r.status == 'ok', '%s ended with %r', case['script'], r.status)
        calls = logged(log)
    jobs = [c for c in calls if c[0] == 'sbatch']
    for c in jobs:
        require(len(c) == 6 and re.fullmatch(r'--array=1-\d+', c[1]), 'submitted %s', c)
    width = {c[1] for c in jobs}
    batch = 50 if case['script'] == 'deploy_tamp_experiments_kuka.py' else 1
    if case['script'] == 'deploy_tamp_adaptive_kuka.py':
        require(width <= {'--array=1-1'} and {c[2] for c in jobs} == {'deploy_experiments_kuka_adaptive.sh'}, 'submitted %s', jobs[:1])
        sets = sorted(tuple(float(x) for x in c[3:]) for c in jobs)
        want = sorted((a, b, t) for a in (.02, .03, .04) for b in (.02, .03, .04) for t in (math.pi / 18, math.pi / 32)
                      for _ in range(5))
        require(len(sets) == len(want) and all(abs(u - v) < 1e-12 for x, y in zip(sets, want) for u, v in zip(x, y)),
                '%d jobs instead of %d, or others', len(sets), len(want))
        ctx.label(case['script'])
        return
    # never into a full queue, and nothing once the lock is gone
    size, held, polled, seen, since = None, None, 0, 0, 0
    for i, c in enumerate(calls):
        if c[0] == 'squeue':
            size, held = case['sizes'][polled] if polled < len(case['sizes']) else (0, 'none')
            polled += 1
            since = 0
            full = size > 0 and held == 'all'
            nxt = calls[i + 1] if i + 1 < len(calls) else None
            require((nxt is not None and nxt[0] == 'scancel') == full, '%d jobs are queued, %s of them held: %s', size, held,
                    'cancelled' if nxt and nxt[0] == 'scancel' else 'not cancelled')
        elif c[0] == 'sbatch':
            require(size is not None, 'submitted before the queue was looked at')
            require(size < 50, 'submitted although %d jobs are queued', size)
            since += 1
            require(since <= batch, 'submitted %d times without looking at the queue', since)
            seen += 1
            if case['lock'] is not None:
                late = seen - case['lock']
                require(late <= 0 or seen <= math.ceil(case['lock'] / batch) * batch, 'submitted another job after the lock '
                        'was removed')
    each = 1 if batch == 1 else 50
    if case['lock'] is None or case['lock'] > 41 * each:
        require(r.payload == 'done', 'stopped although the lock is there')
        sets = [tuple(c[3:]) for c in jobs]
        kinds = {}
        for s in sets:
            kinds[s] = kinds.get(s, 0) + 1
        require(all(v % each == 0 for v in kinds.values()), 'the settings are not repeated %d times each: %s', each,
                sorted(set(kinds.values())))
        many = {s: v // each for s, v in kinds.items()}
        require(sum(many.values()) == 41 and many.pop(('0', '0', '1'), 0) == 1, '%d settings, the adaptive one %d times',
                sum(many.values()), kinds.get(('0', '0', '1'), 0) // each)
        floor, top = (100, 50000) if batch == 1 else (500, 100000)
        grow = {int(s[1]): v for s, v in many.items() if s[0] == str(floor - 1)}
        once = {int(s[1]): v for s, v in many.items() if int(s[0]) == int(s[1]) - 1}
        for n in grow:
            require(floor <= n <= top, 'a sample count of %d', n)
        require(all(s[2] == '0' for s in many), 'settings with an adaptive count: %s', many)
        require(sum(grow.values()) == 20 or floor in grow, 'settings %s', many)
        require(grow == once, 'growing up to %s, at once with %s', sorted(grow), sorted(once))
        script = 'deploy_experiments.sh' if batch == 1 else 'deploy_experiments_kuka.sh'
        require({c[2] for c in jobs} == {script} and width == {'--array=1-50' if batch == 1 else '--array=1-1'},
                'submitted %s', jobs[0])
        ctx.label('all submitted')
    else:
        require(r.payload == 'refused', 'carried on without the lock')
        ctx.label('lock removed')
    ctx.nt(any(n > 49 for n, _ in case['sizes']))


@st.composite
def outputs(draw):
    line = st.text('ab \\%$`"\'xyz019', max_size=12)
    names = draw(st.lists(st.text('ab c-%1', min_size=1, max_size=5).filter(lambda s: not s.startswith('-')), min_size=1,
                          max_size=4, unique=True))
    return {'files': {n: [draw(line) for _ in range(draw(st.integers(0, 4)))] for n in names}, 'end': draw(st.booleans())}


def run_monitor(case, ctx):
    with scratch() as d:
        for n, lines in case['files'].items():
            with open(os.path.join(d, n + '.out'), 'w') as f:
                f.write('\n'.join(lines) + ('\n' if case['end'] and lines else ''))
        with open(os.path.join(d, 'other.txt'), 'w') as f:
            f.write('other\n')
        r = subprocess.run(['bash', os.path.join(TAMP, 'monitor_jobs.sh')], cwd=d, capture_output=True, text=True, timeout=60)
    want = []
    for n, lines in case['files'].items():
        if lines and lines[-1] == '' and not case['end'] and len(lines) > 1:
            lines = lines[:-1]
        want.append('%s.out: %s' % (n, lines[-1] if lines else ''))
    require(sorted(r.stdout.split('\n')[:-1]) == sorted(want), 'the monitor shows %r instead of %r',
            sorted(r.stdout.split('\n')[:-1]), sorted(want))
    ctx.nt(len(want) > 1)


SUBS = [
    Sub('tuning', tunings(), run_tuning, quick=150),
    Sub('aggregates', results(), run_aggregate, quick=2000),
    Sub('array jobs', arrays(), run_array, quick=200),
    Sub('job queues', queues(), run_queue, quick=120),
    Sub('monitor', outputs(), run_monitor, quick=300),
]
