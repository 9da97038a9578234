# PY: venv
# STUBS: core pandaslite
"""P21: submitting and resuming launch the right script, configuration and experiment."""
import datetime
import json
import os
import shutil
import subprocess
import tempfile
import time

from hypothesis import strategies as st
from vlib.core import HarnessLimit, REPO, Sub, require
from vlib import scripts

ID = 'P21'
SCRIPT = 'exps/submit_and_run_experiment_job.py'
RUNS = {'narrow': 'run_narrow_passage_clearance_trial.py', 'line': 'run_straight_line_optimality_trial.py',
        'knn': 'run_knn_radius_trial.py'}
NAMES = ['a', 'ab', 'a_b', 'a_b_c', 'b', 'a_20240101-000000', 'run-1', 'run', 'a.b', 'aXb', 'a_2', '20240101-000000',
         'a_20240101', 'run[1]', 'a*', 'agg_out', 'my run', "it's", 'a$b', 'half%', '100%s', 'a{0}b', '{x}']
KEYS = ['delta', 'dims_to_test', 'n_trials', 'note', 'name', 'triples']


@st.composite
def config(draw):
    c = {}
    for k in draw(st.lists(st.sampled_from(KEYS), max_size=4, unique=True)):
        c[k] = draw(st.one_of(st.integers(0, 9), st.sampled_from([0.5, 1e-8, None, True, 'x', 'ü']),
                              st.lists(st.integers(0, 5), max_size=3)))
    return c


@st.composite
def cases(draw):
    ops = []
    pool = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2, unique=True))
    for _ in range(draw(st.integers(2, 8))):
        what = draw(st.sampled_from(['submit', 'submit', 'submit', 'resume', 'resume', 'missing', 'broken', 'stray']))
        name = draw(st.sampled_from(pool if draw(st.integers(0, 7)) else NAMES))
        triple = [draw(st.integers(1, 99)) for _ in range(3)]
        kind = draw(st.sampled_from(sorted(RUNS)))
        wait = draw(st.sampled_from([0, 1, 1, 7, 60, 3600, 86400, 86400 * 40]))
        ops.append([what, name, kind, triple, draw(config()) if what == 'submit' else {}, wait])
    return {'ops': ops}


def call(cwd, args, now):
    """Run the submission script in cwd; returns (exit status, launches)."""
    log = os.path.join(cwd, '.launched')
    if os.path.exists(log):
        os.remove(log)

    def body():
        real = datetime.datetime

        class Clock(real):
            @classmethod
            def now(cls, tz=None):
                return real.fromtimestamp(now, tz)

            @classmethod
            def today(cls):
                return real.fromtimestamp(now)
        datetime.datetime = Clock
        strftime = time.strftime
        time.strftime = lambda fmt, t=None: strftime(fmt, time.localtime(now) if t is None else t)
        os.environ['PATH'] = os.path.join(cwd, '.bin') + os.pathsep + os.environ['PATH']
        os.environ['LAUNCH_LOG'] = log
        scripts.run_script(SCRIPT, args, cwd=cwd)
    r = scripts.in_child(body)
    launches = []
    if os.path.exists(log):
        with open(log) as f:
            for line in f.read().split('\0')[:-1]:
                launches.append(line.split('\n')[:-1])
    return r.status, launches


def experiments(cwd):
    d = os.path.join(cwd, 'results')
    return {os.path.join(d, n) for n in os.listdir(d) if os.path.isdir(os.path.join(d, n))}


def script_command(cwd, path):
    """The python command the generated script runs, as an argument list, by running it with stand-ins."""
    log = os.path.join(cwd, '.ran')
    if os.path.exists(log):
        os.remove(log)
    prog = ('source() { :; }; module() { :; }; python() { for a in "$@"; do printf "%s\\0" "$a"; done > "$RAN_LOG"; }; '
            'python3() { python "$@"; }; eval "$(cat "$1")"')
    env = dict(os.environ, RAN_LOG=log, LLSUB_RANK='3', LLSUB_SIZE='11')
    subprocess.run(['bash', '-c', prog, 'x', path], cwd=cwd, env=env, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, timeout=60)
    require(os.path.exists(log), 'the generated script runs no python program')
    with open(log) as f:
        args = f.read().split('\0')[:-1]
    return [a for a in args if a != '-u']


def launched(cwd, launches, directory, triple, what):
    require(len(launches) == 1, '%s launched %d jobs', what, len(launches))
    args = launches[0]
    require(len(args) == 2, '%s launched %s', what, args)
    require(os.path.realpath(os.path.join(cwd, args[0])) == os.path.realpath(os.path.join(directory, 'submit_job.sh')),
            '%s launched %s, expected the script of %s', what, args[0], os.path.basename(directory))
    require(args[1].replace(' ', '') == '[%d,%d,%d]' % tuple(triple), '%s launched with %s, the triple is %s', what,
            args[1], triple)
    require(os.access(os.path.join(cwd, args[0]), os.X_OK), 'the launched script is not executable')


def run(case, ctx):
    cwd = os.path.realpath(tempfile.mkdtemp(prefix='p21_'))
    try:
        os.mkdir(os.path.join(cwd, 'results'))
        os.mkdir(os.path.join(cwd, '.bin'))
        fake = os.path.join(cwd, '.bin', 'LLsub')
        with open(fake, 'w') as f:
            f.write('#!/bin/sh\n{ printf "%s\\n" "$@"; printf "\\0"; } >> "$LAUNCH_LOG"\n')
        os.chmod(fake, 0o755)
        now = 1704067200 - 5      # just before 2024
        model = []                # (name, directory, kind, triple), oldest first
        for what, name, kind, triple, cfg, wait in case['ops']:
            now += wait
            before = experiments(cwd)
            args = ['--type', kind, '--name', name, '--triples-args'] + triple
            if what == 'stray':
                d = os.path.join(cwd, 'results', name)
                if not os.path.exists(d) and name[-7:-6] != '-':    # (one that looks like an experiment is one)
                    os.mkdir(d)
                    os.utime(d, (now, now))
                continue
            if what == 'resume':
                mine = [e for e in model if e[0] == name]
                status, launches = call(cwd, args + ['--config-path', 'unused.json', '--resume'], now)
                if mine:
                    require(status == 'ok' or status == ('exit', 0), 'resuming %s ended with %r', name, status)
                    launched(cwd, launches, mine[-1][1], mine[-1][3], 'resuming %s' % name)
                    ctx.nt(len(model) > 1)
                    ctx.label('resumed')
                else:
                    require(not launches, 'resuming %s, which was never submitted, launched %s', name, launches)
                    ctx.label('nothing to resume')
                require(experiments(cwd) == before, 'resuming created an experiment directory')
                continue
            cpath = os.path.join(cwd, 'given.json')
            if what == 'missing':
                cpath = os.path.join(cwd, 'missing.json')
            elif what == 'broken':
                with open(cpath, 'w') as f:
                    f.write('{"delta": 0.5,')
            else:
                with open(cpath, 'w') as f:
                    json.dump(cfg, f)
            status, launches = call(cwd, args + ['--config-path', cpath], now)
            new = experiments(cwd) - before
            if what in ('missing', 'broken'):
                require(not launches, 'a %s configuration launched %s', what, launches)
                require(status not in ('ok', ('exit', 0)), 'a %s configuration is reported as success', what)
                require(not new, 'a %s configuration leaves the experiment %s behind', what, sorted(new))
                ctx.label(what + ' configuration')
                continue
            if not new:
                # the same name within the same second: refused, and nothing is launched
                require(status not in ('ok', ('exit', 0)) and not launches,
                        'submitting %s created no experiment directory, but ended with %r and launched %s', name, status,
                        launches)
                clash = time.strftime('%Y%m%d-%H%M%S', time.localtime(now))
                require(any(os.path.basename(d).endswith(clash) for d in before),
                        'submitting %s was refused without need', name)
                ctx.label('refused')
                continue
            require(status in ('ok', ('exit', 0)), 'submitting %s ended with %r', name, status)
            require(len(new) == 1, 'submitting created %s', sorted(new))
            d = new.pop()
            require(os.path.basename(d).startswith(name), 'the experiment directory of %s is %s', name, d)
            with open(os.path.join(d, 'config.json')) as f:
                stored = json.load(f)
            require(stored == dict(cfg, name=name, triples=triple), 'stored configuration %s, given %s', stored, cfg)
            launched(cwd, launches, d, triple, 'submitting %s' % name)
            cmd = script_command(cwd, os.path.join(d, 'submit_job.sh'))
            require(len(cmd) == 5, 'the script runs %s', cmd)
            require(os.path.basename(cmd[0]) == RUNS[kind], 'a %s experiment runs %s', kind, cmd[0])
            require(os.path.exists(os.path.join(REPO, 'exps', cmd[0])), 'the script runs %s, which does not exist', cmd[0])
            require(cmd[1:3] == ['3', '11'], 'the script passes task %s of %s', cmd[1], cmd[2])
            require(os.path.realpath(os.path.join(cwd, cmd[3])) == os.path.join(d, 'config.json'),
                    'the script passes the configuration %s', cmd[3])
            require(os.path.realpath(os.path.join(cwd, cmd[4])) == d, 'the script saves to %s', cmd[4])
            os.utime(d, (now, now))
            model.append((name, d, kind, triple))
            ctx.label('submitted')
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


SUBS = [Sub('history', cases(), run, quick=1200, thorough=16000)]
