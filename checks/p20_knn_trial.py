# PY: venv
# STUBS: core pandaslite
"""P20: the neighbour-radius trial records the smallest k-th neighbour distances of its samples."""
import glob
import json
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas  # noqa: F401
import pynndescent
from hypothesis import strategies as st
from vlib.core import HarnessLimit, Sub, require, VERIF
from vlib import gen, roads, scripts
import nonasymptotic.envs as E

ID = 'P20'
SCRIPT = 'exps/run_knn_radius_trial.py'


@st.composite
def cases(draw):
    sched = sorted(draw(st.lists(st.integers(3, 45), min_size=1, max_size=3, unique=True)))
    nn = sorted(draw(st.lists(st.integers(1, sched[-1] + 4), min_size=0, max_size=5, unique=True))
                + [draw(st.integers(1, sched[0] - 1))])
    nn = draw(st.permutations(sorted(set(nn)))) if draw(st.booleans()) else sorted(set(nn))
    sched = draw(st.permutations(sched)) if draw(st.booleans()) else sched
    nn, sched = list(nn), list(sched)
    return {'trials': draw(st.sampled_from([1, 1, 2, 3])), 'dim': draw(st.integers(2, 6)), 'delta': draw(st.one_of(gen.in_range(0.0, 1.0), st.sampled_from([0.5, 0.1]))),
            'sample_schedule': sched, 'neighbor_schedule': nn, 'task': draw(st.integers(0, 40)),
            'flavour': draw(st.sampled_from(roads.FLAVOURS))}


def trial(case, tmp, name, resume=None):
    out_dir = os.path.join(tmp, name)
    os.mkdir(out_dir)
    cfg = os.path.join(tmp, name + '.json')
    with open(cfg, 'w') as f:
        json.dump({'delta': case['delta'], 'dims_to_test': [case['dim']], 'sample_schedule': case['sample_schedule'],
                   'neighbor_schedule': case['neighbor_schedule'], 'n_trials': case['task'] + 1 + 1000 * (case['trials'] - 1)}, f)
    if resume is not None:
        shutil.copy(resume, os.path.join(out_dir, 'out%d.csv' % case['task']))

    def body():
        draws, builds = [], []
        orig = E.StraightLine.sample_from_env

        def sample(self):
            x = orig(self)
            draws.append(np.array(x, dtype=float).tolist())
            return x
        E.StraightLine.sample_from_env = sample
        sys.modules.pop('nonasymptotic.ann', None)
        if case['flavour'] == 'kgraph':
            sys.modules.pop('kgraph', None)
            sys.path.insert(0, os.path.join(VERIF, 'stubs', 'kgraph'))
            import kgraph
            init = kgraph.KGraph.__init__

            def kinit(self, data, *a, **k):
                builds.append(np.asarray(data, dtype=float)[:, :case['dim']].tolist())
                init(self, data, *a, **k)
            kgraph.KGraph.__init__ = kinit
        else:
            sys.modules['kgraph'] = None
            pinit = pynndescent.NNDescent.__init__

            def ninit(self, data, *a, **k):
                builds.append(np.asarray(data, dtype=float).tolist())
                pinit(self, data, *a, **k)
            pynndescent.NNDescent.__init__ = ninit
        # as many processes as give this one the wanted number of tasks
        scripts.run_script(SCRIPT, [case['task'], 1000, cfg, out_dir])
        files = glob.glob(os.path.join(out_dir, '*.csv'))
        if len(files) != 1:
            raise HarnessLimit('record files %s' % files)
        df = pandas.read_csv(files[0], index_col=0)
        return {'draws': draws, 'builds': builds, 'rows': df.to_dict('records')}
    r = scripts.in_child(body)
    require(r.status == 'ok', 'the script ended with %r', r.status)
    return r.payload


def clean(rows):
    return [{k: v for k, v in r.items() if not k.endswith('time')} for r in rows]


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix='p20_')
    try:
        out = trial(case, tmp, 'one')
        rows = out['rows']
        numbers = [case['task'] + 1000 * i for i in range(case['trials'])]
        want = sorted((t, s, k) for t in numbers for s in case['sample_schedule'] for k in case['neighbor_schedule'] if k < s)
        got = sorted((r['trial'], r['n_samples'], r['n_neighbors']) for r in rows)
        require(got == want, 'records for (trial, samples, neighbours) %s, expected %s', got, want)
        draws = np.array(out['draws'], dtype=float).reshape(-1, case['dim'])
        lo = np.array([-case['delta']] * case['dim'])
        hi = np.array([1 + case['delta']] + [case['delta']] * (case['dim'] - 1))
        require(np.all(draws >= lo) and np.all(draws <= hi), 'the samples are not in the box of the clearance')
        rel = 1e-5 if case['flavour'] == 'kgraph' else 1e-9
        kg = case['flavour'] == 'kgraph'
        pos = 0
        by_size = {}
        for b in out['builds']:
            b = np.array(b, dtype=float)
            i = pos
            for row in b:
                while i < len(draws) and not np.all(np.abs(draws[i] - row) <= rel * (1 + np.abs(row))):
                    i += 1
                require(i < len(draws), 'the neighbour index is built on data that was not sampled for it')
                i += 1
            pos = i
            by_size.setdefault(len(b), []).append(b)
        for s, bs in by_size.items():
            require(len(bs) >= case['trials'] or s not in case['sample_schedule'], '%d indices of %d samples for %d trials',
                    len(bs), s, case['trials'])
        seeds = {}
        for r in rows:
            require(r['dim'] == case['dim'] and r['delta_clearance'] == case['delta'],
                    'a record does not name its parameters: %s', r)
            seeds.setdefault(r['trial'], set()).add(r['seed'])
            data = by_size.get(r['n_samples'], [])
            require(data, 'no index was built for %d samples', r['n_samples'])
            if len(data) == case['trials']:         # built in the order of the trials
                data = [data[numbers.index(r['trial'])]]
            k = r['n_neighbors']
            ok = []
            for b in data:
                d = np.sort(roads.pairs_dist(b), axis=1)        # column 0 is the sample itself
                v = float(d[:, k if kg else k - 1].min())
                ok.append(v)
            require(any(abs(v - r['eff_rad']) <= 3 * rel * (1 + v) for v in ok), 'radius %r recorded for %d samples and '
                    '%d neighbours of trial %d, it is %r', r['eff_rad'], r['n_samples'], k, r['trial'], ok[0])
        require(all(len(s) == 1 for s in seeds.values()), 'the records of one trial name several seeds: %s', seeds)
        again = trial(case, tmp, 'two')
        require(clean(again['rows']) == clean(rows), 'the same task has other records when run again')
        if case['trials'] > 1:
            # the later trials alone, with the same seeds: what they record follows from the seed
            first = os.path.join(tmp, 'first.csv')
            df = pandas.read_csv(glob.glob(os.path.join(tmp, 'one', '*.csv'))[0], index_col=0)
            n = len([k for s in case['sample_schedule'] for k in case['neighbor_schedule'] if k < s])
            df.head(n * (1 + case['task'] % (case['trials'] - 1))).to_csv(first)
            rest = trial(case, tmp, 'three', resume=first)
            require(clean(rest['rows']) == clean(rows), 'a trial with the same seed has other records when it is not run after '
                    'the others')
            ctx.label('several trials')
        ctx.nt(len(case['sample_schedule']) > 1 and len([k for k in case['neighbor_schedule']
                                                         if k < case['sample_schedule'][-1]]) > 1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def large(draw):
    c = draw(cases())
    c['sample_schedule'] = [s * 9 for s in c['sample_schedule']]
    c['neighbor_schedule'] = [max(1, k * draw(st.sampled_from([1, 4, 9])) - draw(st.integers(0, 1)))
                              for k in c['neighbor_schedule'][:-1]] + [draw(st.integers(1, 8))]
    c['neighbor_schedule'] = list(dict.fromkeys(c['neighbor_schedule']))
    return c


SUBS = [Sub('trial', cases(), run, quick=1500, thorough=20000),
        Sub('trial of many samples', large(), run, quick=64, thorough=1600)]
