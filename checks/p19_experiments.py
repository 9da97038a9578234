# PY: venv
# STUBS: core pandaslite
"""P19: an experiment's processes partition its combinations, and resuming equals not stopping."""
import csv
import glob
import itertools
import json
import os
import re
import shutil
import tempfile

import numpy as np
import pandas
from hypothesis import strategies as st
from vlib.core import HarnessLimit, Sub, require
from vlib import gen, scripts
import nonasymptotic.envs as E
import nonasymptotic.prm  # noqa: F401  (imported before forking)

ID = 'P19'
SCRIPTS = {'narrow': 'exps/run_narrow_passage_clearance_trial.py', 'knn': 'exps/run_knn_radius_trial.py',
           'line': 'exps/run_straight_line_optimality_trial.py'}
TIMES = ('build_time', 'check_time')


@st.composite
def configs(draw):
    kind = draw(st.sampled_from(['narrow', 'knn', 'line']))
    dims = st.lists(st.integers(2, 5), min_size=1, max_size=3, unique=True)
    if kind == 'narrow':
        cfg = {'deltas': draw(st.lists(st.sampled_from([0.49, 0.25, 0.125, 0.3]), min_size=1, max_size=2, unique=True)),
               'radius_dims_to_test': draw(st.lists(st.integers(2, 4), max_size=2, unique=True)),
               'radius_sample_schedule': draw(st.sampled_from([[3], [2, 5], [6]])),
               'radius_prm_max_radius': draw(st.sampled_from([1.0, 0.5])),
               'knn_dims_to_test': draw(st.lists(st.integers(2, 4), max_size=2, unique=True)),
               'knn_sample_schedule': draw(st.sampled_from([[10], [9, 12]])), 'knn_prm_max_neighbors': 7,
               'n_trials': draw(st.integers(1, 3))}
    elif kind == 'knn':
        cfg = {'delta': draw(st.sampled_from([0.5, 0.1])), 'dims_to_test': draw(dims),
               'sample_schedule': draw(st.sampled_from([[5], [4, 7], [9, 6]])),
               'neighbor_schedule': draw(st.sampled_from([[2], [1, 2, 3], [2, 3, 6]])),
               'n_trials': draw(st.integers(1, 5))}
    else:
        cfg = {'delta': draw(st.sampled_from([0.5, 0.2])), 'sample_schedule': draw(st.sampled_from([[6], [5, 9]])),
               'dims_to_test': draw(dims), 'n_samples_per_check_round': 10, 'ed_check_timeout': 60.0,
               'area_tol': 1e-8, 'prm_max_k_neighbors': 3, 'n_trials': draw(st.integers(1, 5))}
    return kind, cfg


@st.composite
def cases(draw):
    kind, cfg = draw(configs())
    many = draw(st.integers(0, 4)) == 0
    long = draw(st.integers(0, 19)) == 0    # one process with a lot to do, or a crowd of them
    if long:
        cfg['n_trials'] = draw(st.sampled_from([40, 120]))
        if kind == 'narrow':
            cfg.update(deltas=[0.3], radius_dims_to_test=[2], knn_dims_to_test=[], radius_sample_schedule=[2, 3])
        else:
            cfg['dims_to_test'] = [2]
        n = draw(st.sampled_from([1, 2, 104]))
        return {'kind': kind, 'config': cfg, 'processes': n, 'victim': draw(st.sampled_from([0, 0, 1, 100])),
                'stops': [[draw(st.sampled_from(['sample', 'csv', 'fs'])), draw(gen.unit())]
                          for _ in range(draw(st.integers(1, 2)))], 'again': False}
    if many:
        cfg['n_trials'] = draw(st.integers(4, 12))
        for k in ('radius_sample_schedule', 'knn_sample_schedule', 'sample_schedule'):
            if k in cfg:
                cfg[k] = cfg[k][:1]
    return {'kind': kind, 'config': cfg, 'processes': draw(st.integers(8, 15) if many else st.integers(1, 7)),
            'victim': draw(st.one_of(st.integers(0, 6), st.sampled_from([0, 1, 10, 11]))),
            'stops': [[draw(st.sampled_from(['sample', 'csv', 'csv', 'fs', 'fs'])), draw(gen.unit())]
                      for _ in range(draw(st.sampled_from([1, 1, 2, 3, 0])))],
            'again': draw(st.booleans()), 'beside': draw(st.one_of(st.none(), st.tuples(st.sampled_from(['sample', 'csv', 'fs']),
                                                                                       gen.unit(), st.integers(1, 6)).map(list)))}


def combos(kind, cfg):
    if kind == 'narrow':
        out = []
        for t, dims in (('radius', cfg['radius_dims_to_test']), ('knn', cfg['knn_dims_to_test'])):
            out += [(t, d, dim, n) for d in cfg['deltas'] for dim in dims for n in range(cfg['n_trials'])]
        return out
    return list(itertools.product(cfg['dims_to_test'], range(cfg['n_trials'])))


def expected_rows(kind, cfg, combo):
    """What identifies the rows of one combination, in order."""
    if kind == 'narrow':
        return list(cfg['radius_sample_schedule'] if combo[0] == 'radius' else cfg['knn_sample_schedule'])
    if kind == 'line':
        return list(cfg['sample_schedule'])
    return [(s, k) for s in cfg['sample_schedule'] for k in cfg['neighbor_schedule'] if k < s]


def wrap(fn, ev):
    def inner(*a, **k):
        ev('fs')
        out = fn(*a, **k)
        ev('fs')
        return out
    return inner


def process(case, task, config_path, out_dir, kill=None, meanwhile=None):
    """Run one process of the experiment; returns the event counts (or 'killed')."""
    def body():
        ev = scripts.Events(kill, meanwhile)
        pandas.HOOK = lambda what, path: ev('csv')
        for mod, names in ((os, ('replace', 'rename', 'remove', 'unlink')), (shutil, ('move', 'copy', 'copyfile'))):
            for name in names:
                setattr(mod, name, wrap(getattr(mod, name), ev))
        for cls in (E.StraightLine, E.NarrowPassage):
            orig = cls.sample_from_env

            def sample(self, _orig=orig):
                ev('sample')
                return _orig(self)
            cls.sample_from_env = sample

        def complete(self, prm, tol=None, **kw):
            # stands in for the check that the repository disables on purpose
            return bool(prm.num_edges() % 2), ''
        E.StraightLine.is_prm_epsilon_delta_complete = complete
        scripts.run_script(SCRIPTS[case['kind']], [task, case['processes'], config_path, out_dir])
        return ev.n
    return scripts.in_child(body)


def records(path):
    """Rows of a record file, without times, as strings (an empty field is an empty field)."""
    if not os.path.exists(path):
        return []
    with open(path, newline='') as f:
        rows = [r for r in csv.reader(f)]
    head, rows = rows[0], rows[1:]
    require(all(len(r) == len(head) for r in rows), 'the record file %s is torn', os.path.basename(path))
    return [{h: v for h, v in zip(head, r) if h not in TIMES} for r in rows]


def num(s):
    f = float(s)
    return int(f) if f == int(f) else f


def key_of(kind, row):
    if kind == 'narrow':
        return (row['prm_type'], float(row['delta_clearance']), num(row['dim']), num(row['trial']))
    return (num(row['dim']), num(row['trial']))


def row_id(kind, row):
    return (num(row['n_samples']), num(row['n_neighbors'])) if kind == 'knn' else num(row['n_samples'])


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if set(x) != set(y):
            return False
        for k in x:
            if x[k] == y[k] or (k == '' or k.startswith('Unnamed')):
                continue
            try:
                if float(x[k]) == float(y[k]):
                    continue
            except ValueError:
                pass
            if {x[k], y[k]} <= {'', 'nan'}:
                continue
            return False
    return True


def run(case, ctx):
    kind, cfg = case['kind'], case['config']
    tmp = tempfile.mkdtemp(prefix='p19_')
    try:
        config_path = os.path.join(tmp, 'config.json')
        with open(config_path, 'w') as f:
            json.dump(cfg, f)
        whole = os.path.join(tmp, 'whole')
        os.mkdir(whole)
        todo = combos(kind, cfg)
        counts = {}
        for t in range(case['processes']):
            r = process(case, t, config_path, whole)
            require(r.status == 'ok', 'process %d ended with %r', t, r.status)
            counts[t] = r.payload
        files = sorted(glob.glob(os.path.join(whole, '*.csv')))
        rows = [r for p in files for r in records(p)]
        groups = {}
        for r in rows:
            groups.setdefault(key_of(kind, r), []).append(r)
        require(set(groups) == set(todo), 'combinations without records: %s; records of unknown combinations: %s',
                sorted(set(todo) - set(groups), key=repr)[:4], sorted(set(groups) - set(todo), key=repr)[:4])
        seeds = {}
        for combo in todo:
            ids = [row_id(kind, r) for r in groups[combo]]
            require(ids == expected_rows(kind, cfg, combo), 'combination %s has records for %s, expected %s', list(combo),
                    ids, expected_rows(kind, cfg, combo))
            ss = {r['seed'] for r in groups[combo]}
            require(len(ss) == 1, 'combination %s has seeds %s', list(combo), sorted(ss))
            s = ss.pop()
            require(s not in seeds, 'combinations %s and %s share the seed %s', list(seeds.get(s, ())), list(combo), s)
            seeds[s] = combo
        # a process that is stopped and started again, any number of times
        v = case['victim'] % max(1, min(case['processes'], len(todo)))
        out = os.path.join(tmp, 'stopped')
        os.mkdir(out)
        own = [p for p in files if re.search(r'(^|\D)%d\.csv$' % v, os.path.basename(p))]
        mine = os.path.join(out, os.path.basename(own[0])) if own else None
        partial = False
        for what, frac in case['stops']:
            total = counts[v].get(what, 0)
            if total == 0:
                continue
            r = process(case, v, config_path, out, (what, int(frac * total)))
            require(r.status in ('ok', 'killed'), 'the process ended with %r', r.status)
            if r.status == 'killed':
                ctx.label('stopped at ' + what)
            if mine is not None:
                got = records(mine)
                partial = partial or 0 < len(got) < len(records(os.path.join(whole, os.path.basename(mine))))
        for again in range(2 if case['again'] else 1):
            r = process(case, v, config_path, out)
            require(r.status == 'ok', 'the resumed process ended with %r', r.status)
            if mine is not None:
                a, b = records(mine), records(os.path.join(whole, os.path.basename(mine)))
                require(same(a, b), 'stopping (%s) and starting process %d again leaves %d records instead of the %d of '
                        'an uninterrupted run, or different ones: %s', case['stops'], v, len(a), len(b),
                        [(x, y) for x, y in zip(a, b) if not same([x], [y])][:1])
        if case.get('beside') and min(case['processes'], len(todo)) > 1:
            # another process of the experiment does all its work while this one is somewhere in the middle
            what, frac, step = case['beside']
            o = (v + 1 + step % (min(case['processes'], len(todo)) - 1)) % min(case['processes'], len(todo))
            shutil.rmtree(out)
            os.mkdir(out)
            r = process(case, v, config_path, out, (what, int(frac * counts[v].get(what, 0))),
                        lambda: process(case, o, config_path, out))
            require(r.status == 'ok', 'the process ended with %r', r.status)
            for t in (v, o):
                for p in files:
                    if re.search(r'(^|\D)%d\.csv$' % t, os.path.basename(p)):
                        a, b = records(os.path.join(out, os.path.basename(p))), records(p)
                        require(same(a, b), 'processes %d and %d at once: process %d leaves %d records instead of the %d '
                                'it leaves alone, or different ones', v, o, t, len(a), len(b))
            ctx.label('two at once')
        ctx.nt(partial)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def endless(draw):
    """One process with hundreds of combinations: their seeds."""
    kind = draw(st.sampled_from(['knn', 'line', 'narrow']))
    cfg = {'delta': 0.5, 'sample_schedule': [4], 'dims_to_test': [2], 'n_trials': draw(st.sampled_from([450, 600]))}
    if kind == 'narrow':
        cfg.update(deltas=[0.3], radius_dims_to_test=[2], radius_sample_schedule=[2], radius_prm_max_radius=0.5,
                   knn_dims_to_test=[], knn_sample_schedule=[9], knn_prm_max_neighbors=7)
    if kind == 'knn':
        cfg['neighbor_schedule'] = [2]
    elif kind == 'line':
        cfg.update(n_samples_per_check_round=10, ed_check_timeout=60.0, area_tol=1e-8, prm_max_k_neighbors=3)
    return {'kind': kind, 'config': cfg, 'processes': 1, 'victim': 0, 'stops': [['csv', draw(gen.unit())]], 'again': False}


SUBS = [Sub('very many combinations', endless(), run, quick=8, thorough=40),
        Sub('experiment', cases(), run, quick=1000, thorough=16000)]
