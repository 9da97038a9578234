# PY: venv
# STUBS: core pandaslite
"""P32: the straight-line trial brackets the radius from which its completeness check says yes."""
import glob
import hashlib
import json
import math
import os
import shutil
import sys
import tempfile

import networkit
import numpy as np
import pandas
from hypothesis import strategies as st
from vlib.core import HarnessLimit, Sub, require
from vlib import gen, roads, scripts
import nonasymptotic.envs as E

ID = 'P32'
SCRIPT = 'exps/run_straight_line_optimality_trial.py'


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(6, 30), st.integers(6, 120)))
    sched = [n]
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        sched.append(sched[-1] + draw(st.integers(1, 30)))
    rule = draw(st.one_of(st.tuples(st.just('above'), gen.in_range(0.05, 1.0)).map(list),
                          st.tuples(st.just('hash'), gen.seeds(), st.sampled_from([0.2, 0.5, 0.8])).map(list),
                          st.sampled_from([['always'], ['never']])))
    return {'dim': draw(st.sampled_from([2, 2, 3, 4, 7])),
            'delta': draw(st.one_of(gen.in_range(0.15, 1.5), st.sampled_from([0.5, 0.25, 1.0, 0.05, 0.04, 0.02]))),
            'schedule': sched, 'k': draw(st.one_of(st.integers(3, 8), st.integers(3, 40))), 'rule': rule,
            'timeouts': draw(st.sampled_from([0.0, 0.0, 0.3, 1.0])), 'task': draw(st.integers(0, 30)),
            'round': draw(st.sampled_from([1, 100, 37])), 'timeout': draw(st.sampled_from([60.0, 0.25])),
            'area_tol': draw(st.sampled_from([1e-8, 1e-3])), 'trials': draw(st.sampled_from([1, 1, 2]))}


def tolerance_radius(x, delta):
    """The radius whose tolerance is x: y = (1 + x) / sqrt(1 + x^2), y = r / (2 delta)."""
    return 2 * delta * (1 + x) / math.sqrt(1 + x * x)


def verdict(rule, radius, asked, certified):
    if rule[0] == 'above':
        return radius >= rule[1] * certified
    if rule[0] == 'hash':
        h = hashlib.blake2b(('%d %.7g' % (rule[1], radius)).encode(), digest_size=4).digest()
        return int.from_bytes(h, 'big') / 2 ** 32 < rule[2]
    return rule[0] == 'always'


def timed_out(case, i):
    h = hashlib.blake2b(('t%d %d' % (case['task'], i)).encode(), digest_size=4).digest()
    return int.from_bytes(h, 'big') / 2 ** 32 < case['timeouts']


def trial(case, tmp):
    cfg = os.path.join(tmp, 'c.json')
    out_dir = os.path.join(tmp, 'out')
    os.mkdir(out_dir)
    with open(cfg, 'w') as f:
        json.dump({'delta': case['delta'], 'dims_to_test': [case['dim']], 'sample_schedule': case['schedule'],
                   'n_trials': case['task'] + 1 + 1000 * (case['trials'] - 1), 'prm_max_k_neighbors': case['k'],
                   'n_samples_per_check_round': case['round'], 'ed_check_timeout': case['timeout'],
                   'area_tol': case['area_tol']}, f)

    def body():
        asked, draws = [], []
        orig = E.StraightLine.sample_from_env

        def sample(self):
            x = orig(self)
            draws.append(np.array(x, dtype=float).tolist())
            return x
        E.StraightLine.sample_from_env = sample

        def complete(self, prm, tol=None, n_samples_per_check=100, timeout=60.0, area_tol=1e-6, vis=False):
            # stands in for the check that the repository disables on purpose
            pts = np.array(prm.prm_samples, dtype=float)
            r = tolerance_radius(float(tol), case['delta']) if tol == tol else math.nan
            late = timed_out(case, len(asked))
            yes = not late and r == r and verdict(case['rule'], r, len(asked), certified(pts, case['k']))
            asked.append([len(pts), float(tol), bool(yes), late, [n_samples_per_check, timeout, area_tol],
                          prm.num_vertices(), float(pts.sum())])
            return yes, 'timed out' if late else ''
        E.StraightLine.is_prm_epsilon_delta_complete = complete
        sys.modules['kgraph'] = None
        scripts.run_script(SCRIPT, [case['task'], 1000, cfg, out_dir])
        files = glob.glob(os.path.join(out_dir, '*.csv'))
        if len(files) != 1:
            raise HarnessLimit('record files %s' % files)
        left = [p for p in dict.fromkeys(networkit.WRITTEN) if os.path.exists(p) and not p.startswith(tmp)]
        for p in left:
            os.remove(p)
        return {'asked': asked, 'draws': draws, 'left': left, 'rows': pandas.read_csv(files[0], index_col=0).to_dict('records')}
    r = scripts.in_child(body)
    require(r.status == 'ok', 'the script ended with %r', r.status)
    return r.payload


def certified(pts, k):
    d = np.sort(roads.pairs_dist(np.asarray(pts)), axis=1)
    return float(d[:, min(k, len(pts) - 1) - 1].min())


def range_of(pts, k):
    """The distances the search may choose from: of samples to their neighbours, up to the certified radius."""
    kk = min(k, len(pts) - 1)
    d = np.sort(roads.pairs_dist(pts), axis=1)[:, :kk]
    top = float(d[:, -1].min())
    out = []
    for x in np.unique(d):
        if x <= top * (1 + 1e-12) and (not out or x - out[-1] > 1e-12 * (1 + x)):
            out.append(float(x))
    return out


def find(vals, x, rel):
    i = min(range(len(vals)), key=lambda j: abs(vals[j] - x))
    return i if abs(vals[i] - x) <= rel * (1 + abs(x)) else None


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix='p32_')
    try:
        out = trial(case, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rows, asked, draws = out['rows'], out['asked'], np.array(out['draws'], dtype=float)
    require(not out['left'], 'the trial leaves temporary files behind: %s', out['left'][:1])
    numbers = [case['task'] + 1000 * i for i in range(case['trials'])]
    require([(r['trial'], r['n_samples']) for r in rows] == [(t, n) for t in numbers for n in case['schedule']],
            'records for %s, expected trials %s of %s', [(r['trial'], r['n_samples']) for r in rows], numbers, case['schedule'])
    # each trial draws its samples afresh; which of its first draws were only for looking is found by matching
    at = 0
    for t in range(case['trials']):
        mine = rows[t * len(case['schedule']):(t + 1) * len(case['schedule'])]
        total = len(draws) // case['trials']
        pts = draws[t * total:(t + 1) * total]
        pts = pts[len(pts) - case['schedule'][-1]:]
        if len(pts) < case['schedule'][-1]:
            raise HarnessLimit('fewer draws than samples')
        for row in mine:
            require(row['dim'] == case['dim'] and row['delta_clearance'] == case['delta'],
                    'a record does not name its parameters: %s', row)
            n = row['n_samples']
            calls = []
            while at < len(asked) and asked[at][0] == n and asked[at][6] == float(pts[:n].sum()):
                calls.append(asked[at])
                at += 1
            judge(case, row, pts[:n], calls, ctx)
    require(at == len(asked), 'the check was asked about other samples than those of its trial (%s)', asked[at] if at < len(asked) else None)
    require(len({r['seed'] for r in rows}) == case['trials'], 'the trials share a seed, or one has several')


def judge(case, row, pts, calls, ctx):
    R = range_of(pts, case['k'])
    what = '%d samples' % len(pts)
    for c in calls:
        require(c[5] == len(pts), '%s: the check was given a roadmap of %d', what, c[5])
        require(c[4] == [case['round'], case['timeout'], case['area_tol']], '%s: the check was asked with %s, configured %s',
                what, c[4], [case['round'], case['timeout'], case['area_tol']])
    info = row['info'] if isinstance(row['info'], str) else ''
    if len(R) < 3:
        require(info, '%s: nothing to search, but the record does not say so', what)
        return
    lb, ub = find(R, row['rad_lbs'], 1e-9), find(R, row['rad_ubs'], 1e-9)
    require(lb is not None and ub is not None, '%s: the recorded radii %r and %r are no distances up to the certified radius %r',
            what, row['rad_lbs'], row['rad_ubs'], R[-1])
    require(ub == lb + 1, '%s: the recorded radii %r and %r are not neighbours (number %d and %d of %d)', what, row['rad_lbs'],
            row['rad_ubs'], lb, ub, len(R))
    late = [c for c in calls if c[3]]
    require(info.count('timed out') == len(late), '%s: %d checks timed out, the record notes %r', what, len(late), info)
    if R[-1] >= 2 * case['delta'] * 1.414:
        ctx.label('radii without a tolerance')      # no tolerance belongs to a radius that large
        return
    answers = {}
    for c in calls:
        if c[1] != c[1]:
            ctx.label('no tolerance')
            return
        r = tolerance_radius(c[1], case['delta'])
        i = find(R, r, 1e-9 + 1e-12 / max(1e-12, abs((r / 2 / case['delta']) ** 2 - 1)))
        require(i is not None, '%s: asked with tolerance %r, which belongs to radius %r, not to any distance', what, c[1], r)
        if c[3]:
            # (printed with six digits)
            require(any(abs(float(x) - R[i]) <= 2e-6 for x in numbers_after(info, 'radius')), '%s: the check for radius %r timed '
                    'out, the record notes %r', what, R[i], info)
        answers.setdefault(i, []).append(c[2])
    require(ub == len(R) - 1 or True in answers.get(ub, []), '%s: the recorded upper radius %r was never found complete', what,
            R[ub])
    require(lb <= 1 or False in answers.get(lb, []), '%s: the recorded lower radius %r was never found incomplete', what, R[lb])
    require(not (True in answers.get(lb, []) or False in answers.get(ub, [])), '%s: the answers for the recorded radii are %s and '
            '%s', what, answers.get(lb), answers.get(ub))
    if case['rule'][0] == 'above' and not late:
        ctx.label('threshold inside' if 1 < lb and ub < len(R) - 1 else 'threshold at the end')
    ctx.nt(1 < lb and ub < len(R) - 1)


def numbers_after(text, word):
    import re
    return re.findall(word + r' (\d+\.\d+)', text)


SUBS = [Sub('records', cases(), run, quick=3000, thorough=20000)]
