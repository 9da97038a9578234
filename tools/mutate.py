#!/usr/bin/env python3
"""Mutation sweep (no check uses this): small edits of one file of /repo, each tried with the checks of that file.

  mutate.py OUT.jsonl FILE [--checks P01,P02] [--every N] [--only SUBSTRING-OF-FUNCTION] [--jobs 8] [--budget 150]

Appends one record per mutant to OUT (status killed / limit / SURVIVED) and goes on where it stopped.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import queue
import shutil
import subprocess
import tempfile
import threading

import warnings

warnings.simplefilter('ignore')
REPO, HERE = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, K = 'exps/tamp_environment/turtlebot_move/', 'exps/tamp_environment/kuka_carry/'
CHECKS = {
    'nonasymptotic/envs.py': 'P02 P01 P03 P05 P04 P20 P18',
    'nonasymptotic/util.py': 'P07 P11 P01',
    'nonasymptotic/bound.py': 'P08 P09 P10 P11',
    'nonasymptotic/sampler.py': 'P06',
    'nonasymptotic/ann.py': 'P17 P13 P16',
    'nonasymptotic/prm.py': 'P12 P13 P14 P16 P15 P18',
    'exps/run_narrow_passage_clearance_trial.py': 'P18 P19',
    'exps/run_knn_radius_trial.py': 'P20 P19',
    'exps/run_straight_line_optimality_trial.py': 'P19',
    'exps/submit_and_run_experiment_job.py': 'P21',
    'exps/tune_experiment_triples.py': 'P30',
    'exps/aggregate_runtimes_for_tuning.py': 'P30',
    'exps/tamp_environment/deploy_tamp_experiments.py': 'P30',
    'exps/tamp_environment/deploy_tamp_experiments_kuka.py': 'P30',
    'exps/tamp_environment/deploy_tamp_adaptive_kuka.py': 'P30',
    T + 'separating_axis.py': 'P22', T + 'streams.py': 'P22 P24', T + 'problems.py': 'P27 P29',
    T + 'run.py': 'P26 P29', K + 'separating_axis.py': 'P23', K + 'kuka_primitives.py': 'P26 P28',
    K + 'run.py': 'P23 P27 P26 P28 P29',
}
# the checks of single classes and functions (first match), where those of the file are too many
PARTS = [
    ('envs.py', 'StraightLine', 'P05 P04'), ('envs.py', 'NarrowPassage.is_motion', 'P01'),
    ('envs.py', 'NarrowPassage.__init__', 'P01 P04'), ('envs.py', 'NarrowPassage', 'P05 P04'),
    ('envs.py', 'is_motion_valid', 'P02'), ('envs.py', 'arclength', 'P03'), ('envs.py', 'curve', 'P03'),
    ('envs.py', 'distance_to', 'P02 P03'), ('envs.py', 'sample', 'P04 P02'), ('envs.py', 'GrayCodeWalls', 'P02 P03 P04'),
    ('envs.py', '', 'P04'),
    ('bound.py', 'tail', 'P10'), ('bound.py', 'halving', 'P11'), ('bound.py', 'eff_conn', 'P11'),
    ('bound.py', 'doubling', 'P08'), ('bound.py', 'numerical', 'P08'), ('bound.py', 'ss_comb', 'P08'),
    ('bound.py', 'sauer', 'P08'), ('bound.py', '', 'P09 P08'),
    ('prm.py', 'FullConn', 'P12 P14 P15'), ('prm.py', 'SimpleNearest', 'P13 P14 P15'),
    ('prm.py', 'SimpleRadius', 'P16 P14 P15'), ('prm.py', 'edge_list', 'P13 P16'), ('prm.py', 'query', 'P14'),
    ('prm.py', '', 'P14 P15 P13'),
    ('streams.py', 'Bag', 'P22'), ('streams.py', '', 'P24 P22'),
    ('kuka_carry/run.py', 'Bag', 'P23'), ('kuka_carry/run.py', 'to_', 'P23 P28'), ('kuka_carry/run.py', 'insert', 'P28'),
    ('kuka_carry/run.py', 'create_', 'P27 P29'), ('kuka_carry/run.py', 'postprocess', 'P26 P29'),
    ('kuka_carry/run.py', '', 'P29 P27'),
    ('kuka_primitives.py', 'gen', 'P28'), ('kuka_primitives.py', 'get_', 'P28'), ('kuka_primitives.py', '', 'P26 P28'),
    ('turtlebot_move/run.py', 'post_process', 'P26 P29'), ('turtlebot_move/run.py', '', 'P29'),
    ('problems.py', 'Conf', 'P26 P27'), ('problems.py', 'sample_pl', 'P27'), ('problems.py', '', 'P27 P29'),
]
# dead: shadowed, never called, or plots
SKIP = ('linear_radius_search', 'get_motion_fn', 'plot', 'draw', 'animate', 'hallway_manip', 'random_obstacles',
        'StraightLine.is_prm', 'ApplyForce', 'get_movable_collision_test', 'print_pose')
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.Pow: ['*'],
       ast.Mod: ['+']}
SWAP = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'floor': 'ceil', 'ceil': 'floor', 'zeros': 'ones',
        'ones': 'zeros', 'argmin': 'argmax', 'argmax': 'argmin', 'sorted': 'list', 'minimum': 'maximum',
        'maximum': 'minimum', 'logical_or': 'logical_and', 'logical_and': 'logical_or', 'append': 'extend',
        'log': 'log2', 'log2': 'log', 'sin': 'cos', 'cos': 'sin', 'sum': 'max', 'mean': 'median', 'abs': 'float',
        'unique': 'asarray', 'union': 'intersection', 'rint': 'floor', 'round': 'floor'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    b = src.encode()
    out = []
    names = {}

    def walk_names(node, name):
        for ch in ast.iter_child_nodes(node):
            n = name
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                n = (name + '.' if name else '') + ch.name
            names[id(ch)] = n
            walk_names(ch, n)
    walk_names(tree, '')

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def add(node, s, e, new, kind):
        if b[s:e].decode() != new:
            out.append(dict(fn=names.get(id(node), ''), line=node.lineno, s=s, e=e, new=new, old=b[s:e].decode(),
                            kind=kind))
    fstr = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                fstr.add(id(m))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(id(n)), docs.add(id(n.value))
    for n in ast.walk(tree):
        if id(n) in fstr or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e = pos(n.left)[1], pos(n.comparators[0])[0]
            text = b[s:e].decode()
            for new in CMP.get(type(n.ops[0]), []):
                # keep brackets around the operands
                core = text.strip(' ()\n\\')
                add(n, s, e, text.replace(core, new, 1), 'cmp')
        elif isinstance(n, ast.BinOp):
            s, e = pos(n.left)[1], pos(n.right)[0]
            text = b[s:e].decode()
            core = text.strip(' ()\n\\')
            for new in BIN.get(type(n.op), []):
                add(n, s, e, text.replace(core, new, 1), 'bin')
        elif isinstance(n, ast.BoolOp):
            w = 'or' if isinstance(n.op, ast.And) else 'and'
            add(n, *pos(n), '(' + (' %s ' % w).join('(' + seg(v) + ')' for v in n.values) + ')', 'bool')
            for v in n.values:
                add(n, *pos(n), '(' + seg(v) + ')', 'boolpart')
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not) or isinstance(n.op, ast.USub):
                add(n, *pos(n), '(' + seg(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, *pos(n), str(not v), 'const')
            elif isinstance(v, int):
                add(n, *pos(n), '(%d)' % (v + 1), 'const')
                if v not in (0,):
                    add(n, *pos(n), '(%d)' % (v - 1), 'const')
            elif isinstance(v, float):
                add(n, *pos(n), repr(v * 1.5 if v else 0.5), 'const')
                add(n, *pos(n), repr(v * 0.6 if v else -0.5), 'const')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, *pos(n.test), '(True)' if isinstance(n, ast.If) else '(False)', 'cond')
            if isinstance(n, ast.If):
                add(n.test, *pos(n.test), '(False)', 'cond')
        elif isinstance(n, ast.IfExp):
            add(n, *pos(n), '(' + seg(n.body) + ')', 'ifexp')
            add(n, *pos(n), '(' + seg(n.orelse) + ')', 'ifexp')
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                add(i, *pos(i), 'True', 'compif')
        elif isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                sl = n.slice
                for part in (sl.lower, sl.upper, sl.step):
                    if part is not None:
                        add(n, *pos(part), '', 'slice')
        elif isinstance(n, ast.Starred):
            pass
        elif isinstance(n, ast.Call):
            f = n.func
            base = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if base in ('print',):
                continue
            if base in SWAP:
                s, e = pos(f)
                add(n, e - len(base), e, SWAP[base], 'swapfn')
            if base == 'copy' and isinstance(f, ast.Attribute) and not n.args:
                add(n, *pos(n), '(' + seg(f.value) + ')', 'nocopy')
            if base in ('copy', 'deepcopy') and len(n.args) == 1:
                add(n, *pos(n), '(' + seg(n.args[0]) + ')', 'nocopy')
            for i in range(len(n.args) - 1):
                s, e = pos(n.args[i])[0], pos(n.args[i + 1])[1]
                add(n, s, e, seg(n.args[i + 1]) + ', ' + seg(n.args[i]), 'swapargs')
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k)
                    # with the comma before or after it
                    rest = b[e:].decode()
                    if rest.lstrip().startswith(','):
                        e += len(rest) - len(rest.lstrip()) + 1
                    add(n, s, e, '', 'dropkw')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and seg(n).startswith(('print', 'tqdm')):
                continue
            add(n, *pos(n), 'pass', 'delete')
            if isinstance(n, ast.AugAssign):
                s, e = pos(n.target)[1], pos(n.value)[0]
                add(n, s, e, ' = ', 'aug')
        elif isinstance(n, ast.Return) and n.value is not None:
            if isinstance(n.value, ast.Constant) and n.value.value in (True, False):
                continue
            add(n, *pos(n.value), 'None', 'return')
        elif isinstance(n, ast.Break):
            add(n, *pos(n), 'continue', 'brk')
        elif isinstance(n, ast.Continue):
            add(n, *pos(n), 'break', 'brk')
            add(n, *pos(n), 'pass', 'brk')
    good, seen = [], set()
    for m in out:
        new = (b[:m['s']] + m['new'].encode() + b[m['e']:]).decode()
        if new in seen or any(k in m['fn'] for k in SKIP):
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        good.append((m, new))
    good.sort(key=lambda t: (t[0]['line'], t[0]['s']))
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('file')
    ap.add_argument('--checks')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--only', default='')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=int, default=40)
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    checks = (a.checks.replace(',', ' ') if a.checks else CHECKS[a.file]).split()
    ms = [m for m in mutants(open(os.path.join(REPO, a.file)).read()) if a.only in m[0]['fn']][::a.every]
    if a.count:
        print(a.file, len(ms))
        return
    done = set()
    if os.path.exists(a.out):
        for ln in open(a.out):
            r = json.loads(ln)
            done.add((r['file'], r['s'], r['e'], r['new']))
    lock = threading.Lock()
    dirs = queue.Queue()
    root = tempfile.mkdtemp(prefix='mutate_')
    for i in range(a.jobs):
        d = os.path.join(root, 'r%d' % i)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', 'figures', '*.gif', '*.pdf', '*.ipynb'))
        dirs.put(d)

    def one(t):
        m, new = t
        if (a.file, m['s'], m['e'], m['new']) in done:
            return
        d = dirs.get()
        try:
            p = os.path.join(d, a.file)
            orig = open(p).read()
            open(p, 'w').write(new)
            res, by = 'SURVIVED', {}
            mine = [p[2] for p in PARTS if a.file.endswith(p[0]) and p[1] in m['fn']]
            for c in (checks if a.checks or not mine else mine[0].split()):
                env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d, VERIF_NO_SHRINK='1')
                try:
                    r = subprocess.run(['./check', c, '--shards', '1', '--budget', str(a.budget)], cwd=HERE, env=env,
                                       capture_output=True, text=True, timeout=900)
                    rc, line = r.returncode, (r.stdout.strip().split('\n') or [''])[0][:200]
                except subprocess.TimeoutExpired:
                    rc, line = 9, 'timeout'
                by[c] = [rc, line]
                if rc == 1:
                    res = 'killed'
                    break
                if rc != 0:
                    res = 'limit'
            open(p, 'w').write(orig)
        finally:
            dirs.put(d)
        with lock:
            with open(a.out, 'a') as f:
                f.write(json.dumps(dict(m, file=a.file, status=res, by=by)) + '\n')
    try:
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(one, ms))
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
