# PY: venv
# STUBS: core scipylite tamp
"""P29: a planning run uses the world, limits and options its command line names, and logs what it did."""
import ast
import importlib.util
import io
import logging
import math
import os
import random
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, tamp
from vlib.core import Sub, VERIF, Violation, require

ID = 'P29'


def sibling(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(VERIF, 'checks', name + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


p24 = sibling('p24_turtlebot_motion')


class Stubbed:
    """The roadmap's growth and queries replaced: growth is recorded, and query number `answer` finds `path`."""

    def __init__(self, answer=None, real=False):
        self.answer, self.real = answer, real

    def __enter__(self):
        from nonasymptotic import prm
        self.cls = prm.SimpleNearestNeighborRadiusPRM
        self.names = ['grow_to_n_samples', 'query_best_solution']
        self.old = [self.cls.__dict__.get(n) for n in self.names]
        if not self.real:
            self.names += ['num_vertices', 'num_edges']
            self.old += [self.cls.__dict__.get(n) for n in self.names[2:]]
            self.cls.num_vertices = self.cls.num_edges = lambda me: 0
        g, q = self.cls.grow_to_n_samples, self.cls.query_best_solution
        self.begin()

        def grow(me, n):
            self.grown.append(n)
            if self.real or (n <= 40 and self.answer is None and len(self.grown) == 1):
                r = g(me, n)
                self.samples = np.array(me.prm_samples)
                return r

        def query(me, start, goal, *a, **k):
            self.asked += 1
            if self.real:
                r = q(me, start, goal, *a, **k)
                self.found = len(r[1]) > 0
                return r
            if self.asked - 1 == self.answer:
                self.found = True
                mid = (np.asarray(start, dtype=float).reshape(1, -1) + np.asarray(goal, dtype=float).reshape(1, -1)) / 2
                return 1.0, mid
            return math.inf, np.array([])
        self.cls.grow_to_n_samples, self.cls.query_best_solution = grow, query
        return self

    def begin(self):
        self.grown, self.asked, self.found, self.samples = [], 0, False, None

    def __exit__(self, *a):
        for name, old in zip(self.names, self.old):
            if old is None:
                delattr(self.cls, name)
            else:
                setattr(self.cls, name, old)
        return False


def schedule(rec, lo, hi, factor, found, what):
    ns = rec.grown
    require(ns, '%s: the roadmap was never grown', what)
    require(abs(ns[0] - int(lo)) <= 1e-9 * lo, '%s: the first sample count is %s, not %s', what, ns[0], lo)
    require(ns[-1] <= hi, '%s: grew to %d samples, more than the %d allowed', what, ns[-1], hi)
    for a, b in zip(ns, ns[1:]):
        slack = 2 + factor + 1e-9 * a
        require(abs(b - max(a * factor, a + 1)) <= slack, '%s: sample counts go from %d to %d with factor %s', what, a, b,
                factor)
    if not found:
        require(max((ns[-1] + 1) * factor, ns[-1] + 1) > hi * (1 - 1e-12), '%s: gave up after %d samples although %d are '
                'allowed (factor %s)', what, ns[-1], hi, factor)


def run_main(which, argv, solver, prepare=None):
    """main() in this process: (exception or None, console text, files below the save directory)."""
    run = tamp.load(which, 'run')
    import tampworld as tw
    tw.W.reset()
    if prepare:
        prepare(tw.W)
    root = logging.getLogger()
    keep = (sys.argv, list(sys.path), sys.stdout, sys.stderr, list(root.handlers), root.level)
    old_solve = run.solve
    from pddlstream.algorithms import meta
    meta_solve = meta.solve
    console = io.StringIO()
    err = None
    for h in keep[4]:
        root.removeHandler(h)
    try:
        sys.argv = ['run.py'] + argv
        sys.stdout, sys.stderr = console, io.StringIO()
        run.solve = meta.solve = solver
        try:
            run.main()
        except SystemExit as e:
            err = Violation('the run ended with exit status %r on the command line %s: %s' % (
                e.code, ' '.join(argv), sys.stderr.getvalue().strip().splitlines()[-1:]
                if isinstance(sys.stderr, io.StringIO) else ''))
    finally:
        sys.argv, sys.stdout, sys.stderr = keep[0], keep[2], keep[3]
        sys.path[:] = keep[1]
        for h in list(root.handlers):
            root.removeHandler(h)
            h.close()
        for h in keep[4]:
            root.addHandler(h)
        root.setLevel(keep[5])
        run.solve, meta.solve = old_solve, meta_solve
    if err is not None:
        raise err
    return console.getvalue()


def read_log(save, argd, said, console, what):
    """The one log file of the run; it must hold the arguments and everything said, in order."""
    require(os.path.isdir(save), '%s: nothing was saved in %s', what, save)
    runs = os.listdir(save)
    require(len(runs) == 1, '%s: the save directory holds %s', what, runs)
    d = os.path.join(save, runs[0])
    logs = [f for f in os.listdir(d) if f.endswith('.log')]
    require(len(logs) == 1, '%s: %d log files', what, len(logs))
    with open(os.path.join(d, logs[0])) as f:
        text = f.read()
    lines = [x.rstrip() for x in text.splitlines()]
    require('Experiment arguments:' in lines, '%s: the log does not state the arguments', what)
    i = lines.index('Experiment arguments:')
    try:
        stated = ast.literal_eval(lines[i + 1])
    except (ValueError, SyntaxError, IndexError):
        raise Violation('%s: the line after "Experiment arguments:" is %r' % (what, lines[i + 1:i + 2]))
    for k, v in argd.items():
        require(k in stated and stated[k] == v and isinstance(stated[k], bool) == isinstance(v, bool),
                '%s: the log states %s=%r, the command line %r', what, k, stated.get(k), v)
    shown = [x.rstrip() for x in console.splitlines()]
    for name, have in (('log', lines), ('console', shown)):
        at = 0
        for s in said:
            while at < len(have) and have[at] != s.rstrip():
                at += 1
            require(at < len(have), '%s: %r was printed during the run, but is not in the %s (or out of order)', what, s,
                    name)
            at += 1
    return d, lines


def time_line(lines, what):
    got = [x for x in lines if x.startswith('Time: ')]
    require(len(got) == 1, '%s: %d lines of the log state the time', what, len(got))
    try:
        v = float(got[0][6:])
    except ValueError:
        raise Violation('%s: the log says %r' % (what, got[0]))
    require(0 <= v < 600, '%s: the stated time is %s', what, v)


@st.composite
def command_lines(draw, which):
    """Options as (name, value); names that are left out keep their default."""
    o = {}

    def maybe(name, strat, p=0.6):
        if draw(st.integers(0, 99)) < 100 * p:
            o[name] = draw(strat)
    lo = draw(st.one_of(st.integers(3, 60), st.integers(3, 3000)))
    maybe('min-samples', st.just(lo), 0.7)
    base = lo if 'min-samples' in o else (10 if which == 'turtlebot' else 500)
    if 'min-samples' in o or draw(st.booleans()):
        o['max-samples'] = base + draw(st.one_of(st.just(0), st.integers(0, 50), st.integers(0, 20 * base)))
    maybe('factor', st.sampled_from([1.1, 1.25, 1.5, 1.01, 2.0, 3.0, 1.0, 2]), 0.5)
    if o.get('factor') in (1.0, 1.01) and 'max-samples' in o:
        o['max-samples'] = min(o['max-samples'], base + 200)
    elif o.get('factor') in (1.0, 1.01):
        o['max-samples'] = base + 100
    maybe('delta', st.integers(1, 20).map(lambda i: i / 100) if which == 'turtlebot' else
          st.integers(3, 20).map(lambda i: i / 100), 0.5)
    maybe('seed', st.integers(-1, 2 ** 31 - 1), 0.6)
    flags = {'adaptive-n': 0.25, 'teleport': 0.3, 'vis': 0.3}
    if which == 'turtlebot':
        maybe('num-targets', st.one_of(st.integers(1, 4), st.integers(5, 9)), 0.5)
        maybe('algorithm', st.sampled_from(['adaptive', 'binding', 'focused', 'incremental']), 0.3)
        flags.update({'randomize-delta': 0.2, 'unit': 0.3, 'optimal': 0.3, 'simulate': 0.3, 'cfree': 0.2})
    else:
        maybe('theta-margin', st.integers(2, 60).map(lambda i: i / 100), 0.4)
        maybe('collision-buffer', st.integers(0, 4).map(lambda i: i / 100), 0.4)
        maybe('num-targets', st.integers(1, 8), 0.2)
    for f, p in flags.items():
        if draw(st.integers(0, 99)) < 100 * p:
            o[f] = True
    return {'opts': [[k, o[k]] for k in draw(st.permutations(sorted(o)))], 'equals': draw(st.booleans()),
            'answer': draw(st.sampled_from([None, None, 0, 1, 3])), 'state': draw(gen.seeds()),
            'pick': draw(st.integers(0, 100)), 'said': draw(st.lists(st.text('abc XYZ019_:%{}[]()\\"\'#', min_size=1,
                                                                            max_size=12), max_size=4)),
            'much': draw(st.sampled_from([0, 0, 3, 150, 2000])), 'wide': draw(st.sampled_from([1, 1, 300, 9000])),
            'fails': draw(st.sampled_from([0, 0, 0, 1, 2, 3]))}


def argv_of(case, save):
    out = []
    for k, v in case['opts'] + [['save-dir', save]]:
        if v is True:
            out.append('--' + k)
        elif case['equals'] or (isinstance(v, (int, float)) and v < 0):
            out.append('--%s=%s' % (k, v))
        else:
            out += ['--' + k, str(v)]
    return out


def args_of(case, save, defaults):
    d = dict(defaults)
    d.update((k.replace('-', '_'), v) for k, v in case['opts'])
    d['save_dir'] = save
    return d


def snapshot(W):
    """The world, as positions and shapes of everything in it."""
    return [(b.kind, b.pose, tuple(b.joints.items()), sorted((k, tuple(map(tuple, v))) for k, v in b.shapes.items()))
            for _, b in sorted(W.bodies.items())]


def say(case):
    out = []
    for i, s in enumerate(case['said']):
        s = '%ssaid %d %s' % ('  ' * (i % 3), i, s)
        (sys.stdout if i % 2 == 0 else sys.stderr).write(s + '\n')
        out.append(s)
    print('two\nlines')
    many = ['line %d of many' % i for i in range(case['much'])] + ['wide ' + 'x1 ' * case['wide'] + 'end']
    print('\n'.join(many))
    return out + ['two', 'lines'] + many


# ---- the turtlebot

T_DEFAULTS = dict(min_samples=10, max_samples=2000, factor=1.1, delta=0.05, seed=-1, vis=False, teleport=False,
                  adaptive_n=False, num_targets=1, algorithm='adaptive', randomize_delta=False, unit=False, optimal=False,
                  simulate=False, cfree=False)


def run_turtlebot(case, ctx):
    tamp.load('turtlebot', 'run')
    import pybullet_tools.utils as pbu
    import tampworld as tw
    from nonasymptotic.bound import compute_numerical_bound
    W = tw.W
    scratch = tempfile.mkdtemp(prefix='p29-')
    a = args_of(case, None, T_DEFAULTS)
    worlds, plans, seen = [], [], {}
    rec = Stubbed(case['answer'])

    def solver(problem, **kw):
        worlds.append(snapshot(W))
        seen['kw'], seen['said'] = kw, say(case)
        init, goal = list(problem[4]), problem[5]
        goals = [goal] if goal[0] != 'and' else list(goal[1:])
        facts = lambda name, n: [f for f in init if f[0].lower() == name and len(f) == n + 1]  # noqa: E731
        rovers, targets = [f[1] for f in facts('rover', 1)], [f[1] for f in facts('target', 1)]
        require(len(rovers) == 1 and W.bodies[rovers[0]].kind == 'turtlebot', 'the planner is given the robots %s', rovers)
        require(len(targets) == len(set(targets)) == a['num_targets'], 'the planner is given %d targets, the command line '
                'asks for %d', len(targets), a['num_targets'])
        require(sorted(targets) == sorted(b for b in W.bodies if W.bodies[b].kind == 'cylinder'),
                'the targets given to the planner are not those that stand in the world')
        require(sorted(g[1] for g in goals) == sorted(targets) and all(g[0].lower() == 'atpose' for g in goals),
                'the goal is %s for the targets %s', goals, targets)
        rover = rovers[0]
        # the hallway
        radius = {t: tw.body_shapes(t)[0][0][1] for t in targets}
        spans = []
        for b in W.bodies:
            for c, h, r in tw.boxes_of(b):
                if W.bodies[b].kind == 'box' and c[2] + h[2] > 0.02 and abs(c[0]) < h[0]:
                    spans.append((c[1] - h[1], c[1] + h[1]))
        spans.sort()
        require(len(spans) == 2, 'no hallway at x=0: walls %s', spans)
        gap = spans[1][0] - spans[0][1]
        delta = gap - 2 * max(radius.values())
        seen['delta'] = delta
        if a['randomize_delta']:
            require(0.01 - 1e-9 <= delta <= 0.2 + 1e-9, 'a random delta of %s', delta)
        else:
            require(abs(delta - a['delta']) < 1e-9, 'the hallway is %s wider than the widest target, delta is %s', delta,
                    a['delta'])
        # the motion generators
        smap = problem[3]
        (_, _, q0), = facts('conf', 2)
        pose = {f[1]: f[2] for f in facts('atpose', 2)}
        final = {g[1]: g[2] for g in goals}
        t = sorted(targets)[case['pick'] % len(targets)]
        plan = []
        at = q0
        for name, extra, where in (('sample-motion', (), pose[t]), ('sample-motion-holding', (t,), final[t])):
            (q,), = next(iter(smap['sample-ik'](rover, t, where)))
            rec.begin()
            blocked = None
            got = next(iter(smap[name](rover, at, q, *extra)))
            width = 2 * radius[t] if extra else 2 * 0.179 * 0.3
            lo, hi = a['min_samples'], a['max_samples']
            if a['adaptive_n']:
                n, _ = compute_numerical_bound(gap - width + 0.05, 0.99, 16, 2, None)
                lo, hi = n - 1, n
            schedule(rec, lo, hi, a['factor'], rec.found, name)
            if rec.samples is not None:
                seen.setdefault('samples', []).append(rec.samples.tolist())
            require((len(got) > 0) == rec.found, '%s: the roadmap %s, the generator returned %s', name,
                    'had a path' if rec.found else 'had no path', got)
            if got:
                tr = got[0][0]
                pts = np.array([c.values for c in tr.path], dtype=float)
                u, v = np.asarray(at.values[:2], dtype=float), np.asarray(q.values[:2], dtype=float)
                if a['teleport']:
                    require(len(pts) == 3 and np.allclose(pts, [u, (u + v) / 2, v]), '%s: teleporting, the path is %s', name,
                            pts.tolist())
                else:
                    p24.check_dense([u.tolist(), ((u + v) / 2).tolist(), v.tolist()], 0.025, pts, name)
                plan.append(('pick' if not extra else 'place', (rover, at, tr, q, where, t)))
            at = q
        # into the hallway's wall: only when collisions are disabled
        wall = type(q0)(rover, q0.joints, (0.0, spans[1][0] + 0.02))
        rec.begin()
        try:
            got = next(iter(smap['sample-motion'](rover, q0, wall)))
            require(a['cfree'] or not got, 'a motion ends in a wall of the hallway')
        except AssertionError:
            require(not a['cfree'], 'a motion that ends in a wall is refused although collisions are disabled')
        else:
            require(not a['cfree'] or bool(got) == rec.found, 'collisions are disabled: the roadmap %s, the generator '
                    'returned %s', 'had a path' if rec.found else 'had no path', got)
        # where trials leave things must not matter
        for b in [rover] + targets:
            pbu.set_point(b, pbu.Point(0.3, 0.4, 2.0))
        plans.append(plan if len(plan) == 2 and a['vis'] else None)
        return plans[-1], 3.0 if plans[-1] else math.inf, []

    try:
        twice = case['state'] % 3 == 0 or a['seed'] >= 0
        for k in range(2 if twice else 1):
            save = os.path.join(scratch, 'deep', 'save%d' % k)
            random.seed(case['state'] + k)
            np.random.seed((case['state'] + k) % 2 ** 32)
            with rec:
                console = run_main('turtlebot', argv_of(case, save), solver)
            what = ' '.join(argv_of(case, 'S'))
            argd = args_of(case, save, T_DEFAULTS)
            d, lines = read_log(save, argd, seen['said'], console, what)
            time_line(lines, what)
            kw = seen['kw']
            require(kw.get('algorithm') == a['algorithm'], '%s: planned with the algorithm %s', what, kw.get('algorithm'))
            require(bool(kw.get('unit_costs')) == a['unit'], '%s: planned with unit costs %s', what, kw.get('unit_costs'))
            require(kw.get('success_cost') == (0 if a['optimal'] else math.inf), '%s: any plan up to cost %s will do', what,
                    kw.get('success_cost'))
            tdir = kw.get('temp_dir')
            require(tdir is not None and os.path.realpath(tdir).startswith(os.path.realpath(d) + os.sep)
                    and os.path.isdir(tdir), '%s: the planner works in %s, not in the run\'s directory', what, tdir)
            # carrying out the plan
            done = [e for e in W.log if e[0] in ('apply', 'control')]
            plan = plans[-1]
            if plan is None or not a['vis']:
                require(not done, '%s: carried out commands without %s', what, 'a plan' if plan is None else 'a display')
            else:
                require(len(done) == 1 and done[0][0] == ('control' if a['simulate'] else 'apply'),
                        '%s: the plan was carried out by %s', what, [e[0] for e in done])
                cmds = done[0][1]
                want = [plan[0][1][2], None, plan[1][1][2], None]
                require(len(cmds) == 4 and cmds[0] is want[0] and cmds[2] is want[2], '%s: carried out %s', what, cmds)
                require(cmds[1].body == plan[0][1][5] == cmds[3].body and type(cmds[1]).__name__ == 'Attach'
                        and type(cmds[3]).__name__ == 'Detach', '%s: carried out %s', what, cmds)
                if not a['simulate']:
                    require((done[0][2] is None) == a['teleport'], '%s: a time step of %s', what, done[0][2])
                require(snapshot(W) == worlds[-1], '%s: the world was not put back before carrying out the plan', what)
                ctx.label('plan carried out')
        if twice and a['seed'] >= 0:
            require(worlds[0] == worlds[1], 'two runs with the seed %d met different worlds', a['seed'])
            if 'samples' in seen and len(seen['samples']) % 2 == 0:
                h = len(seen['samples']) // 2
                require(seen['samples'][:h] == seen['samples'][h:], 'two runs with the seed %d drew different samples',
                        a['seed'])
            ctx.label('repeated')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for k in ('adaptive_n', 'randomize_delta', 'teleport', 'vis', 'cfree'):
        if a[k]:
            ctx.label(k)
    ctx.nt(len(case['opts']) > 2)


# ---- the arm

K_DEFAULTS = dict(min_samples=500, max_samples=30000, factor=1.1, delta=0.04, theta_margin=math.pi / 12,
                  collision_buffer=0.02, num_targets=5, seed=-1, vis=False, teleport=False, adaptive_n=False)


def run_kuka(case, ctx):
    run, kp = tamp.load('kuka', 'run'), tamp.load('kuka', 'kuka_primitives')
    import pybullet_tools.utils as pbu
    import tampworld as tw
    from nonasymptotic.bound import compute_numerical_bound
    W = tw.W
    scratch = tempfile.mkdtemp(prefix='p29-')
    a = args_of(case, None, K_DEFAULTS)
    worlds, seen = [], {}
    rec = Stubbed(case['answer'])
    met = set()

    def prepare(world):
        """In the first few worlds, nothing above the bins can be reached."""
        met.clear()

        def no_ik(pose):
            met.add(max(b for b in world.bodies if world.bodies[b].kind == 'iiwa'))
            return pose[0][0] < -0.3 and len(met) <= case['fails']
        world.no_ik = no_ik

    def solver(problem, **kw):
        W.no_ik = None
        seen['kw'], seen['said'] = kw, say(case)
        require(len(met) == 1 + case['fails'], 'planning began with world %d, the first %d have no way into the bins', len(met),
                case['fails'])
        init = list(problem[4])
        facts = lambda name: [f for f in init if f[0].lower() == name]  # noqa: E731
        arms = [b for b in W.bodies if W.bodies[b].kind == 'iiwa']
        bins = [b for b in W.bodies if W.bodies[b].kind == 'links']
        require(len(arms) == 1, '%d arms stand in the world', len(arms))
        side = 0.06 + a['delta']
        for b in bins:
            lo, hi = tw.body_aabb(b)
            require(np.allclose(np.subtract(hi, lo)[:2], side, atol=1e-9), 'a bin measures %s, the command line asks for a '
                    'gap of %s around the objects', np.subtract(hi, lo)[:2], a['delta'])
        movable = [f[1] for f in facts('graspable')]
        require(len(movable) == len(set(movable)) and len(movable) > 0, 'objects %s', movable)
        if len(movable) != a['num_targets']:
            ctx.known('P29', 'kuka-num-targets', 'the planner is given %d objects, the command line asks for %d' % (
                len(movable), a['num_targets']))
        for f in init:
            for x in f[1:]:
                if isinstance(x, int) and not isinstance(x, bool):
                    require(x in W.bodies, 'the planner is told about body %s, which is not in the world: %s', x, f)
                elif isinstance(x, kp.BodyPose) or isinstance(x, kp.BodyConf):
                    require(x.body in W.bodies, 'the planner is told about a pose of body %s, which is not in the world',
                            x.body)
        sinks = [f[1] for f in facts('sink')]
        require(sorted(sinks) == sorted(bins), 'the planner is told about the sinks %s, the bins are %s', sinks, bins)
        at = {f[1]: f[2] for f in facts('atpose')}
        require(sorted(at) == sorted(movable), 'the planner is told the places of %s, the objects are %s', sorted(at), movable)
        worlds.append([at[m].pose for m in sorted(movable)] + [W.bodies[b].pose for b in sorted(bins)])
        # one insertion
        body = movable[case['pick'] % len(movable)]
        pre = [f for f in facts('kin') if f[1] == body and ('PreInsert', f[4]) in init]
        post = [f for f in facts('kin') if f[1] == body and ('PostInsert', f[4]) in init]
        require(len(pre) == 1 and len(post) == 1, 'object %s has %d first and %d last configurations of an insertion', body,
                len(pre), len(post))
        grasp = pre[0][3]
        sink, = [b for b in bins if ('Supported', body, post[0][2], b) in init]
        width = float(np.subtract(*tw.body_aabb(body)[::-1])[0])
        pbu.set_pose(body, at[body].pose)
        rec.begin()
        out = None
        walls = [tw.boxes_of(sink)]
        try:
            got = next(iter(problem[3]['plan-insert-motion'](pre[0][4], post[0][4], body, grasp)))
            out = got[0][0]
        finally:
            lo, hi = a['min_samples'], a['max_samples']
            if a['adaptive_n']:
                # the sampling region: the corners of the walls and where the insertion starts
                first = tw.compose(kpose(tw, pre[0][4]), grasp.grasp_pose)
                pts = [c for cs in walls for w in cs for c in corners(w)] + [np.asarray(first[0])]
                vol = np.prod(np.max(pts, axis=0) - np.min(pts, axis=0)) * (2 * a['theta_margin']) ** 3
                delta = (side - 0.01) - (width + a['collision_buffer']) / 2
                vols = [vol]
                # with or without the approach offset of the first configuration
                pts[-1] = pts[-1] - np.array([0, 0, 0.01])
                vols.append(np.prod(np.max(pts, axis=0) - np.min(pts, axis=0)) * (2 * a['theta_margin']) ** 3)
                ns = [compute_numerical_bound(delta, 0.99, v, 6, None)[0] for v in vols]
                require(rec.grown and any(abs(rec.grown[0] - (n - 1)) <= 1e-6 * n for n in ns), 'adaptive: the first sample '
                        'count is %s, the certified counts would be %s', rec.grown[:1], ns)
            else:
                schedule(rec, lo, hi, a['factor'], rec.found, 'insertion')
            if rec.samples is not None and len(rec.samples) >= 15:
                m = float(np.max(np.abs(rec.samples[:, 3:])))
                require(0.5 * a['theta_margin'] < m <= a['theta_margin'] + 1e-9, 'the sampled rotations go up to %s, the margin is '
                        '%s', m, a['theta_margin'])
                ctx.label('samples judged')
        # a plan: go to the object's first configuration, insert it
        home = facts('atconf')[0][1]
        kin, = [f for f in facts('kin') if f[1] == body and f[2] is at[body]]
        seen['goal'] = None
        if a['vis']:
            q = kin[4]
            c1 = next(iter(problem[3]['plan-free-motion'](home, q)))[0][0]
            c2 = next(iter(problem[3]['plan-holding-motion'](q, pre[0][4], body, grasp)))[0][0]
            plan = [('move_free', (home, q, c1)), ('pick', (body, at[body], grasp, q)),
                    ('move_holding', (q, pre[0][4], body, grasp, c2)), ('move_insert', (pre[0][4], post[0][4], body, grasp, out))]
            seen['goal'] = (arms[0], body, tuple(out.body_paths[-1].path[-1]), grasp.grasp_pose,
                            {m: at[m].pose for m in movable if m != body})
            # where trials left the objects must not matter to the execution
            for m in movable:
                pbu.set_pose(m, pbu.Pose(pbu.Point(0.1, 0.2, 3.0)))
            return plan, 4.0, []
        return None, math.inf, []

    try:
        twice = a['seed'] >= 0 and case['state'] % 4 == 0
        for k in range(2 if twice else 1):
            save = os.path.join(scratch, 'deep', 'save%d' % k)
            random.seed(case['state'] + k)
            np.random.seed((case['state'] + k) % 2 ** 32)
            with rec:
                console = run_main('kuka', argv_of(case, save), solver, prepare)
            what = ' '.join(argv_of(case, 'S'))
            d, lines = read_log(save, args_of(case, save, K_DEFAULTS), seen['said'], console, what)
            if rec.found and a['vis']:
                require('Solved: False' not in lines, '%s: the log says the run failed', what)
            elif not rec.found:
                require('Solved: False' in lines, '%s: an insertion failed, but the log does not say that the run did', what)
            time_line(lines, what)
            kw = seen['kw']
            tdir = kw.get('temp_dir')
            require(tdir is not None and os.path.realpath(tdir).startswith(os.path.realpath(d) + os.sep)
                    and os.path.isdir(tdir), '%s: the planner works in %s, not in the run\'s directory', what, tdir)
            if rec.found and seen['goal']:
                arm, body, q, g, rest = seen['goal']
                got = pbu.get_configuration(arm)
                require(np.allclose(got, q, atol=1e-9), '%s: after carrying out the plan the arm is at %s, not at %s', what, got,
                        q)
                want = tw.compose((tuple(q[:3]), tw.from_euler(q[3:6])), g)
                require(np.allclose(W.bodies[body].pose[0], want[0], atol=1e-9), '%s: after carrying out the plan the object is '
                        'at %s, not at %s', what, W.bodies[body].pose[0], want[0])
                for m, pose in rest.items():
                    require(np.allclose(W.bodies[m].pose[0], pose[0], atol=1e-9), '%s: after carrying out the plan object %s is '
                            'at %s, not where it was placed, %s', what, m, W.bodies[m].pose[0], pose[0])
                ctx.label('plan carried out')
        if twice:
            ctx.label('repeated')
        if twice and worlds[0] != worlds[1]:
            ctx.known('P29', 'kuka-seed', 'two runs with the seed %d met different worlds' % a['seed'])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if case['fails']:
        ctx.label('worlds thrown away')
    for k in ('adaptive_n', 'vis'):
        if a[k]:
            ctx.label(k)
    ctx.nt(len(case['opts']) > 2)


def kpose(tw, conf):
    q = conf.values if hasattr(conf, 'values') else conf.configuration
    return tuple(q[:3]), tw.from_euler(q[3:6])


def corners(box):
    c, h, r = box
    return [c + r @ (np.array([x, y, z]) * h) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]


SUBS = [
    Sub('turtlebot runs', command_lines('turtlebot'), run_turtlebot, quick=300),
    Sub('arm runs', command_lines('kuka'), run_kuka, quick=150),
]
