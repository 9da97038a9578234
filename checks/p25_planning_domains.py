# PY: venv
# STUBS: core scipylite tamp
"""P25: the planning domains keep their world consistent, and their goals can be reached."""
import importlib.util
import os
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen, tamp
from vlib.core import VERIF, HarnessLimit, Sub, Violation, require
from vlib.pddl import Domain, Facts, Streams

ID = 'P25'


def sibling(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(VERIF, 'checks', name + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


p28 = sibling('p28_arm_streams')


def read(which):
    d = tamp.DIRS[which]
    with open(os.path.join(d, 'domain.pddl')) as f:
        dom = Domain(f.read())
    with open(os.path.join(d, 'stream.pddl')) as f:
        return dom, Streams(f.read())


# ---- reference models: what each action needs and does.  A state is a dict of fluents.

def turtle_state(facts):
    get = lambda p: sorted(f[1:] for f in facts if f[0] == p)  # noqa: E731
    return {'conf': get('atconf'), 'at': get('atpose'), 'held': get('holding'), 'free': bool(get('hfree'))}


def turtle_consistent(s, objects, robots):
    require(sorted(v for v, _ in s['conf']) == sorted(robots), 'the robots are at %s', s['conf'])
    for o in objects:
        n = sum(1 for x, _ in s['at'] if x == o) + sum(1 for (x,) in s['held'] if x == o)
        require(n == 1, 'object %s is in %d places: %s, held %s', o, n, s['at'], s['held'])
    require(len(s['held']) <= 1, 'the hand holds %s', s['held'])
    require(s['free'] == (not s['held']), 'the hand is %s while holding %s', 'free' if s['free'] else 'not free', s['held'])


def turtle_legal(facts):
    """(action, successor) for everything that is physically possible."""
    st_ = turtle_state(facts.all)
    out = {}
    for v, q in st_['conf']:
        if st_['free']:
            for f in facts.by.get(('motion', 5), ()):
                _, v2, q1, t, q2 = f
                if v2 == v and q1 == q and ('rover', v) in facts.all:
                    for o, p in st_['at']:
                        if ('kin', o, p, q2) in facts.all and ('target', o) in facts.all:
                            out['pick', v, q1, t, q2, p, o] = {
                                'conf': sorted([x for x in st_['conf'] if x != (v, q)] + [(v, q2)]),
                                'at': [x for x in st_['at'] if x != (o, p)], 'held': [(o,)], 'free': False}
        for f in facts.by.get(('motionholding', 6), ()):
            _, v2, q1, t, q2, o = f
            if v2 == v and q1 == q and (o,) in st_['held'] and ('rover', v) in facts.all and ('target', o) in facts.all:
                for k in facts.by.get(('kin', 4), ()):
                    if k[1] == o and k[3] == q2 and ('pose', o, k[2]) in facts.all:
                        out['place', v, q1, t, q2, k[2], o] = {
                            'conf': sorted([x for x in st_['conf'] if x != (v, q)] + [(v, q2)]),
                            'at': sorted(st_['at'] + [(o, k[2])]), 'held': [], 'free': True}
    return out


def kuka_state(facts):
    get = lambda p: sorted(f[1:] for f in facts if f[0] == p)  # noqa: E731
    return {'conf': get('atconf'), 'at': get('atpose'), 'held': get('atgrasp'), 'free': bool(get('handempty')),
            'can': bool(get('canmove')), 'cleaned': get('cleaned'), 'cooked': get('cooked')}


def kuka_consistent(s, objects, robots):
    require(len(s['conf']) == 1, 'the arm is at %s', s['conf'])
    for o in objects:
        n = sum(1 for x, _ in s['at'] if x == o) + sum(1 for x, _ in s['held'] if x == o)
        require(n == 1, 'object %s is in %d places: %s, held %s', o, n, s['at'], s['held'])
    require(len(s['held']) <= 1, 'the hand holds %s', s['held'])
    require(s['free'] == (not s['held']), 'the hand is %s while holding %s', 'empty' if s['free'] else 'not empty',
            s['held'])


def kuka_legal(facts):
    s = kuka_state(facts.all)
    out = {}
    (q,), = s['conf']

    def upd(**kw):
        return dict(s, **kw)
    if s['can']:
        if s['free']:
            for _, q1, t, q2 in facts.by.get(('freemotion', 4), ()):
                if q1 == q:
                    out['move_free', q1, q2, t] = upd(conf=[(q2,)], can=False)
        for pred, name in (('holdingmotion', 'move_holding'), ('insertmotion', 'move_insert')):
            for _, q1, t, q2, o, g in facts.by.get((pred, 6), ()):
                if q1 == q and (o, g) in s['held']:
                    out[name, q1, q2, o, g, t] = upd(conf=[(q2,)], can=False)
    for _, o, p, g, q1 in facts.by.get(('kin', 5), ()):
        if q1 != q:
            continue
        if s['free'] and (o, p) in s['at']:
            out['pick', o, p, g, q] = upd(at=[x for x in s['at'] if x != (o, p)], held=[(o, g)], free=False, can=True)
        if (o, g) in s['held']:
            out['place', o, p, g, q] = upd(at=sorted(s['at'] + [(o, p)]), held=[], free=True, can=True)
    for _, o, r in facts.by.get(('stackable', 3), ()):
        on = any(('supported', o, p, r) in facts.all for x, p in s['at'] if x == o)
        if on and ('sink', r) in facts.all:
            out['clean', o, r] = upd(cleaned=sorted(set(s['cleaned']) | {(o,)}))
        if on and ('stove', r) in facts.all and (o,) in s['cleaned']:
            out['cook', o, r] = upd(cooked=sorted(set(s['cooked']) | {(o,)}))
    return out


def walk(dom, init, choose, steps, state, consistent, legal, objects, robots, ctx, strict=()):
    """Follow a history of applicable actions, comparing with the reference model at each state."""
    objs = sorted({a for f in init for a in f[1:]})
    raw = set(init)
    known = {n: len(p) for n, (p, _, _) in dom.actions.items()}
    changed = 0
    for i in range(steps + 1):
        facts = dom.close(raw, objs)
        s = state(facts.all)
        consistent(s, objects, robots)
        derived(facts)
        can, may = dom.applicable(facts, objs), legal(facts)
        names = {a[0] for a in may} | {a[0] for a in can}
        for a in sorted(can - set(may)):
            if a[0] in strict:
                raise Violation('%s applies after %d steps, although what it needs is missing in %s' % (a, i, s))
        for a in sorted(set(may) - can):
            raise Violation('%s does not apply after %d steps, although everything it needs is there: %s' % (a, i, s))
        for n in names & set(known):
            ctx.label(n)
        if not can or i == steps:
            break
        order = sorted(can)
        a = order[choose[i] % len(order)]
        if choose[i] % 4:
            # first which action, then on what; what would change nothing only when there is nothing else
            fresh = [x for x in order if x not in may or may[x] != s] or order
            kinds = sorted({x[0] for x in fresh})
            kind = kinds[choose[i] % len(kinds)]
            fresh = [x for x in fresh if x[0] == kind]
            a = fresh[choose[i] // 3 % len(fresh)]
        nxt = dom.apply(facts, a, objs)
        got = state(dom.close(nxt, objs).all)
        if a in may:
            want = may[a]
            for k in want:
                if k == 'cleaned' and a[0] == 'cook':     # whether cooked food counts as clean is left open
                    got_, want_ = [x for x in got[k] if x != (a[1],)], [x for x in want[k] if x != (a[1],)]
                else:
                    got_, want_ = got[k], want[k]
                require(got_ == want_, 'after %s: %s is %s instead of %s', a, k, got_, want_)
        changed += got != s
        statics = set(f for f in raw if f[0] not in FLUENTS)
        require(statics <= nxt and set(f for f in nxt if f[0] not in FLUENTS) == statics,
                '%s changed facts that never change: %s', a, sorted(statics ^ set(f for f in nxt if f[0] not in FLUENTS)))
        raw = nxt
    ctx.nt(changed > 2)
    return raw


FLUENTS = {'atconf', 'atpose', 'holding', 'hfree', 'atgrasp', 'handempty', 'canmove', 'cleaned', 'cooked', 'on'}


def derived(facts):
    if ('on' in {h for h, _ in facts.by}) or any(f[0] == 'supported' for f in facts.all):
        want = {(o, r) for _, o, p, r in facts.by.get(('supported', 4), ()) if ('atpose', o, p) in facts.all}
        got = {f[1:] for f in facts.by.get(('on', 3), ())}
        require(got == want, 'derived: on is %s instead of %s', sorted(got), sorted(want))
    if any(f[0] == 'atgrasp' for f in facts.all):
        want = {(f[1],) for f in facts.by.get(('atgrasp', 3), ()) if ('grasp', f[1], f[2]) in facts.all}
        got = {f[1:] for f in facts.by.get(('holding', 2), ())}
        require(got == want, 'derived: holding is %s instead of %s', sorted(got), sorted(want))


def reach(dom, init, goal, objs, limit=4000):
    """A shortest plan to a set of goal facts, or None; HarnessLimit when the search gets too large."""
    start = frozenset(init)
    seen, layer = {start: None}, [start]

    def done(raw):
        return goal <= dom.close(raw, objs).all
    if done(start):
        return []
    while layer:
        nxt = []
        for raw in layer:
            facts = dom.close(raw, objs)
            for a in sorted(dom.applicable(facts, objs)):
                r = frozenset(dom.apply(facts, a, objs))
                if r in seen:
                    continue
                seen[r] = (raw, a)
                if done(r):
                    plan = []
                    while seen[r] is not None:
                        r, act = seen[r]
                        plan.append(act)
                    return plan[::-1]
                nxt.append(r)
                if len(seen) > limit:
                    return False
        layer = nxt
    return None


def sample_streams(dom, streams, init, decide, make, ctx, rounds=3):
    """All facts that the streams certify: `decide(name, inputs)` says how many results the call has."""
    facts, done = Facts(init), set()
    for _ in range(rounds):
        new = []
        for name in sorted(streams.streams):
            for inputs in sorted(streams.instances(name, facts, dom)):
                if (name, inputs) in done:
                    continue
                done.add((name, inputs))
                for k in range(decide(name, inputs)):
                    outs = [make(name, inputs, k, i) for i in range(len(streams.streams[name]['outputs']))]
                    new += streams.certify(name, inputs, outs)
        if not new:
            break
        for f in new:
            facts.add(f)
        ctx.label('streams')
    return facts.all


# ---- turtlebot worlds

@st.composite
def turtle_worlds(draw):
    n = draw(st.integers(1, 3))
    return {'poses': [draw(st.integers(1, 3)) for _ in range(n)], 'start': [draw(st.integers(0, 2)) for _ in range(n)],
            'iks': draw(st.integers(0, 255)), 'blocked': draw(st.lists(st.integers(0, 400), max_size=12)),
            'goal': [draw(st.integers(-1, 2)) for _ in range(n)],
            'choose': draw(st.lists(st.integers(0, 60), min_size=4, max_size=14))}


def turtle_init(case):
    init = {('rover', 'v'), ('conf', 'v', 'q0'), ('atconf', 'v', 'q0'), ('hfree',)}
    objects = []
    for i, k in enumerate(case['poses']):
        o = 'o%d' % i
        objects.append(o)
        init.add(('target', o))
        for j in range(k):
            init.add(('pose', o, 'p%d_%d' % (i, j)))
        init.add(('atpose', o, 'p%d_%d' % (i, case['start'][i] % k)))
    return init, objects


def run_turtle(case, ctx):
    dom, streams = read('turtlebot')
    init, objects = turtle_init(case)
    blocked = set(case['blocked'])

    def decide(name, inputs):
        h = sum((i + 1) * ord(c) for i, c in enumerate('/'.join((name,) + inputs))) % 401
        if name == 'sample-ik':
            return 2 if h % 8 == case['iks'] % 8 and case['iks'] > 200 else 1
        if inputs[1] == inputs[2]:
            return 1
        return 0 if h in blocked or any(abs(h - b) < 12 for b in blocked) else 1

    def make(name, inputs, k, i):
        return '%s:%s:%d' % ({'sample-ik': 'q'}.get(name, 't'), '/'.join(inputs), k)
    facts = sample_streams(dom, streams, init, decide, make, ctx)
    walk(dom, facts, case['choose'], len(case['choose']), turtle_state, turtle_consistent, turtle_legal, objects, ['v'],
         ctx, strict=('pick', 'place'))
    if len(objects) <= 2:
        goal = set()
        for i, g in enumerate(case['goal']):
            if g < 0:
                if not any(f[0] == 'holding' for f in goal):
                    goal.add(('holding', 'o%d' % i))
            else:
                goal.add(('atpose', 'o%d' % i, 'p%d_%d' % (i, g % case['poses'][i])))
        objs = sorted({a for f in facts for a in f[1:]})
        possible = physically(case, decide, make, goal, init)
        if possible is None:
            ctx.label('search too large')
            return
        plan = reach(dom, facts, goal, objs)
        if plan is False:
            ctx.label('search too large')
            return
        ctx.label('goal possible' if possible else 'goal impossible')
        require(not (possible and plan is None), 'the goal %s is physically possible, but no sequence of actions reaches it',
                sorted(goal))
        require(not (plan and not possible), 'the goal %s is physically impossible, but %s reaches it', sorted(goal), plan)


def physically(case, decide, make, goal, init, limit=6000):
    """Can the goal be reached by driving, picking up and putting down, given which motions exist?  Nothing of the
    domain or stream files is used: only the robot, the poses and what motion planning would find."""
    iks = {}
    confs = ['q0']
    for i, k in enumerate(case['poses']):
        for j in range(k):
            o, p = 'o%d' % i, 'p%d_%d' % (i, j)
            key = ('v', o, p)
            iks[o, p] = [make('sample-ik', key, r, 0) for r in range(decide('sample-ik', key))]
            confs += iks[o, p]
    start = ('q0', tuple('p%d_%d' % (i, case['start'][i] % k) for i, k in enumerate(case['poses'])), None)
    seen, todo = {start}, [start]
    want = {f[1]: f[2] if f[0] == 'atpose' else None for f in goal}
    while todo:
        q, at, held = todo.pop()
        if all(at[int(o[1:])] == p for o, p in want.items()):
            return True
        nxt = []
        if held is None:
            for i, p in enumerate(at):
                for q2 in iks['o%d' % i, p]:
                    if decide('sample-motion', ('v', q, q2)):
                        nxt.append((q2, at[:i] + (None,) + at[i + 1:], i))
        else:
            for j in range(case['poses'][held]):
                p = 'p%d_%d' % (held, j)
                for q2 in iks['o%d' % held, p]:
                    if decide('sample-motion-holding', ('v', q, q2, 'o%d' % held)):
                        nxt.append((q2, at[:held] + (p,) + at[held + 1:], None))
        for s in nxt:
            if s not in seen:
                seen.add(s)
                todo.append(s)
                if len(seen) > limit:
                    return None
    return False


# ---- arm worlds

@st.composite
def kuka_worlds(draw):
    n = draw(st.integers(1, 3))
    return {'n': n, 'extra': [draw(st.integers(0, 2)) for _ in range(n)], 'grasps': [draw(st.integers(1, 2)) for _ in range(n)],
            'surf': draw(st.lists(st.sampled_from(['sink', 'stove', 'plain', 'sink+stove']), min_size=1, max_size=3)),
            'sup': [draw(st.integers(0, 5)) for _ in range(4 * n)], 'pre': draw(st.integers(0, 2 ** 20)),
            'shared': draw(st.booleans()), 'blocked': draw(st.lists(st.integers(0, 400), max_size=8)),
            'choose': draw(st.lists(st.integers(0, 400), min_size=6, max_size=30))}


def run_kuka(case, ctx):
    dom, streams = read('kuka')
    init = {('canmove',), ('handempty',), ('conf', 'q0'), ('atconf', 'q0')}
    surf = ['r%d' % i for i in range(len(case['surf']))]
    for r, k in zip(surf, case['surf']):
        if k != 'plain':
            init |= {(x, r) for x in k.split('+')}
    objects, bits = [], case['pre']
    for i in range(case['n']):
        o = 'o%d' % i
        objects.append(o)
        init.add(('graspable', o))
        for r in surf:
            init.add(('stackable', o, r))
        gs = ['g%d_%d' % (i, j) for j in range(case['grasps'][i])]
        for g in gs:
            init.add(('grasp', o, g))
        # the initial pose, then for each goal place a pose before and one after inserting
        ps = ['p%d_%d' % (i, j) for j in range(1 + 2 * (1 + case['extra'][i] % 2))]
        init.add(('atpose', o, ps[0]))
        for j, p in enumerate(ps):
            init.add(('pose', o, p))
            for g in gs:
                q = 'q_%d_%s' % (j, g) if not (case['shared'] and j == 1) else 'q_shared'
                init |= {('conf', q), ('kin', o, p, g, q)}
                if j % 2 == 1:
                    init.add(('preinsert', q))
                elif j:
                    init.add(('postinsert', q))
            k = case['sup'][(4 * i + j) % len(case['sup'])]
            if k < len(surf) and (j == 0 or j % 2 == 0):
                init.add(('supported', o, p, surf[k]))
    blocked = case['blocked']

    def decide(name, inputs):
        h = sum((i + 1) * ord(c) for i, c in enumerate('/'.join((name,) + inputs))) % 401
        return 0 if any(abs(h - b) < 8 for b in blocked) else 1

    def make(name, inputs, k, i):
        return 't:%s/%s' % (name, '/'.join(inputs))
    facts = sample_streams(dom, streams, init, decide, make, ctx, rounds=2)
    # what motion planning provides, independently of the stream file
    confs = sorted(f[1] for f in init if f[0] == 'conf')
    pre, post = {f[1] for f in init if f[0] == 'preinsert'}, {f[1] for f in init if f[0] == 'postinsert'}
    grasps = sorted(f[1:] for f in init if f[0] == 'grasp')
    want = {('freemotion', a, b) for a in confs for b in confs if decide('plan-free-motion', (a, b))}
    want |= {('holdingmotion', a, b, o, g) for a in confs for b in confs if b in pre for o, g in grasps
             if decide('plan-holding-motion', (a, b, o, g))}
    want |= {('insertmotion', a, b, o, g) for a in pre for b in post for o, g in grasps
             if decide('plan-insert-motion', (a, b, o, g))}
    got = {(f[0], f[1]) + f[3:] for f in facts if f[0] in ('freemotion', 'holdingmotion', 'insertmotion')}
    require(got == want, 'the streams certify %s too few and %s too many motions', sorted(want - got)[:3],
            sorted(got - want)[:3])
    walk(dom, facts, case['choose'], len(case['choose']), kuka_state, kuka_consistent, kuka_legal, objects, [], ctx,
         strict=('pick', 'place', 'move_free', 'move_holding', 'move_insert', 'clean', 'cook'))


# ---- the assembled problems

def names_of(items):
    """Python objects of a problem -> strings for the interpreter."""
    table, keep = {}, []

    def name(x):
        key = ('i', x) if isinstance(x, (int, str)) else ('o', id(x))
        if key not in table:
            keep.append(x)
            table[key] = 'x%d' % len(table)
        return table[key]
    return name, table, keep


def check_problem(prob, dom, streams):
    require(set(prob.stream_map) == set(streams.streams), 'the streams %s are %s in the problem',
            sorted(streams.streams), sorted(prob.stream_map))
    for f in prob.init:
        p = f[0].lower()
        if p in dom.predicates:
            require(dom.predicates[p] == len(f) - 1, 'initial fact %s has %d arguments, the domain says %d', f[0],
                    len(f) - 1, dom.predicates[p])
    for s in streams.streams.values():
        for c in s['domain'] + s['certified']:
            if c[0] in dom.predicates:
                require(dom.predicates[c[0]] == len(c) - 1, 'a stream uses %s with %d arguments', c[0], len(c) - 1)


def goal_atoms(goal):
    if not goal:
        return []
    if isinstance(goal[0], str) and goal[0].lower() == 'and':
        return [a for g in goal[1:] for a in goal_atoms(g)]
    return [goal]


@st.composite
def turtle_problems(draw):
    return {'scale': draw(st.sampled_from([0.2, 0.3, 0.3, 0.5])), 'dd': draw(st.sampled_from([0.3, 0.45, 0.6])),
            'n': draw(st.sampled_from([1, 1, 2])), 'seed': draw(gen.seeds()), 'samples': draw(st.sampled_from([60, 90]))}


def run_turtle_problem(case, ctx):
    import tampworld as tw
    import pybullet_tools.utils as pbu
    run = tamp.load('turtlebot', 'run')
    dom, streams = read('turtlebot')
    tw.W.reset()
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 32)
    with tamp.quiet():
        world = run.hallway_manip(robot_scale=case['scale'], dd=case['dd'], num_target=case['n'])
        prob = run.pddlstream_from_problem(world, collisions=True, teleport=True, holonomic=True, reversible=True,
                                           use_aabb=True, min_samples=case['samples'], max_samples=case['samples'] * 2,
                                           factor=1.5, adaptive_n=False, animate=False, save_dir='.')
    require(Domain(prob.domain_pddl).actions == dom.actions and Streams(prob.stream_pddl).streams == streams.streams,
            'the problem does not carry the domain and streams of its directory')
    check_problem(prob, dom, streams)
    name, table, keep = names_of(prob.init)
    values = {}

    def conv(f):
        for a in f[1:]:
            values[name(a)] = a
        return (f[0].lower(),) + tuple(name(a) for a in f[1:])
    init = {conv(f) for f in prob.init}
    goal = {conv(f) for f in goal_atoms(prob.goal)}
    objects = [name(t) for t in world.targets]
    rover = name(world.rover)
    s = turtle_state(init)
    turtle_consistent(s, objects, [rover])
    require(len(world.targets) == case['n'], '%d targets instead of %d', len(world.targets), case['n'])
    require(goal == {('atpose', name(t), name(p)) for t, p in zip(world.targets, world.target_goal_poses)},
            'the goal is not every target at its goal pose')
    require(set(s['at']) == {(name(t), name(p)) for t, p in zip(world.targets, world.target_init_poses)},
            'initially the targets are not at their initial poses')
    # what the streams give: run the real ones, where a plan needs them
    facts = Facts(init)
    seen = set()
    for _ in range(2):
        for sname in ('sample-ik',):
            for inputs in streams.instances(sname, facts, dom):
                if (sname, inputs) in seen:
                    continue
                seen.add((sname, inputs))
                with tamp.quiet():
                    for outs in prob.stream_map[sname](*[values[i] for i in inputs]):
                        for out in outs:
                            for o in out:
                                values[name(o)] = o
                            for f in streams.certify(sname, inputs, [name(o) for o in out]):
                                facts.add(f)
    for t, p in zip(world.targets, world.target_init_poses + world.target_goal_poses):
        qs = [f[3] for f in facts.by.get(('kin', 4), ()) if f[1] == name(t) and f[2] == name(p)]
        require(qs, 'no configuration to handle target %s', t)
        for q in qs:
            require(np.allclose(values[q].values[:2], p.pose[0][:2], atol=1e-12), 'target at %s is handled from %s',
                    p.pose[0], values[q].values)
            require(values[q] is not world.init_conf, 'handling a target changes the initial configuration object')
    # motions, only for the natural plan: fetch each target in turn
    q, plan_needs = name(world.init_conf), []
    for t, p0, p1 in zip(world.targets, world.target_init_poses, world.target_goal_poses):
        kin = {f[2]: f[3] for f in facts.by.get(('kin', 4), ()) if f[1] == name(t)}
        plan_needs.append(('sample-motion', (rover, q, kin[name(p0)])))
        plan_needs.append(('sample-motion-holding', (rover, kin[name(p0)], kin[name(p1)], name(t))))
        q = kin[name(p1)]
    found = True
    for sname, inputs in plan_needs:
        require(inputs in streams.instances(sname, facts, dom), 'stream %s cannot be asked for %s', sname, inputs)
        random.seed(case['seed'] + 1)
        try:
            with tamp.quiet():
                outs = [o for os_ in prob.stream_map[sname](*[values[i] for i in inputs]) for o in os_]
        except AssertionError as e:
            ctx.label('placed against a wall (%s)' % e)
            return
        for out in outs[:1]:
            for o in out:
                values[name(o)] = o
            for f in streams.certify(sname, inputs, [name(o) for o in out]):
                facts.add(f)
        found = found and bool(outs)
    if not found:
        ctx.label('no path found')
        return
    ctx.label('plan')
    ctx.nt(True)
    objs = sorted({a for f in facts.all for a in f[1:]})
    plan = reach(dom, facts.all, goal, objs)
    if plan is False:
        ctx.label('search too large')
        return
    require(plan is not None, 'every motion needed exists, but no plan reaches the goal')
    conf = world.init_conf
    for a in plan:
        v, q1, t, q2 = [values[x] for x in a[1:5]]
        require(q1 is conf, 'plan step %s does not start where the robot is', a)
        path = t.path
        require(np.allclose(path[0].values[:2], q1.values[:2]) and np.allclose(path[-1].values[:2], q2.values[:2]),
                'the trajectory of %s goes from %s to %s', a[0], path[0].values, path[-1].values)
        conf = q2
    with tamp.quiet():
        cmds = run.post_process(world, [(a[0], tuple(values[x] for x in a[1:])) for a in plan])
    require(len(cmds) == 2 * len(plan), 'a plan of %d actions became %d commands', len(plan), len(cmds))
    for a, t, c in zip(plan, cmds[::2], cmds[1::2]):
        require(t is values[a[3]], 'the movement of %s is not in its place', a[0])
        require(type(c).__name__ == {'pick': 'Attach', 'place': 'Detach'}[a[0]] and c.body == values[a[6]]
                and c.robot == world.rover, 'the command for %s is %s of body %s', a[0], type(c).__name__, c.body)


@st.composite
def kuka_problems(draw):
    return {'gap': draw(st.sampled_from([0.03, 0.04, 0.06, 0.1])), 'seed': draw(gen.seeds()),
            'keep': draw(st.one_of(st.integers(1, 4), st.integers(1, 8))), 'teleport': draw(st.booleans()),
            'insert': draw(st.one_of(st.none(), st.integers(0, 7)))}


def check_arm_facts(tw, pbu, init, values, body_of, robot, movable, stood, fixed, names, links):
    """The initial facts say what is so: poses, supports, and how objects are handled where."""
    last = {}
    for f in sorted(init):
        if f[0] == 'atpose':
            require(p28.pose_gap(values[f[2]].pose, stood[body_of[f[1]]]) < 1e-9,
                    'object %s is said to be at %s, it is at %s', names[body_of[f[1]]], values[f[2]].pose,
                    stood[body_of[f[1]]])
        elif f[0] == 'kin':
            p, g, q = (values[x] for x in f[2:])
            require(g.body == body_of[f[1]] and q.body == robot, 'a grasp or configuration of something else')
            t = tw.compose(p28.tool(tw, q.values), g.grasp_pose)
            gap = min(p28.pose_gap(((t[0][0], t[0][1], t[0][2] - off), t[1]), p.pose) for off in (0.0, p28.APPROACH))
            require(gap < 1e-6, 'object %s is said to be handled at %s with a configuration that puts it to %s',
                    names[g.body], p.pose, t)
            if ('postinsert', f[4]) in init:
                last[g.body] = p.pose
            if ('preinsert', f[4]) in init:
                free_at(tw, pbu, g.body, p.pose, fixed, names, 'before it is inserted')
        elif f[0] == 'supported':
            body, p = body_of[f[1]], values[f[2]]
            keep = pbu.get_pose(body)
            pbu.set_pose(body, p.pose)
            surface = values[f[3]]
            on = [pbu.is_placement(body, surface)] if links.get(surface) is None else []
            if not on:
                a, plate = tw.body_aabb(body), tw.body_aabb(surface, links[surface])
                on = [np.all(a[0][:2] >= plate[0][:2] - 1e-6) and np.all(a[1][:2] <= plate[1][:2] + 1e-6)
                      and -1e-9 <= a[0][2] - plate[1][2] < 0.01]
            pbu.set_pose(body, keep)
            require(on[0], 'object %s at %s is said to be supported by %s', names[body], p.pose, names[surface])
    # everything inserted at once: nothing meets anything
    keep = {b: pbu.get_pose(b) for b in last}
    for b, p in last.items():
        pbu.set_pose(b, p)
    for b in last:
        free_at(tw, pbu, b, last[b], [x for x in list(fixed) + list(last) if x != b], names, 'when all are inserted')
    for b, p in keep.items():
        pbu.set_pose(b, p)
    return last


def free_at(tw, pbu, body, pose, others, names, when):
    keep = pbu.get_pose(body)
    pbu.set_pose(body, pose)
    for o in others:
        require(not any(tamp.boxes_meet(x, y, grow=-1e-9) for x in tw.boxes_of(body) for y in tw.boxes_of(o)),
                'object %s at %s meets %s %s', names[body], pose, names[o], when)
    pbu.set_pose(body, keep)


def insertion(tw, pbu, run, prob, robot, body, q1, post, q2, grasp, bins, ctx, seed):
    """The insertion the problem's stream plans, followed among the walls of all bins."""
    half = np.array(tw.boxes_of(body)[0][1])
    where = [tw.body_aabb(b) for b in bins]
    mine = [b for b, a in zip(bins, where) if np.all(a[0][:2] <= np.array(post.pose[0][:2])) and
            np.all(np.array(post.pose[0][:2]) <= a[1][:2])]
    walls = [x for b in mine for x in tw.boxes_of(b)]
    held = [tw.compose(p28.tool(tw, q.values), grasp.grasp_pose) for q in (q1, q2)]
    flats = [np.concatenate([p[0], tw.to_euler(p[1])]) for p in held]
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    with tamp.quiet():
        try:
            outs = [o for os_ in prob.stream_map['plan-insert-motion'](q1, q2, body, grasp, fluents=[]) for o in os_]
        except run.SubplanFailed:
            ctx.label('no insertion found')
            return
    require(len(outs) == 1, 'the insertion stream gives %d motions', len(outs))
    bp = outs[0][0].body_paths[0]
    require([a.body for a in bp.attachments] == [body], 'an insertion carries %s', [a.body for a in bp.attachments])
    why = []
    for off in (p28.APPROACH, 0.0):
        way = []
        for q in bp.path:
            t = p28.tool(tw, q)
            p = tw.compose(((t[0][0], t[0][1], t[0][2] - off), t[1]), grasp.grasp_pose)
            way.append(np.concatenate([p[0], tw.to_euler(p[1])]))
        why.append(p28.judge_way(way, flats, half, walls))
    require(None in why, 'inserting object %s: %s', body, why[0])
    ctx.label('insertion')


def run_kuka_problem(case, ctx):
    import tampworld as tw
    import pybullet_tools.utils as pbu
    run = tamp.load('kuka', 'run')
    dom, streams = read('kuka')
    tw.W.reset()
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 32)
    with tamp.quiet():
        robot, names, movable, sinks, fixed, links = run.load_world(min_gap=case['gap'])
        movable = movable[:case['keep']]
        stood = {b: pbu.get_pose(b) for b in movable}
        prob = run.pddlstream_from_problem(robot, names=names, movable=movable, sink_obstacle_oobbs=sinks, fixed=fixed,
                                           placement_links=links, teleport=case['teleport'], min_samples=30,
                                           max_samples=60, factor=1.5, collision_buffer=0.02, theta_margin=0.2)
    if prob is None:
        ctx.label('no placement found')
        return
    check_problem(prob, dom, streams)
    name, table, keep = names_of(prob.init)
    values = {}

    def conv(f):
        for a in f[1:]:
            values[name(a)] = a
        return (f[0].lower(),) + tuple(name(a) for a in f[1:])
    init = {conv(f) for f in prob.init}
    goal = {conv(tuple(f)) for f in goal_atoms(prob.goal)}
    objects = [name(b) for b in movable]
    s = kuka_state(init)
    kuka_consistent(s, objects, [])
    require(s['can'], 'the arm cannot move at first')
    last = check_arm_facts(tw, pbu, init, values, dict(zip(objects, movable)), robot, movable, stood, fixed, names, links)
    require(set(last) == set(movable), 'no last pose for %s', sorted(set(movable) - set(last)))
    q0 = s['conf'][0][0]
    require(goal == {('cleaned', o) for o in objects} | {('atconf', q0)},
            'the goal is not every object clean and the arm back where it began')
    facts = Facts(init)
    objs = sorted({a for f in init for a in f[1:]})

    def ask(sname, *inputs, real=True):
        require(tuple(inputs) in streams.instances(sname, facts, dom), 'stream %s cannot be asked for %s', sname, inputs)
        if real:
            fl = []
            if streams.streams[sname]['fluents']:
                fl = [(f[0],) + tuple(values[a] for a in f[1:]) for f in dom.close(raw, objs).all
                      if f[0] in [x.lower() for x in streams.streams[sname]['fluents']]]
            tw.W.log = []
            with tamp.quiet():
                outs = [o for os_ in prob.stream_map[sname](*[values[i] for i in inputs], fluents=fl) for o in os_]
            stand = {values_of[1]: values_of[2].pose for values_of in fl if values_of[0] == 'atpose'}
            for e in tw.W.log:
                if e[0] == 'plan':
                    require(set(e[4]) == set(fixed) | set(stand), 'planning a %s avoids %s, there stand %s', sname,
                            sorted(e[4]), sorted(set(fixed) | set(stand)))
            require(outs, 'stream %s finds no motion', sname)
            cmd = outs[0][0]
            p = cmd.body_paths[0].path
            for end, q in ((p[0], inputs[0]), (p[-1], inputs[1])):
                require(np.allclose(end, values[q].values), 'a motion %s goes through %s instead of %s', sname, end,
                        values[q].values)
            grasped = [a.body for a in cmd.body_paths[0].attachments]
            require(grasped == ([values[inputs[2]]] if sname != 'plan-free-motion' else []),
                    'a motion of %s carries %s', sname, grasped)
        else:
            cmd = object()
        values[name(cmd)] = cmd
        new = streams.certify(sname, inputs, [name(cmd)])
        for f in new:
            facts.add(f)
            raw.add(f)
        return name(cmd)
    raw = set(init)

    def act(*a):
        nonlocal raw
        everything = sorted(set(objs) | {x for f in raw for x in f[1:]})
        closed = dom.close(raw, everything)
        require(a in dom.applicable(closed, everything), '%s does not apply although everything it needs is there', a)
        raw = dom.apply(closed, a, everything)
        kuka_consistent(kuka_state(raw), objects, [])
    q = q0
    for b, o in zip(movable, objects):
        kin = [f for f in facts.by.get(('kin', 5), ()) if f[1] == o]
        start_pose = [f[2] for f in raw if f[0] == 'atpose' and f[1] == o][0]
        g = [f[3] for f in kin if f[2] == start_pose][0]
        pickq = [f[4] for f in kin if f[2] == start_pose][0]
        pre = [f for f in kin if ('preinsert', f[4]) in raw]
        post = [f for f in kin if ('postinsert', f[4]) in raw]
        require(len(pre) >= 1 and len(post) >= 1, 'object %s has no way into its bin', b)
        sup = [f for f in raw if f[0] == 'supported' and f[1] == o and f[2] == post[0][2]]
        require(sup, 'the inserted pose of object %s is not supported', b)
        t = ask('plan-free-motion', q, pickq)
        act('move_free', q, pickq, t)
        act('pick', o, start_pose, g, pickq)
        t = ask('plan-holding-motion', pickq, pre[0][4], o, g)
        act('move_holding', pickq, pre[0][4], o, g, t)
        act('place', o, pre[0][2], g, pre[0][4])
        act('pick', o, pre[0][2], g, pre[0][4])
        t = ask('plan-insert-motion', pre[0][4], post[0][4], o, g, real=False)
        if case['insert'] is not None and case['insert'] % len(movable) == movable.index(b):
            insertion(tw, pbu, run, prob, robot, b, *[values[x] for x in (pre[0][4], post[0][2], post[0][4], g)],
                      bins=[x for x in fixed if 'sink' in names[x]], ctx=ctx, seed=case['seed'])
        act('move_insert', pre[0][4], post[0][4], o, g, t)
        act('place', o, post[0][2], g, post[0][4])
        act('clean', o, sup[0][3])
        q = post[0][4]
    t = ask('plan-free-motion', q, q0)
    act('move_free', q, q0, t)
    require(goal <= dom.close(raw, objs).all, 'the goal does not hold after cleaning everything and returning')
    ctx.nt(len(movable) > 1)
    ctx.label('plan')


SUBS = [
    Sub('turtlebot histories', turtle_worlds(), run_turtle, quick=2000),
    Sub('arm histories', kuka_worlds(), run_kuka, quick=2000),
    Sub('turtlebot problem', turtle_problems(), run_turtle_problem, quick=16, thorough=300),
    Sub('arm problem', kuka_problems(), run_kuka_problem, quick=60),
]
