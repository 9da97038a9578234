# PY: venv
# STUBS: core scipylite tamp
"""P26: reversing commands is an involution that undoes them, refining keeps the way, and plans keep their order."""
from hypothesis import strategies as st

from vlib import tamp
from vlib.core import Sub, require

ID = 'P26'


def setup():
    """A fresh world: the arm (with seven joints), a turtlebot (three joints) and five boxes."""
    import tampworld as tw
    import pybullet_tools.utils as pbu
    tw.W.reset()
    arm = pbu.load_model(pbu.DRAKE_IIWA_URDF)
    bot = pbu.load_model(pbu.TURTLEBOT_URDF)
    boxes = [pbu.create_box(0.1, 0.1, 0.1 + 0.01 * i) for i in range(5)]
    return tw.W, pbu, arm, bot, boxes


COORD = st.integers(-8, 8).map(lambda i: i / 4.0)


@st.composite
def items(draw, plain=False):
    kind = draw(st.sampled_from(['path', 'path', 'attach', 'detach'] if not plain else ['path']))
    if kind != 'path':
        return {'kind': kind, 'box': draw(st.integers(0, 3)), 'robot': draw(st.integers(0, 1)), 'link': draw(st.integers(-1, 3))}
    robot = draw(st.integers(0, 1))
    full = 7 if robot == 0 else 3
    joints = draw(st.one_of(st.none(), st.lists(st.integers(0, full - 1), min_size=1, max_size=full, unique=True)))
    n = full if joints is None else len(joints)
    path = draw(st.lists(st.lists(COORD, min_size=n, max_size=n), min_size=draw(st.sampled_from([0, 1, 2, 2])), max_size=5))
    return {'kind': 'path', 'robot': robot, 'joints': joints, 'path': path,
            'grasps': draw(st.lists(st.integers(0, 4), max_size=draw(st.sampled_from([2, 2, 5])), unique=True))}


@st.composite
def cases(draw):
    its = draw(st.lists(items(), min_size=1, max_size=8))
    for _ in range(draw(st.integers(0, 3))):        # the very same element again, later or at once
        its.insert(draw(st.integers(0, len(its))), {'again': draw(st.integers(0, 7))})
    return {'items': its, 'refine': draw(st.one_of(st.integers(0, 4), st.integers(5, 14)))}


@st.composite
def long_cases(draw):
    """Many elements, and ways of hundreds of configurations."""
    case = draw(cases())
    for it in case['items']:
        if it.get('path') and draw(st.integers(0, 2)) == 0:
            it['long'] = draw(st.integers(6, 300))
    case['times'] = draw(st.sampled_from([1, 1, 3, 9]))
    return case


def written_out(its):
    """The items with the long ways spelled out: the given configurations again and again, moving on slowly."""
    return [dict(it, path=[[x + 0.001 * k for x in it['path'][k % len(it['path'])]] for k in range(it['long'])])
            if it.get('long') else it for it in its]


def settled(case_items, built=None):
    """(items, elements) with the references to earlier elements replaced by those."""
    its, out, k = [], [], 0
    for it in case_items:
        if 'again' in it:
            if its:
                its.append(its[it['again'] % len(its)])
                out.append(out[it['again'] % len(out)] if built is not None else None)
            continue
        its.append(it)
        out.append(built[k] if built is not None else None)
        k += 1
    return its, out


def build(case_items, kp, pbu, arm, bot, boxes):
    out = []
    for it in case_items:
        robot = (arm, bot)[it['robot']]
        if it['kind'] == 'path':
            grasps = [kp.BodyGrasp(boxes[g], pbu.Pose(pbu.Point(z=0.1 * (g + 1))), pbu.Pose(), robot,
                                   pbu.link_from_name(robot, 'tool')) for g in it['grasps']]
            kw = {} if not grasps else {'attachments': grasps}
            if it['joints'] is not None:
                kw['joints'] = list(it['joints'])
            out.append(kp.BodyPath(robot, [tuple(q) for q in it['path']], **kw))
        else:
            cls = kp.Attach if it['kind'] == 'attach' else kp.Detach
            out.append(cls(boxes[it['box']], robot, it['link']))
    return out


def events(W, how):
    """What a run does to the world: visits of configurations (with the objects moved along), attaching, detaching."""
    W.log = []
    how()
    out = []
    for e in W.log:
        if e[0] == 'joints':
            out.append(['visit', e[1], tuple(sorted(zip(e[2], e[3]))), []])
        elif e[0] == 'attached':
            require(out and out[-1][0] == 'visit' and out[-1][1] == e[1],
                    'object %s is moved with robot %s before the robot moves', e[2], e[1])
            out[-1][3].append(e[2])
        elif e[0] in ('fix', 'unfix'):
            out.append([e[0]] + list(e[1:]))
    for v in out:
        if v[0] == 'visit':
            v[3] = sorted(v[3])
    return out


def expected(case_items, arm, bot, boxes):
    out = []
    for it in case_items:
        robot = (arm, bot)[it['robot']]
        if it['kind'] == 'path':
            joints = it['joints'] if it['joints'] is not None else list(range(7 if it['robot'] == 0 else 3))
            for q in it['path']:
                out.append(['visit', robot, tuple(sorted(zip(joints, map(float, q)))), sorted(boxes[g] for g in it['grasps'])])
        else:
            out.append(['fix' if it['kind'] == 'attach' else 'unfix', boxes[it['box']], robot, it['link']])
    return out


def undone(ev):
    swap = {'fix': 'unfix', 'unfix': 'fix', 'visit': 'visit'}
    return [[swap[e[0]]] + e[1:] for e in reversed(ev)]


def bare(ev):
    """Without the objects moved along: the physics of control() moves those."""
    return [e[:3] if e[0] == 'visit' else e for e in ev]


def moves(ev):
    return [e for e in ev if e[0] == 'visit']


def same(got, want, what):
    require(got == want, '%s: %s instead of %s', what, brief(got, want), brief(want, got))


def brief(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return '%d events, event %d is %s' % (len(a), k, a[k] if k < len(a) else 'missing')


def run_commands(case, ctx):
    kp = tamp.load('kuka', 'kuka_primitives')
    W, pbu, arm, bot, boxes = setup()
    todo = written_out(case['items']) * case.get('times', 1)
    its, els = settled(todo, build([i for i in todo if 'again' not in i], kp, pbu, arm, bot, boxes))
    want = expected(its, arm, bot, boxes)
    cmd = kp.Command(els)
    robots = {(arm, bot)[i['robot']] for i in its}
    things = {boxes[g] for i in its for g in (i['grasps'] if i['kind'] == 'path' else [i['box']])}
    require(set(cmd.bodies()) == robots | things, 'the command moves %s instead of %s', sorted(cmd.bodies()),
            sorted(robots | things))
    with tamp.quiet():
        same(events(W, lambda: cmd.execute(time_step=0)), moves(want), 'executing')
        same(bare(events(W, lambda: cmd.control())), bare(want), 'controlling')
        same(bare(events(W, lambda: cmd.control(real_time=True))), bare(want), 'controlling in real time')
        rev = cmd.reverse()
        same(events(W, lambda: rev.execute(time_step=0)), moves(undone(want)), 'executing the reverse')
        same(bare(events(W, lambda: rev.control())), bare(undone(want)), 'controlling the reverse')
        require(set(rev.bodies()) == set(cmd.bodies()), 'the reverse moves %s', sorted(rev.bodies()))
        back = rev.reverse()
        same(events(W, lambda: back.execute(time_step=0)), moves(want), 'executing the reverse of the reverse')
        same(bare(events(W, lambda: back.control())), bare(want), 'controlling the reverse of the reverse')
        same(bare(events(W, lambda: cmd.control())), bare(want), 'controlling after reversing')
        # each element on its own
        for it, el in zip(its, cmd.body_paths):
            mine = expected([it], arm, bot, boxes)
            same(bare(events(W, lambda: el.reverse().control())), bare(undone(mine)), 'the reverse of one element')
        # refining: the ways are refined in place, everything else stays where it is
        n = case['refine']
        fine = cmd.refine(num_steps=n)
        got = events(W, lambda: fine.control())
        shown = events(W, lambda: fine.execute(time_step=0))
        same(bare(events(W, lambda: cmd.control())), bare(want), 'controlling after refining')
    rest = list(got)
    for it in its:
        mine = expected([it], arm, bot, boxes)
        if it['kind'] != 'path':
            require(bool(rest) and rest[0] == mine[0], 'after refining, %s is missing or out of order', mine[0])
            rest.pop(0)
            continue
        # the refined way passes through the waypoints in order, ends where it ended, and adds steps in between
        k = max(0, len(mine) - 1) * (n + 1)
        piece, rest = rest[:k], rest[k:]
        require(len(piece) == k and all(e[0] == 'visit' and e[1] == mine[0][1] for e in piece),
                'a refined way of %d points has the wrong length', len(mine))
        for i in range(1, len(mine)):
            require(close(piece[i * (n + 1) - 1][2], mine[i][2]), 'a refined way misses its point %d', i)
    require(not rest, 'after refining, there are %d further events', len(rest))
    objs = [e[3] for e in shown]
    want_objs = [sorted(boxes[g] for g in it['grasps']) for it in its if it['kind'] == 'path'
                 for _ in range(max(0, len(it['path']) - 1) * (n + 1))]
    require(objs == want_objs, 'a refined way carries other objects along')
    kinds = {i['kind'] for i in its}
    for k in kinds:
        ctx.label(k)
    ctx.nt(len(kinds) > 1 and any(len(i.get('path', ())) > 1 for i in its))


def close(a, b):
    return len(a) == len(b) and all(j == k and abs(x - y) < 1e-9 for (j, x), (k, y) in zip(a, b))


# ---- plans

@st.composite
def arm_plans(draw):
    steps = []
    for _ in range(draw(st.integers(9, 50) if draw(st.integers(0, 11)) == 0 else st.integers(0, 8))):
        kind = draw(st.sampled_from(['move_free', 'move_holding', 'move_insert', 'pick', 'place', 'clean', 'cook', 'move']))
        steps.append({'kind': kind, 'paths': draw(st.lists(items(plain=True), min_size=1, max_size=3 if draw(st.integers(0, 9)) else 16))
                      if kind.startswith('move') else [],
                      'again': draw(st.one_of(st.none(), st.none(), st.integers(0, 7)))})
    return {'steps': steps}


def run_arm_plan(case, ctx):
    kp, run = tamp.load('kuka', 'kuka_primitives'), tamp.load('kuka', 'run')
    W, pbu, arm, bot, boxes = setup()
    plan, flat, made = [], [], []
    q, g = object(), object()
    for s in case['steps']:
        if s['kind'].startswith('move'):
            if made and s['again'] is not None:     # a movement made before, with the same command
                cmd, paths = made[s['again'] % len(made)]
                ctx.label('repeated movement')
            else:
                paths = s['paths']
                cmd = run.Command(build(paths, kp, pbu, arm, bot, boxes))
                made.append((cmd, paths))
            flat += paths
            args = {'move_free': (q, q, cmd), 'move': (q, q, cmd)}.get(s['kind'], (q, q, boxes[0], g, cmd))
        else:
            args = {'pick': (boxes[0], q, g, q), 'place': (boxes[0], q, g, q)}.get(s['kind'], (boxes[0], boxes[1]))
        plan.append((s['kind'], args))
    before = [(n, a, list(a[-1].body_paths) if n.startswith('move') else None) for n, a in plan]
    with tamp.quiet():
        for _ in range(2):      # a plan may be turned into a command more than once
            cmd = run.postprocess_plan(list(plan))
            same(events(W, lambda: cmd.execute(time_step=0)), expected(flat, arm, bot, boxes), 'executing the plan')
        rev = cmd.reverse()
        same(events(W, lambda: rev.execute(time_step=0)), undone(expected(flat, arm, bot, boxes)), 'undoing the plan')
    for n, a, paths in before:
        if paths is not None:
            require(list(a[-1].body_paths) == paths, 'the movements of a planned %s have changed', n)
    kinds = {s['kind'] for s in case['steps']}
    for k in kinds:
        ctx.label(k)
    ctx.nt(len([k for k in kinds if k.startswith('move')]) > 1)


@st.composite
def bot_plans(draw):
    """Interleaved plans of up to two rovers, each picking and placing in turn."""
    n = draw(st.sampled_from([10, 10, 10, 10, 10, 10, 60]))
    return {'who': draw(st.lists(st.integers(0, 1), min_size=n // 2 if n > 10 else 0, max_size=n)),
            'obj': draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)), 'none': draw(st.integers(0, 19)) == 0, 'bad': draw(st.integers(0, 9)) == 0}


def run_bot_plan(case, ctx):
    run = tamp.load('turtlebot', 'run')
    import pybullet_tools.pr2_primitives as pr2
    with tamp.quiet():
        if case['none']:
            require(run.post_process(object(), None) is None, 'a missing plan became commands')
            ctx.label('no plan')
            return
    held, plan, want = {}, [], []
    way = pr2.Trajectory([])
    for i, v in enumerate(case['who']):
        t = way if case['obj'][i] % 3 == 0 else pr2.Trajectory([])      # (the same way may be gone twice)
        v = 10 + v
        if v in held:
            o = held.pop(v)
            plan.append(('place', (v, object(), t, object(), object(), o)))
            want += [('go', t), ('Detach', v, o)]
        else:
            o = 20 + case['obj'][i]
            while o in held.values():
                o += 6
            held[v] = o
            plan.append(('pick', (v, object(), t, object(), object(), o)))
            want += [('go', t), ('Attach', v, o)]
    with tamp.quiet():
        if case['bad']:
            ok = False
            try:
                run.post_process(object(), plan + [('jump', (10, 20))])
            except ValueError:
                ok = True
            require(ok, 'an unknown action is silently turned into nothing')
            ctx.label('unknown action')
        cmds = run.post_process(object(), list(plan))
    got = []
    for c in cmds:
        if isinstance(c, pr2.Trajectory):
            got.append(('go', c))
        else:
            got.append((type(c).__name__, c.robot, c.body))
    require(len(got) == len(want) and all(g[0] == w[0] and g[1:] == w[1:] for g, w in zip(got, want)),
            'the commands are %s instead of %s', got, want)
    ctx.label('%d actions' % min(len(plan), 3))
    ctx.nt(len(plan) > 2)


SUBS = [
    Sub('commands', cases(), run_commands, quick=3000),
    Sub('long commands', long_cases(), run_commands, quick=96, thorough=8000),
    Sub('arm plans', arm_plans(), run_arm_plan, quick=2000),
    Sub('turtlebot plans', bot_plans(), run_bot_plan, quick=1500),
]
