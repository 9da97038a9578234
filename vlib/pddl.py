"""A small interpreter for the two planning domains (read from the repository) and their streams."""
import itertools
import re

from vlib.core import HarnessLimit


def sexprs(text):
    text = re.sub(r';[^\n]*', '', text)
    tokens = re.findall(r'[()]|[^\s()]+', text)
    stack, top = [], []
    for t in tokens:
        if t == '(':
            stack.append(top)
            top = []
        elif t == ')':
            if not stack:
                break       # what follows the last form is ignored, as PDDL readers do
            done = top
            top = stack.pop()
            top.append(done)
        else:
            top.append(t.lower())
    if stack:
        raise HarnessLimit('unbalanced PDDL')
    return top


def conjuncts(e):
    if not e:
        return []
    if e[0] == 'and':
        return [c for x in e[1:] for c in conjuncts(x)]
    if e[0] == 'exists':        # a positive existential: its variables become fresh ones to solve for
        names = {v: '?%s#%d' % (v[1:], next(FRESH)) for v in untyped(e[1])}
        return [c for x in conjuncts(e[2]) for c in [renamed(x, names)]]
    return [e]


FRESH = itertools.count()


def renamed(e, names):
    if isinstance(e, str):
        return names.get(e, e)
    return [renamed(x, names) for x in e]


def untyped(params):
    out, i = [], 0
    while i < len(params):
        if params[i] == '-':
            i += 2
            continue
        out.append(params[i])
        i += 1
    return out


def fresh_in(e):
    if isinstance(e, str):
        return [e] if '#' in e else []
    return [a for x in e for a in fresh_in(x)]


class Domain:
    def __init__(self, text):
        forms = sexprs(text)
        if len(forms) < 1 or forms[0][0] != 'define':
            raise HarnessLimit('not a PDDL domain')
        self.predicates, self.actions, self.derived = {}, {}, []
        for f in forms[0][1:]:
            if f[0] == ':predicates':
                for p in f[1:]:
                    self.predicates[p[0]] = len(untyped(p[1:]))
            elif f[0] == ':action':
                d = dict(zip(f[2::2], f[3::2]))
                self.actions[f[1]] = (untyped(d.get(':parameters', [])), d.get(':precondition', []), d.get(':effect', []))
            elif f[0] == ':derived':
                self.derived.append((f[1], f[2]))
            elif f[0] not in ('domain', ':requirements', ':functions', ':types', ':constants'):
                raise HarnessLimit('PDDL section %r' % (f[0],))

    # -- conditions

    def holds(self, e, facts, env, objs):
        if not e:
            return True
        h = e[0]
        if h == 'and':
            return all(self.holds(x, facts, env, objs) for x in e[1:])
        if h == 'or':
            return any(self.holds(x, facts, env, objs) for x in e[1:])
        if h == 'not':
            return not self.holds(e[1], facts, env, objs)
        if h == 'imply':
            return not self.holds(e[1], facts, env, objs) or self.holds(e[2], facts, env, objs)
        if h in ('exists', 'forall'):
            vs = untyped(e[1])
            some = h == 'exists'
            if some:
                return any(True for _ in self.solve(conjuncts(e[2]), facts, dict(env), objs, vs))
            return all(self.holds(e[2], facts, dict(env, **dict(zip(vs, c))), objs)
                       for c in itertools.product(objs, repeat=len(vs)))
        if h == '=':
            return env.get(e[1], e[1]) == env.get(e[2], e[2])
        return (h,) + tuple(env.get(a, a) for a in e[1:]) in facts.all

    def solve(self, conds, facts, env, objs, free):
        """All bindings of the variables `free` (and any others in env) under which every condition holds."""
        atoms = [c for c in conds if c[0] not in ('and', 'or', 'not', 'exists', 'forall', '=', 'imply')]
        rest = [c for c in conds if c not in atoms]
        free = list(free) + sorted({a for c in rest for a in fresh_in(c)})

        def go(todo, env):
            if todo:
                # the atom with the fewest candidates first
                best, k, cands = None, 0, None
                for i, c in enumerate(todo):
                    fs = facts.candidates(c, env)
                    if best is None or len(fs) < best:
                        best, k, cands = len(fs), i, fs
                        if not best:
                            return
                c, todo = todo[k], todo[:k] + todo[k + 1:]
                for f in cands:
                    e2 = dict(env)
                    for a, v in zip(c[1:], f[1:]):
                        if a.startswith('?'):
                            if e2.setdefault(a, v) != v:
                                break
                        elif a != v:
                            break
                    else:
                        yield from go(todo, e2)
                return
            missing = [v for v in free if v not in env]
            for c in itertools.product(objs, repeat=len(missing)):
                e2 = dict(env, **dict(zip(missing, c)))
                if all(self.holds(r, facts, e2, objs) for r in rest):
                    yield e2
        return go(atoms, env)

    # -- states

    def close(self, facts, objs):
        """Facts together with the derived ones."""
        derived_names = {h[0] for h, _ in self.derived}
        cur = Facts(f for f in facts if f[0] not in derived_names)
        changed = True
        while changed:
            changed = False
            for head, body in self.derived:
                vs = untyped(head[1:])
                for env in list(self.solve(conjuncts(body), cur, {}, objs, vs)):
                    f = (head[0],) + tuple(env[v] for v in vs)
                    if f not in cur.all:
                        cur.add(f)
                        changed = True
        return cur

    def applicable(self, facts, objs):
        """Every applicable ground action (name, args) of the closed fact set."""
        out = set()
        for name, (params, pre, _) in self.actions.items():
            for env in self.solve(conjuncts(pre), facts, {}, objs, params):
                out.add((name,) + tuple(env[p] for p in params))
        return out

    def apply(self, facts, action, objs):
        params, _, eff = self.actions[action[0]]
        env = dict(zip(params, action[1:]))
        add, rem = set(), set()

        def go(e, env):
            if not e:
                return
            if e[0] == 'and':
                for x in e[1:]:
                    go(x, env)
            elif e[0] == 'when':
                if self.holds(e[1], facts, env, objs):
                    go(e[2], env)
            elif e[0] == 'forall':
                vs = untyped(e[1])
                for c in itertools.product(objs, repeat=len(vs)):
                    go(e[2], dict(env, **dict(zip(vs, c))))
            elif e[0] == 'not':
                rem.add((e[1][0],) + tuple(env.get(a, a) for a in e[1][1:]))
            elif e[0] in ('increase', 'decrease', 'assign'):
                pass
            else:
                add.add((e[0],) + tuple(env.get(a, a) for a in e[1:]))
        go(eff, env)
        derived_names = {h[0] for h, _ in self.derived}
        return (set(f for f in facts.all if f[0] not in derived_names) - rem) | add


class Facts:
    def __init__(self, facts=()):
        self.all, self.by, self.index = set(), {}, {}
        for f in facts:
            self.add(f)

    def add(self, f):
        if f not in self.all:
            self.all.add(f)
            self.by.setdefault((f[0], len(f)), []).append(f)
            for i, a in enumerate(f):
                if i:
                    self.index.setdefault((f[0], len(f), i, a), []).append(f)

    def candidates(self, c, env):
        """The facts that may match an atom: the shortest list over its bound arguments."""
        best = self.by.get((c[0], len(c)), ())
        for i, a in enumerate(c):
            if i:
                a = env.get(a) if a.startswith('?') else a
                if a is not None:
                    fs = self.index.get((c[0], len(c), i, a), ())
                    if len(fs) < len(best):
                        best = fs
        return best


class Streams:
    def __init__(self, text):
        forms = sexprs(text)
        if not forms or forms[0][0] != 'define':
            raise HarnessLimit('not a stream file')
        self.streams = {}
        for f in forms[0][1:]:
            if f[0] == ':stream':
                d = dict(zip(f[2::2], f[3::2]))
                self.streams[f[1]] = dict(inputs=d.get(':inputs', []), domain=conjuncts(d.get(':domain', [])),
                                          outputs=d.get(':outputs', []), certified=conjuncts(d.get(':certified', [])),
                                          fluents=d.get(':fluents', []))
            elif f[0] != 'stream':
                raise HarnessLimit('stream section %r' % (f[0],))

    def instances(self, name, facts, domain):
        s = self.streams[name]
        objs = sorted({a for f in facts.all for a in f[1:]})
        return [tuple(env[v] for v in s['inputs']) for env in domain.solve(s['domain'], facts, {}, objs, s['inputs'])]

    def certify(self, name, inputs, outputs):
        s = self.streams[name]
        env = dict(zip(s['inputs'], inputs))
        env.update(zip(s['outputs'], outputs))
        return [(c[0],) + tuple(env.get(a, a) for a in c[1:]) for c in s['certified']]
