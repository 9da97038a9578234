"""Engine shared by every check: generation, oracle bookkeeping, shrinking, replay, evidence."""
import hashlib
import importlib
import importlib.util
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class Violation(AssertionError):
    """The property is broken on this input."""


class HarnessLimit(Exception):
    """The harness cannot decide (missing double API, code moved, ...): error exit, no verdict."""


class _OnlyHypothesis:
    """Let /opt/venv's python import hypothesis (pure python) from the tooling venv, and nothing else."""
    NAMES = ('hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_globals', '_hypothesis_ftz_detector',
             '_hypothesis_pytestplugin')

    def find_spec(self, name, path=None, target=None):
        root = name.split('.')[0]
        if root not in self.NAMES or path is not None:
            return None
        return importlib.machinery.PathFinder.find_spec(name, [VT_SITE], target)


def bootstrap(stubs=('core',)):
    import importlib.machinery  # noqa: F401
    sys.dont_write_bytecode = True
    if importlib.util.find_spec('hypothesis') is None:
        sys.meta_path.append(_OnlyHypothesis())
    for s in stubs:
        sys.path.insert(0, os.path.join(VERIF, 'stubs', s))
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')


class Ctx:
    """Per-case counters."""

    def __init__(self):
        self.cases = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.cur = None

    def start(self, case):
        self.cases += 1
        self.cur = case
        self._flag = False

    def nt(self, flag=True):
        if flag and not self._flag:
            self._flag = True
            h = hashlib.blake2b(json.dumps(self.cur, sort_keys=True, default=str).encode(), digest_size=8).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2:
                    self.samples.append(json.loads(json.dumps(self.cur, default=str)))

    def label(self, s):
        self.labels[s] = self.labels.get(s, 0) + 1

    def known(self, pid, fid, what):
        """The defect `fid` showed itself: fine when KNOWN_FINDINGS.json lists it as open, a violation otherwise."""
        if not any(k.get('id') == fid for k in load_known(pid)):
            raise Violation(what)
        self.label('known finding: ' + fid)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, examples=(), cpu_limit=120, shards=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.examples = list(examples)
        self.cpu_limit = cpu_limit


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def derive_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=6).digest(), 'big')


def touches_repo(exc):
    """Did the exception pass through code of the repository?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(REPO + os.sep) or fn.startswith('<repo:'):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def classify(exc):
    """'violation' | 'limit' and a message."""
    name = type(exc).__name__
    if isinstance(exc, Violation):
        return 'violation', str(exc)
    chain, e, seen = [], exc, set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        chain.append(e)
        e = e.__cause__ or e.__context__
    if any(type(c).__name__ in ('DoubleUnsupported', 'HarnessLimit') for c in chain):
        return 'limit', '%s: %s' % (name, exc)
    if isinstance(exc, (ImportError, SyntaxError)):
        return 'limit', '%s: %s' % (name, exc)
    if touches_repo(exc):
        last = traceback.extract_tb(exc.__traceback__)
        where = [f for f in last if f.filename.startswith(REPO)]
        loc = '%s:%s' % (os.path.relpath(where[-1].filename, REPO), where[-1].name) if where else '?'
        return 'violation', 'an input of the stated domain made the code raise %s: %s (in %s)' % (name, exc, loc)
    if unreadable(exc):
        last = traceback.extract_tb(exc.__traceback__)[-1]
        return 'violation', 'what the code returned is not of the kind the property speaks of: judging it raised %s: %s ' \
            '(%s, line %s: %s)' % (name, exc, os.path.basename(last.filename), last.lineno, last.line)
    return 'limit', ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]


def unreadable(exc):
    """Did the check stumble over the form of a result (None, a wrong shape, a missing entry)?  Calls that do not fit a
    signature and names that are gone are not that: there the check does not fit the code, and there is no verdict."""
    text = str(exc)
    if isinstance(exc, TypeError):
        return not any(w in text for w in ('positional argument', 'keyword argument', 'argument after'))
    if isinstance(exc, AttributeError):
        return any(text.startswith("'%s' object" % w) for w in ('NoneType', 'list', 'tuple', 'float', 'int', 'bool', 'str',
                                                                'numpy.ndarray', 'numpy.float64', 'dict'))
    return isinstance(exc, (ValueError, IndexError, OverflowError, ZeroDivisionError))


def load_check(pid):
    for fn in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
        if fn.startswith(pid.lower() + '_') and fn.endswith('.py'):
            path = os.path.join(VERIF, 'checks', fn)
            spec = importlib.util.spec_from_file_location('check_' + pid, path)
            mod = importlib.util.module_from_spec(spec)
            sys.modules['check_' + pid] = mod
            spec.loader.exec_module(mod)
            return mod
    raise SystemExit('no check for %s' % pid)


def header(pid):
    """PY / STUBS of a check, read without importing it."""
    for fn in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
        if fn.startswith(pid.lower() + '_') and fn.endswith('.py'):
            py, stubs = 'venv', ['core']
            with open(os.path.join(VERIF, 'checks', fn)) as f:
                for line in f:
                    if line.startswith('# PY:'):
                        py = line.split(':', 1)[1].strip()
                    elif line.startswith('# STUBS:'):
                        stubs = line.split(':', 1)[1].split()
            return py, stubs
    raise SystemExit('no check for %s' % pid)


def seed_globals(case):
    s = derive_seed('globals', json.dumps(case, sort_keys=True, default=str)) % (2 ** 32)
    random.seed(s)
    np = sys.modules.get('numpy')
    if np is not None:
        np.random.seed(s)


def load_known(pid):
    """Findings listed in KNOWN_FINDINGS.json for this property (never written at run time)."""
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'open']


class OutOfTime(BaseException):
    """The time budget ran out; not an Exception, so that it ends the search at once."""


class Runner:
    def __init__(self, mod, tier, seed, shard, nshards, deadline, out):
        self.mod, self.tier, self.seed, self.shard, self.nshards = mod, tier, seed, shard, nshards
        self.deadline, self.out = deadline, out
        self.result = {'subs': {}, 'violation': None, 'limit': None, 'skipped_for_time': 0}
        self.last = None
        self.journal = bool(os.environ.get('VERIF_JOURNAL'))  # note every case before it is run

    def dump(self):
        tmp = self.out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(self.result, f, default=str)
        os.replace(tmp, self.out)

    def on_cpu(self, *_):
        sub, case = self.current
        self.result['violation'] = {'sub': sub, 'case': case,
                                    'message': 'no answer after %d CPU seconds' % self.cpu_limit}
        self.dump()
        os._exit(0)

    def one(self, sub, ctx, case, counted=True):
        self.current = (sub.name, case)
        self.cpu_limit = sub.cpu_limit
        signal.setitimer(signal.ITIMER_PROF, sub.cpu_limit)
        try:
            if counted:
                ctx.start(case)
            if self.journal:
                with open(self.out + '.case', 'w') as f:
                    json.dump({'sub': sub.name, 'case': case}, f, default=str)
            seed_globals(case)
            sub.run(case, ctx)
        except Exception as e:
            if type(e).__name__ in ('UnsatisfiedAssumption',):
                raise
            kind, msg = classify(e)
            self.last = (kind, sub.name, case, msg)
            if kind == 'limit':
                self.result['limit'] = {'sub': sub.name, 'case': case, 'message': msg}
                self.dump()
                os._exit(0)
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def run(self):
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        import hypothesis.internal.conjecture.engine as eng
        for attr in ('MAX_SHRINKING_SECONDS',):
            if hasattr(eng, attr):
                setattr(eng, attr, 25)
        signal.signal(signal.SIGPROF, self.on_cpu)
        # where the budget is expected to run out, the checks of the module share it evenly
        share = self.tier != 'quick' or os.environ.get('VERIF_NO_SHRINK')
        for i_sub, sub in enumerate(self.mod.SUBS):
            ctx = Ctx()
            left = max(0.0, self.deadline - time.time())
            deadline = time.time() + left / (len(self.mod.SUBS) - i_sub) if share else self.deadline
            n_total = sub.quick if self.tier == 'quick' else sub.thorough
            n = n_total // self.nshards + (1 if self.shard < n_total % self.nshards else 0)
            t0 = time.time()
            skipped = [0]
            try:
                for i, case in enumerate(sub.examples):
                    if i % self.nshards == self.shard:
                        self.one(sub, ctx, case)
                if n > 0:
                    @hypothesis.seed(derive_seed(self.seed, self.mod.ID, sub.name, self.shard))
                    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                              phases=(Phase.generate,) if os.environ.get('VERIF_NO_SHRINK') else
                              (Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                              print_blob=False)
                    @given(sub.strategy)
                    def prop(case):
                        if time.time() > deadline and self.last is None:
                            raise OutOfTime()
                        self.one(sub, ctx, case)
                    try:
                        prop()
                    except OutOfTime:
                        skipped[0] = max(1, n - ctx.cases)
            except Exception as e:
                if self.last is None:
                    kind, msg = classify(e)
                    self.result['limit'] = {'sub': sub.name, 'case': None,
                                            'message': 'generator: ' + ''.join(traceback.format_exception(
                                                type(e), e, e.__traceback__))[-3000:]}
                else:
                    _, name, case, msg = self.last
                    self.result['violation'] = {'sub': name, 'case': case, 'message': msg}
            self.result['subs'][sub.name] = {
                'cases': ctx.cases, 'nontrivial': sorted(ctx.nontrivial), 'labels': ctx.labels,
                'samples': ctx.samples, 'wall': round(time.time() - t0, 2), 'skipped': skipped[0]}
            self.dump()
            if self.result['violation'] or self.result['limit']:
                break
        self.result['done'] = True
        self.dump()


def worker_main(argv):
    pid, tier, seed, shard, nshards, deadline, out = argv
    _, stubs = header(pid)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(10000)
    bootstrap(stubs)
    r = None
    try:
        mod = load_check(pid)
        r = Runner(mod, tier, int(seed), int(shard), int(nshards), float(deadline), out)
        r.run()
    except BaseException as e:
        res = r.result if r is not None else {'subs': {}, 'violation': None}
        res['limit'] = {'sub': None, 'case': None, 'message': ''.join(
            traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
        with open(out, 'w') as f:
            json.dump(res, f, default=str)
        raise


def replay_main(pid, path):
    """Run one saved case, outside the generator."""
    _, stubs = header(pid)
    bootstrap(stubs)
    mod = load_check(pid)
    with open(path) as f:
        rep = json.load(f)
    sub = [s for s in mod.SUBS if s.name == rep['sub']][0]
    ctx = Ctx()
    ctx.start(rep['case'])
    seed_globals(rep['case'])
    try:
        sub.run(rep['case'], ctx)
    except Exception as e:
        kind, msg = classify(e)
        if kind == 'violation':
            sys.__stdout__.write('%s\nVIOLATION property=%s replay=%s\n' % (msg, pid, path))
            sys.__stdout__.flush()
            return 1
        sys.__stdout__.write('ERROR %s\n' % msg)
        return 3
    sys.__stdout__.write('replay of %s: property held\n' % path)
    return 0


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    from vlib import core as _core  # one copy of Violation & co. for checks and engine
    if sys.argv[1] == '--replay':
        sys.exit(_core.replay_main(sys.argv[2], sys.argv[3]))
    _core.worker_main(sys.argv[1:])
