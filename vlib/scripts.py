"""Running the repository's scripts in a forked child, with a kill at a chosen event."""
import json
import os
import runpy
import signal
import sys
import traceback

from vlib.core import REPO, HarnessLimit, Violation, classify

KILLED = 77


class Result:
    def __init__(self, status, payload):
        self.status, self.payload = status, payload

    def __repr__(self):
        return 'Result(%r, %r)' % (self.status, self.payload)


def in_child(body):
    """Run body() in a forked child; its JSON-able return value is the payload.  status: 'ok', 'killed',
    ('exit', code).  Exceptions are classified as they would be in this process."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_PROF, 0)
        code = 3
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                out = {'ok': body()}
            except SystemExit as e:
                out = {'exit': 0 if e.code is None else e.code if isinstance(e.code, int) else 1}
            except BaseException as e:
                kind, msg = classify(e) if isinstance(e, Exception) else ('limit', repr(e))
                out = {'error': [kind, msg]}
            data = json.dumps(out, default=str).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == KILLED:
        return Result('killed', None)
    try:
        out = json.loads(b''.join(chunks))
    except ValueError:
        raise HarnessLimit('the child died: status %r' % st)
    if 'error' in out:
        kind, msg = out['error']
        if kind == 'violation':
            raise Violation(msg)
        raise HarnessLimit(msg)
    if 'exit' in out:
        return Result(('exit', out['exit']), None)
    return Result('ok', out['ok'])


class Events:
    """Counts events in a child, and kills it (or does something else meanwhile) at one of them."""

    def __init__(self, kill=None, meanwhile=None):
        self.meanwhile = meanwhile      # what to do at that event instead of ending
        self.n = {}
        self.total = 0
        self.kill = kill          # (kind, number)

    def __call__(self, kind):
        k = self.n.get(kind, 0)
        self.n[kind] = k + 1
        self.total += 1
        if self.kill is not None and self.kill == (kind, k):
            if self.meanwhile is None:
                os._exit(KILLED)
            self.kill = None
            self.meanwhile()


def run_script(rel, argv, cwd=None):
    path = os.path.join(REPO, rel)
    if not os.path.exists(path):
        raise HarnessLimit('%s is gone' % rel)
    sys.argv = [path] + [str(a) for a in argv]
    if cwd is not None:
        os.chdir(cwd)
    sys.path.insert(0, os.path.dirname(path))
    return runpy.run_path(path, run_name='__main__')
