"""The simulation driver: seeds -> cases -> forked runs -> minimised replay files."""
import json
import os
import random
import hashlib
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF


class Violation(Exception):
    """the property does not hold in this run"""

    def __init__(self, kind, message):
        super().__init__('%s: %s' % (kind, message))
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    pass


def rng_for(seed, prop, index):
    key = ('%d/%s/%d' % (seed, prop, index)).encode()
    return random.Random(int.from_bytes(hashlib.sha256(key).digest()[:8], 'big'))


class Ctx(object):
    """what a run reports about itself (never draws randomness, never reads a clock)"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.counts = {}
        self.states = set()
        self.sim_seconds = 0.0
        self.log = hashlib.sha256()
        self.nlog = 0
        self.nontrivial = False

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def event(self, *what):
        self.log.update(repr(what).encode())
        self.nlog += 1

    def state(self, *what):
        self.states.add(hashlib.sha256(repr(what).encode()).hexdigest()[:12])

    def simtime(self, seconds):
        self.sim_seconds += abs(seconds)

    def path(self, *parts):
        return os.path.join(self.scratch, *parts)

    def report(self):
        return {'counts': self.counts, 'states': sorted(self.states),
                'sim_seconds': self.sim_seconds, 'log': self.log.hexdigest(),
                'nlog': self.nlog, 'nontrivial': self.nontrivial}


def scratch_root():
    base = os.environ.get('VERIF_SCRATCH') or '/tmp'
    d = os.path.join(base, 'gnome-sim-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def _from_gnome(tb):
    """does the innermost in-repo/harness frame of this traceback belong to gnome?"""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(boot.SRC):
            return True, '%s:%s' % (os.path.relpath(fn, boot.SRC), fr.name)
        if fn.startswith(os.path.join(boot.VERIF, 'sim')):
            # harness code called (through gnome or not) and failed by itself
            if any(os.path.abspath(f.filename).startswith(boot.SRC)
                   for f in frames) and fr is not frames[-1]:
                continue
            return False, '%s:%s:%d' % (os.path.basename(fn), fr.name, fr.lineno)
    return False, 'unknown'


def run_in_child(prop, case, scratch, timeout=120.0):
    """one simulated run in a fork of this (pristine) process; returns a result dict"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    _current_child[0] = pid
    if pid == 0:
        os.close(r)
        code = 0
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        try:
            os.setpgid(0, 0)
            res = _child(prop, case, scratch)
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 9
            try:
                os.write(w, json.dumps({'outcome': 'harness',
                                        'message': traceback.format_exc()[-3000:]}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    _current_child[0] = 0
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {'outcome': 'violation', 'kind': 'hang',
                'message': 'the run did not finish within %g s' % timeout}
    if not buf:
        return {'outcome': 'violation', 'kind': 'died',
                'message': 'the simulated process died (wait status %d)' % status}
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {'outcome': 'harness', 'message': 'unreadable result'}


def _child(prop, case, scratch):
    from . import world
    import gc
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    world.install(scratch, case.get('world_seed', 0))
    ctx = Ctx(scratch)
    if os.environ.get('VERIF_COV'):
        _coverage()
    try:
        prop.run(case, ctx)
        res = {'outcome': 'ok'}
    except Violation as v:
        res = {'outcome': 'violation', 'kind': v.kind, 'message': v.message[:2000]}
    except HarnessError as e:
        res = {'outcome': 'harness', 'message': str(e)}
    except BaseException as e:
        in_gnome, where = _from_gnome(e.__traceback__)
        tb = traceback.format_exc()
        if in_gnome:
            res = {'outcome': 'violation', 'kind': 'unexpected-' + type(e).__name__,
                   'message': ('%s at %s\n' % (e, where) + tb)[-2500:]}
        else:
            res = {'outcome': 'harness', 'message': tb[-3000:]}
    os.chdir('/')
    _coverage_save()
    res.update(ctx.report())
    return res


_lines = None


def _coverage():
    """development aid (VERIF_COV=folder): which lines of gnome the simulated runs execute"""
    global _lines
    _lines = set()
    src = os.path.join(boot.SRC, 'gnome') + os.sep
    m = sys.monitoring

    def line(code, n):
        if code.co_filename.startswith(src):
            _lines.add((code.co_filename[len(src):], n))
        return m.DISABLE
    m.use_tool_id(4, 'cov')
    m.register_callback(4, m.events.LINE, line)
    m.set_events(4, m.events.LINE)


def _coverage_save():
    if _lines:
        with open(os.path.join(os.environ['VERIF_COV'], '%d.txt' % os.getpid()), 'a') as f:
            f.write(''.join('%s:%d\n' % x for x in sorted(_lines)))


class ForkDied(Exception):
    def __init__(self, code):
        super().__init__('forked process ended with %r' % (code,))
        self.code = code


def fork_call(fn, *args, **kw):
    """fn(*args) in a fork of the current process (a fresh simulated process sharing only the
    file system); returns its (pickled) value, re-raises its exception, ForkDied when it
    crashed (the fault injector ends a process with os._exit)"""
    import pickle
    from . import world
    r, w = os.pipe()
    world.before_fork()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        world.after_fork()
        try:
            try:
                val = ('ok', fn(*args, **kw))
            except Violation as v:
                val = ('violation', (v.kind, v.message))
            except BaseException as e:
                in_gnome, where = _from_gnome(e.__traceback__)
                val = ('exc', (type(e).__name__, str(e), in_gnome, where,
                               traceback.format_exc()[-2500:]))
            data = pickle.dumps(val, protocol=4)
            _coverage_save()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + (1 << 20)])
            os._exit(0)
        finally:
            os._exit(7)
    os.close(w)
    buf = []
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf:
        raise ForkDied(os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st))
    kind, val = pickle.loads(b''.join(buf))
    if kind == 'ok':
        return val
    if kind == 'violation':
        raise Violation(*val)
    name, msg, in_gnome, where, tb = val
    if in_gnome:
        raise Violation('unexpected-' + name, '%s at %s\n%s' % (msg, where, tb))
    raise HarnessError(tb)


# --------------------------------------------------------------------------
# batch execution

_current_child = [0]


def _stop(signum, frame):
    if _current_child[0]:
        try:
            os.killpg(_current_child[0], signal.SIGKILL)
        except OSError:
            pass
    os._exit(0)


def _worker(prop, seed, indices, wfd, root, wall_deadline, timeout):
    signal.signal(signal.SIGTERM, _stop)
    for i in indices:
        if time.monotonic() > wall_deadline:
            break
        rng = rng_for(seed, prop.id, i)
        case = prop.gen(rng, i)
        case.setdefault('world_seed', i)
        scratch = os.path.join(root, 'c%d' % i)
        res = run_in_child(prop, case, scratch, timeout)
        line = json.dumps([i, res]) + '\n'
        data = line.encode()
        while data:
            n = os.write(wfd, data)
            data = data[n:]


def run_batch(prop, seed, n, jobs=None, wall=600.0, timeout=120.0, stop_after=3,
              is_known=lambda res: False):
    """runs cases 0..n-1 (each fully decided by (seed, index)); returns {index: result}"""
    jobs = jobs or min(8, os.cpu_count() or 1)
    root = scratch_root()
    t0 = time.monotonic()
    deadline = t0 + wall
    procs = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(prop, seed, range(j, n, jobs), w, root, deadline, timeout)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(8)
        os.close(w)
        procs.append([pid, r, b''])
    results = {}
    nviol = 0
    fds = {p[1]: p for p in procs}
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5.0)
        for fd in rd:
            p = fds[fd]
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                os.close(fd)
                del fds[fd]
                continue
            p[2] += chunk
            while b'\n' in p[2]:
                line, p[2] = p[2].split(b'\n', 1)
                i, res = json.loads(line.decode())
                results[i] = res
                if res['outcome'] == 'violation' and not is_known(res):
                    nviol += 1
        if stop_after and nviol >= stop_after:
            for p in procs:
                try:
                    os.kill(p[0], signal.SIGTERM)
                except OSError:
                    pass
            break
    bad = 0
    for p in procs:
        _, st = os.waitpid(p[0], 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) != 0:
            bad += 1
    for fd in list(fds):
        os.close(fd)
    time.sleep(0.05)
    shutil.rmtree(root, ignore_errors=True)
    return results, bad, time.monotonic() - t0


# --------------------------------------------------------------------------
# minimisation and replay

def _paths_of_lists(obj, path=()):
    if isinstance(obj, dict):
        for k in sorted(obj):
            for x in _paths_of_lists(obj[k], path + (k,)):
                yield x
    elif isinstance(obj, list):
        yield path, len(obj)
        for i, v in enumerate(obj):
            if isinstance(v, (dict, list)):
                for x in _paths_of_lists(v, path + (i,)):
                    yield x


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def generic_shrinks(case, shrinkable=('ops', 'faults', 'spills', 'movers', 'weatherers',
                                      'outputters', 'models')):
    """smaller variants of a case: drop chunks of the lists the property allows to shrink"""
    for path, n in list(_paths_of_lists(case)):
        if not path or path[-1] not in shrinkable or n == 0:
            continue
        size = n
        while size >= 1:
            for start in range(0, n, size):
                c = json.loads(json.dumps(case))
                lst = _get(c, path)
                del lst[start:start + size]
                yield c
            size //= 2


def minimise(prop, case, kind, budget=60.0, max_tries=150, timeout=60.0):
    t_end = time.monotonic() + budget
    best = case
    tries = 0
    root = scratch_root()
    improved = True
    while improved and time.monotonic() < t_end and tries < max_tries:
        improved = False
        for cand in prop.shrink(best):
            if time.monotonic() > t_end or tries >= max_tries:
                break
            tries += 1
            res = run_in_child(prop, cand, os.path.join(root, 'min'), timeout)
            if res['outcome'] == 'violation' and res['kind'] == kind:
                best = cand
                improved = True
                break
    shutil.rmtree(root, ignore_errors=True)
    return best, tries


def write_replay(prop, seed, index, case, res, tries):
    d = os.path.join(VERIF, 'out', 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-seed%d-case%d.json' % (prop.id, seed, index))
    with open(p, 'w') as f:
        json.dump({'property': prop.id, 'seed': seed, 'index': index, 'kind': res['kind'],
                   'message': res['message'], 'minimise_runs': tries, 'case': case},
                  f, indent=1, sort_keys=True)
    return p


def replay(prop, path, timeout=120.0):
    with open(path) as f:
        rec = json.load(f)
    root = scratch_root()
    res = run_in_child(prop, rec['case'], os.path.join(root, 'replay'), timeout)
    shutil.rmtree(root, ignore_errors=True)
    return rec, res


def replay_fresh(prop, path):
    """replay in a fresh interpreter, under another hash seed; True when it fails the same way"""
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '12345'
    env['VERIF_NO_REEXEC'] = '1'
    r = subprocess.run([boot.PY, os.path.join(VERIF, 'check.py'), prop.id, '--replay', path],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 1, r.stdout.decode(errors='replace')
