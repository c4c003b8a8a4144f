"""A simulated host for gnome.multi_model_broadcast: processes, ipc sockets and a clock.

The consumers are real forks of the simulated parent process and run the real code of
ModelConsumer on their own copy of the model; they do nothing between messages.  What stands
between them and the parent (zmq's REQ/REP sockets over ipc, the event loop, process start and
termination, the clock) is simulated: every delivery, delay, time-out and crash is decided here,
from plain data in the case, in virtual time.
"""
import heapq
import os
import pickle
import signal
import struct
import sys
import traceback as _tb
import types

from . import engine, world

EFSM, EAGAIN = 156384763, 11
REQ, REP, RCVTIMEO, LINGER, SNDTIMEO = 3, 4, 27, 17, 28


class ZMQError(Exception):
    def __init__(self, errno=None, msg=None):
        super().__init__(msg or 'zmq error %s' % errno)
        self.errno = errno
        self.strerror = msg


class Again(ZMQError):
    def __init__(self):
        super().__init__(EAGAIN, 'Resource temporarily unavailable')


def _read(fd, n):
    out = b''
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            return None
        out += c
    return out


def _get(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    return pickle.loads(_read(fd, struct.unpack('<q', h)[0]))


def _put(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack('<q', len(data)) + data
    off = 0
    while off < len(data):
        off += os.write(fd, data[off:off + 65536])


class Net(object):
    """one simulated host; plan = {'lat': [...], 'start': [...], 'work': [...], 'faults': [...]}

    lat: message delays in seconds, used in turn; start: seconds until consumer k listens;
    work: seconds a command takes besides what it sleeps; faults: {'c': consumer, 'at': number of
    the command it gets, 'kind': 'kill' | 'kill_after' | 'slow', 'secs'} or {'kind': 'fork', 'at': k}
    """

    def __init__(self, plan):
        self.plan = plan
        self.now = 1000.0
        self.heap = []
        self.seq = 0
        self.nlat = 0
        self.procs = []
        self.socks = []
        self.files = set()
        self.fired = []
        self.log = []
        self.child = None          # set in a consumer

    # ---- clock and delivery

    def latency(self):
        l = self.plan['lat']
        self.nlat += 1
        return l[self.nlat % len(l)] if l else 0.001

    def at(self, t, what):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, what))

    def next_event(self):
        t, _, what = heapq.heappop(self.heap)
        self.now = max(self.now, t)
        what(t)

    def fault(self, c, n):
        for f in self.plan['faults']:
            if f.get('c') == c and f.get('at') == n and f['kind'] != 'fork':
                return f
        return None

    # ---- processes

    def process_class(net):
        class Process(object):
            pid = exitcode = name = None
            daemon = alive = False

            def __init__(self, *a, **k):
                self.name = k.get('name', 'ModelConsumer')
                self.daemon = bool(k.get('daemon', False))

            @property
            def ident(self):
                return self.pid

            @property
            def sentinel(self):
                return self.pid

            def start(self):
                k = len(net.procs)
                for f in net.plan['faults']:
                    if f['kind'] == 'fork' and f['at'] == k and not f.get('done'):
                        f['done'] = True
                        net.fired.append('fork')
                        raise BlockingIOError(EAGAIN, 'Resource temporarily unavailable')
                a, b = os.pipe(), os.pipe()
                world.before_fork()
                pid = os.fork()
                if pid == 0:
                    try:
                        world.after_fork()
                        os.close(a[1])
                        os.close(b[0])
                        for p in net.procs:
                            os.close(p.inp)
                            os.close(p.out)
                        net.child = (a[0], b[1])
                        self.run()
                        os._exit(0)
                    except BaseException:
                        _put(b[1], ('died', _tb.format_exc()[-1500:]))
                    finally:
                        os._exit(3)
                os.close(a[0])
                os.close(b[1])
                self.pid = pid
                self.inp, self.out = a[1], b[0]
                self.k = k
                self.alive = True
                self.reaped = False
                self.got = 0
                st = net.plan['start']
                self.busy = net.now + (st[k % len(st)] if st else 0.0)
                net.procs.append(self)
                r = _get(self.out)       # it listens now (or died trying)
                if r is None or r[0] != 'listening':
                    net.log.append(('died', k, r))
                    self._die()

            def _die(self):
                self.alive = False
                if not self.reaped:
                    try:
                        os.kill(self.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(self.pid, 0)
                    self.reaped = True
                    if self.exitcode is None:
                        self.exitcode = -9
                    os.close(self.inp)
                    os.close(self.out)

            def terminate(self):
                if self.alive:
                    self.exitcode = -15
                    self._die()

            kill = terminate

            def join(self, timeout=None):
                end = None if timeout is None else net.now + timeout
                while getattr(self, 'alive', False):
                    if not net.heap or (end is not None and net.heap[0][0] > end):
                        if end is None:
                            raise engine.Violation('hang', 'waiting for a consumer that never '
                                                   'ends')
                        net.now = end
                        return
                    net.next_event()

            def is_alive(self):
                return getattr(self, 'alive', False)

            def close(self):
                pass

        net.Process = Process
        return Process

    def deliver(self, proc, sock, data, t):
        """a request reaches a consumer"""
        if not proc.alive:
            return
        if proc.busy > t:
            self.at(proc.busy, lambda t2: self.deliver(proc, sock, data, t2))
            return
        n = proc.got
        proc.got += 1
        f = self.fault(proc.k, n)
        if f is not None:
            self.fired.append(f['kind'])
        if f is not None and f['kind'] == 'kill':
            proc._die()
            return
        _put(proc.inp, data)
        r = _get(proc.out)
        if r is None or r[0] == 'died':
            self.log.append(('died', proc.k, r))
            proc._die()
            return
        _, replies, secs, stopped, err = r
        w = self.plan['work']
        secs += w[(proc.k + n) % len(w)] if w else 0.001
        if f is not None and f['kind'] == 'slow':
            secs += f['secs']
        proc.busy = t + secs
        self.log.append((proc.k, n, round(secs, 4), len(replies), bool(err)))
        if stopped:
            proc.exitcode = 0
            proc._die()
        if f is not None and f['kind'] == 'kill_after':
            proc._die()
            return
        for x in replies:
            def arrive(t2, x=x):
                if not sock.closed:
                    sock.inbox.append(x)
            self.at(proc.busy + self.latency(), arrive)

    # ---- zmq

    def modules(net):
        zmq = types.ModuleType('zmq')
        zmq.ZMQError, zmq.Again = ZMQError, Again
        zmq.REQ, zmq.REP, zmq.RCVTIMEO, zmq.LINGER, zmq.SNDTIMEO = (REQ, REP, RCVTIMEO, LINGER,
                                                                    SNDTIMEO)
        zmq.EFSM, zmq.EAGAIN = EFSM, EAGAIN
        zmq.POLLIN, zmq.POLLOUT, zmq.NOBLOCK, zmq.DONTWAIT = 1, 2, 1, 1
        zmq.error = types.SimpleNamespace(ZMQError=ZMQError, Again=Again)

        class Socket(object):
            def __init__(self, kind):
                self.kind = kind
                self.opts = {RCVTIMEO: -1, LINGER: -1, SNDTIMEO: -1}
                self.closed = False
                self.waiting = False
                self.inbox = []
                self.peer = None
                net.socks.append(self)

            def setsockopt(self, o, v):
                self._open()
                if isinstance(v, bool) or not isinstance(v, int):
                    raise TypeError('expected int, got: %r' % v)
                self.opts[o] = v

            def getsockopt(self, o):
                self._open()
                return self.opts[o]

            def _open(self):
                if self.closed:
                    raise ZMQError(88, 'Socket operation on non-socket')

            def bind(self, addr):
                path = addr[len('ipc://'):]
                try:
                    open(path, 'w').close()
                except OSError as e:
                    raise ZMQError(e.errno, e.strerror)
                self.path = path

            def connect(self, addr):
                self.peer = addr[len('ipc://'):]

            def _proc(self):
                for p in net.procs:
                    if self.peer.endswith('Task-%s' % p.task_port):
                        return p
                return None

            def send(self, data, flags=0, copy=True, track=False, **kw):
                self._open()
                if not isinstance(data, (bytes, bytearray, memoryview)):
                    raise TypeError('%r does not provide a buffer interface.' % (data,))
                if self.kind == REQ:
                    if self.waiting:
                        raise ZMQError(EFSM, 'Operation cannot be accomplished in current state')
                    self.waiting = True
                    del self.inbox[:]
                    p = self._proc()
                    if p is not None:
                        net.at(net.now + net.latency(),
                               lambda t: net.deliver(p, self, bytes(data), t))
                else:
                    self.outbox.append(bytes(data))

            set, get = setsockopt, getsockopt

            def _opt(o):
                return property(lambda s: s.getsockopt(o), lambda s, v: s.setsockopt(o, v))
            RCVTIMEO = rcvtimeo = _opt(RCVTIMEO)
            SNDTIMEO = sndtimeo = _opt(SNDTIMEO)
            LINGER = linger = _opt(LINGER)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def send_pyobj(self, obj, flags=0, protocol=4, **kw):
                self.send(pickle.dumps(obj, protocol))

            def recv_pyobj(self, flags=0):
                return pickle.loads(self.recv(flags))

            def poll(self, timeout=None, flags=1):
                self._open()
                end = None if timeout is None or timeout < 0 else net.now + timeout / 1000.
                while not self.inbox:
                    if not net.heap or (end is not None and net.heap[0][0] > end):
                        if end is None:
                            raise engine.Violation('hang', 'waiting without a limit for a response '
                                                   'that will never come')
                        net.now = end
                        return 0
                    net.next_event()
                return 1

            def recv(self, flags=0, copy=True, track=False):
                self._open()
                if not self.waiting:
                    raise ZMQError(EFSM, 'Operation cannot be accomplished in current state')
                limit = 0 if flags & 1 else self.opts[RCVTIMEO]
                end = None if limit < 0 else net.now + limit / 1000.
                while not self.inbox:
                    if not net.heap or (end is not None and net.heap[0][0] > end):
                        if end is None:
                            raise engine.Violation('hang', 'waiting without a limit for a response '
                                                   'that will never come')
                        net.now = end
                        raise Again()
                    net.next_event()
                self.waiting = False
                return self.inbox.pop(0)

            def close(self, linger=None):
                self.closed = True

        class Context(object):
            def __init__(self, *a):
                self.socks = []
                self.closed = False

            def socket(self, kind):
                s = Socket(kind)
                self.socks.append(s)
                return s

            def term(self):
                if any(not s.closed for s in self.socks):
                    raise engine.Violation('hang', 'the context is ended with open sockets: this '
                                           'never returns')
                self.closed = True

            def destroy(self, linger=None):
                for s in self.socks:
                    s.close()
                self.closed = True
        zmq.Socket, zmq.Context = Socket, Context

        class Poller(object):
            def __init__(self):
                self.sockets = []

            def register(self, s, flags=1):
                self.sockets.append((s, flags))

            def unregister(self, s):
                self.sockets = [x for x in self.sockets if x[0] is not s]

            def poll(self, timeout=None):
                end = None if timeout is None or timeout < 0 else net.now + timeout / 1000.
                while True:
                    r = [(s, 1) for s, f in self.sockets if s.inbox]
                    if r:
                        return r
                    if not net.heap or (end is not None and net.heap[0][0] > end):
                        if end is None:
                            raise engine.Violation('hang', 'waiting without a limit for a response '
                                                   'that will never come')
                        net.now = end
                        return []
                    net.next_event()
        zmq.Poller = Poller

        ioloop = types.ModuleType('zmq.eventloop.ioloop')

        class IOLoop(object):
            _one = None

            @classmethod
            def instance(cls):
                if cls._one is None:
                    cls._one = cls()
                return cls._one
            current = instance

            def __init__(self):
                self.streams = []
                self.running = False

            def stop(self):
                self.running = False

            def start(self):
                i, o = net.child
                self.running = True
                sock = self.streams[0].sock
                _put(o, ('listening',))
                while self.running:
                    data = _get(i)
                    if data is None:
                        os._exit(0)
                    sock.outbox = []
                    vtime.slept = 0.0
                    err = None
                    try:
                        self.streams[0].cb([data])
                    except Exception:
                        err = _tb.format_exc()[-800:]     # (the real loop logs it and goes on)
                    _put(o, ('done', sock.outbox, vtime.slept, not self.running, err))
        ioloop.IOLoop = IOLoop

        zs = types.ModuleType('zmq.eventloop.zmqstream')

        class ZMQStream(object):
            def __init__(self, sock, loop=None):
                self.sock = sock
                (loop or IOLoop.instance()).streams.append(self)

            def on_recv(self, cb, copy=True):
                self.cb = cb

            def send(self, msg, flags=0, copy=True, track=False, callback=None, **kw):
                self.sock.send(msg)

            def send_multipart(self, msgs, *a, **kw):
                self.sock.send(b''.join(msgs))

            def send_pyobj(self, obj, *a, **kw):
                self.sock.send(pickle.dumps(obj))

            def send_string(self, u, flags=0, encoding='utf-8', callback=None, **kw):
                if not isinstance(u, str):
                    raise TypeError('unicode/str objects only')
                self.sock.send(u.encode(encoding))
            send_unicode = send_string
        zs.ZMQStream = ZMQStream

        ev = types.ModuleType('zmq.eventloop')
        ev.ioloop, ev.zmqstream = ioloop, zs
        zmq.eventloop = ev

        class VTime(object):
            """the clock: simulated in the parent, adding up what a consumer sleeps"""
            slept = 0.0

            def sleep(self, s):
                self.slept += s

            def time(self):
                return net.now + self.slept
            monotonic = perf_counter = time
        vtime = VTime()
        net.vtime = vtime

        tblib = types.ModuleType('tblib')
        ps = types.ModuleType('tblib.pickling_support')

        def install(*a):
            import copyreg
            copyreg.pickle(types.TracebackType, lambda t: (_some_traceback, ()))
        ps.install = install
        tblib.pickling_support = ps

        return {'zmq': zmq, 'zmq.eventloop': ev, 'zmq.eventloop.ioloop': ioloop,
                'zmq.eventloop.zmqstream': zs, 'tblib': tblib, 'tblib.pickling_support': ps}

    def load(self):
        """the real gnome.multi_model_broadcast on this host"""
        import importlib
        import multiprocessing
        for k, v in self.modules().items():
            sys.modules[k] = v
        P = multiprocessing.Process
        multiprocessing.Process = self.process_class()
        try:
            sys.modules.pop('gnome.multi_model_broadcast', None)
            mod = importlib.import_module('gnome.multi_model_broadcast')
        finally:
            multiprocessing.Process = P
        mod.time = self.vtime
        return mod


def _some_traceback():
    try:
        raise RuntimeError
    except RuntimeError:
        return sys.exc_info()[2]
