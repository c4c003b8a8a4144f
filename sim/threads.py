"""Threads under a seeded scheduler: exactly one runs at a time, and control passes from one to
another only at the entries into gnome's functions that the case lists (or when one ends)."""
import sys
import threading

from . import engine
from .faults import TOOL, _SRC


class Scheduler(object):
    """gaps: for each preemption, the number of gnome function entries before it and who is next"""

    def __init__(self, fns, gaps):
        self.fns = fns
        self.gaps = list(gaps)
        self.sem = [threading.Semaphore(0) for f in fns]
        self.alive = [True] * len(fns)
        self.idents = {}
        self.current = None
        self.left = None
        self.switches = []
        self.calls = 0
        self.res = [None] * len(fns)
        self.err = [None] * len(fns)
        self.main = threading.Semaphore(0)
        self._next_gap()

    def _next_gap(self):
        if self.gaps:
            n, self.to = self.gaps.pop(0)
            self.left = n
        else:
            self.left = None

    def _start(self, code, offset):
        if not code.co_filename.startswith(_SRC):
            return sys.monitoring.DISABLE
        if code.co_name in ('__del__', '<module>'):
            return None
        me = self.idents.get(threading.get_ident())
        if me is None or me != self.current or self.left is None:
            return None
        self.calls += 1
        self.left -= 1
        if self.left > 0:
            return None
        others = [i for i, a in enumerate(self.alive) if a and i != me]
        to = others[self.to % len(others)] if others else None
        self._next_gap()
        if to is None:
            return None
        self.switches.append((me, to, code.co_name))
        self.current = to
        self.sem[to].release()
        if not self.sem[me].acquire(timeout=100):
            raise engine.HarnessError('the scheduler is stuck')
        return None

    def _body(self, i):
        self.sem[i].acquire()
        self.idents[threading.get_ident()] = i
        try:
            self.res[i] = self.fns[i]()
        except BaseException as e:
            self.err[i] = e
        self.alive[i] = False
        others = [j for j, a in enumerate(self.alive) if a]
        if others:
            self.current = others[0]
            self.sem[others[0]].release()
        else:
            self.main.release()

    def run(self):
        m = sys.monitoring
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True)
              for i in range(len(self.fns))]
        for t in ts:
            t.start()
        m.use_tool_id(TOOL, 'sim')
        m.restart_events()
        m.register_callback(TOOL, m.events.PY_START, self._start)
        m.set_events(TOOL, m.events.PY_START)
        try:
            self.current = 0
            self.sem[0].release()
            if not self.main.acquire(timeout=110):
                raise engine.HarnessError('the scheduled threads do not end')
        finally:
            m.set_events(TOOL, 0)
            m.register_callback(TOOL, m.events.PY_START, None)
            m.free_tool_id(TOOL)
        for t in ts:
            t.join()
        for e in self.err:
            if e is not None:
                raise e
        return self.res
