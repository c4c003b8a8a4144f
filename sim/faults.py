"""Fault injectors.  Each is armed with plain data and fires at an exactly repeatable point."""
import builtins
import errno
import io
import os
import shutil
import sys

from . import boot

TOOL = 3
_SRC = os.path.join(boot.SRC, 'gnome') + os.sep


class SimInterrupt(KeyboardInterrupt):
    pass


class SimNoMemory(MemoryError):
    pass


EXC = {'KeyboardInterrupt': SimInterrupt, 'MemoryError': SimNoMemory}


class CallPoints(object):
    """Counts entries into gnome's Python functions; raises at entry number `at`.

    (sys.monitoring PY_START events; the injected exception surfaces in the entered function,
    as a signal or a failed allocation would)
    """

    def __init__(self, at=None, exc='KeyboardInterrupt', only=None):
        self.at = at
        self.exc = EXC[exc]
        self.n = 0
        self.fired = None
        self.only = only

    def _start(self, code, offset):
        fn = code.co_filename
        if not fn.startswith(_SRC):
            return sys.monitoring.DISABLE
        if code.co_name in ('__del__', '<lambda>', '__repr__', '__str__'):
            return None
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = '%s:%s' % (os.path.relpath(fn, _SRC), code.co_name)
            raise self.exc('injected at call %d (%s)' % (self.n, self.fired))

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'sim')
        m.restart_events()
        m.register_callback(TOOL, m.events.PY_START, self._start)
        m.set_events(TOOL, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.PY_START, None)
        m.free_tool_id(TOOL)
        return False


def count_calls(fn):
    with CallPoints() as c:
        try:
            fn()
        except StopIteration:
            pass
    return c.n


# --------------------------------------------------------------------------
# file system

CRASH_CODE = 77


class DiskFault(OSError):
    pass


class FS(object):
    """Seam over the file operations gnome's Python code uses below `root`.

    Every mutating operation (open for writing, write, close of a written file, rename, remove,
    mkdir, rmtree) is numbered.  plan = {'at': k, 'kind': ...}:
      enospc / eio   operation k fails with that error (once; 'sticky' keeps failing)
      torn           operation k, if a write, stores only a prefix of its data, then fails
      crash          the process ends before operation k is performed
      torn_crash     operation k, if a write, stores only a prefix of its data, then crash
    With reads=True, opening files for reading, and reading binary ones, are numbered instead.
    Writes of C libraries (netCDF4/HDF5, GDAL) do not come through here.
    """

    def __init__(self, root, plan=None, reads=False):
        self.reads = reads
        self.root = os.path.realpath(root) + os.sep
        self.plan = plan
        self.n = 0
        self.fired = None
        self.trace = []
        self.off = False

    # ---- decision

    def _mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        return (p + os.sep).startswith(self.root)

    def hit(self, what, path, data=None):
        """returns None (go on) or ('partial', n) for a torn write; may raise or end"""
        if self.off:
            return None
        self.n += 1
        self.trace.append('%s %s' % (what, os.path.basename(str(path))))
        p = self.plan
        if p is None:
            return None
        due = self.n == p['at'] or (p.get('sticky') and self.n > p['at'])
        if not due:
            return None
        kind = p['kind']
        self.fired = '%s at op %d (%s)' % (kind, self.n, self.trace[-1])
        if kind == 'crash':
            os._exit(CRASH_CODE)
        if kind in ('torn', 'torn_crash') and data is not None and len(data) > 0:
            return ('partial', int(len(data) * p.get('part', 0.5)), kind)
        if kind == 'torn_crash':
            os._exit(CRASH_CODE)
        code = errno.ENOSPC if kind in ('enospc', 'torn') else errno.EIO
        raise DiskFault(code, os.strerror(code) + ' (injected)', str(path))

    # ---- patched functions

    def __enter__(self):
        self._saved = []

        def patch(obj, name, new):
            self._saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, new)

        fs = self
        real_open = io.open

        def sim_open(file, mode='r', *a, **k):
            if fs.reads:
                if isinstance(file, int) or 'r' not in mode or not fs._mine(file):
                    return real_open(file, mode, *a, **k)
                fs.hit('open:' + mode, file)
                f = real_open(file, mode, *a, **k)
                return _RFile(f, fs, file) if 'b' in mode else f
            if (isinstance(file, int) or not fs._mine(file)
                    or not any(c in mode for c in 'wax+')):
                return real_open(file, mode, *a, **k)
            fs.hit('open:' + mode, file)
            f = real_open(file, mode, *a, **k)
            return _File(f, fs, file)

        patch(builtins, 'open', sim_open)
        patch(io, 'open', sim_open)
        if self.reads:
            return self
        for name in ('rename', 'replace', 'link', 'symlink'):
            patch(os, name, self._wrap2(name, getattr(os, name)))
        for name in ('remove', 'unlink', 'mkdir', 'rmdir', 'truncate'):
            patch(os, name, self._wrap1(name, getattr(os, name)))
        for name in ('rmtree',):
            patch(shutil, name, self._wrap1(name, getattr(shutil, name)))
        # the fast copy paths bypass open(); make shutil use the seam
        patch(shutil, '_USE_CP_SENDFILE', False)
        return self

    def __exit__(self, *a):
        for obj, name, old in reversed(self._saved):
            setattr(obj, name, old)
        return False

    def _wrap1(self, name, real):
        fs = self

        def f(path, *a, **k):
            if fs.off or k.get('dir_fd') is not None or not fs._mine(path):
                return real(path, *a, **k)
            fs.hit(name, path)
            return real(path, *a, **k)
        return f

    def _wrap2(self, name, real):
        fs = self

        def f(src, dst, *a, **k):
            if fs.off or not (fs._mine(src) or fs._mine(dst)):
                return real(src, dst, *a, **k)
            fs.hit(name, dst)
            return real(src, dst, *a, **k)
        return f


class _RFile(object):
    """a file being read under the seam"""

    def __init__(self, f, fs, path):
        self._f, self._fs, self._path = f, fs, path

    def read(self, *a):
        self._fs.hit('read', self._path)
        return self._f.read(*a)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


class _File(object):
    """a writable file under the seam"""

    def __init__(self, f, fs, path):
        self.__dict__['_f'] = f
        self.__dict__['_fs'] = fs
        self.__dict__['_path'] = path

    def write(self, data):
        act = self._fs.hit('write', self._path, data)
        if act is None:
            return self._f.write(data)
        self._f.write(data[:act[1]])
        self._f.flush()
        if act[2] == 'torn_crash':
            os._exit(CRASH_CODE)
        raise DiskFault(errno.ENOSPC, 'No space left on device (injected)', str(self._path))

    def writelines(self, lines):
        for ln in lines:
            self.write(ln)

    def close(self):
        if not self._f.closed:
            try:
                self._fs.hit('close', self._path)
            except BaseException:
                self._f.close()
                raise
        return self._f.close()

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, v):
        setattr(self._f, name, v)
