"""Brings the code under test (/repo/py_gnome/gnome) into this interpreter.

* builds the native extension modules from /repo's current working tree
  (cmake, in a private directory: neither /repo nor /opt/vp is written to);
* puts the stand-ins for packages that are not installed (gridded, ...) and
  /repo/py_gnome on sys.path;
* imports gnome once; every simulated run then happens in a fork of this
  pristine process.
"""
import fcntl
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'py_gnome')
PY = '/opt/venv/bin/python'


class BuildFailed(Exception):
    pass


def _native_fingerprint():
    """hash of every native source (C++/Cython/cmake) of the working tree"""
    h = hashlib.sha256()
    exts = ('.pyx', '.pxd', '.pxi', '.cpp', '.c', '.h', '.hpp', '.cmake', '.txt')
    for top in ('gnome', 'lib_gnome', 'cmake'):
        for root, dirs, files in os.walk(os.path.join(SRC, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, SRC).encode())
                    try:
                        with open(p, 'rb') as fd:
                            h.update(hashlib.sha256(fd.read()).digest())
                    except OSError:
                        pass
    return h.hexdigest()


NATIVE = os.path.join(VERIF, 'out', 'native')


def ensure_native(log=sys.stderr):
    """(Re)build the extension modules when the sources are not those of the last build.

    The build directory is private to the checks (/verif/out/native): neither /repo nor /opt/vp
    is written to.  The modules built there are the ones that are imported (see _NativeFinder)."""
    if REPO != '/repo':
        return          # a scratch copy brings its own build products along
    state_dir = os.path.join(VERIF, 'out')
    os.makedirs(state_dir, exist_ok=True)
    stamp = os.path.join(state_dir, 'native.stamp')
    with open(os.path.join(state_dir, 'native.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        fp = _native_fingerprint()
        try:
            old = open(stamp).read().strip()
        except OSError:
            old = ''
        if old == fp and os.path.isdir(os.path.join(NATIVE, 'inst', 'gnome')):
            return
        t = time.time()
        if os.path.exists(stamp):
            os.remove(stamp)
        shutil.rmtree(NATIVE, ignore_errors=True)
        os.makedirs(NATIVE)
        env = {'HOME': '/root', 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
               'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:'
                       '/sbin:/bin'}
        for cmd in (['cmake', '-S', SRC, '-B', NATIVE, '-G', 'Ninja',
                     '-DCMAKE_BUILD_TYPE=Release', '-DSKBUILD_PROJECT_NAME=gnome',
                     '-DPython_EXECUTABLE=' + PY,
                     '-DCMAKE_INSTALL_PREFIX=' + os.path.join(NATIVE, 'inst')],
                    ['cmake', '--build', NATIVE], ['cmake', '--install', NATIVE]):
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL)
            if r.returncode != 0:
                raise BuildFailed(r.stdout.decode(errors='replace')[-4000:])
        with open(stamp, 'w') as f:
            f.write(fp)
        print('native build: %.1f s' % (time.time() - t), file=log)


class _NativeFinder:
    """finds gnome's extension modules in the private build instead of the source tree"""

    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if not name.startswith('gnome.'):
            return None
        parts = name.split('.')
        d = os.path.join(self.root, *parts[:-1])
        for suffix in importlib.machinery.EXTENSION_SUFFIXES:
            f = os.path.join(d, parts[-1] + suffix)
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(
                    name, f, loader=importlib.machinery.ExtensionFileLoader(name, f))
        return None


_loaded = False


def load():
    """import gnome (and what the scenarios use) once, quietly and deterministically"""
    global _loaded
    if _loaded:
        return
    sys.dont_write_bytecode = True
    for p in (os.path.join(VERIF, 'stubs'), SRC):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if REPO == '/repo':
        sys.meta_path.insert(0, _NativeFinder(os.path.join(NATIVE, 'inst')))
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import gnome  # noqa
    import gnome.scripting  # noqa
    import gnome.weatherers  # noqa
    import gnome.outputters  # noqa
    import gnome.movers  # noqa
    import gnome.maps  # noqa
    import gnome.persist  # noqa
    warnings.simplefilter('ignore')
    assert gnome.__file__.startswith(SRC), gnome.__file__
    _loaded = True
