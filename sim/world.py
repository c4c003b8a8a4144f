"""Deterministic surroundings for one simulated run (called in the forked child).

Everything the code under test could draw from outside its inputs is pinned here:
identifiers (uuid), temporary file names, the three random generators gnome uses,
environment variables, the working directory and the umask.
"""
import os
import random
import sys
import tempfile
import uuid


class _Names(object):
    """unique (per run and per fork of it) and repeatable temporary names"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.n = 0
        self.forks = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return '%sn%06d' % (self.prefix, self.n)


_ids = {'n': 0, 'proc': 0}


def install(scratch, seed):
    os.umask(0o022)
    tmp = os.path.join(scratch, '_tmp')
    os.makedirs(tmp, exist_ok=True)
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = tmp
    tempfile._name_sequence = _Names('sim%d' % seed)
    cache = sys.modules.get('gnome.utilities.cache')
    if cache is not None and hasattr(cache, 'global_cache_dir'):
        cache.global_cache_dir = os.path.join(tmp, 'gnome_cache')
        os.makedirs(cache.global_cache_dir, exist_ok=True)
    state = _ids
    state.update(n=0, proc=0)

    def fake_uuid(*a, **k):
        state['n'] += 1
        return uuid.UUID(int=(0x5eed << 96) + ((seed & 0xffff) << 72) + (state['proc'] << 32)
                         + state['n'])

    originals = (uuid.uuid1, uuid.uuid4)
    uuid.uuid1 = fake_uuid
    uuid.uuid4 = fake_uuid
    for name, mod in list(sys.modules.items()):
        if name.startswith('gnome') and mod is not None:
            for attr in ('uuid1', 'uuid4'):
                if getattr(mod, attr, None) in originals:
                    setattr(mod, attr, fake_uuid)
    reseed(seed)


def before_fork():
    ns = tempfile._name_sequence
    if isinstance(ns, _Names):
        ns.forks += 1


def after_fork():
    ns = tempfile._name_sequence
    if isinstance(ns, _Names):
        tempfile._name_sequence = _Names('%sf%d' % (ns.prefix, ns.forks))
        _ids['proc'] = (_ids['proc'] * 61 + ns.forks) % (1 << 40)


def reseed(seed):
    import numpy as np
    from gnome.utilities import rand
    rand.seed(int(seed) % 100000 + 7)
    random.seed(seed)
    np.random.seed(int(seed) % (2 ** 31))
