"""C06: the element cache returns every cached step exactly, and never anything else."""
import gc
import os
import shutil

import numpy as np

from .. import engine, faults, scen
from .base import Prop


def snap_pair(pair):
    out = []
    for sc in pair.items():
        out.append({'uncertain': bool(sc.uncertain),
                    'arrays': {k: np.array(v, copy=True) for k, v in sc.data_arrays.items()},
                    'mb': scen._plain(dict(sc.mass_balance)),
                    'stamp': str(sc.current_time_stamp)})
    return out


def pair_differ(got, want):
    if len(got) != len(want):
        return '%d containers, expected %d' % (len(got), len(want))
    for a, b in zip(got, want):
        who = 'uncertain ' if b['uncertain'] else ''
        if a['uncertain'] != b['uncertain']:
            return 'containers are mixed up'
        d = scen.arrays_differ(a['arrays'], b['arrays'])
        if d:
            return who + d
        if not scen.same_value(a['mb'], b['mb']):
            return '%smass balance %s, expected %s' % (who, a['mb'], b['mb'])
        if a['stamp'] != b['stamp']:
            return '%stime stamp %s, expected %s' % (who, a['stamp'], b['stamp'])
    return None


def make_outputter():
    from gnome.outputters import Outputter

    class Reader(Outputter):
        """reads each step from the cache, as the outputters do, and spoils what it got"""

        def __init__(self, **k):
            super().__init__(**k)
            self.got = {}

        def write_output(self, step_num, islast_step=False):
            super().write_output(step_num, islast_step)
            pair = self.cache.load_timestep(step_num)
            self.got[step_num] = snap_pair(pair)
            spoil(pair)
            return None
    return Reader()


def spoil(pair):
    for sc in pair.items():
        for k, v in list(sc.data_arrays.items()):
            if len(v):
                v[...] = 7
        sc.mass_balance['floating'] = -1.0
        sc.mass_balance['bogus'] = 1.0


class PROP(Prop):
    id = 'C06'
    quick_n = 500
    thorough_n = 12000
    fault_kinds = ('disk-enospc', 'disk-eio', 'disk-torn', 'lost-dir', 'component-*')
    rule = ('seeded schedules of stepping, rewinding, reading, spoiling what was read, switching '
            'the cache and uncertainty, interleaving and dropping a second model, with disk '
            'faults while caching; every read compared with the recorded state of that step. '
            'Non-trivial: an earlier step was read back from disk.')

    def gen(self, rng, index):
        specs = [scen.gen_spec(rng) for i in range(rng.choice([1, 1, 2]))]
        for s in specs:
            s['cache'] = rng.random() < 0.8
        ops = []
        for i in range(rng.randint(4, 22)):
            k = scen.pick(rng, step=10, load=8, rewind=1, toggle=1, unc=0.6, run=0.8, drop=0.3,
                          fault=1.2, lost=0.3, fail=1)
            op = {'op': k, 'm': rng.randrange(len(specs))}
            if k == 'step':
                op['n'] = rng.randint(1, 4)
            elif k == 'load':
                op['k'] = rng.randint(0, 11)
                op['spoil'] = rng.random() < 0.5
            elif k == 'fail':
                op['where'] = rng.choice(['move', 'done', 'prepare_step'])
                op['n'] = rng.randint(1, 8)
                op['at'] = rng.randint(0, 6)
            elif k == 'fault':
                op['at'] = rng.randint(1, 60)
                op['kind'] = rng.choice(['enospc', 'eio', 'torn'])
                op['part'] = rng.choice([0.0, 0.3, 0.9])
            ops.append(op)
        own = None
        if rng.random() < 0.3:
            own = {'dir': rng.random() < 0.6, 'enabled': rng.random() < 0.9}
        return {'specs': specs, 'ops': ops, 'own': own}

    def run(self, case, ctx):
        from gnome.utilities import cache as gcache
        ms, outs, hist, on_disk, latest, alive = [], [], [], [], [], []
        own = None
        if case['own']:
            d = None
            if case['own']['dir']:
                d = ctx.path('owncache')
                os.makedirs(d)
            own = gcache.ElementCache(cache_dir=d, enabled=case['own']['enabled'])
            ownhist, owndisk = {}, set()
        for i, s in enumerate(case['specs']):
            w = ctx.path('w%d' % i)
            os.makedirs(w)
            m = scen.build(s, w)
            o = make_outputter()
            m.outputters += o
            ms.append(m)
            outs.append(o)
            hist.append({})
            on_disk.append(set())
            latest.append(None)

        def forget(i):
            hist[i], on_disk[i], latest[i] = {}, set(), None
            outs[i].got.clear()

        def rewound(i):
            forget(i)
            if own is not None and i == 0:
                own.rewind()
                ownhist.clear()
                owndisk.clear()

        dirty = set()

        def step(i):
            m = ms[i]
            if i in dirty:
                # (after a failed step the run has to be started again)
                m.rewind()
                rewound(i)
                dirty.discard(i)
            fresh = m.current_time_step < 0
            if fresh and hist[i]:
                rewound(i)
            try:
                m.step()
            except StopIteration:
                return False
            k = m.current_time_step
            hist[i][k] = snap_pair(m.spills)
            latest[i] = k
            if m.cache_enabled:
                on_disk[i].add(k)
            got = outs[i].got.pop(k, None)
            if got is None:
                raise engine.Violation('output', 'step %d did not reach the outputter' % k)
            d = pair_differ(got, hist[i][k])
            if d:
                raise engine.Violation('wrong', 'outputter read step %d as: %s' % (k, d))
            if own is not None and i == 0:
                own.save_timestep(k, m.spills)
                ownhist[k] = hist[i][k]
                if own.enabled:
                    owndisk.add(k)
                    if case['own']['dir'] and not any(
                            os.path.getsize(os.path.join(ctx.path('owncache'), f))
                            for f in (os.listdir(ctx.path('owncache'))
                                      if os.path.isdir(ctx.path('owncache')) else [])):
                        raise engine.Violation('where', 'step %d is not stored in the directory '
                                               'given to the cache' % k)
            ctx.simtime(case['specs'][i]['ts'])
            ctx.state(i, min(k, 4), m.cache_enabled, len(hist[i][k]), len(on_disk[i]) > 2,
                      own is not None)
            return True

        def load(cache, k, h, disk, last, what, spoil_it):
            must = k in disk or (k == last and last is not None)
            try:
                pair = cache.load_timestep(k)
            except gcache.CacheError:
                if must:
                    raise engine.Violation('lost', '%s: cached step %d is not found' % (what, k))
                ctx.count('probe:refused')
                ctx.event('refused', k)
                return
            if k not in h:
                raise engine.Violation('stale', '%s: step %d was not run (since the last rewind) '
                                       'but is returned' % (what, k))
            if not must:
                raise engine.Violation('stale', '%s: step %d was not cached but is returned'
                                       % (what, k))
            d = pair_differ(snap_pair(pair), h[k])
            if d:
                raise engine.Violation('wrong', '%s: step %d: %s' % (what, k, d))
            if k != last:
                ctx.nontrivial = True
            if spoil_it:
                spoil(pair)
            ctx.event('loaded', k)

        failed = {}              # the step that could not be cached may or may not be readable
        broken = set()           # models whose cache directory was lost
        for op in case['ops']:
            i, k = op['m'], op['op']
            if ms[i] is None:
                continue
            m = ms[i]
            ctx.count('op:' + k)
            if k == 'step':
                for j in range(op['n']):
                    if i in broken:
                        m.rewind()
                        rewound(i)
                        broken.discard(i)
                    if not step(i):
                        break
            elif k == 'run':
                m.rewind()
                rewound(i)
                broken.discard(i)
                dirty.discard(i)
                while step(i):
                    pass
            elif k == 'rewind':
                m.rewind()
                rewound(i)
                broken.discard(i)
                dirty.discard(i)
            elif k == 'toggle':
                m.cache_enabled = not m.cache_enabled
            elif k == 'unc':
                m.uncertain = not m.uncertain
                if m.current_time_step < 0:
                    rewound(i)
                    dirty.discard(i)
                    broken.discard(i)
            elif k == 'drop':
                if len(ms) > 1 and i > 0:
                    ms[i] = outs[i] = None
                    del m
                    gc.collect()
            elif k == 'load':
                if i in dirty and failed.get(i) in (op['k'], op['k'] + 1):
                    continue
                load(outs[i].cache, op['k'], hist[i], on_disk[i], latest[i], 'model %d' % i,
                     op['spoil'])
                if own is not None and i == 0:
                    load(own, op['k'], ownhist, owndisk, max(ownhist) if ownhist else None,
                         'own cache', op['spoil'])
            elif k == 'lost':
                # the temporary directory is cleaned away under the running model
                d = gcache.global_cache_dir
                for f in os.listdir(d):
                    if os.path.join(d, f) != getattr(own, '_cache_dir', None):
                        shutil.rmtree(os.path.join(d, f), ignore_errors=True)
                ctx.count('fault:lost-dir')
                for j in range(len(ms)):
                    on_disk[j] = set()
                    broken.add(j)
            elif k == 'fault':
                if i in broken or m.current_time_step < 0 and not hist[i]:
                    continue
                if i in dirty:
                    continue
                with faults.FS(gcache.global_cache_dir,
                               {'at': op['at'], 'kind': op['kind'], 'part': op['part']}) as fs:
                    try:
                        m.step()
                        ok = True
                    except StopIteration:
                        continue
                    except OSError:
                        ok = False
                if fs.fired:
                    ctx.count('fault:disk-' + op['kind'])
                ctx.event('fault', fs.n, fs.fired)
                # (opening is retried; a step that succeeds has to be cached completely)
                if ok:
                    kk = m.current_time_step
                    hist[i][kk] = snap_pair(m.spills)
                    latest[i] = kk
                    outs[i].got.pop(kk, None)
                    if m.cache_enabled:
                        on_disk[i].add(kk)
                    if own is not None and i == 0:
                        own.save_timestep(kk, m.spills)
                        ownhist[kk] = hist[i][kk]
                        if own.enabled:
                            owndisk.add(kk)
                else:
                    outs[i].got.clear()
                    dirty.add(i)
                    # what was cached before is still there
                    for kk in sorted(on_disk[i]):
                        load(outs[i].cache, kk, hist[i], on_disk[i], None, 'after a disk fault',
                             True)
                    latest[i] = None
                    failed[i] = m.current_time_step + 1
            elif k == 'fail':
                if i in broken or i in dirty:
                    continue
                u = scen.user_classes()['mover'](plan={'where': op.get('where', 'move'),
                                                             'step': op.get('at', 0)})
                m.movers += u
                rewound(i)      # (adding a mover rewinds)
                if m.current_time_step >= 0:
                    raise engine.Violation('rewind', 'adding a mover did not rewind')
                try:
                    for j in range(1 + op.get('n', 1)):
                        if not step(i):
                            break
                except scen.UserError:
                    ctx.count('fault:component-' + op.get('where', 'move'))
                    # the step that failed left no trace in what was cached before
                    k0 = latest[i]
                    if k0 is not None:
                        for kk in sorted(on_disk[i] | {k0}):
                            load(outs[i].cache, kk, hist[i], on_disk[i], k0,
                                 'after a failed step', False)
                outs[i].got.clear()
                m.movers.remove(u.id)
                m.rewind()
                rewound(i)
        # at the end everything cached is still exact
        for i, m in enumerate(ms):
            if m is None or i in dirty:
                continue
            for k in range(0, 13):
                load(outs[i].cache, k, hist[i], on_disk[i], latest[i], 'model %d, at the end' % i,
                     False)
