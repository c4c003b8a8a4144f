"""C10: a saved model loads as the same model, in any process, whenever it was saved."""
import os
import shutil
import zipfile

from .. import engine, scen
from .base import Prop
from .c05 import try_step
from .c07 import gen_outputter, build_outputter

NAMES = ['A', 'A', 'two words', 'x.y', 'Modell Öl', 'a-b_c', 'B', '100%', 'q"q', 'tab\tname']


def run_trace(m):
    """snapshot of every step and which outputters produced something"""
    m.rewind()
    out = []
    for i in range(200):
        try:
            info = m.step()
        except StopIteration:
            return out
        s = scen.snapshot(m)
        s['outputs'] = sorted(k for k in info if k.endswith('Output'))
        out.append(s)
    raise engine.Violation('endless', 'the run did not end')


def close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9
    return a == b


def nearly(a, b):
    """as snaps_differ, within rounding of amounts converted to mass and back"""
    import numpy as np
    if a['step'] != b['step'] or a['time'] != b['time'] or len(a['sc']) != len(b['sc']):
        return scen.snaps_differ(a, b)
    for x, y in zip(a['sc'], b['sc']):
        if set(x['arrays']) != set(y['arrays']):
            return 'step %d: different arrays' % a['step']
        for k, v in x['arrays'].items():
            w = y['arrays'][k]
            if v.shape != w.shape or v.dtype != w.dtype:
                return 'step %d: %s has shape %s, expected %s' % (a['step'], k, v.shape, w.shape)
            if v.dtype.kind != 'f':
                ok = np.array_equal(v, w)
            else:
                big = float(np.max(np.abs(np.where(np.isfinite(w), w, 0)), initial=0.0))
                ok = np.allclose(v, w, rtol=1e-6, atol=1e-9 * big + 1e-12, equal_nan=True)
            if not ok:
                return 'step %d: %s is %s, expected %s' % (a['step'], k, v.ravel()[:8].tolist(),
                                                           w.ravel()[:8].tolist())
        if not close(x['mb'], y['mb']):
            return 'step %d: mass balance %s, expected %s' % (a['step'], x['mb'], y['mb'])
        if x['stamp'] != y['stamp']:
            return 'step %d: stamp %s, expected %s' % (a['step'], x['stamp'], y['stamp'])
    return None


def numbers(x):
    """numeric content of an attribute, or None"""
    import numpy as np
    try:
        a = np.asarray(x)
    except Exception:
        return None
    return a.astype(float) if a.dtype.kind in 'fiub' else None


def as_saved(oil):
    """the oil with its properties at the precision (eight digits) that save files have"""
    import numpy as np
    if not oil.is_weatherable:
        return oil
    o2 = type(oil).deserialize(oil.serialize())
    for k, v in vars(oil).items():
        if k in ('_id', '_instance_count'):
            continue
        a, b = numbers(v), numbers(getattr(o2, k, None))
        if a is None:
            continue
        if b is None or a.shape != b.shape or not np.allclose(a, b, rtol=1e-6, atol=0,
                                                              equal_nan=True):
            raise engine.Violation('oil', 'oil property %s is %s after serialization, was %s'
                                   % (k, getattr(o2, k, None), v))
    return o2


def differ(got, want, oil=False):
    if len(got) != len(want):
        return '%d steps, expected %d' % (len(got), len(want))
    for a, b in zip(got, want):
        d = nearly(a, b) if oil else scen.snaps_differ(a, b)
        if d:
            return d
        if a['outputs'] != b['outputs']:
            return 'step %d: outputs %s, expected %s' % (a['step'], a['outputs'], b['outputs'])
    return None


def settings(m):
    """what a user can read off the model's components"""
    res = {'name': m.name, 'uncertain': m.uncertain, 'ts': m.time_step, 'dur': str(m.duration),
           'start': str(m.start_time), 'cache': m.cache_enabled, 'back': m.run_backwards,
           'sub': m.weathering_substeps, 'map': type(m.map).__name__}
    for coll in ('movers', 'weatherers', 'environment', 'outputters', 'spills'):
        res[coll] = [[type(x).__name__, x.name, getattr(x, 'on', None),
                      # (the end of a burn follows from the run)
                      [str(t) for t in getattr(x, 'active_range', ())]
                      [:1 if type(x).__name__ == 'Burn' else 2]]
                     for x in getattr(m, coll)]
    return res


class PROP(Prop):
    id = 'C10'
    quick_n = 450
    thorough_n = 12000
    fault_kinds = ('component-move', 'bitflip', 'truncate')
    rule = ('seeded models with seeded names and shared references, saved after a seeded history '
            '(also mid-run, repeatedly, over other saves) by every route, loaded in a fresh '
            'process after the original files are gone, settings and complete run compared; '
            'damaged save files must be refused or load as the same model. Non-trivial: the '
            'compared run had elements.')

    def gen(self, rng, index):
        back = rng.random() < 0.08
        spec = scen.gen_spec(rng, backwards=back,
                             spill_kinds=('point', 'line', 'spatial', 'grid', 'poly', 'sub'))
        if back:
            spec['movers'] = [x for x in spec['movers'] if x['t'] not in ('rise', 'random3d')]
        for s in spec['spills']:
            if s['t'] in ('point', 'line') and rng.random() < 0.2:
                s['per_ts'] = rng.randint(1, 4)
        outs = []
        for i in range(rng.randint(0, 2)):
            o = gen_outputter(rng, spec['ts'], spec['nsteps'],
                              ('WeatheringOutput', 'TrajectoryGeoJsonOutput', 'SpillJsonOutput',
                               'NetCDFOutput'))
            if o['t'] not in [x['t'] for x in outs]:
                outs.append(o)
        names = [rng.choice(NAMES) if rng.random() < 0.5 else None for i in range(24)]
        return {'spec': spec, 'outs': outs, 'names': names,
                'pre': scen.pick(rng, none=3, steps=4, full=1, fail=1),
                'n': rng.randint(1, spec['nsteps']),
                'how': scen.pick(rng, dir=2, gnome=2, zip=1, noext=1, open=1, folder=2, json=1,
                                 over=2, twice=2),
                'damage': None if rng.random() < 0.8 else
                [rng.choice(['bitflip', 'truncate']), round(rng.random(), 6), rng.randint(0, 7)]}

    def make(self, case, ctx):
        spec = case['spec']
        d = ctx.path('work')
        os.makedirs(d, exist_ok=True)
        m = scen.build(spec, d, substance_hook=as_saved)
        for i, o in enumerate(case['outs']):
            m.outputters += build_outputter(o, i, d, spec['backwards'])
        it = iter(case['names'])
        for coll in (m.environment, m.movers, m.weatherers, m.spills, m.outputters):
            for x in coll:
                n = next(it, None)
                if n is not None:
                    x.name = n
        return m

    def save(self, m, case, ctx):
        """returns what a later process needs to load the model"""
        os.makedirs(ctx.path('save'), exist_ok=True)
        how = case['how']
        if how == 'dir':
            return m.save(ctx.path('save'))[1]
        if how == 'zip':
            return m.save(ctx.path('save', 'm.zip'))[1]
        if how == 'noext':
            p = m.save(ctx.path('save', 'm'))[1]
            if p != ctx.path('save', 'm.gnome'):
                raise engine.Violation('path', 'saved as %s' % p)
            return p
        if how == 'over':
            def other():
                import gnome.scripting as gs
                big = gs.Model(name='other')
                for i in range(30):
                    big.movers += gs.RandomMover()
                big.save(ctx.path('save', 'm.gnome'))
            engine.fork_call(other)
        if how == 'twice':
            m.save(ctx.path('save', 'm.gnome'))
        p = m.save(ctx.path('save', 'm.gnome'))[1]
        if how in ('folder', 'json'):
            with zipfile.ZipFile(p) as z:
                z.extractall(ctx.path('folder'))
            os.remove(p)
            p = ctx.path('folder')
            if how == 'json':
                js = [f for f in os.listdir(p) if f.endswith('.json')]
                import json
                js = [f for f in js if json.load(open(os.path.join(p, f)))['obj_type']
                      == 'gnome.model.Model']
                p = os.path.join(p, js[0])
        return p

    def run(self, case, ctx):
        spec = case['spec']

        def original():
            m = self.make(case, ctx)
            m.name = case['names'][-1] or 'Model'
            if case['pre'] in ('steps', 'fail'):
                for i in range(case['n']):
                    try_step(m)
            elif case['pre'] == 'full':
                m.full_run()
            if case['pre'] == 'fail':
                u = scen.user_classes()['mover'](plan={'where': 'move', 'step': 0})
                m.movers += u
                m.step()
                try:
                    m.step()
                except scen.UserError:
                    pass
                del m.movers[u.id]
            step = m.current_time_step
            s = settings(m)
            if case['how'] == 'open':
                z = m.save(None)[1]
                m2 = type(m).load(z)
                where = None
                s2 = settings(m2)
                t2 = run_trace(m2)
            else:
                where = self.save(m, case, ctx)
                s2 = t2 = None
            if os.listdir('.'):
                raise engine.Violation('litter', 'saving left %s in the working directory'
                                       % os.listdir('.'))
            # the model that was saved goes on as if it had not been
            rest = []
            while True:
                try:
                    m.step()
                except StopIteration:
                    break
                rest.append(scen.snapshot(m))
            return where, step, s, rest, run_trace(m), s2, t2

        def unsaved():
            m = self.make(case, ctx)
            return run_trace(m)

        os.makedirs(ctx.path('cwd'))
        os.chdir(ctx.path('cwd'))
        where, step, want_set, rest, want, s2, t2 = engine.fork_call(original)
        if case['pre'] == 'fail':
            ctx.count('fault:component-move')
        ctx.simtime(2 * spec['ts'] * len(want))
        ref = engine.fork_call(unsaved)
        d = differ(want, ref)
        if d:
            raise engine.Violation('save-disturbs', 'a run after saving differs from one without '
                                   'saving: %s' % d)
        # (loading seeds the random generator, which all models of a process share)
        if case['pre'] != 'fail' and case['how'] != 'open':
            for a, b in zip(rest, ref[step + 1:]):
                d = scen.snaps_differ(a, b)
                if d:
                    raise engine.Violation('save-disturbs', 'the run that was saved at step %d '
                                           'goes on differently: %s' % (step, d))
        if case['how'] == 'open':
            got_set, got = s2, t2
            damaged = False
        else:
            # only the save file travels
            shutil.rmtree(ctx.path('work'))
            damaged = False
            dmg = case['damage']
            if dmg and os.path.isfile(where) and case['how'] != 'json':
                with open(where, 'rb') as f:
                    b = bytearray(f.read())
                i = min(len(b) - 1, int(dmg[1] * len(b)))
                if dmg[0] == 'bitflip':
                    b[i] ^= 1 << dmg[2]
                else:
                    del b[i:]
                with open(where, 'wb') as f:
                    f.write(b)
                ctx.count('fault:' + dmg[0])
                damaged = True
            os.makedirs(ctx.path('work'))        # (where the outputters write)

            def loaded():
                from gnome.model import Model
                try:
                    m = Model.load(where)
                except Exception as e:
                    if damaged:
                        return None, repr(e)
                    raise
                if not isinstance(m, Model):
                    raise engine.Violation('load', 'loading gives %r' % (m,))
                s = settings(m)
                return s, run_trace(m)
            got_set, got = engine.fork_call(loaded)
            if got_set is None:
                ctx.count('probe:damage-refused')
                ctx.event('refused')
                return
        if got_set != want_set:
            ks = [k for k in want_set if want_set[k] != got_set.get(k)]
            raise engine.Violation('settings', 'loaded model has %s, saved one had %s' % (
                {k: got_set.get(k) for k in ks}, {k: want_set[k] for k in ks}))
        d = differ(got, want, oil=spec['wuv'] or any(x['sub'] != 'none' for x in spec['spills']))
        if d:
            raise engine.Violation('run', 'the loaded model runs differently: %s' % d)
        ctx.nontrivial = len(got[-1]['sc'][0]['arrays']['positions']) > 0
        ctx.event(len(got), [x['mb'] for x in got[-1]['sc']])
        ctx.state(case['how'], case['pre'], min(step, 2), damaged, spec['map']['t'],
                  sorted({s['t'] for s in spec['spills']}), bool(spec['weatherers']))
