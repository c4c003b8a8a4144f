"""C04: the element data stays well formed: aligned arrays, identities, ages, values."""
import numpy as np

from .. import engine, scen
from .observed import Observed

IN_WATER, ON_LAND, TIDEFLAT = 2, 3, 32


class PROP(Observed):
    id = 'C04'
    quick_n = 800
    thorough_n = 20000
    survives_failure = False
    rule = ('seeded models and histories; after every step all per-element arrays are compared '
            'with a per-identity history (identity, age, spill, initial mass, membership). '
            'Non-trivial: elements were tracked across at least one step.')

    def gen_spec(self, rng, index):
        back = rng.random() < 0.12
        sp = scen.gen_spec(rng, spill_kinds=('point', 'line', 'spatial', 'grid', 'poly', 'sub'),
                           backwards=back)
        if back:
            sp['movers'] = [x for x in sp['movers'] if x['t'] not in ('rise', 'random3d')]
        return sp

    def init_state(self, m, case):
        return {'spec': case['spec'], 'seen': 0, 'hist': {}, 'gone': {}, 'step': None}

    def check(self, m, st, ctx):
        ts = abs(st['spec']['ts'])
        step = m.current_time_step
        if st['step'] is not None and step != st['step'] + 1:
            raise engine.Violation('steps', 'step %d follows step %d' % (step, st['step']))
        st['step'] = step
        nsp = len(st['spec']['spills'])
        released = {}
        for sc in m.spills.items():
            key = bool(sc.uncertain)
            at = '%sstep %d' % ('uncertain ' if key else '', step)
            arrays = sc.data_arrays
            n = len(arrays['positions'])
            if len(sc) != n:
                raise engine.Violation('length', '%s: container says %d elements, positions has '
                                       '%d' % (at, len(sc), n))
            for k in sorted(arrays):
                a = np.asarray(arrays[k])
                if len(a) != n:
                    raise engine.Violation('length', '%s: %s has %d entries, positions has %d'
                                           % (at, k, len(a), n))
            for k in ('positions', 'mass', 'init_mass', 'density', 'windages', 'age',
                      'mass_components', 'viscosity', 'area', 'evap_decay_constant'):
                if k in arrays:
                    a = np.asarray(arrays[k], dtype=float)
                    if not np.isfinite(a).all():
                        raise engine.Violation('finite', '%s: %s is not finite' % (at, k))
            ids = np.asarray(sc['id']).tolist()
            prev = st['hist'].get(key, {})
            gone = st['gone'].setdefault(key, set())
            if len(set(ids)) != len(ids):
                raise engine.Violation('identity', '%s: an element identity occurs twice' % at)
            age = np.asarray(sc['age']).tolist()
            num = np.asarray(sc['spill_num']).tolist()
            im = np.asarray(sc['init_mass']).tolist()
            status = np.asarray(sc['status_codes'])
            pos = np.asarray(sc['positions'])
            if n:
                bad = set(status.tolist()) - {IN_WATER, ON_LAND, TIDEFLAT}
                if bad:
                    raise engine.Violation('status', '%s: elements with status %s' % (at, bad))
                if (np.abs(pos[:, 1]) > 90).any() or (np.abs(pos[:, 0]) > 360).any():
                    raise engine.Violation('position', '%s: impossible coordinates' % at)
                if (pos[:, 2] < 0).any():
                    raise engine.Violation('position', '%s: elements above the surface' % at)
            now = {}
            top = max([-1] + list(prev) + list(gone))
            for i, e in enumerate(ids):
                if e in prev:
                    pa, pn, pm = prev[e]
                    if age[i] != pa + ts:
                        raise engine.Violation('age', '%s: element %d is %s s old, was %s s one '
                                               'step of %d s ago' % (at, e, age[i], pa, ts))
                    if num[i] != pn or im[i] != pm:
                        raise engine.Violation('identity', '%s: element %d changed its origin: '
                                               'spill %s -> %s, initial mass %s -> %s' % (
                                                   at, e, pn, num[i], pm, im[i]))
                elif e in gone:
                    raise engine.Violation('identity', '%s: removed element %d is back' % (at, e))
                else:
                    if e <= top:
                        raise engine.Violation('identity', '%s: new element has the old '
                                               'identity %d' % (at, e))
                    if age[i] not in ((0,) if step == 0 else (0, ts)):
                        raise engine.Violation('age', '%s: new element %d is %s s old'
                                               % (at, e, age[i]))
                    if not 0 <= num[i] < nsp:
                        raise engine.Violation('identity', '%s: element %d has spill number %s'
                                               % (at, e, num[i]))
                now[e] = (age[i], num[i], im[i])
            left = set(prev) - set(now)
            gone |= left
            if left:
                ctx.count('probe:left')
                if st['spec']['map']['t'] == 'global':
                    raise engine.Violation('vanished', '%s: %d elements vanished from a map '
                                           'without bounds' % (at, len(left)))
            st['hist'][key] = now
            seen = set(now) | gone
            # (elsewhere an element may enter and leave within one step)
            if st['spec']['map']['t'] == 'global' and seen != set(range(len(seen))):
                raise engine.Violation('identity', '%s: identities are not consecutive: %s'
                                       % (at, sorted(seen)[:10]))
            released[key] = len(seen)
            if prev:
                st['seen'] += 1
        if len(set(released.values())) > 1 and st['spec']['map']['t'] == 'global':
            raise engine.Violation('released', 'step %d: %s elements were released in the '
                                   'forecast, %s in the uncertain run'
                                   % (step, released[False], released[True]))
