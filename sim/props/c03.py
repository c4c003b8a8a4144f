"""C03: spills release exactly what, when and where they were told to."""
import math

import numpy as np

from .. import engine, scen
from .observed import Observed


def total(s, ts):
    if s['t'] == 'grid':
        return s['res'][0] * s['res'][1]
    if s.get('per_ts'):
        dur = 0 if s['end'] is None else s['end'] - s['start']
        return s['per_ts'] * max(1, math.ceil(dur / ts))
    return s['n']


def schedule(s, ts, t):
    """reference model: number of elements spill `s` has released by time `t`"""
    n = total(s, ts)
    if not s['on'] or t < s['start']:
        return 0
    if s['end'] is None or s['end'] == s['start'] or t >= s['end']:
        return n
    dur = s['end'] - s['start']
    k = max(1, math.ceil(dur / ts))
    times = [s['start'] + ts * i for i in range(k)] + [s['end']]
    counts = [int(c) for c in np.linspace(0, n, k + 1)]
    return math.ceil(np.interp(t, times, counts) - 1e-9)


class PROP(Observed):
    id = 'C03'
    quick_n = 800
    thorough_n = 20000
    survives_failure = True
    rule = ('seeded sets of spills (instantaneous and continuous, point, line, grid, several '
            'points, polygons, subsurface; before, at, between and after model steps) in seeded models and histories; '
            'counts, masses and release positions are compared with a reference schedule after '
            'every step. Non-trivial: elements were released in a checked step.')

    def gen_spec(self, rng, index):
        spec = scen.gen_spec(rng, weathering=rng.random() < 0.25, maps=('global',),
                             spill_kinds=('point', 'line', 'spatial', 'grid', 'poly', 'sub'),
                             max_spills=4)
        for s in spec['spills']:
            if s['t'] in ('point', 'line', 'spatial', 'sub') and rng.random() < 0.25:
                s['per_ts'] = rng.randint(1, 6)
            if s['end'] is not None:
                s['n'] = max(s['n'], -(-(s['end'] - s['start']) // spec['ts']))
        return spec

    def init_state(self, m, case):
        return {'spec': case['spec'], 'seen': 0, 'prev': {}}

    def check(self, m, st, ctx):
        spec = st['spec']
        t = m.current_time_step * spec['ts']
        for sc in m.spills.items():
            who = 'uncertain ' if sc.uncertain else ''
            at = '%sstep %d' % (who, m.current_time_step)
            nums = np.asarray(sc['spill_num'])
            for i, s in enumerate(spec['spills']):
                want = schedule(s, spec['ts'], t)
                have = int((nums == i).sum())
                if have != want:
                    raise engine.Violation('count', '%s: spill %d has released %d elements, '
                                           'scheduled are %d (%s)' % (at, i, have, want, s))
                sp = list(m.spills)[i]
                if have:
                    st['seen'] += 1
                    per = sp.get_mass() / total(s, spec['ts'])
                    im = np.asarray(sc['init_mass'])[nums == i]
                    if not np.allclose(im, per, rtol=1e-9, atol=1e-12):
                        raise engine.Violation('mass', '%s: spill %d elements start with mass %r, '
                                               'expected %r' % (at, i, im.tolist()[:3], per))
                    self.positions(sc, i, s, spec, m, st, at, ctx)

    def positions(self, sc, i, s, spec, m, st, at, ctx):
        """elements younger than one step that no mover has touched yet: those released in the
        second half of this step (or at step 0)"""
        t = m.current_time_step * spec['ts']
        t_half = t - spec['ts'] / 2.0 if m.current_time_step > 0 else t
        mask = np.asarray(sc['spill_num']) == i
        n_new = schedule(s, spec['ts'], t) - (schedule(s, spec['ts'], t_half)
                                              if m.current_time_step > 0 else 0)
        age0 = mask & (np.asarray(sc['age']) == 0)
        if int(age0.sum()) != n_new:
            raise engine.Violation('new', '%s: %d elements of spill %d are new, expected %d'
                                   % (at, int(age0.sum()), i, n_new))
        if n_new == 0:
            return
        ctx.count('probe:new-' + s['t'] + ('-cont' if s['end'] is not None else '-inst'))
        pos = np.asarray(sc['positions'])[age0]
        a = np.array([scen.LON0 + s['lon'], scen.LAT0 + s['lat'], s['z']])
        if s['t'] in ('point', 'sub'):
            ok = np.allclose(pos, a, rtol=0, atol=1e-9)
            if s['t'] == 'sub' and s['dist'] in ('uniform', 'weibull'):
                lo = {'droplet_size': 1e-4, 'rise_velocity': 1e-3}[s['dtype']]
                v = np.asarray(sc['rise_vel' if s['dtype'] == 'rise_velocity'
                                  else 'droplet_diameter'])[age0]
                if not (v.min() >= lo and v.max() <= lo * {'uniform': 10, 'weibull': 20}[s['dist']]):
                    raise engine.Violation('rise', '%s: spill %d: %s %s of new elements for %s' % (
                        at, i, s['dtype'], v.tolist()[:4], s))
        elif s['t'] == 'line':
            b = np.array([scen.LON0 + s['lon2'], scen.LAT0 + s['lat2'], s['z']])
            d = (b - a)
            L2 = float(d @ d)
            if L2 == 0:
                return
            u = (pos - a) @ d / L2
            ok = np.allclose(a + u[:, None] * d, pos, rtol=0, atol=1e-8) \
                and u.min() >= -1e-7 and u.max() <= 1 + 1e-7 and np.all(np.diff(u) >= -1e-9)
            if s['end'] is not None and ok and m.current_time_step > 0:
                # a moving source: where it was during this half step
                dur = s['end'] - s['start']
                k = max(1, math.ceil(dur / spec['ts']))
                times = [s['start'] + spec['ts'] * j for j in range(k)] + [s['end']]
                frac = np.linspace(0, 1, k + 1)
                u0, u1 = np.interp([t_half, t], times, frac)
                ok = abs(u[0] - u0) < 1e-6 and (n_new == 1 or abs(u[-1] - u1) < 1e-6)
            elif s['end'] is None and ok and n_new > 1:
                ok = abs(u[0]) < 1e-6 and abs(u[-1] - 1) < 1e-6
        elif s['t'] == 'spatial':
            pts = np.array([[scen.LON0 + p[0], scen.LAT0 + p[1], 0.0] for p in s['pts']])
            dist = np.abs(pos[:, None, :] - pts[None, :, :]).max(axis=2)
            ok = bool((dist.min(axis=1) < 1e-9).all())
            if ok and n_new >= len(pts):
                # every point gets its share
                cnt = np.bincount(dist.argmin(axis=1), minlength=len(pts))
                uniq = len({tuple(p) for p in pts.tolist()}) == len(pts)
                ok = (not uniq) or cnt.min() >= n_new // len(pts)
        elif s['t'] == 'poly':
            x, y = pos[:, 0] - scen.LON0, pos[:, 1] - scen.LAT0
            inside = np.zeros(len(pos), bool)
            for w, so, dx, dy in s['polys']:
                inside |= ((x >= w - 1e-7) & (x <= w + dx + 1e-7) & (y >= so - 1e-7)
                           & (y <= so + dy + 1e-7))
            ok = bool(inside.all()) and bool((pos[:, 2] == 0).all())
        else:
            lons = np.linspace(scen.LON0 + s['lon'], scen.LON0 + s['lon'] + 0.02, s['res'][0])
            lats = np.linspace(scen.LAT0 + s['lat'], scen.LAT0 + s['lat'] + 0.02, s['res'][1])
            want = {(round(x, 7), round(y, 7)) for x in lons for y in lats}
            got = {(round(p[0], 7), round(p[1], 7)) for p in pos.tolist()}
            ok = want == got
        if not ok:
            raise engine.Violation('position', '%s: spill %d (%s) released at %s' % (
                at, i, s, pos.tolist()[:4]))
