"""C21: uncertain elements are perturbed as the uncertainty settings say."""
import math
from datetime import timedelta

import numpy as np

from .. import engine, scen, faults
from .base import Prop
from .c05 import try_step
from .c08 import snap

V = engine.Violation
MPD = 1 / 8.9992801e-06                # metres in a degree of latitude (FlatEarthProjection)
HOURS = ('wind', 'cats', 'comp', 'cgrid', 'cgridwind')       # settings in hours, not seconds
WINDS = ('wind', 'pywind', 'cgridwind')
AHEAD = ('wind', 'cgridwind')          # their time counts to the end of the step


def velocity(a, b, dt):
    """id -> (u, v) of the elements that were in the water before and after a step"""
    pa = {int(i): p for i, p, s in zip(a['id'], a['positions'], a['status_codes']) if s == 2}
    res = {}
    for i, p, s in zip(b['id'], b['positions'], b['status_codes']):
        if s == 2 and int(i) in pa:
            q = pa[int(i)]
            res[int(i)] = ((p[0] - q[0]) * MPD * math.cos(math.radians(q[1])) / dt,
                           (p[1] - q[1]) * MPD / dt)
    return res


class PROP(Prop):
    id = 'C21'
    quick_n = 1500
    thorough_n = 20000
    fault_kinds = ('component-*', 'KeyboardInterrupt')
    state_measure = ('(kind of mover, direction of time, map, number of redraws, number of uncertain '
                     'elements seen, whether any were removed, delay and duration in steps) reached, hashed')
    rule = ('seeded models with one uncertain mover (native or Python; current or wind; seeded limits, '
            'duration and delay of the uncertainty) in a uniform field, spills releasing over time and '
            'elements leaving the map or beaching, through seeded histories of complete, partial, failing '
            'and interrupted runs and changes of the settings; in the last run the perturbation of every '
            'uncertain element is computed in every step from where it went compared to the forecast, and '
            'the limits, the beginning, the persistence per element and the times of the redraws checked. '
            'Non-trivial: perturbations of at least 3 elements compared over at least 2 steps.')

    def gen(self, rng, index):
        back = rng.random() < 0.2
        spec = scen.gen_spec(rng, weathering=False, backwards=back, uncertain=rng.random() < 0.9,
                             max_spills=3, nsteps=rng.randint(4, 14), det=True,
                             spill_kinds=('point', 'line', 'spatial'), maps=('box', 'box', 'bna'))
        spec['ts'] = ts = rng.choice([600, 900, 1800, 3600])
        if spec['map'].get('refloat') == 0:
            spec['map']['refloat'] = -1        # (elements that beach and refloat at once hardly move)
        if spec['map']['t'] == 'box':
            spec['map']['half'] = rng.choice([.06, .1, .2])
        for s in spec['spills']:
            s['z'] = 0.0
            if not back:
                s['start'] = rng.choice([0, rng.randint(0, 4) * ts])
                s['end'] = rng.choice([None, s['start'] + rng.randint(1, 8) * ts])
                s['n'] = rng.randint(9, 30)
            s['windage'] = [s['windage'][0] or .03] * 2
        w = spec['spills'][0]['windage']
        for s in spec['spills']:
            s['windage'] = w
        k = rng.choice(['cats', 'cats', 'comp', 'cgrid', 'cgrid', 'pycur', 'pycur', 'wind', 'wind',
                        'pywind', 'pywind', 'cgridwind', 'simple'])
        m = scen.gen_mover(rng, ts, spec['nsteps'], [k])
        m.update(on=True, active=None)
        big = 15. if k in WINDS else 1.
        if k in ('cgrid', 'cgridwind'):
            u, v = self.uv(rng, big)
            m.update(times=[-2000, 2000], uv=[[u, v, 0.]] * 2, scale=1)
        if k in ('cats', 'comp'):
            p = [self.uv(rng, 1.) for i in range(2)]
            m.update(uv=[list(a) * 2 for a in p], eddy=0, h=[.4] * 6,
                     tide=rng.choice([None, None, 'shio']) if k == 'cats' else None)
        if k == 'pycur':
            m['speed'] = scen.r(rng, .1, 1.2)
        if k in ('wind', 'pywind'):
            spec['wind'] = [[0, scen.r(rng, 3, 18), scen.r(rng, 0, 359)]]
            spec.update(wunits='m/s', windunc=0.0)
            if k == 'wind':
                m.update(own=False)
        if k == 'simple':
            m['vel'] = [scen.r(rng, .1, 1), scen.r(rng, -1, -.1), 0.0]
        spec['movers'] = [m]
        ops = [{'op': rng.choice(['full', 'step', 'fail', 'interrupt', 'unc', 'set'] +
                                 ['shift'] * (not back)),
                'n': rng.randint(1, spec['nsteps']), 'frac': round(rng.random(), 4),
                'where': rng.choice(['prepare_step', 'move', 'done']), 'set': self.gen_set(rng)}
               for i in range(rng.randint(0, 3))]
        return {'spec': spec, 'set': self.gen_set(rng), 'ops': ops,
                'other': [scen.r(rng, -.3, .3), scen.r(rng, -.3, .3), 0.0]
                if rng.random() < .3 else None,
                'ext': rng.randint(1, 4) if rng.random() < .15 and not back else 0}

    def uv(self, rng, big):
        a, s = rng.uniform(0, 2 * math.pi), rng.uniform(.2, 1) * big
        return round(s * math.cos(a), 4), round(s * math.sin(a), 4)

    def gen_set(self, rng):
        """the settings; times in steps"""
        return {'dur': rng.choice([1, 2, 3, 3.5, 5, 100]), 'delay': rng.choice([0, 0, 1, 2.5, 4]),
                'up': scen.r(rng, 0, .6), 'down': -scen.r(rng, 0, .4), 'right': scen.r(rng, 0, .4),
                'left': -scen.r(rng, 0, .3), 'scale': rng.choice([0., .3, .6]),
                'speed': rng.choice([0., 0., 2., 4.]), 'angle': rng.choice([.2, .4, .4, 0.])}

    def apply(self, mv, k, s, ts):
        """set the mover, and say what the settings mean"""
        lim = None
        if k != 'simple':
            unit = 3600. if k in HOURS else 1.
            mv.uncertain_duration = s['dur'] * ts / unit
            mv.uncertain_time_delay = s['delay'] * ts / unit
        if k == 'cats':
            mv.up_cur_uncertain, mv.down_cur_uncertain = s['up'], s['down']
            mv.right_cur_uncertain, mv.left_cur_uncertain = s['right'], s['left']
            lim = (s['down'], s['up'], s['left'], s['right'])
        elif k in ('cgrid', 'pycur'):
            mv.uncertain_along, mv.uncertain_cross = s['up'], s['right']
            lim = (-s['up'], s['up'], -s['right'], s['right'])
        elif k == 'comp':
            lim = (-.3, .3, -.1, .1)
        elif k == 'simple':
            mv.uncertainty_scale = s['scale']
        else:
            mv.uncertain_speed_scale, mv.uncertain_angle_scale = s['speed'], s['angle']
        return lim

    def run(self, case, ctx):
        spec, back, st = case['spec'], case['spec']['backwards'], case['set']
        ts, k = spec['ts'], spec['movers'][0]['t']
        m = scen.build(spec, ctx.path('w'))
        mv = m.movers[0]
        lim = self.apply(mv, k, st, ts)
        um = scen.user_classes()['mover']()
        m.movers += um
        if case['other']:
            import gnome.movers as M
            m.movers += M.SimpleMover(velocity=tuple(case['other']), uncertainty_scale=0.0)
        for op in case['ops']:
            ctx.count('op:' + op['op'])
            m.rewind()
            if op['op'] == 'full':
                m.full_run()
            elif op['op'] == 'step':
                for i in range(op['n']):
                    try_step(m)
            elif op['op'] == 'fail':
                um.plan, um.n = {'where': op['where'], 'step': op['n']}, 0
                try:
                    m.full_run()
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                um.plan = None
            elif op['op'] == 'interrupt':
                for i in range(op['n']):
                    try_step(m)
                nc = engine.fork_call(faults.count_calls, lambda: try_step(m))
                with faults.CallPoints(1 + int(op['frac'] * nc), 'KeyboardInterrupt') as cp:
                    try:
                        try_step(m)
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                if cp.fired:
                    ctx.count('fault:KeyboardInterrupt')
            elif op['op'] == 'unc':
                m.uncertain = not m.uncertain
                try_step(m)
            elif op['op'] == 'set':
                st = op['set']
                lim = self.apply(mv, k, st, ts)
            elif op['op'] == 'shift':             # the delay counts from the new start
                m.start_time = scen.t_at(-ts * (op['n'] % 4))
        m.uncertain = True
        m.rewind()
        seq = []

        def go():
            try:
                while True:
                    m.step()
                    seq.append([s['arrays'] for s in snap(m)])
                    ctx.simtime(ts)
            except StopIteration:
                pass
        go()
        if case['ext']:
            m.duration = m.duration + timedelta(seconds=case['ext'] * ts)
            go()
        self.judge(case, ctx, seq, k, st, lim, -ts if back else ts)

    def judge(self, case, ctx, seq, k, st, lim, dt):
        """perturbations from the velocities"""
        ts, ox = abs(dt), case['other'] or (0, 0)
        dur, delay = st['dur'] * ts, st['delay'] * ts
        if k in HOURS:                   # whole seconds, as the native movers have them
            dur, delay = math.floor(dur), math.floor(delay)
        pert, since, last, redraws, ncomp, nseen = {}, None, None, 0, 0, set()
        first = True
        gone, found = False, None
        for i in range(len(seq) - 1):
            fc, un = (velocity(seq[i][j], seq[i + 1][j], dt) for j in (0, 1))
            # the perturbations are for all elements that are there at the start of the step
            there = set(int(x) for x in seq[i][1]['id'])
            gone |= bool(there - set(int(x) for x in seq[i + 1][1]['id']))
            e = i * ts + (ts if k in AHEAD else 0)
            if not there:
                pert, since, last = {}, None, None
                continue
            if not fc:
                if not un:
                    continue
                # the forecast elements have gone
                pert, last = {}, 'unknown'
                continue
            base = np.array([list(v) for v in fc.values()]) - ox[:2]
            u0, v0 = base.mean(axis=0)
            if np.abs(base - (u0, v0)).max() > 1e-6 * max(1, np.abs(base).max()):
                raise V('uniform', 'step %d: the forecast elements move differently: %s'
                        % (i + 1, base[:3].tolist()))
            sp = math.hypot(u0, v0)
            un = {j: (v[0] - ox[0], v[1] - ox[1]) for j, v in un.items()}
            nseen |= set(un)
            if k == 'simple':
                for j, (u, v) in un.items():
                    if abs(u - u0) > st['scale'] * abs(u0) + 1e-6 or \
                            abs(v - v0) > st['scale'] * abs(v0) + 1e-6:
                        raise V('limits', 'step %d: element %d moves with %s, forecast %s, scale %s'
                                % (i + 1, j, (u, v), (u0, v0), st['scale']))
                if len(un) > 2 and st['scale'] and np.ptp([u for u, v in un.values()]) < 1e-7:
                    raise V('same', 'step %d: all uncertain elements move alike' % (i + 1))
                ncomp += len(un)
                continue
            if sp < .01:
                pert, last = {}, 'unknown'
                continue
            if e < delay:
                for j, (u, v) in un.items():
                    if math.hypot(u - u0, v - v0) > 1e-6 * max(1., sp):
                        raise V('delay', 'step %d: element %d moves with %s, forecast %s, before the '
                                'uncertainty begins' % (i + 1, j, (u, v), (u0, v0)))
                since = None
                ctx.count('probe:before-delay')
                continue
            new = {}
            for j, (u, v) in un.items():
                a = (u * u0 + v * v0) / sp ** 2 - 1
                b = (u * v0 - v * u0) / sp ** 2
                new[j] = (a, b) if k not in WINDS else self.wind_pert(
                    k, st, a, b, sp / case['spec']['spills'][0]['windage'][0], e - delay)
            if since is None and new:        # the perturbations were drawn then, or earlier
                since = e
            free = None
            if k in WINDS:
                ok = [abs(p[0]) <= 3.7170 for p in new.values() if p[0] is not None]
                free = st['angle'] > 0 and e > delay
                width = 1 if free else 0
                if st['angle'] == 0 and st['speed'] == 0:
                    for j, (u, v) in un.items():
                        if math.hypot(u - u0, v - v0) > 1e-5 * sp:
                            raise V('limits', 'step %d: element %d moves with %s, forecast %s, without '
                                    'uncertainty' % (i + 1, j, (u, v), (u0, v0)))
            else:
                t = 1e-5
                ok = [lim[0] - t <= a <= lim[1] + t and lim[2] - t <= b <= lim[3] + t
                      for a, b in new.values()]
                width = max(lim[1] - lim[0], lim[3] - lim[2])
                free = width > .01
            if not all(ok) and k == 'pycur':
                # the known defect: v is perturbed with the u that is perturbed already
                alt = {j: self.uv_pert(u, v, u0, v0) for j, (u, v) in un.items()}
                if all(-t <= lim[1] - abs(a) and -t <= lim[3] - abs(b) for a, b in alt.values()):
                    j = list(new)[ok.index(False)]
                    found = ('CurrentMover: v perturbed with the perturbed u: step %d: element %d is '
                             'perturbed by %s, the limits are %s' % (i + 1, j, new[j], lim))
                    ok = [True]
            if not all(ok):
                j = list(new)[ok.index(False)]
                raise V('limits', 'step %d: element %d is perturbed by %s, the limits are %s'
                        % (i + 1, j, new[j], lim))
            if free and (k in WINDS or min(lim[1] - lim[0], lim[3] - lim[2]) > .01):
                for j, p in new.items():
                    if p[0] is not None and math.hypot(un[j][0] - u0, un[j][1] - v0) < 1e-9 * sp:
                        raise V('unperturbed', 'step %d: element %d moves as in the forecast, %s'
                                % (i + 1, j, un[j]))
            known = [p for p in new.values() if p[0] is not None]
            if len(known) > 2 and free:
                if all(self.same(known[0], q) for q in known):
                    raise V('same', 'step %d: all uncertain elements are perturbed alike' % (i + 1))
            both = [j for j in new if j in pert and None not in (new[j][0], pert[j][0])]
            if both and free:
                eq = [self.same(new[j], pert[j]) for j in both]
                ncomp += len(both)
                kept = sum(eq) > (len(eq) > 3)       # (one may by chance be drawn the same)
                if kept != all(eq):
                    j = both[eq.index(False)]
                    raise V('mixed', 'step %d: the perturbation of element %d became %s (was %s), others '
                            'kept theirs' % (i + 1, j, new[j], pert[j]))
                if not kept:
                    redraws += 1
                    if isinstance(last, (int, float)) and e - last < dur:
                        raise V('early', 'step %d: redrawn after %s s, the duration is %s'
                                % (i + 1, e - last, dur))
                    last = e
                else:
                    ref = last if isinstance(last, (int, float)) else since
                    if last != 'unknown' and ref is not None and e - ref >= dur:
                        raise V('late', 'step %d: not redrawn for %s s, the duration is %s'
                                % (i + 1, e - ref, dur))
            elif not both and pert:
                last = 'unknown'
            # an element that is not in the water in this step keeps its perturbation, unless there was
            # a redraw
            keep = {} if both and free and not kept else \
                {j: p for j, p in pert.items() if j in there and last != 'unknown'}
            keep.update(new)
            pert = keep
            if last == 'unknown':
                since, last = e, 'unknown'
        ctx.nontrivial = ncomp >= 6 and len(nseen) >= 3
        ctx.event(k, redraws, ncomp, sorted(nseen)[:3])
        ctx.count('kind:' + k)
        ctx.count('probe:redraws', redraws)
        ctx.count('probe:compared', ncomp)
        if gone:
            ctx.count('probe:elements-gone')
        ctx.state(k, dt < 0, case['spec']['map']['t'], redraws, min(len(nseen), 20), gone, st['dur'],
                  st['delay'])
        if found:
            raise V('perturbed-v', found)

    def uv_pert(self, u, v, u0, v0):
        b = (v0 * u - u0 * v) / (v0 * v0 + u0 * u)
        a = (u - v0 * b) / u0 if abs(u0) > abs(v0) else (v + u * b) / v0
        return a - 1, b

    def same(self, p, q):
        if p[0] is None or q[0] is None:
            return True
        return abs(p[0] - q[0]) < 2e-5 and abs(p[1] - q[1]) < 2e-5

    def wind_pert(self, k, st, a, b, speed, t):
        """the random number of the angle"""
        if not st['angle'] or t <= 0 or math.hypot(1 + a, b) < .02:      # (too slow to have a direction)
            return None, None
        ang = math.degrees(math.atan2(-b, 1 + a)) / (st['angle'] * 2.73 * t ** .25)
        sigma2 = (st['speed'] * .315 * t ** .147) ** 2 / 2
        sqs = math.sqrt(max(speed ** 2 - sigma2, 0))
        x, s = math.sqrt(max((1 + a) * speed, 0)), math.sqrt(speed - sqs)
        if not st['speed']:
            r = 0. if abs(x - math.sqrt(sqs)) < 1e-4 else math.inf
        else:
            r = min(abs(x - math.sqrt(sqs)), abs(x + math.sqrt(sqs))) / s
        if math.hypot(r, ang) > 3.7185:              # (they are a pair with this limit)
            raise V('limits', 'an element is perturbed by %s in angle and %s in speed (forecast %s)'
                    % (ang, r, speed))
        return ang, 0.0
