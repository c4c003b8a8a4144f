"""C22: windages, diffusion and rise are as the settings say."""
import math

import numpy as np

from .. import engine, scen, faults
from .base import Prop
from .c05 import try_step
from .c08 import snap
from .c21 import MPD

V = engine.Violation
SIG = 6.5


class Stat(object):
    """numbers that should be independent and uniform in (-1, 1)"""
    def __init__(self):
        self.x = []

    def add(self, v):
        self.x.append(v)

    def test(self, what):
        n = len(self.x)
        if n < 60:
            return 0
        x = np.array(self.x)
        if abs(x.mean()) > SIG * math.sqrt(1 / 3. / n):
            raise V('mean', '%s: the mean of %d draws is %.3f of the limit' % (what, n, x.mean()))
        if abs((x * x).mean() - 1 / 3.) > SIG * math.sqrt(4 / 45. / n):
            raise V('spread', '%s: the mean square of %d draws is %.3f of the limit squared, not 1/3'
                    % (what, n, (x * x).mean()))
        return n


class Zero(object):
    """numbers of mean 0 and variance 1"""
    def __init__(self):
        self.x = []

    def add(self, v):
        self.x.append(v)

    def test(self, what):
        n = len(self.x)
        if n >= 100 and abs(np.mean(self.x)) > (SIG + 1) / math.sqrt(n):
            raise V('spread', '%s: the mean of %d numbers is %.3f, not 0' % (what, n, np.mean(self.x)))
        return n


class Corr(object):
    """products of two independent numbers"""
    def __init__(self):
        self.x = []

    def add(self, a, b):
        self.x.append(a * b)

    def test(self, what):
        n = len(self.x)
        if n >= 60 and abs(np.mean(self.x)) > SIG / 3. / math.sqrt(n):
            raise V('dependent', '%s: the draws depend on one another, correlation %.3f (%d)'
                    % (what, 3 * np.mean(self.x), n))


def byid(a):
    return {int(j): i for i, j in enumerate(a['id'])}


class PROP(Prop):
    id = 'C22'
    quick_n = 1200
    thorough_n = 20000
    fault_kinds = ('component-*', 'KeyboardInterrupt')
    state_measure = ('(kinds of movers, direction of time, map, persistence, number of elements seen, '
                     'whether any were removed, steps, changes during the run) reached, hashed')
    rule = ('seeded models with a point wind (native or Python mover), random walk (2-d or 3-d) and rise '
            'velocities, with seeded windages, persistences and coefficients, through seeded histories of '
            'complete, partial, failing and interrupted runs and changes of the settings; in the last run the '
            'windage and the displacement of every element in every step are compared with the limits, times '
            'and moments the settings give. Non-trivial: at least 20 displacements or windages judged.')

    def gen(self, rng, index):
        back = rng.random() < 0.15
        spec = scen.gen_spec(rng, weathering=False, backwards=back, uncertain=rng.random() < 0.5,
                             max_spills=2, nsteps=rng.randint(3, 12),
                             spill_kinds=('point', 'line', 'spatial', 'sub')[:3 if back else 4],
                             maps=('box',))
        spec['ts'] = ts = rng.choice([300, 600, 900, 900, 1800, 3600])
        spec['map']['half'] = rng.choice([.06, 3, 3, 3])
        for s in spec['spills']:
            if not back:
                s['start'] = rng.choice([0, rng.randint(0, 3) * ts])
                s['end'] = rng.choice([None, s['start'] + rng.randint(1, 6) * ts])
            s['n'] = rng.randint(10, 60)
            if back:
                s['z'] = 0.0
        spec['wind'] = [[0, scen.r(rng, 1, 18), scen.r(rng, 0, 359)]]
        spec.update(wunits='m/s', windunc=0.0, wuv=False)
        kinds = []
        if rng.random() < .75:
            kinds.append(rng.choice(['wind', 'wind', 'pywind']))
        kinds.append(rng.choice([None, 'random', 'random', 'random'] + ['random3d'] * (not back)))
        if not back and rng.random() < .3:
            kinds.append('rise')
        mv = []
        for k in kinds:
            if k is None:
                continue
            m = scen.gen_mover(rng, ts, spec['nsteps'], [k])
            m.update(on=True, active=None)
            if k == 'wind':
                m.update(own=False, unc_speed=0.0, angle=0.0)
            if not back and rng.random() < .3:
                a = rng.randint(0, 3)
                m['steps'] = [a, a + rng.randint(1, 6)]
            mv.append(m)
        spec['movers'] = mv
        near = 'random3d' in kinds and rng.random() < .3      # many elements near the surface
        if near:
            spec['spills'] = [x for x in spec['spills'] if x['t'] in ('point', 'line')][:1] or spec['spills']
            for s in spec['spills']:
                s['n'] = 150
                if s['t'] in ('point', 'line'):
                    s['z'] = scen.r(rng, .3, 4)
        ops = [{'op': rng.choice(['full', 'step', 'fail', 'interrupt', 'unc', 'set', 'rng']),
                'n': rng.randint(1, spec['nsteps']), 'frac': round(rng.random(), 4),
                'where': rng.choice(['prepare_step', 'move', 'done']), 'set': self.gen_set(rng)}
               for i in range(rng.randint(0, 3))]
        st = self.gen_set(rng)
        if near:
            st.update(vd=rng.choice([5, 50]), mld=25., vb=rng.choice([0, 0, 3]))
        return {'spec': spec, 'set': st, 'ops': ops,
                'mid': [rng.randint(1, spec['nsteps']), self.gen_set(rng)]
                if rng.random() < .3 else None}

    def gen_set(self, rng):
        lo, hi = sorted([scen.r(rng, 0, .05), scen.r(rng, 0, .05)])
        if rng.random() < .1:
            hi = lo
        return {'windage': [lo, hi], 'persist': rng.choice([-1, -1, 60, 300, 900, 900, 900, 901, 7200]),
                'd': rng.choice([0, 1000, 50000, 100000]), 'uf': rng.choice([1., 2., 3., 5.]),
                'vd': rng.choice([0, 5, 50]), 'mld': rng.choice([3., 10., 25.]), 'vb': rng.choice([0, .11, 3]),
                'hd': rng.choice([0, 100000, 20000]), 'hb': rng.choice([0, 126, 9000]),
                'surf': rng.random() < .5}

    def apply(self, m, s, windage=True):
        for mv in m.movers:
            n = type(mv).__name__
            if n == 'RandomMover':
                mv.diffusion_coef, mv.uncertain_factor = s['d'], s['uf']
            elif n == 'RandomMover3D':
                mv.vertical_diffusion_coef_above_ml, mv.vertical_diffusion_coef_below_ml = s['vd'], s['vb']
                mv.horizontal_diffusion_coef_above_ml, mv.horizontal_diffusion_coef_below_ml = s['hd'], s['hb']
                mv.mixed_layer_depth, mv.surface_is_allowed = s['mld'], s['surf']
        if windage:
            for sp in m.spills:
                sp.substance.windage_range = tuple(s['windage'])
                sp.substance.windage_persist = s['persist']

    def run(self, case, ctx):
        spec, st = case['spec'], case['set']
        ts = spec['ts']
        m = scen.build(spec, ctx.path('w'))
        for mv, d in zip(m.movers, spec['movers']):
            if 'uncertain_speed_scale' in dir(mv):
                mv.uncertain_speed_scale = mv.uncertain_angle_scale = 0.0
            if d.get('steps'):
                mv.active_range = tuple(scen.t_at(x * ts) for x in d['steps'])
        self.apply(m, st)
        um = scen.user_classes()['mover']()
        m.movers += um
        for op in case['ops']:
            ctx.count('op:' + op['op'])
            m.rewind()
            if op['op'] == 'full':
                m.full_run()
            elif op['op'] == 'step':
                for i in range(op['n']):
                    try_step(m)
            elif op['op'] == 'fail':
                um.plan, um.n = {'where': op['where'], 'step': op['n']}, 0
                try:
                    m.full_run()
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                um.plan = None
            elif op['op'] == 'interrupt':
                for i in range(op['n']):
                    try_step(m)
                nc = engine.fork_call(faults.count_calls, lambda: try_step(m))
                with faults.CallPoints(1 + int(op['frac'] * nc), 'KeyboardInterrupt') as cp:
                    try:
                        try_step(m)
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                if cp.fired:
                    ctx.count('fault:KeyboardInterrupt')
            elif op['op'] == 'unc':
                m.uncertain = not m.uncertain
                try_step(m)
            elif op['op'] == 'set':
                st = op['set']
                self.apply(m, st)
            elif op['op'] == 'rng':                # the generators begin elsewhere
                from gnome.utilities import rand
                rand.seed(op['n'] * 1000 + int(op['frac'] * 1000))
        m.rewind()
        seq, sets, cur = [], [], st
        try:
            while True:
                if case['mid'] and len(seq) == case['mid'][0]:
                    cur = case['mid'][1]
                    self.apply(m, cur, windage=False)
                m.step()
                seq.append([s['arrays'] for s in snap(m)])
                sets.append(cur)
                ctx.simtime(ts)
        except StopIteration:
            pass
        self.judge(case, ctx, seq, sets, st, -ts if spec['backwards'] else ts)

    def judge(self, case, ctx, seq, sets, st, dt):
        spec, ts = case['spec'], abs(dt)
        mv = {x['t']: x for x in spec['movers']}
        wk = 'wind' if 'wind' in mv else 'pywind' if 'pywind' in mv else None
        sp, di = spec['wind'][0][1:]
        wu, wv = -sp * math.sin(math.radians(di)), -sp * math.cos(math.radians(di))
        (lo, hi), per = st['windage'], st['persist']
        redraw = 0 < per <= 900
        mean, half = (lo + hi) / 2, (hi - lo) / 2
        rhalf = half * math.sqrt(per / ts) if redraw else half
        n, gone, seen = 0, False, set()
        stats = {k: Stat() for k in ('windage of new elements', 'windage', 'east', 'north', 'down')}
        stats['depth squared'], stats['nearer the surface'] = Zero(), Zero()
        cor = {k: Corr() for k in ('east and north', 'neighbours', 'successive steps',
                                   'forecast and uncertain')}
        big = spec['map']['half'] > 1
        last = [{}, {}]

        def act(k, i):
            if k not in mv:
                return False
            s = mv[k].get('steps')
            return not s or s[0] <= i < s[1]

        for i in range(len(seq)):
            draws = [{}, {}]
            for c, b in enumerate(seq[i]):
                who = ('uncertain', 'forecast')[c == 0] + ' element %d, step %d: '
                a = seq[i - 1][c] if i else None
                old = byid(a) if i else {}
                gone |= i > 0 and len(set(old) - set(byid(b))) > 0
                cfg = sets[i]
                prev = None
                ws = []
                for j, q in byid(b).items():
                    seen.add((c, j))
                    if wk:
                        w = b['windages'][q]
                        if j not in old:
                            # (half of those of a step are released before it, and drawn in it)
                            moved = i and redraw and act(wk, i - 1)
                            if abs(w - mean) > (max(half, rhalf) if moved else half) + 1e-9:
                                raise V('windage', who % (j, i) + 'released with windage %s, range %s'
                                        % (w, (lo, hi)))
                            if half and not moved:
                                stats['windage of new elements'].add((w - mean) / half)
                        else:
                            w0 = a['windages'][old[j]]
                            if not redraw or not act(wk, i - 1):
                                if w != w0:
                                    raise V('windage', who % (j, i) + 'windage %s became %s; persistence %s, '
                                            'wind %s' % (w0, w, per, act(wk, i - 1)))
                            else:
                                if abs(w - mean) > rhalf + 1e-9:
                                    raise V('windage', who % (j, i) + 'windage %s is not within %s of %s'
                                            % (w, rhalf, mean))
                                if half and a['status_codes'][old[j]] == 2 and w == w0:
                                    raise V('windage', who % (j, i) + 'windage %s was not drawn again; '
                                            'persistence %s' % (w, per))
                                if half:
                                    stats['windage'].add((w - mean) / rhalf)
                        ws.append(w)
                        n += 1
                    if j not in old:
                        continue
                    p, s0 = a['positions'][old[j]], a['status_codes'][old[j]]
                    p1 = b['positions'][q]
                    if s0 != 2 or b['status_codes'][q] != 2:
                        continue
                    dx = (p1[0] - p[0]) * MPD * math.cos(math.radians(p[1]))
                    dy = (p1[1] - p[1]) * MPD
                    if act(wk, i - 1) and p[2] > 0 and wk == 'pywind':
                        continue                   # (acts on all elements)
                    if act(wk, i - 1) and p[2] <= 0:
                        dx -= wu * w * dt
                        dy -= wv * w * dt
                    tol = 1e-5 * sp * ts * .05 + 1e-3
                    lim, free = 0., None
                    if act('random', i - 1) and p[2] <= 0:
                        lim = math.sqrt((cfg['uf'] if c else 1) * 6 * cfg['d'] / 1e4 * ts)
                        free = lim if i > 1 else None
                    if act('random3d', i - 1) and (p[2] > 0 or not cfg['surf']):
                        h = cfg['hb'] if p[2] > cfg['mld'] else cfg['hd']
                        l3 = math.sqrt(6 * h / 1e4 * ts)
                        lim, free = lim + l3, l3 if not lim else None
                    if abs(dx) > lim * 1.00001 + tol or abs(dy) > lim * 1.00001 + tol:
                        raise V('diffusion', who % (j, i) + 'moved %.3f m east and %.3f m north%s; the limit is '
                                '%.3f m (settings %s)' % (dx, dy, ' besides the wind' if wk else '', lim, cfg))
                    n += 1
                    if free and free > 1000 * tol and big:
                        x, y = dx / free, dy / free
                        stats['east'].add(x)
                        stats['north'].add(y)
                        cor['east and north'].add(x, y)
                        if prev is not None:
                            cor['neighbours'].add(x, prev[0])
                            cor['neighbours'].add(y, prev[1])
                        prev = draws[c][j] = (x, y)
                        if j in last[c]:
                            cor['successive steps'].add(x, last[c][j][0])
                            cor['successive steps'].add(y, last[c][j][1])
                        if c and j in draws[0]:
                            cor['forecast and uncertain'].add(x, draws[0][j][0])
                            cor['forecast and uncertain'].add(y, draws[0][j][1])
                    self.vertical(who % (j, i), p[2], p1[2], a['rise_vel'][old[j]]
                                  if act('rise', i - 1) and 'rise_vel' in a else 0.,
                                  act('random3d', i - 1), cfg, ts, stats)
                if len(ws) > 2 and half and np.ptp(ws) == 0:
                    raise V('same', 'step %d: all elements have windage %s' % (i, ws[0]))
            last = draws
        tested = sum(s.test(k) for k, s in sorted(stats.items()))
        for k, c in sorted(cor.items()):
            c.test(k)
        ctx.nontrivial = n >= 20
        ctx.event(sorted(mv), n, tested, len(seen))
        ctx.count('probe:compared', n)
        ctx.count('probe:tested-draws', tested)
        for k in mv:
            ctx.count('kind:' + k)
        if gone:
            ctx.count('probe:elements-gone')
        ctx.state(sorted(mv), dt < 0, big, per, len(seen) // 10, gone, len(seq), bool(case['mid']))

    def vertical(self, who, z0, z1, rise, three, cfg, ts, stats):
        """depths: rise and vertical random walk"""
        if z1 < 0:
            raise V('depth', who + 'is at depth %s' % z1)
        if not three or (z0 <= 0 and cfg['surf']):
            want = max(0., z0 - rise * ts)
            if abs(z1 - want) > 1e-6 * max(1., z0):
                raise V('depth', who + 'was at depth %s and is at %s, expected %s (rise velocity %s)'
                        % (z0, z1, want, rise))
            return
        la, lb = (math.sqrt(6 * cfg[k] / 1e4 * ts) for k in ('vd', 'vb'))
        tol = 1e-5 * (1 + la + lb + z0)
        if z0 > cfg['mld']:                              # below the mixed layer
            if z0 - lb <= 0:
                return
            if abs(z1 - max(0, z0 - rise * ts)) > lb + tol:
                raise V('depth', who + 'was at depth %s and is at %s; the limit below the mixed layer is %s, '
                        'rise velocity %s' % (z0, z1, lb, rise))
            if lb > .01 and not rise:
                stats['down'].add((z1 - z0) / lb)
        elif not rise:
            if cfg['vd'] == 0:
                lb = 0                    # nothing is done then
            top = cfg['mld'] + lb         # reflected at the mixed layer depth, then moved on
            if la <= cfg['mld'] and z1 > max(top, la + lb) + tol:
                raise V('depth', who + 'was at depth %s and is at %s; mixed layer %s, limits %s and %s'
                        % (z0, z1, cfg['mld'], la, lb))
            if la < cfg['mld'] / 2 and z0 + la < cfg['mld'] and z0 - la - lb > 0 and abs(z1 - z0) > la + lb + tol:
                raise V('depth', who + 'was at depth %s and is at %s; the limits are %s and %s'
                        % (z0, z1, la, lb))
            if la < cfg['mld'] / 2 and z0 + la < cfg['mld'] and z0 - la > 0 and la > .01 and cfg['vb'] == 0:
                stats['down'].add((z1 - z0) / la)
            if la < cfg['mld'] / 2 and z0 + la < cfg['mld'] and la > .01:
                # reflected at the surface, which does not change the square
                vs = (la ** 2 + lb ** 2) / 3
                var = (la ** 4 + lb ** 4) / 5 + la ** 2 * lb ** 2 * 2 / 3 - vs ** 2 + 4 * z0 ** 2 * vs
                stats['depth squared'].add((z1 ** 2 - z0 ** 2 - vs) / math.sqrt(var))
                f = z0 / la
                if lb == 0 and .1 < f < .5:
                    stats['nearer the surface'].add(((z1 < z0) - f) / math.sqrt(f * (1 - f)))
