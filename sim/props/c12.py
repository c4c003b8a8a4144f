"""C12: what the map does to elements: beaching, refloating, leaving the map, tidal flats.

The oracle is plain geometry (shapely) on the polygons the map was made from, in pixel units of
the map's raster, with a tolerance of two pixels; what the movers asked for is recorded by a user
mover at the end of the list (public API)."""
import math

import numpy as np

from .. import engine, scen
from .observed import Observed

IN_WATER, ON_LAND, TIDEFLAT = 2, 3, 32
T = 2.0          # tolerance, pixels


def rect(x, y, w, h):
    return [[x, y], [x, y + h], [x + w, y + h], [x + w, y]]


def gen_map(rng):
    """polygons in units of 1e-4 degrees around the origin: [kind, points]"""
    raster = rng.choice([40000, 40000, 250000, 250000, 1200000])
    if rng.random() < 0.02:
        raster = 17000000
    half = 1000
    polys = []
    # one big land frame on some side decides the extent of the raster
    px = 2.0 * half / math.sqrt(raster)
    strips = []
    for i in range(rng.randint(1, 6)):
        k = rng.choice(['rect', 'tri', 'ell', 'strip', 'strip', 'pebble', 'lake'])
        x, y = rng.randint(-900, 600), rng.randint(-900, 600)
        if k == 'rect':
            polys.append(['1', rect(x, y, rng.randint(60, 300), rng.randint(60, 300))])
        elif k == 'tri':
            polys.append(['1', [[x, y], [x + rng.randint(80, 300), y + rng.randint(0, 60)],
                                [x + rng.randint(0, 80), y + rng.randint(80, 300)]]])
        elif k == 'ell':
            a, b = rng.randint(120, 300), rng.randint(60, 100)
            polys.append(['1', [[x, y], [x, y + a], [x + b, y + a], [x + b, y + b],
                                [x + a, y + b], [x + a, y]]])
        elif k == 'strip':
            ln = rng.randint(150, 400)
            ang = rng.uniform(0, 2 * math.pi)
            w = rng.choice([0.2, 0.6, 1.0, 2.0]) * px / 2
            x += 100
            y += 100
            dx, dy = math.cos(ang), math.sin(ang)
            bx, by = x + ln * dx, y + ln * dy
            if max(abs(bx), abs(by)) > half - 10:
                continue
            polys.append(['1', [[round(x - dy * w, 4), round(y + dx * w, 4)],
                                [round(bx - dy * w, 4), round(by + dx * w, 4)],
                                [round(bx + dy * w, 4), round(by - dx * w, 4)],
                                [round(x + dy * w, 4), round(y - dx * w, 4)]]])
            strips.append([x, y, round(bx, 4), round(by, 4)])
        elif k == 'pebble':
            s = rng.choice([0.5, 2, 6, 12]) * px
            polys.append(['1', rect(x, y, round(s, 4), round(s * rng.uniform(.7, 1.4), 4))])
        else:
            a, b = rng.randint(150, 350), rng.randint(150, 350)
            polys.append(['1', rect(x, y, a, b)])
            polys.append(['2', rect(x + 40, y + 40, a - 80, b - 80)])
    if rng.random() < 0.6 or not polys:
        # a coast on one side
        s = rng.choice('nsew')
        polys.insert(0, ['1', {'n': rect(-half, half - 80, 2 * half, 80),
                               's': rect(-half, -half, 2 * half, 80),
                               'e': rect(half - 80, -half, 80, 2 * half),
                               'w': rect(-half, -half, 80, 2 * half)}[s]])
    # lakes must not erase what is drawn before them unless it is their own island
    lakes = [p for p in polys if p[0] == '2']
    if lakes:
        keep, last = [], None
        for p in polys:
            if p[0] == '1':
                last = p
                keep.append(p)
            elif overlaps(p[1], [q[1] for q in polys if q[0] == '1' and q is not last]):
                keep.remove(last)
            else:
                keep.append(p)
        polys = keep
        if not polys:
            polys = [['1', rect(100, 100, 200, 200)]]
    h = half + rng.choice([100, 400, 0, -300])
    bounds = rng.choice([rect(-h, -h, 2 * h, 2 * h),
                         [[-h, -h], [-h, h], [h, h], [h, 0], [0, 0], [0, -h]],
                         [[-h, 0], [0, h], [h, 0], [0, -h]]])
    m = {'t': 'poly', 'raster': raster, 'polys': polys, 'strips': strips, 'bounds': bounds,
         'refloat': rng.choice([-1, -1, 0, 0, 0.1, 1, 6])}
    return m


def param_map(distance, bearing, refloat):
    """the straight coast of a ParamMap, in the same units"""
    d = distance * 8.9992801e-06 / math.cos(math.radians(scen.LAT0)) * 1e4
    a = math.radians(90 - bearing)
    land = [[x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)]
            for x, y in ((d, -16 * d), (d, 16 * d), (16 * d, 16 * d), (16 * d, -16 * d))]
    return {'t': 'param', 'distance': distance, 'bearing': bearing, 'refloat': refloat, 'd': d,
            'px': 0.1, 'strips': [], 'polys': [['1', land]],
            'bounds': rect(-16 * d, -16 * d, 32 * d, 32 * d)}


def overlaps(a, others):
    import shapely.geometry as sg
    pa = sg.Polygon(a).buffer(20)
    return any(pa.intersects(sg.Polygon(o)) for o in others)


class Geo(object):
    """the map in pixel units"""

    def __init__(self, m):
        import shapely.geometry as sg
        from shapely.ops import unary_union
        pts = [p for k, q in m['polys'] for p in q]
        lo = np.min(pts, axis=0)
        hi = np.max(pts, axis=0)
        c = math.cos(math.radians(scen.LAT0 + 0.5e-4 * (lo[1] + hi[1])))
        area = c * (hi[0] - lo[0]) * (hi[1] - lo[1])
        self.px = m.get('px') or max(math.sqrt(area / m['raster']) * 1.05, 1e-6)   # in 1e-4 degrees
        self.cos = c
        land = sg.Polygon()
        for k, q in m['polys']:
            p = sg.Polygon([self.from_units(*x) for x in q]).buffer(0)
            land = land.union(p) if k == '1' else land.difference(p)
        self.land = land
        self.core = land.buffer(-T)
        self.wide = land.buffer(T)
        bars = []
        for x0, y0, x1, y1 in m['strips']:
            ln = sg.LineString([self.from_units(x0, y0), self.from_units(x1, y1)])
            if ln.length > 8 * T:
                bars.append(sg.LineString([ln.interpolate(3 * T),
                                           ln.interpolate(ln.length - 3 * T)]))
        self.bars = unary_union(bars) if bars else None
        self.bounds = sg.Polygon([self.from_units(*x) for x in m['bounds']])
        self.edge = self.bounds.exterior
        from shapely.prepared import prep
        self.pwide, self.pcore = prep(self.wide), prep(self.core)
        self.sg = sg

    def from_units(self, x, y):
        return (x * self.cos / self.px, y / self.px)

    def pt(self, p):
        return self.sg.Point(self.from_units((p[0] - scen.LON0) * 1e4, (p[1] - scen.LAT0) * 1e4))

    def must_hit(self, seg):
        if self.pcore.intersects(seg):
            return True
        if self.bars is not None:
            x = seg.intersection(self.bars)
            if not x.is_empty:
                # the path has to start and end away from the barrier
                a, b = self.sg.Point(seg.coords[0]), self.sg.Point(seg.coords[-1])
                if a.distance(self.land) > T and b.distance(self.land) > T:
                    return True
        return False

    def may_hit(self, seg):
        return self.pwide.intersects(seg)


def bna_text(m):
    out = ''
    def poly(name, kind, pts):
        pts = pts + [pts[0]]
        return '"%s","%s",%d\n' % (name, kind, len(pts)) + ''.join(
            '%.9f,%.9f\n' % (scen.LON0 + x * 1e-4, scen.LAT0 + y * 1e-4) for x, y in pts)
    out += poly('Map Bounds', '1', m['bounds'])
    for i, (k, q) in enumerate(m['polys']):
        out += poly('%d' % (i + 1), k, q)
    return out


class PROP(Observed):
    id = 'C12'
    quick_n = 500
    thorough_n = 12000
    survives_failure = False
    rule = ('seeded coastlines (islands, thin barriers, pebbles, lakes, coasts, non-rectangular '
            'bounds, the straight coast of a ParamMap), tidal flats and raster sizes; seeded jumps of a pixel to the whole map per '
            'step on top of the usual movers; every step of every element is judged by the '
            'geometry. Non-trivial: at least one element beached or left the map.')

    def gen_spec(self, rng, index):
        if rng.random() < 0.08:
            return self.gen_refloat(rng)
        sp = scen.gen_spec(rng, maps=('global',), weathering=rng.random() < 0.15,
                           spill_kinds=('point',), max_spills=2, cleanup=False)
        if rng.random() < 0.1:
            sp['map'] = param_map(rng.choice([10000, 20000]),
                                  rng.choice([0, 90, 180, 270, rng.randint(0, 359)]),
                                  rng.choice([-1, .1, 1, 6]))
            for s in sp['spills']:
                s['lon'] = s['lat'] = 0.0
            sp['jump'] = {'seed': rng.randint(0, 10 ** 6), 'scale': rng.choice([300, 700, 1500]),
                          'vert': rng.random() < 0.2}
            return sp
        if rng.random() < 0.2:
            sp['map'] = {'t': 'hull', 'bounds': gen_map(rng)['bounds']}
            geo = None
        else:
            sp['map'] = gen_map(rng)
            geo = Geo(sp['map'])
        if rng.random() < 0.25:
            a = rng.randint(0, sp['nsteps'])
            x, y = rng.randint(-900, 100), rng.randint(-900, 100)
            sp['map']['flat'] = [rect(x, y, rng.randint(200, 900), rng.randint(200, 900)),
                                 a * sp['ts'], (a + rng.randint(0, 4)) * sp['ts']]
        for s in sp['spills']:
            self.place(rng, s, sp['map'], geo)
        if geo is not None and 'flat' not in sp['map'] and rng.random() < 0.25:
            self.place(rng, sp['spills'][-1], sp['map'], geo, ashore=True)
        sp['jump'] = {'seed': rng.randint(0, 10 ** 6),
                      'scale': rng.choice([3, 30, 100, 300, 1000, 0]),
                      'vert': rng.random() < 0.2}
        return sp

    def place(self, rng, s, m, geo, ashore=False):
        import shapely.geometry as sg
        b = sg.Polygon(m['bounds'])
        for i in range(300):
            x, y = rng.randint(-1000, 1000), rng.randint(-1000, 1000)
            if not b.buffer(-2).contains(sg.Point(x, y)):
                continue
            if ashore:
                if geo.core.contains(sg.Point(geo.from_units(x, y))):
                    break
                continue
            if geo is not None and sg.Point(geo.from_units(x, y)).distance(geo.land) <= 2 * T:
                continue
            break
        else:
            return
        s['lon'], s['lat'] = round(x * 1e-4, 4), round(y * 1e-4, 4)

    def gen_refloat(self, rng):
        """many elements thrown on a coast at once, then left alone: refloating statistics"""
        ts = rng.choice([600, 900, 1800, 3600])
        m = {'t': 'poly', 'raster': 40000, 'strips': [], 'bounds': rect(-1000, -1000, 2000, 2000),
             'polys': [['1', rect(500, -900, 400, 1800)]],
             'refloat': rng.choice([0.05, 0.1, 0.25, 0.5, 1, 2, 6])}
        spill = {'t': 'point', 'on': True, 'lon': 0.045, 'lat': 0.0, 'z': 0.0, 'start': 0,
                 'end': None, 'n': 1500, 'amount': 1000, 'units': 'kg', 'sub': 'none',
                 'windage': [0, 0], 'persist': 900}
        if rng.random() < .15:
            m = param_map(600, 90, m['refloat'])
            spill['lon'] = 0.0
        return {'ts': ts, 'nsteps': rng.randint(2, 8), 'backwards': False, 'cache': False,
                'uncertain': rng.random() < 0.5, 'map': m, 'wind': [[0, 0, 0]], 'water': 290.,
                'movers': [], 'spills': [spill], 'weatherers': [], 'outputters': [],
                'jump': {'seed': 1, 'scale': 0, 'vert': False, 'ashore': True}}

    # ------------------------------------------------------------------

    def make(self, case, ctx):
        import gnome.scripting as gs
        sp = dict(case['spec'])
        md = sp['map']
        sp['map'] = {'t': 'global'}
        m = scen.build(sp, ctx.scratch)
        deg = [(scen.LON0 + x * 1e-4, scen.LAT0 + y * 1e-4) for x, y in md['bounds']]
        if md['t'] == 'hull':
            gmap = gs.GnomeMap(map_bounds=deg)
        elif md['t'] == 'param':
            from gnome.maps.map import ParamMap
            gmap = ParamMap(center=(scen.LON0, scen.LAT0), distance=md['distance'],
                            bearing=md['bearing'], units='m', refloat_halflife=md['refloat'])
        else:
            p = ctx.path('coast.bna')
            with open(p, 'w') as f:
                f.write(bna_text(md))
            gmap = gs.MapFromBNA(p, raster_size=md['raster'], refloat_halflife=md['refloat'])
        if md.get('flat'):
            from gnome.maps.tideflat_map import TideflatMap, SimpleTideflat
            poly, a, b = md['flat']
            tf = SimpleTideflat([(scen.LON0 + x * 1e-4, scen.LAT0 + y * 1e-4) for x, y in poly],
                                scen.t_at(a), scen.t_at(b))
            gmap = TideflatMap(gmap, tf)
        m.map = gmap
        self.rec = recorder(sp['jump'])
        m.movers += self.rec
        m.movers += scen.user_classes()['mover']()
        return m

    def init_state(self, m, case):
        sp = case['spec']
        st = {'spec': sp, 'seen': 0, 'prev': {}, 'geo': None, 'p': None, 'expected': 0.0, 'born': {},
              'off': {}}
        if sp['map']['t'] in ('poly', 'param'):
            st['geo'] = Geo(sp['map'])
        else:
            g = Geo.__new__(Geo)
            import shapely.geometry as sg
            g.sg, g.px, g.cos = sg, 1.0, 1.0
            g.bounds = sg.Polygon(sp['map']['bounds'])
            g.edge = g.bounds.exterior
            st['hull'] = g
        if sp['map'].get('flat'):
            import shapely.geometry as sg
            poly, a, b = sp['map']['flat']
            st['flat'] = sg.Polygon([(scen.LON0 + x * 1e-4, scen.LAT0 + y * 1e-4)
                                     for x, y in poly])
        self.rec.calls.clear()
        return st

    def check(self, m, st, ctx):
        for sc in m.spills.items():
            self.check_sc(m, sc, st, ctx)
        self.rec.calls.clear()

    def check_sc(self, m, sc, st, ctx):
        sp = st['spec']
        key = bool(sc.uncertain)
        at = '%sstep %d' % ('uncertain ' if key else '', m.current_time_step)
        rec = self.rec.calls.get(key)
        geo = st['geo'] or st['hull']
        has_land = st['geo'] is not None
        refloat = sp['map'].get('refloat')
        ids = np.asarray(sc['id']).tolist()
        pos = np.asarray(sc['positions'])
        lwp = np.asarray(sc['last_water_positions'])
        status = np.asarray(sc['status_codes'])
        mass = np.asarray(sc['mass'])
        V = engine.Violation
        now = {e: i for i, e in enumerate(ids)}
        prev = st['prev'].get(key, {})
        # elements released on land are beached there, and have no other place to refloat to
        born = st['born'].setdefault(key, {})
        if has_land:
            for e, i in now.items():
                if e not in prev and (rec is None or e not in rec[1]):
                    c = geo.pt(pos[i])
                    if geo.core.contains(c):
                        born[e] = c
                        ctx.count('probe:released-ashore')
                        if status[i] != ON_LAND:
                            raise V('released', '%s: element %d was released on land at %s and '
                                    'has status %d' % (at, e, pos[i].tolist(), status[i]))
                    elif not geo.wide.contains(c) and status[i] != IN_WATER:
                        raise V('released', '%s: element %d was released in the water at %s and '
                                'has status %d' % (at, e, pos[i].tolist(), status[i]))
        if rec is not None and m.current_time_step > 0:
            t_move, rid, rstat, start, end, rlwp = rec
            off_mass = 0.0
            floated = [0, 0]
            for j, e in enumerate(rid):
                p0, p1 = start[j].copy(), end[j].copy()
                a, b = geo.pt(p0), geo.pt(p1)
                i = now.get(e)
                was = prev.get(e)
                if was is None and has_land and geo.core.contains(a):
                    born[e] = a
                    ctx.count('probe:released-ashore')
                    if rstat[j] != ON_LAND and refloat < 0:
                        raise V('released', '%s: element %d was released on land at %s and has '
                                'status %d' % (at, e, p0.tolist(), rstat[j]))
                if e in born:
                    if i is None or geo.pt(pos[i]).distance(born[e]) > T:
                        raise V('released', '%s: element %d was released on land and %s' % (
                            at, e, 'is gone' if i is None else 'is at %s' % pos[i].tolist()))
                    if refloat != 0 and status[i] != ON_LAND:
                        raise V('released', '%s: element %d was released on land at %s and has '
                                'status %d' % (at, e, p0.tolist(), status[i]))
                    continue
                if was is not None and was[0] == ON_LAND:
                    floated[0] += 1
                    if rstat[j] == IN_WATER:
                        floated[1] += 1
                        ctx.count('probe:refloated')
                        if refloat < 0:
                            raise V('refloat', '%s: element %d refloated although the half-life '
                                    'is negative' % (at, e))
                        if not np.array_equal(p0, was[2]):
                            raise V('refloat', '%s: element %d refloated at %s, not at its last '
                                    'water position %s' % (at, e, p0.tolist(), was[2].tolist()))
                        if geo.core.contains(a):
                            raise V('refloat', '%s: element %d refloated on land at %s'
                                    % (at, e, p0.tolist()))
                if rstat[j] == ON_LAND or rstat[j] == TIDEFLAT:
                    # not to move
                    if i is None:
                        raise V('vanished', '%s: element %d was ashore and vanished' % (at, e))
                    if np.abs(pos[i][:2] - p0[:2]).max() > 1e-9:
                        raise V('moved', '%s: element %d moved from %s to %s while ashore'
                                % (at, e, p0.tolist(), pos[i].tolist()))
                    if rstat[j] == ON_LAND and status[i] != ON_LAND and refloat != 0:
                        raise V('status', '%s: element %d left the beach with status %d'
                                % (at, e, status[i]))
                    if rstat[j] == TIDEFLAT and status[i] != TIDEFLAT:
                        if not (has_land and geo.may_hit(geo.sg.LineString([a, a]))):
                            raise V('tideflat', '%s: element %d on the tidal flat has status %d'
                                    % (at, e, status[i]))
                    continue
                seg = geo.sg.LineString([a, b])
                if sp['map']['t'] == 'param' and \
                        np.abs(np.subtract((p0, p1), (scen.LON0, scen.LAT0, 0)))[:, :2].max() > \
                        14e-4 * sp['map']['d']:
                    continue            # (round the ends of the straight coast)
                landed = i is not None and status[i] == ON_LAND
                must = has_land and geo.must_hit(seg)
                may = has_land and geo.may_hit(seg)
                d_edge = geo.edge.distance(b)
                inside = geo.bounds.contains(b)
                if must and i is None:
                    # ok only if the beach itself is off the map
                    if self.beach_on_map(geo, seg):
                        raise V('through', '%s: element %d left the map through land: %s to %s'
                                % (at, e, p0.tolist(), p1.tolist()))
                if i is None:
                    if inside and d_edge > 1e-6 and not may:
                        raise V('vanished', '%s: element %d vanished going from %s to %s inside '
                                'the map' % (at, e, p0.tolist(), p1.tolist()))
                    continue
                q = pos[i]
                c = geo.pt(q)
                if not geo.bounds.contains(c) and geo.edge.distance(c) > 1e-6:
                    raise V('off map', '%s: element %d is at %s, off the map'
                            % (at, e, q.tolist()))
                if q[2] < 0:
                    raise V('airborne', '%s: element %d at %s' % (at, e, q.tolist()))
                if landed:
                    ctx.count('probe:beached')
                    st['seen'] += 1
                    if not may:
                        raise V('beached', '%s: element %d beached at %s, its path from %s to %s '
                                'does not touch land' % (at, e, q.tolist(), p0.tolist(),
                                                         p1.tolist()))
                    if refloat == 0:
                        raise V('beached', '%s: element %d stays on land although everything '
                                'refloats at once' % (at, e))
                    self.check_beach(geo, seg, c, geo.pt(lwp[i]), at, e, V,
                                     sp['map']['t'] == 'param')
                    continue
                if must:
                    if refloat != 0:
                        raise V('through', '%s: element %d went through land, from %s to %s'
                                % (at, e, p0.tolist(), q.tolist()))
                    ctx.count('probe:bounced')
                    self.check_bounce(geo, seg, c, at, e, V)
                elif not may or refloat != 0:
                    want = p1.copy()
                    want[2] = max(want[2], 0.0)
                    if not np.array_equal(want, q):
                        raise V('position', '%s: element %d should be at %s, is at %s'
                                % (at, e, want.tolist(), q.tolist()))
                if has_land and geo.core.contains(c):
                    raise V('inland', '%s: element %d is in the water at %s, which is land'
                            % (at, e, q.tolist()))
                if 'flat' in st:
                    f = st['flat']
                    P = geo.sg.Point(q[0], q[1])
                    if f.exterior.distance(P) > 1e-7:
                        poly, ta, tb = sp['map']['flat']
                        dry = f.contains(P) and scen.t_at(ta) <= t_move <= scen.t_at(tb)
                        if dry != (status[i] == TIDEFLAT):
                            raise V('tideflat', '%s: element %d at %s has status %d, the flat is '
                                    '%s' % (at, e, q.tolist(), status[i],
                                            'dry' if dry else 'wet'))
                        if dry:
                            ctx.count('probe:tideflat')
                elif status[i] != IN_WATER:
                    raise V('status', '%s: element %d has status %d' % (at, e, status[i]))
            if any(i is None for i in [now.get(e) for e in rid]):
                ctx.count('probe:left')
                st['seen'] += 1
            if sp['jump'].get('ashore') and floated[0] >= 200:
                n, k = floated
                p = 1.0 - 0.5 ** (sp['ts'] / (3600.0 * refloat)) if refloat > 0 else None
                if p is not None:
                    ctx.count('probe:refloat-statistics')
                    sd = math.sqrt(n * p * (1 - p)) + 1e-9
                    if abs(k - n * p) > 6 * sd + 2:
                        raise V('half-life', '%s: %d of %d beached elements refloated in %d s, '
                                'the half-life of %s h asks for %.0f'
                                % (at, k, n, sp['ts'], refloat, n * p))
        if any(k[1] is None for k in ()):
            pass
        b = float(mass[status == ON_LAND].sum())
        if rec is not None or len(ids) == 0:
            mb = sc.mass_balance.get('beached')
            if mb is not None and rec is not None and abs(mb - b) > 1e-6 * max(1.0, b):
                raise V('beached mass', '%s: %r kg are reported beached, %r kg are on land'
                        % (at, mb, b))
        st['prev'][key] = {e: (int(status[i]), pos[i].copy(), lwp[i].copy())
                           for e, i in now.items()}

    def beach_on_map(self, geo, seg):
        x = seg.intersection(geo.wide)
        inner = geo.bounds.buffer(-2 * T)
        return inner.contains(x)

    def check_beach(self, geo, seg, c, w, at, e, V, line=False):
        if c.distance(geo.land) > T:
            raise V('beached', '%s: element %d beached %.1f pixels off land'
                    % (at, e, c.distance(geo.land)))
        if c.distance(seg) > T:
            raise V('beached', '%s: element %d beached %.1f pixels off its path'
                    % (at, e, c.distance(seg)))
        d = seg.project(c) - 2 * T
        if d > 0:
            part = geo.sg.LineString([seg.coords[0], seg.interpolate(d)])
            if geo.must_hit(part):
                raise V('through', '%s: element %d beached behind other land' % (at, e))
        if w.distance(geo.sg.LineString([seg.coords[0], c])) > T if line else c.distance(w) > T:
            raise V('water position', '%s: the last water position of element %d is %.1f pixels '
                    'from where it beached' % (at, e, c.distance(w)))
        if geo.core.contains(w):
            raise V('water position', '%s: the last water position of element %d is inland'
                    % (at, e))

    def check_bounce(self, geo, seg, c, at, e, V):
        if c.distance(geo.land) > 2 * T or c.distance(seg) > 2 * T:
            raise V('beached', '%s: element %d should be at the shore it hit, is %.1f pixels off '
                    'land, %.1f pixels off its path' % (at, e, c.distance(geo.land),
                                                       c.distance(seg)))
        d = seg.project(c) - 2 * T
        if d > 0 and geo.must_hit(geo.sg.LineString([seg.coords[0], seg.interpolate(d)])):
            raise V('through', '%s: element %d is behind land it should have hit' % (at, e))

    def finish(self, m, st, ctx):
        # the questions a user asks the map agree with the geometry
        geo = st['geo']
        if geo is None or st['spec']['map'].get('flat'):
            return
        rs = np.random.RandomState(st['spec']['jump']['seed'])
        for x, y in rs.uniform(-1500, 1500, (25, 2)):
            p = (scen.LON0 + x * 1e-4, scen.LAT0 + y * 1e-4, 0.0)
            P = geo.pt(p)
            if P.distance(geo.land.boundary) < T or P.distance(geo.edge) < 1e-3:
                continue
            on, land = geo.bounds.contains(P), geo.land.contains(P)
            got = (bool(m.map.on_map(p)), bool(m.map.on_land(p)), bool(m.map.in_water(p)),
                   bool(m.map.on_land_points([p])[0]))
            if got != (on, land, on and not land, land):
                raise engine.Violation('query', '%s: on_map, on_land, in_water, on_land_points '
                                       'are %s' % (p, got))


_classes = {}


def recorder(jump):
    if not _classes:
        from gnome.movers import Mover, ProcessSchema

        class Recorder(Mover):
            """moves elements in the water by seeded jumps and records what all movers ask for"""
            _schema = ProcessSchema

            def __init__(self, jump=None, **kw):
                super().__init__(**kw)
                self.jump = jump
                self.calls = {}

            def get_move(self, sc, time_step, model_time):
                pos = np.asarray(sc['positions'])
                n = len(pos)
                d = np.zeros((n, 3))
                st = np.asarray(sc['status_codes'])
                ids = np.asarray(sc['id']).tolist()
                sec = int((model_time - scen.EPOCH).total_seconds())
                j = self.jump
                for i in range(n):
                    if st[i] != IN_WATER:
                        continue
                    if j.get('ashore'):
                        if sec == 0:
                            d[i, :2] = (0.012, ((ids[i] * 37) % 1500 - 750) * 1e-4)
                        continue
                    rs = np.random.RandomState((j['seed'] + 7919 * ids[i] + sec
                                                + 31 * bool(sc.uncertain)) % 2 ** 31)
                    u = rs.standard_normal(3)
                    d[i, 0], d[i, 1] = u[0] * j['scale'] * 1e-4, u[1] * j['scale'] * 1e-4
                    if j['vert']:
                        d[i, 2] = u[2] * 5
                end = np.asarray(sc['next_positions']) + d
                self.calls[bool(sc.uncertain)] = (model_time, ids, st.copy(), pos.copy(), end,
                                                  np.array(sc['last_water_positions']))
                return d
        _classes['r'] = Recorder
    return _classes['r'](jump)
