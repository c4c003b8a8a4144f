"""Model scenarios: JSON spec -> gnome Model, snapshots of a running model, user components.

A spec is pure data (it lives in replay files).  `build` makes a Model out of it through
the public scripting API only; `snapshot` reads a model through its public surface only.
"""
import math
import os
from datetime import datetime, timedelta

import numpy as np

EPOCH = datetime(2020, 1, 1, 6, 0, 0)
LON0, LAT0 = -90.0, 28.0


def t_at(seconds):
    return EPOCH + timedelta(seconds=seconds)


# --------------------------------------------------------------------------
# generation

def pick(rng, **weights):
    ks = sorted(weights)
    return rng.choices(ks, [weights[k] for k in ks])[0]


def r(rng, a, b, nd=4):
    return round(rng.uniform(a, b), nd)


def gen_map(rng, kinds=('global', 'box', 'bna')):
    k = rng.choice(kinds)
    if k == 'global':
        return {'t': 'global'}
    if k == 'box':
        return {'t': 'box', 'half': r(rng, 0.02, 0.12)}
    if k == 'param':
        return {'t': 'param', 'distance': rng.choice([500, 2000, 6000]),
                'bearing': rng.randint(0, 359), 'refloat': rng.choice([-1, 0, 0.25, 1])}
    # islands: rectangles [w, s, e, n] in degrees relative to the origin
    isl = []
    for i in range(rng.randint(1, 3)):
        w, s = r(rng, -0.08, 0.05), r(rng, -0.08, 0.05)
        isl.append([w, s, round(w + r(rng, 0.01, 0.04), 4), round(s + r(rng, 0.01, 0.04), 4)])
    return {'t': 'bna', 'islands': isl, 'half': r(rng, 0.09, 0.14),
            'raster': rng.choice([64 * 64, 128 * 128, 256 * 256]),
            'refloat': rng.choice([-1, 0, 0.25, 1, 6])}


def gen_active(rng, ts, nsteps):
    """active range in seconds from the start (None = unbounded)"""
    if rng.random() < 0.7:
        return None
    a = rng.choice([None, rng.randint(-2, nsteps) * ts, rng.randint(0, nsteps * ts)])
    b = rng.choice([None, rng.randint(0, nsteps + 2) * ts, rng.randint(1, nsteps * ts + 10)])
    if a is not None and b is not None and b <= a:
        b = a + rng.randint(1, 3) * ts
    return [a, b]


def gen_mover(rng, ts, nsteps, kinds, deterministic=False):
    k = rng.choice(kinds)
    m = {'t': k, 'on': rng.random() < 0.92, 'active': gen_active(rng, ts, nsteps)}
    if k == 'simple':
        m['vel'] = [r(rng, -1.5, 1.5), r(rng, -1.5, 1.5), 0.0]
        m['unc'] = rng.choice([0.0, 0.5])
    elif k == 'random':
        m['d'] = rng.choice([1000, 50000, 100000])
        m['uf'] = rng.choice([1.0, 2.0, 3.0])
    elif k == 'random3d':
        m['vd'] = rng.choice([5, 50])
        m['mld'] = rng.choice([5.0, 10.0])
        m['rest'] = [rng.choice([.11, 3]), rng.choice([100000, 20000]), rng.choice([126, 9000]),
                     rng.random() < .5]
    elif k == 'wind':
        m['unc_speed'] = rng.choice([0.0, 2.0])
        m['delay'] = rng.choice([0, 0, 1])
        m['angle'], m['udur'] = rng.choice([0.0, .4]), rng.choice([3, 1])
        m['own'] = rng.random() < 0.3       # own constant wind, not the shared one
        m['speed'], m['dir'] = r(rng, 0, 20), r(rng, 0, 359)
    elif k in ('cgrid', 'cgridwind'):
        big = 1.0 if k == 'cgrid' else 15.0
        n = rng.randint(2, 4)
        lo = rng.choice([-5, 1])           # 1: the run begins in the first interval
        m['times'] = sorted(rng.sample(range(lo, nsteps * ts // 3600 + 6), n - 2)) \
            if n > 2 else []
        m['times'] = [-2000] + m['times'] + [2000]
        m['uv'] = [[r(rng, -big, big), r(rng, -big, big), r(rng, -big, big)] for t in m['times']]
        m['dir'] = rng.choice(['a', 'b', 'c'])
        m['scale'] = rng.choice([1, 1, 0.5])
        m['uncs'] = [rng.choice([0.0, 0.3]), rng.choice([0.0, 0.2])]
        m['delay'] = rng.choice([0, 0, 1])
    elif k in ('cats', 'comp'):
        m['uv'] = [[r(rng, -1, 1) for i in range(4)] for j in range(2)]
        m['dir'] = rng.choice(['a', 'b', 'c'])
        m['delay'] = rng.choice([0, 0, 1])
        m['udur'] = rng.choice([48, 1])
        m['eddy'] = rng.choice([0, 0, 100000])
        m['ref'] = [r(rng, -.1, .1), r(rng, -.1, .1)]
        m['scale'] = rng.choice([None, r(rng, .1, 1.2)])
        m['tide'] = rng.choice([None, 'shio', 'ossm']) if k == 'cats' else None
        m['h'] = [r(rng, 0, .6) for i in range(6)]
        m['tscale'] = r(rng, .2, 2)
        m['angles'] = [rng.randint(0, 359), rng.randint(0, 359)]
        m['by'] = rng.choice([0, 1])
        m['curs'] = [rng.choice([.3, .6]), rng.choice([-.3, 0.]), .1, rng.choice([-.1, -.4])]
    elif k == 'pycur':
        m['speed'], m['dir'] = r(rng, 0, 1.2), r(rng, 0, 359)
        m['method'] = rng.choice(['RK2', 'RK4', 'Euler'])
        m['uncs'] = [rng.choice([0.0, 0.5]), rng.choice([0.0, 0.25])]
        m['udur'] = rng.choice([24 * 3600, 2 * ts])
        m['udelay'] = rng.choice([0, ts])
    elif k == 'pywind':
        m['method'] = rng.choice(['RK2', 'Euler'])
        m['unc_speed'] = rng.choice([0.0, 2.0])
        m['udur'] = rng.choice([24 * 3600, 2 * ts])
        m['udelay'] = rng.choice([0, ts])
    return m


def gen_spill(rng, ts, nsteps, kinds=('point', 'line', 'spatial', 'grid'), oil=None,
              backwards=False, det_windage=False):
    k = rng.choice(kinds)
    s = {'t': k, 'on': rng.random() < 0.95}
    s['lon'], s['lat'] = r(rng, -0.05, 0.05), r(rng, -0.05, 0.05)
    s['z'] = 0.0 if rng.random() < 0.75 else r(rng, 1, 60, 1)
    if k in ('grid', 'spatial', 'poly'):
        s['z'] = 0.0
    if k == 'sub':
        s['z'] = r(rng, 1, 60, 1)
        s['dist'] = rng.choice(['uniform', 'normal', 'lognormal', 'weibull'])
        s['dtype'] = rng.choice(['droplet_size', 'rise_velocity'])
    start = rng.choice([0, 0, 0, rng.randint(0, nsteps) * ts,
                        rng.randint(0, max(1, nsteps - 1)) * ts + rng.randint(1, ts - 1)])
    if backwards:
        start = 0
    s['start'] = start
    s['end'] = None
    if k not in ('grid',) and not backwards and rng.random() < 0.5:
        dur = rng.choice([rng.randint(1, max(1, nsteps)) * ts,
                          rng.randint(1, max(2, nsteps * ts))])
        s['end'] = start + dur
    need = 1
    if s['end'] is not None:
        need = -(-(s['end'] - start) // ts)
    s['n'] = rng.choice([need, need + rng.randint(0, 7), need + rng.randint(5, 60)])
    if k == 'line':
        s['lon2'], s['lat2'] = r(rng, -0.06, 0.06), r(rng, -0.06, 0.06)
    if k == 'spatial':
        s['pts'] = [[r(rng, -0.05, 0.05), r(rng, -0.05, 0.05)]
                    for i in range(rng.randint(1, 5))]
        s['n'] = max(s['n'], len(s['pts']))
    if k == 'grid':
        s['res'] = [rng.randint(2, 5), rng.randint(2, 5)]
    if k == 'poly':
        s['polys'] = [[r(rng, -0.05, 0.0), r(rng, -0.05, 0.0), r(rng, 0.01, 0.03),
                       r(rng, 0.01, 0.03)] for i in range(rng.randint(1, 3))]
        if rng.random() < 0.4:
            s['thick'] = [r(rng, 0.001, 0.1) for p in s['polys']]
    s['amount'] = rng.choice([0, r(rng, 1, 50000, 2)]) if not oil else r(rng, 10, 50000, 2)
    s['units'] = rng.choice(['kg', 'kg', 'bbl', 'm^3', 'ton'])
    s['sub'] = (oil if oil else 'none')
    if s['sub'] == 'none':
        s['units'] = 'kg'
    if det_windage:
        w = r(rng, 0, 0.04)
        s['windage'] = [w, w]
        s['persist'] = -1
    else:
        s['windage'] = sorted([r(rng, 0, 0.04), r(rng, 0, 0.04)])
        s['persist'] = rng.choice([-1, 300, 900])
    return s


OILS = ['oil_ans_mp', 'oil_gas', 'oil_diesel', 'oil_crude', 'oil_6', 'oil_bahia', 'oil_4']


WIND_UNITS = ('m/s', 'm/s', 'knots', 'km/hr')


def gen_wind(rng, ts, nsteps):
    n = rng.randint(1, 4)
    span = nsteps * ts
    if n == 1:
        times = [0]
    else:
        times = [-3600] + sorted(rng.sample(range(1, max(3, span)), n - 2)) + [span + 7200]
    return [[t, r(rng, 0.5, 20), r(rng, 0, 359)] for t in times]


def gen_water(rng):
    """how the water is described (its temperature is spec['water'], in K)"""
    w = {'tu': rng.choice(['K', 'K', 'C', 'F']), 'how': rng.choice(['init', 'set'])}
    if rng.random() < 0.5:
        w.update(sal=rng.choice([0., 15., 35.]), sed=rng.choice([.005, .05]),
                 sedu=rng.choice(['kg/m^3', 'mg/l']))
    if rng.random() < 0.3:
        w.update(wh=rng.choice([0.5, 2.0]), whu=rng.choice(['m', 'ft']))
    if rng.random() < 0.3:
        w.update(fetch=rng.choice([2.0, 30.0]), fetchu=rng.choice(['km', 'nm']))
    return w


def build_water(spec):
    import gnome.scripting as gs
    w = spec.get('wat') or {}
    k = spec['water']
    tu = w.get('tu', 'K')
    t = {'K': k, 'C': k - 273.15, 'F': (k - 273.15) * 1.8 + 32}[tu]
    vals = {'temperature': (t, tu)}
    for name, key in (('salinity', 'sal'), ('sediment', 'sed'), ('wave_height', 'wh'),
                      ('fetch', 'fetch')):
        if key in w:
            vals[name] = (w[key], w.get(key + 'u', 'psu'))
    if w.get('how') == 'set':
        o = gs.Water()
        for name in vals:
            o.set(name, *vals[name])
        return o
    return gs.Water(units={n: u for n, (v, u) in vals.items()},
                    **{n: v for n, (v, u) in vals.items()})


def gen_spec(rng, weathering=None, maps=('global', 'box', 'bna'), mover_kinds=None,
             spill_kinds=('point', 'line', 'spatial', 'grid', 'sub'), uncertain=None, nsteps=None,
             backwards=False, max_spills=3, det=False, cleanup=True, min_movers=0):
    ts = rng.choice([300, 600, 900, 900, 1800, 3600, 3600, 10800])
    nsteps = nsteps or rng.randint(2, 12)
    if weathering is None:
        weathering = rng.random() < 0.4
    if backwards:
        weathering = False
    sp = {'ts': ts, 'nsteps': nsteps, 'backwards': backwards}
    sp['uncertain'] = (rng.random() < 0.5) if uncertain is None else uncertain
    sp['cache'] = rng.random() < 0.4
    sp['map'] = gen_map(rng, maps)
    sp['wind'] = gen_wind(rng, ts, nsteps)
    sp['wunits'] = rng.choice(WIND_UNITS)
    sp['wuv'] = rng.random() < 0.2
    sp['windunc'] = rng.choice([0.0, 0.0, 0.3])
    sp['water'] = r(rng, 274, 303, 1)
    sp['wat'] = gen_water(rng)
    if mover_kinds is None:
        mover_kinds = ['simple', 'simple', 'random', 'wind', 'wind', 'rise', 'random3d',
                       'cgrid', 'cgridwind', 'pycur', 'pywind', 'cats', 'cats', 'comp']
    if det:
        mover_kinds = [k for k in mover_kinds if k in ('simple', 'wind', 'rise', 'cgrid',
                                                       'cgridwind', 'pycur', 'pywind', 'cats',
                                                       'comp')]
    sp['movers'] = [gen_mover(rng, ts, nsteps, mover_kinds)
                    for i in range(rng.randint(min_movers, 3))]
    oil = rng.choice(OILS) if weathering else None
    sp['spills'] = [gen_spill(rng, ts, nsteps, spill_kinds, oil, backwards, det)
                    for i in range(rng.randint(1, max_spills))]
    sp['weatherers'] = []
    if weathering:
        ws = [w for w in ('evap', 'disp', 'emul') if rng.random() < 0.7]
        if rng.random() < 0.15:
            ws.append('halflife')
        sp['weatherers'] = [{'t': w, 'on': rng.random() < 0.95, 'active':
                             gen_active(rng, ts, nsteps)} for w in ws]
        if cleanup:
            for c in ('skim', 'burn', 'chem', 'obsbeach'):
                if rng.random() < 0.25:
                    a = rng.randint(0, nsteps * ts // 2)
                    b = a + rng.randint(1, nsteps) * ts
                    sp['weatherers'].append({'t': c, 'on': True, 'active': [a, b],
                                             'frac': r(rng, 0.05, 0.7),
                                             'eff': r(rng, 0.1, 1.0)})
        if rng.random() < 0.3:
            sp['substeps'] = rng.choice([1, 1, 2, 3])
    sp['outputters'] = []
    return sp


# --------------------------------------------------------------------------
# building

def write_bna(path, m):
    def poly(name, kind, rect):
        w, s, e, n = rect
        pts = [(w, s), (w, n), (e, n), (e, s), (w, s)]
        return '"%s","%s",%d\n' % (name, kind, len(pts)) + ''.join(
            '%.6f,%.6f\n' % (LON0 + x, LAT0 + y) for x, y in pts)
    h = m['half']
    out = poly('Map Bounds', '1', [-h, -h, h, h])
    for i, isl in enumerate(m['islands']):
        out += poly('%d' % (i + 1), '1', isl)
    with open(path, 'w') as f:
        f.write(out)


def build_map(m, workdir):
    import gnome.scripting as gs
    if m['t'] == 'global':
        return gs.GnomeMap()
    h = m.get('half')
    if m['t'] == 'box':
        b = [(LON0 - h, LAT0 - h), (LON0 - h, LAT0 + h), (LON0 + h, LAT0 + h),
             (LON0 + h, LAT0 - h)]
        return gs.GnomeMap(map_bounds=b)
    if m['t'] == 'param':
        from gnome.maps.map import ParamMap
        return ParamMap(center=(LON0, LAT0), distance=m['distance'], bearing=m['bearing'],
                        units='m', refloat_halflife=m['refloat'])
    import hashlib
    h = hashlib.md5(repr((m['islands'], m['half'])).encode()).hexdigest()[:8]
    p = os.path.join(workdir, h, 'map.bna')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p):
        write_bna(p, m)
    return gs.MapFromBNA(p, raster_size=m['raster'], refloat_halflife=m['refloat'])


def active_of(a):
    from gnome.utilities.inf_datetime import InfDateTime
    if a is None:
        return (InfDateTime('-inf'), InfDateTime('inf'))
    return (InfDateTime('-inf') if a[0] is None else t_at(a[0]),
            InfDateTime('inf') if a[1] is None else t_at(a[1]))


def wind_series(spec):
    from gnome.basic_types import datetime_value_2d
    ts = np.zeros((len(spec['wind']),), dtype=datetime_value_2d)
    for i, (t, s, d) in enumerate(spec['wind']):
        ts['time'][i] = t_at(t)
        ts['value'][i] = (s, d) if not spec.get('wuv') else \
            (-s * math.sin(math.radians(d)), -s * math.cos(math.radians(d)))
    return ts


def build_wind(spec):
    import gnome.scripting as gs
    return gs.Wind(timeseries=wind_series(spec), units=spec.get('wunits', 'm/s'),
                   coord_sys='uv' if spec.get('wuv') else 'r-theta', extrapolation_is_allowed=True,
                   speed_uncertainty_scale=spec.get('windunc', 0.0))


_subs = {}


def build_substance(s):
    from gnome.spills import GnomeOil, NonWeatheringSubstance
    if s['sub'] == 'none':
        return NonWeatheringSubstance(windage_range=tuple(s['windage']),
                                      windage_persist=s['persist'])
    o = GnomeOil(s['sub'])
    o.windage_range = tuple(s['windage'])
    o.windage_persist = s['persist']
    return o


def build_spill(s, water=None, substance=None):
    if substance is None and s['sub'] == 'none' and (s.get('n') or 1) % 2 == 0:
        # the substance of a spill that is given none, set up afterwards
        sp = build_spill_with(s, water, None)
        sp.substance.windage_range = tuple(s['windage'])
        sp.substance.windage_persist = s['persist']
        return sp
    return build_spill_with(s, water,
                            substance if substance is not None else build_substance(s))


def build_spill_with(s, water, sub):
    import gnome.scripting as gs
    k = s['t']
    start = t_at(s['start'])
    end = None if s['end'] is None else t_at(s['end'])
    pos = (LON0 + s['lon'], LAT0 + s['lat'], s['z'])
    common = dict(substance=sub, amount=s['amount'], units=s['units'], water=water,
                  on=s['on'])
    if k in ('point', 'line'):
        end_pos = None
        if k == 'line':
            end_pos = (LON0 + s['lon2'], LAT0 + s['lat2'], s['z'])
        if s.get('per_ts'):
            from gnome.spills import PointLineRelease, Spill
            rel = PointLineRelease(release_time=start, start_position=pos,
                                   num_per_timestep=s['per_ts'], end_release_time=end,
                                   end_position=end_pos)
            sp = Spill(release=rel, **common)
        else:
            sp = gs.point_line_spill(s['n'], pos, start, end_position=end_pos,
                                     end_release_time=end, **common)
    elif k == 'spatial':
        from gnome.spills import Release, Spill
        num = {'num_per_timestep': s['per_ts']} if s.get('per_ts') else \
            {'num_elements': s['n']}
        rel = Release(release_time=start, end_release_time=end, **num,
                      custom_positions=[(LON0 + p[0], LAT0 + p[1], 0.0) for p in s['pts']])
        sp = Spill(release=rel, **common)
    elif k == 'sub':
        from gnome.utilities import distributions as D
        a = {'droplet_size': 1e-4, 'rise_velocity': 1e-3}[s['dtype']]
        d = {'uniform': lambda: D.UniformDistribution(a, 10 * a),
             'normal': lambda: D.NormalDistribution(10 * a, a),
             'lognormal': lambda: D.LogNormalDistribution(float(np.log(5 * a)), .3),
             'weibull': lambda: D.WeibullDistribution(1.8, 3 * a, a, 20 * a)}[s['dist']]()
        if s.get('per_ts'):
            from gnome.spills import Spill
            from gnome.spills.release import SubsurfaceRelease
            rel = SubsurfaceRelease(distribution=d, distribution_type=s['dtype'],
                                    release_time=start, start_position=pos,
                                    num_per_timestep=s['per_ts'], end_release_time=end)
            sp = Spill(release=rel, **common)
        else:
            sp = gs.subsurface_spill(s['n'], pos, start, d, s['dtype'], end_release_time=end,
                                     **common)
    elif k == 'grid':
        sp = gs.grid_spill(((LON0 + s['lon'], LAT0 + s['lat']),
                            (LON0 + s['lon'] + 0.02, LAT0 + s['lat'] + 0.02)),
                           tuple(s['res']), start, **common)
    elif k == 'poly':
        import shapely.geometry as sg
        from gnome.spills import Spill
        from gnome.spills.release import PolygonRelease
        polys = [sg.box(LON0 + w, LAT0 + y, LON0 + w + dx, LAT0 + y + dy)
                 for w, y, dx, dy in s['polys']]
        rel = PolygonRelease(polygons=polys, release_time=start, end_release_time=end,
                             num_elements=s['n'], thicknesses=s.get('thick'))
        sp = Spill(release=rel, **common)
    else:
        raise ValueError(k)
    return sp


def write_grid(path, m, names):
    import netCDF4
    os.makedirs(os.path.dirname(path), exist_ok=True)
    d = netCDF4.Dataset(path, 'w', format='NETCDF3_CLASSIC')
    d.createDimension('time', None)
    d.createDimension('lat', 5)
    d.createDimension('lon', 6)
    d.grid_type = 'regular'
    t = d.createVariable('time', 'f8', ('time',))
    t.units = 'hours since %s' % EPOCH
    la = d.createVariable('lat', 'f4', ('lat',))
    lo = d.createVariable('lon', 'f4', ('lon',))
    la[:] = LAT0 + np.linspace(-.3, .3, 5)
    lo[:] = LON0 + np.linspace(-.3, .3, 6)
    vs = []
    for n in names:
        v = d.createVariable(n, 'f4', ('time', 'lat', 'lon'), fill_value=999.)
        v.units = 'm/s'
        vs.append(v)
    y = np.linspace(-1, 1, 5)[:, None] + np.zeros((5, 6))
    for i, (h, (a, b, c)) in enumerate(zip(m['times'], m['uv'])):
        t[i] = h
        vs[0][i] = a + 0.3 * c * y
        vs[1][i] = b - 0.3 * c * y
    d.close()


def write_cats(path, uv):
    """a current pattern: a square of two triangles"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    h = .3
    out = 'DAG 1.0\nVertices\t4\n4\t4\n' + ''.join(
        '%f\t%f\t1.0\n' % (LON0 + x, LAT0 + y) for x, y in ((-h, -h), (h, -h), (h, h), (-h, h)))
    out += ('Topology\t2\n0\t1\t2\t-1\t1\t-1\t%f\t%f\n0\t2\t3\t-1\t-1\t0\t%f\t%f\n' % tuple(uv))
    with open(path, 'w') as f:
        f.write(out + 'DAGTree\t1\n2\t-8\t-8\n')


# tide heights of a real station
SHIO_H = [0.523, 0.068, 0.123, 0.294, 0, 0.253, 0, 0, 0, 0, 0.027, 0, 0.016, 0.017, 0.014, 0.004,
          0.018, 0.016, 0.019, 0.024, 0.068, 0.179, 0, 0.046, 0.009, 0.046, 0.004, 0.001,
          0.006, 0.094, 0, 0, 0.017, 0, 0.021, 0, 0, 0, 0, 0, 0, 0]
SHIO_K = [264.3, 286.6, 246.8, 167.8, 0, 171.6, 0, 0, 0, 0, 244.8, 0, 269.5, 236.2, 160.9, 274.6,
          84.4, 203.2, 157.9, 332.9, 36.8, 186.8, 0, 348.5, 173.3, 159.1, 285.7, 287.6,
          175.5, 170.2, 0, 0, 253.5, 0, 286.6, 0, 0, 0, 0, 0, 0, 0]


def write_tide(path, kind, h):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if kind == 'shio':
        out = '[StationInfo]\nType=H\nName=SOMEWHERE\nLatitude=%f\nLongitude=%f\n' % (LAT0, LON0)
        out += '[Constituents]\nDatumControls.datum=0.768000\n' + ''.join(
            'DatumControls.%s=0\n' % x for x in ('FDir', 'EDir', 'L2Flag', 'HFlag', 'RotFlag'))
        out += 'H=%s \n' % ' '.join('%f' % x for x in SHIO_H)
        out += 'kPrime=%s \n' % ' '.join('%f' % x for x in SHIO_K)
        out += '[Offset]\nHighTime=0.000000 1\nLowTime=0.000000 1\nHighHeight_Mult=1.000000 1\n' \
            'HighHeight_Add=0.000000 1\nLowHeight_Mult=1.000000 1\nLowHeight_Add=0.000000 1\n'
    else:
        out = 'SOMEWHERE\n%f,%f\nmps\n' % (LAT0, LON0)
        t = EPOCH - timedelta(hours=72)
        for i in range(48):
            out += '%d,%d,%d,%d,%d,%f,0.0\n' % (t.day, t.month, t.year, t.hour, t.minute,
                                               h[i % 6] - .25)
            t += timedelta(hours=6)
    with open(path, 'w') as f:
        f.write(out)


def build_mover(m, env):
    import gnome.scripting as gs
    from gnome.movers import SimpleMover
    k = m['t']
    kw = dict(on=m['on'], active_range=active_of(m['active']))
    if k == 'simple':
        return SimpleMover(velocity=tuple(m['vel']), uncertainty_scale=m['unc'], **kw)
    if k == 'random':
        return gs.RandomMover(diffusion_coef=m['d'], uncertain_factor=m.get('uf', 2.0), **kw)
    if k == 'random3d':
        return gs.RandomMover3D(vertical_diffusion_coef_above_ml=m['vd'],
                                mixed_layer_depth=m['mld'],
                                vertical_diffusion_coef_below_ml=m['rest'][0],
                                horizontal_diffusion_coef_above_ml=m['rest'][1],
                                horizontal_diffusion_coef_below_ml=m['rest'][2],
                                surface_is_allowed=m['rest'][3], **kw)
    if k == 'rise':
        return gs.RiseVelocityMover(**kw)
    if k == 'wind':
        w = gs.constant_wind(m['speed'], m['dir'], 'm/s') if m['own'] else env['wind']
        return gs.PointWindMover(wind=w, uncertain_speed_scale=m['unc_speed'],
                                 uncertain_time_delay=m['delay'],
                                 uncertain_angle_scale=m['angle'],
                                 uncertain_duration=m['udur'], **kw)
    if k in ('cgrid', 'cgridwind'):
        import gnome.movers as M
        import hashlib
        # the same name in different folders, as downloaded data files have
        h = hashlib.md5(repr((k, m['times'], m['uv'])).encode()).hexdigest()[:6]
        f = os.path.join(env['workdir'], m['dir'] + h, 'grid.nc')
        if not os.path.exists(f):
            write_grid(f, m, ('water_u', 'water_v') if k == 'cgrid' else ('air_u', 'air_v'))
        if k == 'cgrid':
            return M.c_GridCurrentMover(f, current_scale=m['scale'],
                                        uncertain_along=m['uncs'][0],
                                        uncertain_cross=m['uncs'][1],
                                        uncertain_time_delay=m['delay'], **kw)
        return M.c_GridWindMover(f, wind_scale=m['scale'],
                                 uncertain_time_delay=m['delay'], **kw)
    if k in ('cats', 'comp'):
        import gnome.movers as M
        from gnome.environment import Tide
        import hashlib
        h = hashlib.md5(repr((k, m['uv'], m['h'])).encode()).hexdigest()[:6]
        d = os.path.join(env['workdir'], m['dir'] + h)
        fs = [os.path.join(d, n) for n in ('pattern.cur', 'pattern2.cur')]
        for f, uv in zip(fs, m['uv']):
            if not os.path.exists(f):
                write_cats(f, uv)
        ref = (LON0 + m['ref'][0], LAT0 + m['ref'][1], 0.0)
        unc = dict(uncertain_duration=m['udur'], uncertain_time_delay=m['delay'])
        if k == 'comp':
            return M.ComponentMover(fs[0], fs[1], wind=env['wind'], scale_refpoint=ref,
                                    pat1_angle=m['angles'][0], pat2_angle=m['angles'][1],
                                    scale_by=m['by'], **unc, **kw)
        tide = None
        if m['tide']:
            f = os.path.join(d, m['tide'] + '.txt')
            if not os.path.exists(f):
                write_tide(f, m['tide'], m['h'])
            tide = Tide(f, scale_factor=m['tscale'])
        if m['scale'] is not None or tide:
            kw.update(scale=True, scale_value=m['scale'] or .5, scale_refpoint=ref)
        return M.CatsMover(fs[0], tide=tide, uncertain_eddy_diffusion=m['eddy'],
                           **dict(zip(('up_cur_uncertain', 'down_cur_uncertain',
                                       'right_cur_uncertain', 'left_cur_uncertain'), m['curs'])),
                           **unc, **kw)
    if k == 'pycur':
        import gnome.movers as M
        from gnome.environment.environment_objects import SteadyUniformCurrent
        return M.CurrentMover(current=SteadyUniformCurrent(m['speed'], m['dir'], 'm/s'),
                              uncertain_along=m['uncs'][0], uncertain_cross=m['uncs'][1],
                              uncertain_duration=m['udur'], uncertain_time_delay=m['udelay'],
                              default_num_method=m['method'], **kw)
    if k == 'pywind':
        import gnome.movers as M
        return M.WindMover(wind=env['wind'], uncertain_speed_scale=m['unc_speed'],
                           uncertain_duration=m['udur'], uncertain_time_delay=m['udelay'],
                           default_num_method=m['method'], **kw)
    if k == 'user':
        return user_mover(m)
    raise ValueError(k)


def total_amount(spec):
    if 'total' in spec:
        return spec['total']
    return sum(s['amount'] if s['units'] == 'kg' else 100.0 for s in spec['spills']) + 0.0


def build_weatherer(w, env, spec):
    from gnome import weatherers as W
    k = w['t']
    kw = dict(on=w['on'], active_range=active_of(w['active']))
    if k == 'evap':
        return W.Evaporation(water=env['water'], wind=env['wind'], **kw)
    if k == 'disp':
        return W.NaturalDispersion(waves=env['waves'], water=env['water'], **kw)
    if k == 'emul':
        return W.Emulsification(waves=env['waves'], **kw)
    if k == 'halflife':
        return W.HalfLifeWeatherer(half_lives=3600.0, **kw)
    total = total_amount(spec)
    if k == 'skim':
        return W.Skimmer(amount=max(1.0, total * w['frac']), units='kg', efficiency=w['eff'],
                         water=env['water'], **kw)
    if k == 'burn':
        return W.Burn(area=100 + 1000 * w['frac'], thickness=0.01 + w['frac'] * 0.1,
                      active_range=active_of(w['active']), efficiency=w['eff'], on=w['on'],
                      wind=env['wind'], water=env['water'])
    if k == 'obsbeach':
        a, b = w['active']
        return W.Beaching(active_range=active_of(w['active']), units='kg', on=w['on'],
                          timeseries=[(t_at(a + (b - a) // 2), total * w['frac'] * w['eff']),
                                      (t_at(b), total * w['frac'])], water=env['water'])
    if k == 'chem':
        return W.ChemicalDispersion(fraction_sprayed=w['frac'], waves=env['waves'],
                                    active_range=active_of(w['active']), efficiency=w['eff'],
                                    on=w['on'])
    raise ValueError(k)


def build(spec, workdir, extra_outputters=(), substance_hook=None):
    import gnome.scripting as gs
    env = {'workdir': workdir}
    env['wind'] = build_wind(spec)
    env['water'] = build_water(spec)
    env['waves'] = gs.Waves(env['wind'], env['water'])
    ts = spec['ts']
    model = gs.Model(time_step=ts, start_time=t_at(spec.get('start', 0)),
                     duration=timedelta(seconds=ts * spec['nsteps'] + spec.get('rem', 0)),
                     map=build_map(spec['map'], workdir),
                     uncertain=spec['uncertain'], cache_enabled=spec['cache'],
                     weathering_substeps=spec.get('substeps', 1),
                     run_backwards=spec.get('backwards', False))
    if spec['weatherers'] or spec.get('envs'):
        model.environment += [env['wind'], env['water'], env['waves']]
    else:
        model.environment += env['wind']
    sub = None
    for s in spec['spills']:
        if sub is None and substance_hook:
            sub = substance_hook(build_substance(s))
        spill = build_spill(s, env['water'], sub)
        sub = spill.substance             # one substance object, as the container requires
        model.spills += spill
    for m in spec['movers']:
        model.movers += build_mover(m, env)
    for w in spec['weatherers']:
        model.weatherers += build_weatherer(w, env, spec)
    for o in extra_outputters:
        model.outputters += o
    return model


# --------------------------------------------------------------------------
# user components (what a script author would write)

class UserError(Exception):
    """raised by a simulated user component"""


_user_classes = {}


def user_classes():
    """Mover / Outputter subclasses that fail where they are told to"""
    if _user_classes:
        return _user_classes
    from gnome.movers import Mover, ProcessSchema

    class FaultyMover(Mover):
        _schema = ProcessSchema

        def __init__(self, plan=None, **kw):
            super().__init__(**kw)
            self.plan = plan      # {'where':..., 'step': k}; disarmed once fired
            self.fired = 0
            self.n = 0

        def _maybe(self, where):
            if self.plan and self.plan['where'] == where:
                self.n += 1
                if self.n > self.plan['step']:
                    self.plan = None
                    self.n = 0
                    self.fired += 1
                    raise UserError('injected in ' + where)

        def prepare_for_model_run(self):
            self._maybe('prepare')

        def prepare_for_model_step(self, sc, time_step, model_time_datetime):
            super().prepare_for_model_step(sc, time_step, model_time_datetime)
            self._maybe('prepare_step')

        def get_move(self, sc, time_step, model_time_datetime):
            self._maybe('move')
            return np.zeros((len(sc['positions']), 3))

        def model_step_is_done(self, sc=None):
            self._maybe('done')

    _user_classes['mover'] = FaultyMover
    return _user_classes


def user_mover(m):
    return user_classes()['mover'](plan=m.get('plan'))


# --------------------------------------------------------------------------
# observation

def snap_arrays(sc):
    return {k: np.array(sc[k], copy=True) for k in sorted(sc.data_arrays)}


def snapshot(model):
    out = {'step': model.current_time_step, 'time': str(model.model_time), 'sc': []}
    for sc in model.spills.items():
        mb = {k: v for k, v in sc.mass_balance.items()}
        out['sc'].append({'uncertain': bool(sc.uncertain), 'arrays': snap_arrays(sc),
                          'mb': _plain(mb), 'stamp': str(sc.current_time_stamp)})
    return out


def _plain(v):
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return v


def same_value(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return a == b


def arrays_differ(a, b, ignore=()):
    """None, or a sentence about the first difference"""
    ka, kb = set(a) - set(ignore), set(b) - set(ignore)
    if ka != kb:
        return 'different arrays: %s' % sorted(ka ^ kb)
    for k in sorted(ka):
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            return '%s has shape %s, expected %s' % (k, x.shape, y.shape)
        if x.dtype != y.dtype:
            return '%s has dtype %s, expected %s' % (k, x.dtype, y.dtype)
        if x.dtype.kind == 'f':
            eq = (x == y) | ((x != x) & (y != y))
        else:
            eq = (x == y)
        if not np.all(eq):
            i = tuple(int(v[0]) for v in np.nonzero(~np.atleast_1d(eq)))
            return '%s%s is %r, expected %r' % (k, list(i), np.atleast_1d(x)[i].item()
                                                if np.atleast_1d(x)[i].ndim == 0 else None,
                                                np.atleast_1d(y)[i].item())
    return None


def snaps_differ(a, b, ignore=()):
    if a['step'] != b['step'] or a['time'] != b['time']:
        return 'step/time %s %s, expected %s %s' % (a['step'], a['time'], b['step'], b['time'])
    if len(a['sc']) != len(b['sc']):
        return '%d spill containers, expected %d' % (len(a['sc']), len(b['sc']))
    for x, y in zip(a['sc'], b['sc']):
        who = 'uncertain ' if x['uncertain'] else ''
        d = arrays_differ(x['arrays'], y['arrays'], ignore)
        if d:
            return 'step %d: %s%s' % (a['step'], who, d)
        if not same_value(x['mb'], y['mb']):
            ks = [k for k in sorted(set(x['mb']) | set(y['mb']))
                  if not same_value(x['mb'].get(k), y['mb'].get(k))]
            return 'step %d: %smass balance %s: %s, expected %s' % (
                a['step'], who, ks, [x['mb'].get(k) for k in ks], [y['mb'].get(k) for k in ks])
        if x['stamp'] != y['stamp']:
            return 'step %d: time stamp %s, expected %s' % (a['step'], x['stamp'], y['stamp'])
    return None


def trace(model, rewind=True, limit=200):
    """run to the end, one snapshot per step"""
    if rewind:
        model.rewind()
    out = []
    for i in range(limit):
        try:
            model.step()
        except StopIteration:
            return out
        out.append(snapshot(model))
    raise RuntimeError('run did not end')


def coarse_state(model):
    """a small abstract state for the coverage measure"""
    res = []
    for sc in model.spills.items():
        if 'status_codes' in sc:
            codes = np.asarray(sc['status_codes'])
            res.append((bool(sc.uncertain), min(len(codes), 1) + (len(codes) > 10),
                        tuple(sorted(set(int(c) for c in codes)))))
    return (model.current_time_step, tuple(res))
