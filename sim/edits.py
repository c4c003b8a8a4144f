"""Lasting changes of a model between runs: each is made both to the model, through its public
surface, and to the spec the reference model is built from."""
import copy
from datetime import timedelta

import numpy as np

from . import scen

KINDS = dict(mover_on=3, mover_range=2, mover_del=2, mover_add=2, mover_set=3, spill_set=6,
             spill_add=2, spill_del=2, weath_on=3, weath_del=2, weath_add=2, weath_range=2, weath_set=3,
             model=4, wind=2, water=1)


def gen(rng, spec):
    """an edit; its indices are taken modulo what is there when it is made"""
    ts, nsteps = spec['ts'], spec['nsteps']
    k = scen.pick(rng, **KINDS)
    oil = spec['spills'][0]['sub']
    e = {'op': 'edit', 'kind': k, 'i': rng.randint(0, 11)}
    if k in ('mover_range', 'weath_range'):
        e['active'] = scen.gen_active(rng, ts, nsteps) or \
            [rng.randint(0, nsteps) * ts, None]
    elif k == 'mover_add':
        e['m'] = scen.gen_mover(rng, ts, nsteps, ['simple', 'random', 'wind', 'pycur', 'pywind',
                                                  'cgrid', 'cgridwind', 'cats', 'comp'])
    elif k == 'mover_set':
        e['vals'] = {'vel': [scen.r(rng, -1, 1), scen.r(rng, -1, 1), 0.0],
                     'd': rng.choice([500, 20000]), 'vd': rng.choice([7, 30]),
                     'mld': rng.choice([4.0, 8.0]), 'unc_speed': rng.choice([0.0, 1.0, 3.0]),
                     'scale': rng.choice([0.25, 2]), 'method': rng.choice(['RK2', 'Euler']),
                     'unc': rng.choice([0.0, 0.25]), 'eddy': rng.choice([0, 50000]),
                     'angles': [rng.randint(0, 359), rng.randint(0, 359)],
                     'by': rng.choice([0, 1]), 'tscale': rng.choice([.1, 3.]),
                     'cats': rng.choice([.3, .9])}
    elif k == 'spill_set':
        e['what'] = rng.choice(['n', 'amount', 'on', 'start', 'end', 'pos', 'units'])
        e['s'] = scen.gen_spill(rng, ts, nsteps, ('line',), None if oil == 'none' else oil)
    elif k == 'spill_add':
        e['s'] = scen.gen_spill(rng, ts, nsteps, ('point', 'line', 'spatial', 'grid', 'sub'),
                                None if oil == 'none' else oil)
    elif k == 'weath_add':
        e['t'] = rng.choice(['evap', 'disp', 'emul'])
    elif k == 'weath_set':
        e['frac'], e['eff'] = scen.r(rng, .05, .7), scen.r(rng, .1, 1.0)
    elif k == 'model':
        e['what'] = rng.choice(['uncertain', 'cache', 'ts', 'nsteps', 'start', 'start', 'map', 'map'])
        e['map'] = scen.gen_map(rng)
        e['nsteps'] = rng.randint(2, 12)
        e['start'] = rng.choice([-2, -1, 0]) * ts // rng.choice([1, 2])
    elif k == 'wind':
        e['wind'] = scen.gen_wind(rng, ts, nsteps)
        e['wunits'] = rng.choice(scen.WIND_UNITS)
        e['wuv'] = rng.random() < 0.3
    elif k == 'water':
        e['water'] = scen.r(rng, 274, 303, 1)
    return e


def need(s, ts):
    if s['end'] is None:
        return 1
    return -(-(s['end'] - s['start']) // ts)


class Editor(object):
    """model: as built from spec, with the movers `others` added by hand"""

    def __init__(self, model, spec, workdir, others=()):
        self.m = model
        self.spec = spec = copy.deepcopy(spec)
        spec['total'] = scen.total_amount(spec)
        self.workdir = workdir
        others = set(id(o) for o in others)
        self.movers = [x for x in model.movers if id(x) not in others]
        self.spills = [s for s in model.spills]
        self.weatherers = list(model.weatherers)
        self.env = {'workdir': workdir}
        for x in model.environment:
            self.env.setdefault(type(x).__name__.lower(), x)

    def apply(self, e):
        """False if the edit makes no sense now"""
        return getattr(self, 'do_' + e['kind'])(e)

    def _pick(self, e, objs, specs):
        if not objs:
            return None, None, None
        i = e['i'] % len(objs)
        return i, objs[i], specs[i]

    def do_mover_on(self, e):
        i, o, s = self._pick(e, self.movers, self.spec['movers'])
        if o is None:
            return False
        o.on = s['on'] = not s['on']

    def do_mover_range(self, e):
        i, o, s = self._pick(e, self.movers, self.spec['movers'])
        if o is None:
            return False
        s['active'] = e['active']
        o.active_range = scen.active_of(e['active'])

    def do_mover_del(self, e):
        i, o, s = self._pick(e, self.movers, self.spec['movers'])
        if o is None:
            return False
        self.m.movers.remove(o.id)
        del self.movers[i], self.spec['movers'][i]

    def do_mover_add(self, e):
        o = scen.build_mover(e['m'], self.env)
        self.m.movers += o
        self.movers.append(o)
        self.spec['movers'].append(copy.deepcopy(e['m']))

    def do_mover_set(self, e):
        i, o, s = self._pick(e, self.movers, self.spec['movers'])
        if o is None:
            return False
        v, k = e['vals'], s['t']

        def put(key, attr):
            s[key] = v[key]
            setattr(o, attr, np.array(v[key]) if key == 'vel' else v[key])
        if k == 'simple':
            put('vel', 'velocity')
            put('unc', 'uncertainty_scale')
        elif k == 'random':
            put('d', 'diffusion_coef')
        elif k == 'random3d':
            put('vd', 'vertical_diffusion_coef_above_ml')
            put('mld', 'mixed_layer_depth')
        elif k in ('wind', 'pywind'):
            put('unc_speed', 'uncertain_speed_scale')
        elif k == 'cgrid':
            put('scale', 'current_scale')
        elif k == 'cgridwind':
            put('scale', 'wind_scale')
        elif k == 'cats':
            put('eddy', 'uncertain_eddy_diffusion')
            if s['scale'] is not None or s['tide']:
                s['scale'] = o.scale_value = v['cats']
            if s['tide']:
                s['tscale'] = o.tide.scale_factor = v['tscale']
        elif k == 'comp':
            put('by', 'scale_by')
            s['angles'] = v['angles']
            o.pat1_angle, o.pat2_angle = v['angles']
        elif k == 'pycur':
            put('method', 'default_num_method')
        else:
            return False

    def do_spill_set(self, e):
        i, o, s = self._pick(e, self.spills, self.spec['spills'])
        w, new, ts = e['what'], e['s'], self.spec['ts']
        if w == 'on':
            o.on = s['on'] = not s['on']
        elif w == 'amount':
            s['amount'], s['units'] = new['amount'], o.units
            o.amount = new['amount']
        elif w == 'units':
            if s['sub'] == 'none':
                return False
            o.units = new['units']      # (the mass stays)
        elif w == 'n':
            if s['t'] not in ('point', 'line'):
                return False
            s['n'] = max(new['n'], need(s, ts))
            o.release.num_elements = s['n']
        elif w == 'start':
            if s['end'] is not None or s['t'] == 'grid':
                return False
            s['start'] = new['start']
            o.release.release_time = scen.t_at(s['start'])
        elif w == 'end':
            if s['t'] not in ('point', 'line', 'spatial'):
                return False
            t = dict(s, end=s['start'] + ts * (1 + e['i'] % 5))
            if need(t, ts) > s['n']:
                return False
            s['end'] = t['end']
            o.release.end_release_time = scen.t_at(s['end'])
        elif w == 'pos':
            if s['t'] not in ('point', 'line'):
                return False
            s['lon'], s['lat'] = new['lon'], new['lat']
            o.release.start_position = (scen.LON0 + s['lon'], scen.LAT0 + s['lat'], s['z'])

    def do_spill_add(self, e):
        s = copy.deepcopy(e['s'])
        o = scen.build_spill(s, self.env.get('water'), self.m.spills[0].substance)
        self.m.spills += o
        self.spills.append(o)
        self.spec['spills'].append(s)

    def do_spill_del(self, e):
        if len(self.spills) < 2:
            return False
        i, o, s = self._pick(e, self.spills, self.spec['spills'])
        self.m.spills.remove(o.id)
        del self.spills[i], self.spec['spills'][i]
        if i == 0:      # the substance the spills share is described with the first one
            for k in ('windage', 'persist', 'sub'):
                self.spec['spills'][0][k] = s[k]

    def do_weath_on(self, e):
        i, o, s = self._pick(e, self.weatherers, self.spec['weatherers'])
        if o is None:
            return False
        o.on = s['on'] = not s['on']

    def do_weath_range(self, e):
        i, o, s = self._pick(e, self.weatherers, self.spec['weatherers'])
        if o is None or s['t'] in ('obsbeach', 'skim', 'burn', 'chem'):
            return False
        s['active'] = e['active']
        o.active_range = scen.active_of(e['active'])

    def do_weath_set(self, e):
        kinds = ('obsbeach', 'skim', 'burn', 'chem')
        pairs = [(o, s) for o, s in zip(self.weatherers, self.spec['weatherers'])
                 if s['t'] in kinds]
        i, o, s = self._pick(e, [p[0] for p in pairs], [p[1] for p in pairs])
        if o is None:
            return False
        s['frac'], s['eff'] = e['frac'], e['eff']
        new = scen.build_weatherer(s, self.env, self.spec)
        for a in {'skim': ('amount', 'efficiency'), 'burn': ('area', 'thickness', 'efficiency'),
                  'chem': ('fraction_sprayed', 'efficiency'), 'obsbeach': ('timeseries',)}[s['t']]:
            setattr(o, a, getattr(new, a))

    def do_weath_del(self, e):
        i, o, s = self._pick(e, self.weatherers, self.spec['weatherers'])
        if o is None:
            return False
        self.m.weatherers.remove(o.id)
        del self.weatherers[i], self.spec['weatherers'][i]

    def do_weath_add(self, e):
        if 'waves' not in self.env or any(w['t'] == e['t'] for w in self.spec['weatherers']):
            return False
        s = {'t': e['t'], 'on': True, 'active': None}
        o = scen.build_weatherer(s, self.env, self.spec)
        self.m.weatherers += o
        self.weatherers.append(o)
        self.spec['weatherers'].append(s)

    def do_model(self, e):
        m, sp, w = self.m, self.spec, e['what']
        if w == 'uncertain':
            m.uncertain = sp['uncertain'] = not sp['uncertain']
        elif w == 'cache':
            m.cache_enabled = sp['cache'] = not sp['cache']
        elif w == 'ts':
            ts = sp['ts'] // 2 if e['i'] % 2 else sp['ts'] * 2
            if ts < 100 or any(need(s, ts) > s['n'] for s in sp['spills']):
                return False
            total = sp['ts'] * sp['nsteps'] + sp.get('rem', 0)
            sp['ts'], sp['nsteps'], sp['rem'] = ts, total // ts, total % ts
            m.time_step = ts
        elif w == 'nsteps':
            sp['nsteps'], sp['rem'] = e['nsteps'], 0
            m.duration = timedelta(seconds=sp['ts'] * e['nsteps'])
        elif w == 'start':
            sp['start'] = e['start']
            m.start_time = scen.t_at(sp['start'])
        elif w == 'map':
            sp['map'] = e['map']
            m.map = scen.build_map(e['map'], self.workdir)

    def do_wind(self, e):
        self.spec['wind'] = e['wind']
        self.spec['wunits'] = e['wunits']
        self.spec['wuv'] = e['wuv']
        self.env['wind'].set_wind_data(scen.wind_series(self.spec), units=e['wunits'],
                                       coord_sys='uv' if e['wuv'] else 'r-theta')

    def do_water(self, e):
        if 'water' not in self.env:
            return False
        self.spec['water'] = e['water']
        self.env['water'].set('temperature', e['water'], 'K')
