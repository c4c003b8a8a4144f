"""C08: NetCDF output holds exactly the elements of every step that was written."""
import os
import zipfile

import numpy as np

from .. import engine, scen, faults
from .base import Prop
from .c05 import try_step
from .c07 import expected, gen_outputter, build_outputter


def snap(m):
    res = []
    for sc in m.spills.items():
        res.append({'time': sc.current_time_stamp, 'arrays': scen.snap_arrays(sc),
                    'mb': scen._plain(dict(sc.mass_balance))})
    return res


def read_nc(path):
    """every record of the file, read without gnome"""
    import netCDF4 as nc
    with nc.Dataset(path) as d:
        d.set_auto_mask(False)
        times = nc.num2date(d.variables['time'][:], d.variables['time'].units,
                            calendar=d.variables['time'].calendar,
                            only_use_cftime_datetimes=False, only_use_python_datetimes=True)
        pc = d.variables['particle_count'][:]
        if len(pc) != len(times):
            raise engine.Violation('file', '%d times but %d counts' % (len(times), len(pc)))
        names = [k for k in d.variables if k not in ('time', 'particle_count')]
        data = {k: np.array(d.variables[k][:]) for k in names}
        mb = {}
        if 'mass_balance' in d.groups:
            g = d.groups['mass_balance']
            mb = {k: np.array(g.variables[k][:]) for k in g.variables if k != 'time'}
        out, start = [], 0
        for i, n in enumerate(pc.tolist()):
            rec = {k: v[start:start + n] for k, v in data.items()}
            out.append({'time': times[i], 'n': n, 'arrays': rec,
                        'mb': {k: v[i] for k, v in mb.items() if i < len(v)}})
            start += n
        total = {k: len(v) for k, v in data.items()}
        if any(v != start for v in total.values()):
            raise engine.Violation('file', 'the counts say %d elements, the data has %s'
                                   % (start, sorted(set(total.values()))))
        return out


def compare(recs, want, which, what):
    if len(recs) != len(want):
        raise engine.Violation('steps', '%s has %d steps, %d were written' % (
            what, len(recs), len(want)))
    for i, (r, w) in enumerate(zip(recs, want)):
        at = '%s record %d' % (what, i)
        if r['time'] != w['time']:
            raise engine.Violation('time', '%s is of %s, expected %s' % (at, r['time'],
                                                                         w['time']))
        a = w['arrays']
        n = len(a['positions'])
        if r['n'] != n:
            raise engine.Violation('count', '%s has %d elements, the model had %d' % (at, r['n'],
                                                                                      n))
        pairs = [('longitude', a['positions'][:, 0]), ('latitude', a['positions'][:, 1]),
                 ('depth', a['positions'][:, 2])]
        need = ['status_codes', 'spill_num', 'id', 'mass', 'age']
        for k in a:
            # (the surface concentration is derived when it is written)
            if k not in ('positions', 'surface_concentration') and (k in r['arrays'] or k in need or which == 'all'):
                pairs.append((k, a[k]))
        for k, v in pairs:
            if k not in r['arrays']:
                raise engine.Violation('missing', '%s: %s is missing' % (at, k))
            x, y = np.asarray(r['arrays'][k], dtype=float), np.asarray(v, dtype=float)
            if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                raise engine.Violation('data', '%s: %s is %s, the model had %s' % (
                    at, k, x.ravel()[:6].tolist(), y.ravel()[:6].tolist()))
        for k, v in w['mb'].items():
            if k not in r['mb'] or not (r['mb'][k] == v or (r['mb'][k] != r['mb'][k]
                                                            and v != v)):
                raise engine.Violation('balance', '%s: mass balance %s is %s, the model had %s'
                                       % (at, k, r['mb'].get(k), v))


STANDARD = {'longitude', 'latitude', 'depth', 'status_codes', 'spill_num', 'id', 'mass', 'age',
            'density', 'viscosity', 'frac_water'}
INTERNAL = {'next_positions', 'last_water_positions', 'windages', 'mass_components', 'half_lives',
            'init_mass', 'interfacial_area', 'fay_area', 'bulk_init_volume', 'frac_coverage',
            'bulltime', 'partition_coeff', 'evap_decay_constant', 'yield_factor'}


def variables(recs, want, which, what):
    """the file holds what was asked for and the run has, whatever earlier runs had"""
    if not recs:
        return
    have = set(want[0]['arrays']) - {'positions'} | {'longitude', 'latitude', 'depth'}
    exp = have & STANDARD if which == 'standard' else have - INTERNAL if which == 'most' else have
    got = set(recs[0]['arrays'])
    diff = (exp ^ got) - {'surface_concentration'}
    if diff:
        raise engine.Violation('variables', '%s (%s): missing %s, not asked for %s' % (
            what, which, sorted(diff & exp), sorted(diff - exp)))


def reader(klass, path, kw, want, rec):
    """gnome's own reader gives what the model had, whatever is asked for"""
    what = os.path.basename(path)
    pos = ('longitude', 'latitude', 'depth')
    in_file = [k for k in rec['arrays'] if k not in pos]
    few = ['positions', 'mass', 'spill_num', 'no_such_array']
    for which, names in (('standard', [k for k in in_file if k in klass.standard_arrays]),
                         ('all', in_file),
                         (few, [k for k in few if k in rec['arrays']])):
        arrs, mb = klass.read_data(path, which_data=which, **kw)
        exp = {k: rec['arrays'][k] for k in names}
        exp['positions'] = want['arrays']['positions']
        got = {k: np.ma.getdata(v) for k, v in arrs.items() if k != 'current_time_stamp'}
        if sorted(got) != sorted(exp):
            raise engine.Violation('reader', '%s: reading %s of %s gives the arrays %s, expected %s'
                                   % (what, which, kw, sorted(got), sorted(exp)))
        for k in sorted(exp):
            # (the lines above have compared the file itself with the model)
            if got[k].shape != exp[k].shape or not np.array_equal(
                    got[k], exp[k], equal_nan=got[k].dtype.kind == 'f'):
                raise engine.Violation('reader', '%s: reading %s of %s gives another %s than the '
                                       'model had' % (what, which, kw, k))
        t = str(arrs['current_time_stamp'])[:19]
        if t != want['time'].isoformat(' ')[:19]:
            raise engine.Violation('reader', '%s: reading %s gives the time %s, expected %s'
                                   % (what, kw, t, want['time']))
        bal = {k: float(np.ma.getdata(v)) for k, v in mb.items() if k in rec['mb']}
        exp = {k: float(v) for k, v in rec['mb'].items()}
        if bal != exp and not any(v != v for v in exp.values()):
            raise engine.Violation('reader', '%s: reading %s gives the mass balance %s, expected %s'
                                   % (what, kw, bal, exp))


class PROP(Prop):
    id = 'C08'
    quick_n = 450
    thorough_n = 12000
    fault_kinds = ('component-*', 'KeyboardInterrupt', 'kill')
    rule = ('seeded models with NetCDF output (all settings, forecast and uncertain file) through '
            'seeded histories ending in a complete run, a failing component or a killed process; '
            'files are read back with the netCDF library and compared with the element data '
            'recorded at every step. Non-trivial: at least two records with elements compared.')

    def gen(self, rng, index):
        back = rng.random() < 0.12
        spec = scen.gen_spec(rng, backwards=back, uncertain=rng.random() < 0.6)
        if back:
            spec['movers'] = [x for x in spec['movers'] if x['t'] not in ('rise', 'random3d')]
        o = gen_outputter(rng, spec['ts'], spec['nsteps'], ('NetCDFOutput',))
        o['on'] = True
        o['which'] = rng.choice(['standard', 'standard', 'most', 'all'])
        o['zip'] = rng.random() < 0.35
        ops = []
        for i in range(rng.randint(0, 2)):
            k = scen.pick(rng, step=2, full=1, fail=2, interrupt=2, unc=2, which=1.5,
                          bare=1.5)
            ops.append({'op': k, 'n': rng.randint(1, spec['nsteps']),
                        'where': rng.choice(['prepare_step', 'move', 'done']),
                        'frac': round(rng.random(), 4),
                        'which': rng.choice(['standard', 'most', 'all'])})
        end = scen.pick(rng, run=4, fail=3, kill=3)
        last = {'how': end, 'n': rng.randint(0, spec['nsteps'] * (2 if spec['uncertain'] else 1)),
                'where': rng.choice(['prepare_step', 'move', 'done']),
                'ext': rng.randint(1, 4) if (not o['zip'] and not back and rng.random() < 0.25)
                else 0}
        return {'spec': spec, 'out': o, 'ops': ops, 'last': last}

    def run(self, case, ctx):
        spec, o, back = case['spec'], dict(case['out']), case['spec']['backwards']
        m = scen.build(spec, ctx.scratch)
        um = scen.user_classes()['mover']()
        m.movers += um
        g = build_outputter(o, 0, ctx.scratch, back)
        m.outputters += g
        for op in case['ops']:
            k = op['op']
            ctx.count('op:' + k)
            m.rewind()
            if k == 'step':
                for i in range(op['n']):
                    try_step(m)
            elif k == 'full':
                m.full_run()
            elif k == 'fail':
                um.plan = {'where': op['where'], 'step': op['n']}
                um.n = 0
                try:
                    m.full_run()
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                um.plan = None
            elif k == 'interrupt':
                for i in range(op['n']):
                    try_step(m)
                nc = engine.fork_call(faults.count_calls, lambda: try_step(m))
                with faults.CallPoints(1 + int(op['frac'] * nc), 'KeyboardInterrupt') as cp:
                    try:
                        try_step(m)
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                if cp.fired:
                    ctx.count('fault:KeyboardInterrupt')
            elif k == 'unc':
                m.uncertain = not m.uncertain
                try_step(m)
            elif k == 'which':
                g.which_data = o['which'] = op['which']
                for i in range(op['n'] % 3):
                    try_step(m)
            elif k == 'bare':
                # a run without any spill: no oil, so fewer arrays
                sps = list(m.spills)
                for x in sps:
                    m.spills.remove(x.id)
                m.rewind()
                for i in range(1 + op['n'] % 3):
                    try_step(m)
                for x in sps:
                    m.spills += x
        m.rewind()
        if m.uncertain:
            ctx.count('probe:uncertain')
        last = case['last']
        nstep = m.num_time_steps
        want = []
        died = False
        if last['how'] in ('fail', 'kill'):
            um.plan = {'where': last['where'], 'step': last['n']}
            um.n = 0
        if last['how'] == 'kill':
            # the process is killed inside a component while a step is computed
            trail = ctx.path('trail.pkl')

            def doomed():
                import pickle
                acc = []
                um_fail = um._maybe

                def die(where):
                    try:
                        um_fail(where)
                    except scen.UserError:
                        os._exit(faults.CRASH_CODE)
                um._maybe = die
                while True:
                    try:
                        m.step()
                    except StopIteration:
                        return acc
                    acc.append(snap(m))
                    with open(trail, 'wb') as f:
                        pickle.dump(acc, f)
            try:
                seq = engine.fork_call(doomed)
            except engine.ForkDied as e:
                if e.code != faults.CRASH_CODE:
                    raise engine.Violation('died', 'the process died with %s' % e.code)
                died = True
                ctx.count('fault:kill')
                import pickle
                seq = []
                if os.path.exists(trail):
                    with open(trail, 'rb') as f:
                        seq = pickle.load(f)
        else:
            seq = []
            try:
                while True:
                    m.step()
                    seq.append(snap(m))
                    ctx.simtime(spec['ts'])
            except StopIteration:
                pass
            except scen.UserError:
                ctx.count('fault:component-' + last['where'])
                ctx.event('failed', len(seq))
            if last['ext'] and len(seq) == nstep:
                # a longer run continues where the shorter one ended
                from datetime import timedelta
                um.plan = None
                m.duration = m.duration + timedelta(seconds=last['ext'] * spec['ts'])
                try:
                    while True:
                        m.step()
                        seq.append(snap(m))
                except StopIteration:
                    pass
                if len(seq) != nstep + last['ext']:
                    raise engine.Violation('steps', 'extended run has %d steps' % len(seq))
                ctx.count('probe:extended')
        steps = [k for k in expected(o, spec['ts'], nstep) if k < len(seq)]
        if len(seq) > nstep:
            a = set(steps)
            b = set(expected(dict(o, last=False), spec['ts'], len(seq)))
            steps = sorted(a | {k for k in b if k >= nstep} |
                           ({len(seq) - 1} if o['last'] else set()))
        want = [seq[k] for k in steps]
        base = ctx.path('out0')
        # (killed before the first record or during the set-up: nothing is promised)
        if died and not seq:
            return
        zipped = o['zip'] and not died
        if zipped:
            if not os.path.exists(base + '.zip'):
                raise engine.Violation('file', 'there is no %s' % 'out0.zip')
            with zipfile.ZipFile(base + '.zip') as z:
                names = sorted(z.namelist())
                z.extractall(ctx.path('unz'))
            root = ctx.path('unz', 'out0')
            exp = ['out0.nc'] + (['out0_uncertain.nc'] if m.uncertain else [])
            if names != sorted(exp):
                raise engine.Violation('file', 'the zip holds %s, expected %s' % (names, exp))
        else:
            root = base
        files = [root + '.nc'] + ([root + '_uncertain.nc'] if m.uncertain else [])
        if not m.uncertain and os.path.exists(root + '_uncertain.nc'):
            raise engine.Violation('file', 'an uncertain file of an earlier run is left')
        from gnome.outputters import NetCDFOutput
        for i, f in enumerate(files):
            if not os.path.exists(f):
                raise engine.Violation('file', '%s is missing' % os.path.basename(f))
            try:
                recs = read_nc(f)
            except (OSError, KeyError) as e:
                raise engine.Violation('file', '%s cannot be read: %s' % (os.path.basename(f), e))
            compare(recs, [w[i] for w in want], o['which'], os.path.basename(f))
            variables(recs, [w[i] for w in want], o['which'], os.path.basename(f))
            # and through gnome's own reader
            for k in sorted({0, len(want) // 2, len(want) - 1}):
                if not 0 <= k < len(want):
                    continue
                for kw in ({'index': k}, {'time': want[k][i]['time']}):
                    reader(NetCDFOutput, f, kw, want[k][i], recs[k])
        ns = [[len(w['arrays']['positions']) for w in x] for x in want]
        ctx.nontrivial = sum(1 for n in ns if n[0] > 0) >= 2
        ctx.event(ns)
        for n in ns:
            ctx.state(last['how'], m.uncertain, o['zip'], o['which'],
                      len(set(n)) > 1, [min(x, 2) for x in n])
            if len(set(n)) > 1:
                ctx.count('probe:unequal-counts')
