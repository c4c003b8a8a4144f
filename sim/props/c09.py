"""C09: every other output file holds exactly the model state of the steps that were written."""
import csv
import glob
import json
import os
import re
import struct
import zipfile
from datetime import timedelta, datetime

import numpy as np

from .. import engine, scen, faults
from .base import Prop
from .c05 import try_step
from .c07 import expected, gen_outputter, build_outputter
from .c08 import snap

KINDS = ('KMZOutput', 'BinaryOutput', 'ShapeOutput', 'TrajectoryGeoJsonOutput',
         'OilBudgetOutput', 'WeatheringOutput')
V = engine.Violation


def build(o, i, workdir, back):
    if o['t'] != 'ShapeOutput':
        if o.get('rel'):
            # a file name relative to the current directory
            return build_outputter(o, i, '', back)
        return build_outputter(o, i, workdir, back)
    import gnome.outputters as G
    kw = dict(on=o['on'], output_zero_step=o['zero'], output_last_step=o['last'],
              output_single_step=o['single'],
              output_timestep=None if o['every'] is None else timedelta(seconds=o['every']),
              output_start_time=None if o['start'] is None
              else scen.t_at(-o['start'] if back else o['start']))
    base = ('out%s' % i) if o.get('rel') else os.path.join(workdir, 'out%s' % i)
    return G.ShapeOutput(base, zip_output=o['zip'], include_certain_boundary=o['cb'],
                         include_uncertain_boundary=o['ub'], **kw)


# --------------------------------------------------------------------------
# readers (none of them uses gnome)

def check_kmz(o, base, want, back, ts, uncertain):
    import xml.etree.ElementTree as ET
    if not os.path.exists(base + '.kmz'):
        raise V('file', 'there is no kmz file')
    with zipfile.ZipFile(base + '.kmz') as z:
        names = z.namelist()
        if len(set(names)) != len(names) or set(names) != {'dot.png', 'x.png', 'out%d.kml' % o['i']}:
            raise V('kmz', 'the kmz holds %s' % names)
        text = z.read('out%d.kml' % o['i']).decode('utf8')
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        raise V('kmz', 'the kml cannot be parsed: %s' % e)
    ns = '{http://www.opengis.net/kml/2.2}'
    got = []
    for f in root.iter(ns + 'Folder'):
        name = f.find(ns + 'name').text
        pl = {}
        for p in f.iter(ns + 'Placemark'):
            status = p.find(ns + 'name').text.split()[-2]
            span = p.find(ns + 'TimeSpan')
            pts = [c.text for c in p.iter(ns + 'coordinates')]
            pl[status] = (span.find(ns + 'begin').text, span.find(ns + 'end').text, pts)
        got.append((name, pl))
    exp = []
    for w in want:
        for sc, tag in zip(w, ('Best Guess', 'Uncertainty')):
            pos, code = sc['arrays']['positions'], sc['arrays']['status_codes']
            b = sc['time'].isoformat()
            e = (sc['time'] + timedelta(seconds=o['every'] or (-ts if back else ts))).isoformat()
            exp.append(('%s:%s' % (b, tag), {
                s: (b, e, ['%.6f,%.6f,1.000000' % (x, y) for x, y, zz in pos[code == c]])
                for s, c in (('Floating', 2), ('Beached', 3))}))
    if [n for n, p in got] != [n for n, p in exp]:
        raise V('steps', 'the kmz has the steps %s, written were %s' % (
            [n for n, p in got], [n for n, p in exp]))
    for (n, a), (n2, b) in zip(got, exp):
        if a != b:
            raise V('data', 'kmz step %s: %s, the model had %s' % (n, str(a)[:300], str(b)[:300]))


def check_binary(o, base, want, back, ts, uncertain):
    names = [('FORCST', 0)] + ([('UNCRTN', 1)] if uncertain else [])
    files = {}
    if o['zip']:
        if not os.path.exists(base + '.zip'):
            raise V('file', 'there is no zip file of the binary output')
        with zipfile.ZipFile(base + '.zip') as z:
            nl = z.namelist()
            if len(nl) != len(set(nl)):
                raise V('file', 'the zip holds files twice: %s' % nl)
            for n in nl:
                files[n] = z.read(n)
        left = glob.glob(base + 'FORCST.*') + glob.glob(base + 'UNCRTN.*')
        if left:
            raise V('file', 'unzipped files are left: %s' % [os.path.basename(f) for f in left])
    else:
        for f in glob.glob(base + 'FORCST.*') + glob.glob(base + 'UNCRTN.*'):
            files[os.path.basename(f)] = open(f, 'rb').read()
    stem = os.path.basename(base)
    exp = {'%s%s.%03d' % (stem, n, k): w[j] for k, w in enumerate(want) for n, j in names}
    if set(files) != set(exp):
        raise V('steps', 'binary output has the files %s, expected %s' % (sorted(files),
                                                                          sorted(exp)))
    for n, data in files.items():
        a, t = exp[n]['arrays'], exp[n]['time']
        name, day, month, year, hour, minute, cur, ver, num = struct.unpack('>10s5hffi',
                                                                            data[:32])
        if (year, month, day, hour, minute) != (t.year, t.month, t.day, t.hour, t.minute):
            raise V('time', '%s is of %s, expected %s' % (n, (year, month, day, hour, minute), t))
        ref = datetime(t.year - t.year % 4, 1, 1)
        hrs = (t - ref).total_seconds() / 3600.
        if abs(cur - hrs) > 0.01:
            raise V('time', '%s: current time %r h, expected %r h' % (n, cur, hrs))
        k = len(a['positions'])
        if num != k or len(data) != 32 + 32 * k:
            raise V('count', '%s has %d elements in %d bytes, the model had %d' % (
                n, num, len(data), k))
        le = np.frombuffer(data[32:], dtype='>f4,>f4,>f4,>f4,>f4,>i4,>i4,>i4')
        for what, x, y in (('latitude', le['f0'], a['positions'][:, 1].astype('f4')),
                           ('longitude', le['f1'], (-a['positions'][:, 0]).astype('f4'))):
            if not np.array_equal(x.astype('f4'), y):
                raise V('data', '%s: %s %s, the model had %s' % (n, what, x[:4], y[:4]))
        rel = hrs - a['age'] / 3600.
        if len(rel) and np.max(np.abs(le['f2'] - rel)) > 0.01:
            raise V('data', '%s: release times %s, expected %s' % (n, le['f2'][:4], rel[:4]))
        if not np.array_equal(le['f4'] == -50, a['status_codes'] == 3):
            raise V('data', '%s: the beached elements are not those of the model' % n)


def flat(p):
    """points that are nearly, but not exactly, on a line have no well defined hull"""
    c = p - p.mean(axis=0)
    s = np.linalg.svd(c, compute_uv=False)
    return len(p) > 2 and s[0] > 0 and 0 < s[1] < 1e-3 * s[0]


def check_shape(o, base, want, back, ts, uncertain):
    import geopandas as gpd
    stem = os.path.basename(base)
    d = base + '_unpacked'
    os.makedirs(d, exist_ok=True)
    parts = {}
    if uncertain:
        if not os.path.exists(base + '.zip'):
            raise V('file', 'there is no zip file')
        with zipfile.ZipFile(base + '.zip') as z:
            z.extractall(d)
        need = ['certain', 'uncertain'] + (['certain_boundary'] if o['cb'] else []) + (
            ['uncertain_boundary'] if o['ub'] else [])
        for p in need:
            f = os.path.join(d, '%s_%s.%s' % (stem, p, 'zip' if o['zip'] else 'shp'))
            if not os.path.exists(f):
                raise V('file', 'the bundle holds %s, not the %s' % (sorted(os.listdir(d)), p))
            parts[p] = f
    elif o['zip']:
        if not os.path.exists(base + '.zip'):
            raise V('file', 'there is no zip file')
        if o['cb']:
            with zipfile.ZipFile(base + '.zip') as z:
                z.extractall(d)
            for p in ('certain', 'certain_boundary'):
                parts[p] = os.path.join(d, '%s_%s.zip' % (stem, p))
        else:
            parts['certain'] = base + '.zip'
    else:
        parts['certain'] = base + '.shp'
        if o['cb']:
            parts['certain_boundary'] = base + '_boundary.shp'
    for p, f in parts.items():
        if not os.path.exists(f):
            raise V('file', 'there is no %s' % os.path.basename(f))
        try:
            g = gpd.read_file(f, engine='pyogrio')
        except Exception as e:
            raise V('file', 'the %s shapefile cannot be read: %s' % (p, str(e)[:200]))
        if 'boundary' in p:
            tcol = 'time'
            times = {w[0]['time'].strftime('%Y-%m-%dT%H:%M:%S') for w in want}
            bad = set(map(_iso, g[tcol])) - times if len(g) and tcol in g else set()
            if bad:
                raise V('steps', 'boundaries of steps that were not written: %s' % sorted(bad))
            from shapely.geometry import Point
            j = 1 if p.startswith('uncertain') else 0
            for w in want:
                t = w[0]['time'].strftime('%Y-%m-%dT%H:%M:%S')
                at = [i for i in range(len(g)) if tcol in g and _iso(g[tcol].iloc[i]) == t]
                pts = w[j]['arrays']['positions']
                if len(at) > 1 or (len(pts) and not at):
                    raise V('steps', '%s of %s: %d boundaries of %d elements' % (p, t, len(at),
                                                                                 len(pts)))
                if any(flat(pts[w[j]['arrays']['spill_num'] == k, :2])
                       for k in set(w[j]['arrays']['spill_num'].tolist())):
                    continue
                for x, y, z in pts.tolist():
                    # (a boundary around a point or a line is one metre wide)
                    if g.geometry.iloc[at[0]].distance(Point(x, y)) > 1e-4:
                        raise V('data', '%s of %s does not include the element at %s' % (
                            p, t, (x, y)))
            continue
        j = 1 if p == 'uncertain' else 0
        rows = {}
        for idx in range(len(g)):
            rows.setdefault(_iso(g['Time'].iloc[idx]), []).append(idx)
        exp = {w[j]['time'].strftime('%Y-%m-%dT%H:%M:%S'): w[j]['arrays'] for w in want}
        got_t, exp_t = set(rows), {t for t, a in exp.items() if len(a['id'])}
        if got_t != exp_t:
            raise V('steps', '%s shapefile has the times %s, expected %s' % (
                p, sorted(got_t), sorted(exp_t)))
        for t, idx in rows.items():
            a = exp[t]
            order = np.argsort(a['id'], kind='stable')
            ids = np.array([g['LE_id'].iloc[i] for i in idx])
            idx = [idx[i] for i in np.argsort(ids, kind='stable')]
            sub = g.iloc[idx]
            if sub['LE_id'].tolist() != a['id'][order].tolist():
                raise V('count', '%s shapefile, %s: elements %s, the model had %s' % (
                    p, t, sub['LE_id'].tolist()[:8], a['id'][order].tolist()[:8]))
            pts = np.array([[q.x, q.y] for q in sub.geometry])
            for what, x, y in (('longitude', pts[:, 0], a['positions'][order, 0]),
                               ('latitude', pts[:, 1], a['positions'][order, 1]),
                               ('depth', sub['Depth'], a['positions'][order, 2]),
                               ('mass', sub['Mass'], a['mass'][order]),
                               ('age', sub['Age'], a['age'][order]),
                               ('status', sub['StatusCode'], a['status_codes'][order]),
                               ('spill', sub['Spill_id'], a['spill_num'][order])):
                if not np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float),
                                   rtol=1e-9, atol=1e-12):
                    raise V('data', '%s shapefile, %s: %s %s, the model had %s' % (
                        p, t, what, list(x)[:4], list(y)[:4]))


def _iso(t):
    return t if isinstance(t, str) else t.strftime('%Y-%m-%dT%H:%M:%S')


def check_geojson(o, base, want, back, ts, uncertain):
    files = {int(re.search(r'_(\d+)\.', f).group(1)): os.path.join(base, f)
             for f in os.listdir(base)}
    ks = [w[0]['k'] for w in want]
    if sorted(files) != ks or len(os.listdir(base)) != len(files):
        raise V('steps', 'geojson files %s, written were the steps %s' % (
            sorted(os.listdir(base)), ks))
    for w in want:
        with open(files[w[0]['k']]) as f:
            d = json.load(f)
        for sc, kind in zip(w, ('forecast', 'uncertain')):
            fs = [x for x in d['features'] if x['properties']['sc_type'] == kind]
            compare_features({'features': fs}, sc['arrays'], kind, w[0]['k'])
        if len(d['features']) != sum(len(sc['arrays']['id']) for sc in w):
            raise V('count', 'geojson of step %d has %d elements' % (w[0]['k'],
                                                                     len(d['features'])))


def compare_features(d, a, kind, k):
    got = [(x['geometry']['coordinates'][:2], x['properties']['status_code'],
            x['properties']['mass'], x['properties']['spill_num'], x['properties']['sc_type'])
           for x in d['features']]
    exp = [([float(np.round(p[0], 4)), float(np.round(p[1], 4))], int(c), float(np.round(m, 4)), int(s),
            kind)
           for p, c, m, s in zip(a['positions'], a['status_codes'], a['mass'], a['spill_num'])]
    if len(got) != len(exp):
        raise V('count', 'geojson of step %d has %d %s elements, the model had %d' % (
            k, len(got), kind, len(exp)))
    for x, y in zip(got, exp):
        if (np.max(np.abs(np.array(x[0]) - y[0])) > 1.01e-4 or x[1] != y[1] or x[3:] != y[3:]
                or abs(x[2] - y[2]) > 1e-9 * max(1, abs(y[2]))):
            raise V('data', 'geojson of step %d: %s, the model had %s' % (k, x, y))


def check_budget(o, base, want, back, ts, uncertain):
    with open(base + '.csv', newline='') as f:
        rows = list(csv.reader(f))
    if not rows or rows[0][0] != 'Model Time':
        raise V('file', 'the oil budget starts with %s' % rows[:1])
    rows = rows[1:]
    if len(rows) != len(want):
        raise V('steps', 'the oil budget has %d rows, %d steps were written' % (len(rows),
                                                                                len(want)))
    cats = ['amount_released', 'evaporated', 'natural_dispersion', 'sedimentation', 'beached',
            'floating', 'off_maps']
    for r, w in zip(rows, want):
        t, mb = w[0]['time'], w[0]['mb']
        if r[0] != t.strftime('%Y-%m-%d %H:%M'):
            raise V('time', 'budget row of %s, expected %s' % (r[0], t))
        hrs = w[0]['k'] * (-ts if back else ts) / 3600.
        if abs(float(r[1]) - hrs) > 1 / 59.:
            raise V('time', 'budget row of %s h, expected %s h' % (r[1], hrs))
        for c, x in zip(cats, r[2:]):
            y = ' %.8g' % mb[c] if c in mb else ''
            if x != y:
                raise V('data', 'budget of %s: %s is %r, the model had %r' % (r[0], c, x, y))


def check_weathering(o, base, want, back, ts, uncertain):
    fs = sorted(os.listdir(base))
    ks = [w[0]['k'] for w in want]
    if fs != ['mass_balance_%06d.json' % k for k in ks]:
        raise V('steps', 'files %s, written were the steps %s' % (fs, ks))
    for w in want:
        with open(os.path.join(base, 'mass_balance_%06d.json' % w[0]['k'])) as f:
            d = json.load(f)
        compare_budget(d, w[0])


def compare_budget(d, s):
    if d.get('time_stamp') != s['time'].isoformat():
        raise V('time', 'mass balance of %s, expected %s' % (d.get('time_stamp'), s['time']))
    for k, v in s['mb'].items():
        x = d.get(k)
        if not (x == v or (isinstance(v, float) and isinstance(x, (int, float))
                           and (abs(x - v) <= 1e-5 * max(1., abs(v)) or (x != x and v != v)))
                or isinstance(v, (dict, list))):
            raise V('data', 'mass balance of step %d: %s is %r, the model had %r' % (
                s['k'], k, x, v))


def check_info(o, infos, seq, steps):
    """what a step returns is what it wrote"""
    for k, d in enumerate(infos):
        if o['t'] == 'OilBudgetOutput':
            continue
        if (d is not None) != (k in steps):
            raise V('info', '%s: step %d returns %s, written were the steps %s' % (
                o['t'], k, str(d)[:100], steps))
        if d is None:
            continue
        if d.get('time_stamp') != seq[k][0]['time'].isoformat():
            raise V('info', '%s: step %d returns output of %s, expected %s' % (
                o['t'], k, d.get('time_stamp'), seq[k][0]['time']))
        if o['t'] == 'TrajectoryGeoJsonOutput':
            compare_features(d['certain'], seq[k][0]['arrays'], 'forecast', k)
            if len(seq[k]) > 1:
                compare_features(d['uncertain'], seq[k][1]['arrays'], 'uncertain', k)
            elif d['uncertain']['features']:
                raise V('info', 'step %d: uncertain elements in a certain run' % k)
        elif o['t'] == 'WeatheringOutput':
            compare_budget(d, seq[k][0])


CHECK = {'KMZOutput': check_kmz, 'BinaryOutput': check_binary, 'ShapeOutput': check_shape,
         'TrajectoryGeoJsonOutput': check_geojson, 'OilBudgetOutput': check_budget,
         'WeatheringOutput': check_weathering}


def tree(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as fd:
                res[os.path.relpath(os.path.join(d, f), root)] = fd.read()
    return res


def restore(root, files):
    for f in set(tree(root)) - set(files):
        os.remove(os.path.join(root, f))
    for f, data in files.items():
        with open(os.path.join(root, f), 'wb') as fd:
            fd.write(data)


class PROP(Prop):
    id = 'C09'
    quick_n = 1000
    thorough_n = 10000
    fault_kinds = ('component-*', 'KeyboardInterrupt')
    rule = ('seeded models with KMZ, binary, shapefile, GeoJSON, oil budget and mass balance output '
            '(all settings, several at once, absolute and relative names, other files in the same '
            'folder) through seeded histories that end in a complete, a failing, a continued run or '
            'in output written after the run; every file is read back without gnome and compared '
            'with the state recorded at every step. Non-trivial: at least two steps with elements '
            'compared.')

    def gen(self, rng, index):
        back = rng.random() < 0.1
        spec = scen.gen_spec(rng, backwards=back, uncertain=rng.random() < 0.5, max_spills=rng.choice([2, 2, 4]),
                             nsteps=rng.randint(2, 7))
        if back:
            spec['movers'] = [x for x in spec['movers'] if x['t'] not in ('rise', 'random3d')]
        for s in spec['spills']:
            s['n'] = min(s['n'], 12) if s['end'] is None else s['n']
        outs = []
        for i in range(rng.randint(1, 3)):
            o = gen_outputter(rng, spec['ts'], spec['nsteps'], KINDS)
            if o['t'] == 'ShapeOutput' and rng.random() < 0.5:
                o['t'] = rng.choice(KINDS)
                if o['t'] == 'OilBudgetOutput':
                    o.update(zero=True, last=True, single=False, start=None)
            o.update(i=i, zip=rng.random() < 0.5, dir=True, rel=rng.random() < 0.2,
                     cb=rng.random() < 0.3, ub=rng.random() < 0.4)
            o['on'] = rng.random() < 0.95
            outs.append(o)
        ops = []
        for i in range(rng.randint(0, 2)):
            k = scen.pick(rng, step=2, full=2, fail=2, interrupt=2, unc=1)
            ops.append({'op': k, 'n': rng.randint(1, spec['nsteps']),
                        'where': rng.choice(['prepare_step', 'move', 'done']),
                        'frac': round(rng.random(), 4)})
        end = scen.pick(rng, run=4, fail=3, ext=1.5, post=1.5)
        last = {'how': end, 'n': rng.randint(0, spec['nsteps'] * (2 if spec['uncertain'] else 1)),
                'where': rng.choice(['prepare_step', 'move', 'done']),
                'ext': rng.randint(1, 3)}
        if end == 'post':
            spec['cache'] = True
        if back and end == 'ext':
            last['how'] = 'run'
        return {'spec': spec, 'outs': outs, 'ops': ops, 'last': last,
                'other': rng.random() < 0.4}

    def run(self, case, ctx):
        spec, back = case['spec'], case['spec']['backwards']
        last, ts = case['last'], case['spec']['ts']
        work = ctx.path('work')
        os.makedirs(work)
        os.chdir(work)
        bystander = None
        if case['other']:
            # output of an earlier, unrelated run in the same folder
            os.makedirs(ctx.path('w0'), exist_ok=True)

            def earlier():
                m = scen.build(dict(spec, cache=False), ctx.path('w0'))
                for i, o in enumerate(case['outs']):
                    if o['t'] not in ('WeatheringOutput', 'TrajectoryGeoJsonOutput'):
                        # (its names start like those of the run under test)
                        n = '%d%s' % (i, '_old' if i % 2 else '0')
                        m.outputters += build(dict(o, on=True, i=n, rel=False), n, work, back)
                m.full_run()
            engine.fork_call(earlier)
            bystander = tree(work)
            ctx.count('probe:bystander')
        os.makedirs(ctx.path('w1'), exist_ok=True)
        m = scen.build(spec, ctx.path('w1'))
        um = scen.user_classes()['mover']()
        m.movers += um
        objs = [build(o, o['i'], work, back) for o in case['outs']]
        if last['how'] != 'post':
            for g in objs:
                m.outputters += g
        for op in case['ops']:
            k = op['op']
            ctx.count('op:' + k)
            m.rewind()
            if k == 'step':
                for i in range(op['n']):
                    try_step(m)
            elif k == 'full':
                m.full_run()
            elif k == 'fail':
                um.plan = {'where': op['where'], 'step': op['n']}
                um.n = 0
                try:
                    m.full_run()
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                um.plan = None
            elif k == 'interrupt':
                for i in range(op['n']):
                    try_step(m)
                before = tree(work)
                nc = engine.fork_call(faults.count_calls, lambda: try_step(m))
                restore(work, before)
                with faults.CallPoints(1 + int(op['frac'] * nc), 'KeyboardInterrupt') as cp:
                    try:
                        try_step(m)
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                if cp.fired:
                    ctx.count('fault:KeyboardInterrupt')
            elif k == 'unc':
                m.uncertain = not m.uncertain
                try_step(m)
        m.rewind()
        def files_of(o):
            return {f: (st.st_ino, st.st_mtime_ns, st.st_size) for f, st in
                    ((f, os.stat(os.path.join(work, f))) for f in tree(work)
                     if re.match(r'out%d(?!\d|_old)' % o['i'], f))}

        def stale():
            # once a run has begun, nothing of earlier runs can be taken for its output
            # (a shapefile of an earlier run stays until the new one replaces it)
            for o, was in zip(case['outs'], old):
                left = sorted(set(was.items()) & set(files_of(o).items()))
                if o['on'] and left and o['t'] != 'ShapeOutput':
                    raise V('stale', '%s: after the first step of a new run there is %s of an '
                            'earlier run' % (o['t'], [f for f, s in left]))
        old = [files_of(o) for o in case['outs']]
        if last['how'] == 'fail':
            um.plan = {'where': last['where'], 'step': last['n']}
            um.n = 0
        seq, infos = [], []

        def go():
            try:
                while True:
                    info = m.step()
                    seq.append(snap(m))
                    for s in seq[-1]:
                        s['k'] = len(seq) - 1
                    infos.append(info)
                    ctx.simtime(ts)
                    if len(seq) == 1 and last['how'] != 'post':
                        stale()
            except StopIteration:
                pass
        nstep = m.num_time_steps
        try:
            go()
        except scen.UserError:
            ctx.count('fault:component-' + last['where'])
        if last['how'] == 'ext':
            m.duration = m.duration + timedelta(seconds=last['ext'] * ts)
            go()
            if len(seq) != nstep + last['ext']:
                raise V('steps', 'extended run has %d steps' % len(seq))
            ctx.count('probe:extended')
        if last['how'] == 'post':
            for o, g in zip(case['outs'], objs):
                if o['on']:
                    g.write_output_post_run(model_start_time=m.start_time,
                                            model_time_step=m.time_step,
                                            num_time_steps=m.num_time_steps,
                                            cache=m._cache, spills=m.spills,
                                            uncertain=m.uncertain)
            ctx.count('probe:post-run')
        if last['how'] == 'fail' and not seq:
            return
        for o in case['outs']:
            if not o['on']:
                continue
            steps = [k for k in expected(o, ts, nstep) if k < len(seq)]
            if len(seq) > nstep:
                b = expected(dict(o, last=False), ts, len(seq))
                steps = sorted(set(steps) | {k for k in b if k >= nstep} |
                               ({len(seq) - 1} if o['last'] else set()))
            want = [seq[k] for k in steps]
            if last['how'] != 'post' and [x['t'] for x in case['outs']].count(o['t']) == 1:
                check_info(o, [i.get(o['t']) for i in infos], seq, steps)
            base = os.path.join(work, 'out%d' % o['i'])
            ctx.count('probe:' + o['t'])
            try:
                CHECK[o['t']](o, base, want, back, ts, m.uncertain)
            except V as v:
                raise V(v.kind, '%s (%s): %s' % (o['t'], last['how'], v.message))
            if sum(1 for w in want if len(w[0]['arrays']['id'])) >= 2:
                ctx.nontrivial = True
            ctx.event(o['t'], steps)
            ctx.state(o['t'], last['how'], m.uncertain, o['zip'], o['every'] is None, back)
        if bystander is not None:
            now = tree(work)
            for f in bystander:
                if now.get(f) != bystander[f]:
                    raise V('bystander', 'the run %s %s, a file of an unrelated earlier run' % (
                        'changed' if f in now else 'removed', f))
