"""C07: output appears exactly at the steps the output settings ask for."""
import glob
import os
import re
from datetime import timedelta

from .. import engine, scen, faults
from .base import Prop
from .c05 import try_step

KINDS = ('WeatheringOutput', 'TrajectoryGeoJsonOutput', 'SpillJsonOutput', 'NetCDFOutput',
         'KMZOutput', 'OilBudgetOutput', 'BinaryOutput', 'ShapeOutput')


def expected(o, ts, n, back=False):
    """reference schedule: the set of steps to be written (ts > 0; times along the run)"""
    if not o['on']:
        return []
    res = []
    began = o['start'] in (None, 0)
    anchor = 0
    for k in range(n):
        w = False
        if k == 0:
            w = o['zero'] or (o['single'] and began)
        else:
            t = k * ts
            if not began:
                if t >= o['start']:
                    began, anchor, w = True, k, True
            elif o['single']:
                w = False
            elif o['every'] is None:
                w = True
            else:
                w = ((k - anchor) * ts) // o['every'] > ((k - 1 - anchor) * ts) // o['every']
        if k == n - 1 and o['last']:
            w = True
        if w:
            res.append(k)
    return res


def gen_outputter(rng, ts, nsteps, kinds=KINDS):
    o = {'t': rng.choice(kinds), 'on': rng.random() < 0.9,
         'zero': rng.random() < 0.7, 'last': rng.random() < 0.7,
         'single': rng.random() < 0.15,
         'every': rng.choice([None, None, ts, 2 * ts, 3 * ts, ts + ts // 2, ts // 2, 5 * ts // 2,
                              rng.randint(ts, ts * 4)]),
         'start': rng.choice([None, None, 0, rng.randint(1, nsteps + 1) * ts,
                              rng.randint(1, nsteps * ts)])}
    if o['t'] == 'OilBudgetOutput':     # it has a fixed policy
        o.update(zero=True, last=True, single=False, start=None)
    return o


def build_outputter(o, i, workdir, back=False):
    import gnome.outputters as G
    kw = dict(on=o['on'], output_zero_step=o['zero'], output_last_step=o['last'],
              output_single_step=o['single'],
              output_timestep=None if o['every'] is None else timedelta(seconds=o['every']),
              output_start_time=None if o['start'] is None
              else scen.t_at(-o['start'] if back else o['start']))
    base = os.path.join(workdir, 'out%s' % i)
    t = o['t']
    if t == 'OilBudgetOutput':
        return G.OilBudgetOutput(base + '.csv', on=o['on'], output_timestep=kw['output_timestep'])
    if t in ('WeatheringOutput', 'TrajectoryGeoJsonOutput'):
        if o.get('dir'):
            os.makedirs(base, exist_ok=True)
            kw['output_dir'] = base
        return getattr(G, t)(**kw)
    if t == 'SpillJsonOutput':
        return G.SpillJsonOutput(**kw)
    if t == 'NetCDFOutput':
        return G.NetCDFOutput(base + '.nc', which_data=o.get('which', 'standard'),
                              zip_output=bool(o.get('zip')), **kw)
    if t == 'KMZOutput':
        return G.KMZOutput(base + '.kmz', **kw)
    if t == 'BinaryOutput':
        return G.BinaryOutput(base + '.bin', zip_output=bool(o.get('zip', True)), **kw)
    if t == 'ShapeOutput':
        return G.ShapeOutput(base + '.zip', **kw)
    raise engine.HarnessError(t)


class PROP(Prop):
    id = 'C07'
    quick_n = 600
    thorough_n = 15000
    fault_kinds = ('component-*', 'KeyboardInterrupt', 'MemoryError')
    rule = ('seeded output settings (interval, start, zero / last / single step, on/off) on every '
            'kind of outputter in forward and backward runs, after seeded histories, against a '
            'reference schedule; cached runs also written after the run. Non-trivial: some but '
            'not all steps were to be written.')

    def gen(self, rng, index):
        back = rng.random() < 0.25
        spec = scen.gen_spec(rng, maps=('global',), max_spills=1, spill_kinds=('point', 'grid'),
                             backwards=back,
                             weathering=False if back else rng.random() < 0.3,
                             mover_kinds=['simple', 'random', 'wind'])
        spec['spills'][0].update(start=0, end=None, n=rng.randint(1, 4), on=True)
        spec['spills'][0].pop('res', None)
        spec['spills'][0]['t'] = 'point'
        outs, seen = [], set()
        for i in range(rng.randint(1, 4)):
            o = gen_outputter(rng, spec['ts'], spec['nsteps'])
            o['zip'] = rng.random() < 0.5
            if o['t'] in seen:
                continue          # (step info is reported per class)
            seen.add(o['t'])
            outs.append(o)
        spec['cache'] = rng.random() < 0.6
        ops = []
        for i in range(rng.randint(0, 3)):
            k = scen.pick(rng, step=2, full=1, fail=2, interrupt=1, flip=1, every=1,
                          pause=1)
            ops.append({'op': k, 'n': rng.randint(1, spec['nsteps']),
                        'where': rng.choice(['prepare_step', 'move', 'done']),
                        'frac': round(rng.random(), 4), 'i': rng.randint(0, 5),
                        'f': rng.choice([None, 1, 2, 3])})
        post = None
        if spec['cache'] and rng.random() < 0.7:
            post = gen_outputter(rng, spec['ts'], spec['nsteps'],
                                 ('TrajectoryGeoJsonOutput', 'WeatheringOutput'))
            post['dir'] = True
        return {'spec': spec, 'outs': outs, 'ops': ops, 'post': post}

    def run(self, case, ctx):
        spec, back = case['spec'], case['spec']['backwards']
        ts = spec['ts']
        m = scen.build(spec, ctx.scratch)
        um = scen.user_classes()['mover']()
        m.movers += um
        outs = [dict(o) for o in case['outs']]
        objs = []
        for i, o in enumerate(outs):
            g = build_outputter(o, i, ctx.scratch, back)
            objs.append(g)
            m.outputters += g

        def check_run(what):
            n = m.num_time_steps
            infos = []
            for k in range(n):
                infos.append(m.step())
                ctx.simtime(ts)
            for o in outs:
                got = [k for k, i in enumerate(infos) if o['t'] in i]
                want = expected(o, ts, n)
                if o['t'] == 'OilBudgetOutput':
                    continue      # reports through its file only (C09)
                if got != want:
                    raise engine.Violation('schedule', '%s: %s wrote steps %s, its settings ask '
                                           'for %s (%s)' % (what, o['t'], got, want, o))
                for k in got:
                    st = infos[k][o['t']].get('time_stamp')
                    t = scen.t_at(-k * ts if back else k * ts)
                    if st is not None and str(st)[:16].replace('T', ' ') != str(t)[:16]:
                        raise engine.Violation('time', '%s: %s stamps step %d with %s'
                                               % (what, o['t'], k, st))
                if want and len(want) < n:
                    ctx.nontrivial = True
                ctx.event(o['t'], got)
                ctx.state(o['t'], o['on'], o['zero'], o['last'], o['single'],
                          o['every'] is None, o['start'] is None, back)
            try:
                m.step()
            except StopIteration:
                return
            raise engine.Violation('schedule', 'the run did not end')

        for op in case['ops']:
            k = op['op']
            ctx.count('op:' + k)
            if k == 'step':
                m.rewind()
                for i in range(op['n']):
                    try_step(m)
            elif k == 'full':
                m.rewind()
                check_run('earlier run')
            elif k == 'fail':
                um.plan = {'where': op['where'], 'step': op['n']}
                um.n = 0
                m.rewind()
                try:
                    m.full_run()
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                um.plan = None
            elif k == 'interrupt':
                m.rewind()
                for i in range(op['n']):
                    try_step(m)
                nc = engine.fork_call(faults.count_calls, lambda: try_step(m))
                with faults.CallPoints(1 + int(op['frac'] * nc), 'KeyboardInterrupt') as cp:
                    try:
                        try_step(m)
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                if cp.fired:
                    ctx.count('fault:KeyboardInterrupt')
            elif k == 'flip' and outs:
                m.rewind()
                i = op['i'] % len(outs)
                outs[i]['on'] = objs[i].on = not outs[i]['on']
            elif k == 'pause' and outs:
                # off while the model is rewound, on again before the next run
                i = op['i'] % len(outs)
                m.rewind()
                for j in range(op['n']):
                    try_step(m)
                was = objs[i].on
                objs[i].on = False
                m.rewind()
                objs[i].on = was
                check_run('run after a rewind while off')
            elif k == 'every' and outs:
                m.rewind()
                i = op['i'] % len(outs)
                outs[i]['every'] = None if op['f'] is None else op['f'] * ts
                objs[i].output_timestep = None if op['f'] is None else \
                    timedelta(seconds=op['f'] * ts)
        m.rewind()
        check_run('final run')

        if case['post']:
            o = case['post']
            g = build_outputter(o, 9, ctx.scratch, back)
            if o['on']:
                g.write_output_post_run(model_start_time=m.start_time,
                                        model_time_step=m.time_step,
                                        num_time_steps=m.num_time_steps,
                                        cache=m._cache, spills=m.spills, uncertain=m.uncertain)
            files = glob.glob(os.path.join(ctx.scratch, 'out9', '*json'))
            got = sorted(int(re.search(r'_(\d+)\.', os.path.basename(f)).group(1))
                         for f in files if 'uncertain' not in f)
            want = expected(o, ts, m.num_time_steps)
            if got != want:
                raise engine.Violation('post-run', 'written after the run: %s wrote steps %s, its '
                                       'settings ask for %s (%s)' % (o['t'], got, want, o))
            ctx.count('probe:post-run')
