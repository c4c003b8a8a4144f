"""C16: models of one process do not affect each other, however their runs interleave."""
import gc
import os

from .. import engine, scen, threads
from .base import Prop
from .c14 import det_spec, forecast

V = engine.Violation


class PROP(Prop):
    id = 'C16'
    quick_n = 350
    thorough_n = 12000
    fault_kinds = ('component-*', 'preemption', 'discarded-model')
    rule = ('two or three models whose forecast has no random processes in one process, stepped, rewound, failed, '
            'discarded and rebuilt in seeded interleavings of whole operations, or run to the end in '
            'threads that a seeded scheduler preempts at entries into gnome functions; the forecast of '
            'every step of every model is compared bit for bit with the same model run alone in a fresh process. '
            'Non-trivial: at least two models each stepped while another one was in the middle of '
            'its run.')

    def gen(self, rng, index):
        specs = []
        for i in range(rng.choice([2, 2, 3])):
            if specs and rng.random() < 0.25:
                specs.append(dict(rng.choice(specs)))
                continue
            s = det_spec(rng, weathering=rng.random() < 0.5, nsteps=rng.randint(2, 6),
                         max_spills=2, min_movers=1)
            specs.append(s)
        if rng.random() < 0.3:
            # the same data files, in two models
            for s in specs[1:]:
                s['movers'] = s['movers'] + [x for x in specs[0]['movers']
                                             if x['t'] in ('cgrid', 'cgridwind')]
        mode = 'threads' if rng.random() < 0.35 else 'steps'
        if mode == 'threads':
            gaps = [[int(10 ** rng.uniform(0, 3.3)), rng.randint(0, 5)]
                    for i in range(rng.randint(3, 40))]
            return {'specs': specs, 'mode': mode, 'gaps': gaps,
                    'build': rng.random() < 0.4}
        ops = []
        for i in range(rng.randint(6, 24)):
            ops.append({'m': rng.randrange(len(specs)),
                        'op': scen.pick(rng, step=10, rewind=1, fail=1, rebuild=1, full=0.5),
                        'n': rng.randint(1, 3),
                        'where': rng.choice(['prepare_step', 'move', 'done'])})
        return {'specs': specs, 'mode': mode, 'ops': ops}

    def run(self, case, ctx):
        specs = case['specs']
        user = scen.user_classes()['mover']

        def alone(i):
            os.makedirs(ctx.path('ref%d' % i), exist_ok=True)
            m = scen.build(specs[i], ctx.path('ref%d' % i))
            m.movers += user()
            return scen.trace(m)
        for i, s in enumerate(specs):
            os.makedirs(ctx.path('m%d' % i), exist_ok=True)
        ref = [engine.fork_call(alone, i) for i in range(len(specs))]
        maps = [str(s['map']) for s in specs]

        def build(i):
            # models with the same map share the folder with the data files
            m = scen.build(specs[i], ctx.path('m%d' % maps.index(maps[i])))
            m.movers += user()
            return m

        def compare(i, m, where=''):
            k = m.current_time_step
            if k >= len(ref[i]):
                raise V('steps', 'model %d reached step %d' % (i, k))
            d = scen.snaps_differ(forecast(scen.snapshot(m)), forecast(ref[i][k]))
            if d:
                raise V('isolation', 'model %d of %d%s differs from the same model alone: %s' % (
                    i, len(specs), where, d))

        if case['mode'] == 'threads':
            ms = [None if case['build'] else build(i) for i in range(len(specs))]
            for i, m in enumerate(ms):
                if m is None:
                    build(i)        # (the data files exist, and everything is imported)

            def body(i):
                m = ms[i] if ms[i] is not None else build(i)
                m.rewind()
                n = 0
                while True:
                    try:
                        m.step()
                    except StopIteration:
                        break
                    compare(i, m, ' in threads')
                    n += 1
                return n
            sch = threads.Scheduler([lambda i=i: body(i) for i in range(len(specs))],
                                    case['gaps'])
            res = sch.run()
            ctx.count('fault:preemption', len(sch.switches))
            for i, n in enumerate(res):
                if n != len(ref[i]):
                    raise V('steps', 'model %d ran %d steps, alone %d' % (i, n, len(ref[i])))
                ctx.simtime(specs[i]['ts'] * n)
            ctx.state(tuple((a, b, c) for a, b, c in sch.switches))
            ctx.event(sch.switches)
            ctx.nontrivial = len(sch.switches) > 1
            return
        ms = [build(i) for i in range(len(specs))]
        mid = set()
        for op in case['ops']:
            i, k = op['m'], op['op']
            m = ms[i]
            ctx.count('op:' + k)
            if k == 'step':
                for j in range(op['n']):
                    try:
                        m.step()
                    except StopIteration:
                        m.rewind()
                        break
                    compare(i, m)
                    ctx.simtime(specs[i]['ts'])
                    if any(x.current_time_step >= 0 for y, x in enumerate(ms) if y != i):
                        mid.add(i)
            elif k == 'rewind':
                m.rewind()
            elif k == 'full':
                m.full_run()
                compare(i, m)
            elif k == 'fail':
                um = m.movers[-1]
                m.rewind()
                um.plan, um.n = {'where': op['where'], 'step': op['n']}, 0
                try:
                    m.full_run()
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                um.plan = None
                m.rewind()
            elif k == 'rebuild':
                ms[i] = m = None
                gc.collect()
                ctx.count('fault:discarded-model')
                ms[i] = build(i)
            ctx.state(tuple(x.current_time_step for x in ms))
        for i, m in enumerate(ms):
            # whatever is left of the runs
            while True:
                try:
                    m.step()
                except StopIteration:
                    break
                compare(i, m)
        ctx.event([m.current_time_step for m in ms])
        ctx.nontrivial = len(mid) > 1
