"""C14: switching uncertainty on leaves the forecast untouched."""
from .. import engine, scen, faults
from .base import Prop
from .c05 import try_step

V = engine.Violation


def det_spec(rng, **kw):
    """a configuration without random processes in the forecast"""
    # (spatial and polygon releases place elements at random)
    spec = scen.gen_spec(rng, det=True, spill_kinds=('point', 'line', 'grid'), **kw)
    if spec['map']['t'] == 'bna':
        spec['map']['refloat'] = rng.choice([-1, 0])
    spec['weatherers'] = [w for w in spec['weatherers'] if w['t'] != 'halflife']
    return spec


def forecast(snap):
    return {'step': snap['step'], 'time': snap['time'], 'sc': snap['sc'][:1]}


class PROP(Prop):
    id = 'C14'
    quick_n = 500
    thorough_n = 15000
    fault_kinds = ('component-*', 'KeyboardInterrupt')
    rule = ('seeded configurations without random processes in the forecast, run with uncertainty '
            '(switched on before, or during an earlier run, after failures and interrupts) against '
            'the same configuration run without uncertainty in a fresh process; the forecast is '
            'compared bit for bit after every step. Non-trivial: at least two steps with elements, and '
            'uncertain elements that differ from the forecast.')

    def gen(self, rng, index):
        spec = det_spec(rng, weathering=rng.random() < 0.6, uncertain=True,
                        backwards=rng.random() < 0.06, min_movers=1)
        if spec['backwards']:
            spec['movers'] = [x for x in spec['movers'] if x['t'] != 'rise']
        ops = []
        for i in range(rng.randint(0, 2)):
            ops.append({'op': scen.pick(rng, step=2, full=1, fail=2, interrupt=2, toggle=2),
                        'n': rng.randint(1, spec['nsteps']),
                        'where': rng.choice(['prepare_step', 'move', 'done']),
                        'frac': round(rng.random(), 4)})
        return {'spec': spec, 'ops': ops, 'late': rng.random() < 0.3}

    def run(self, case, ctx):
        spec = case['spec']
        user = scen.user_classes()['mover']

        def plain():
            m = scen.build(dict(spec, uncertain=False), ctx.path('ref'))
            m.movers += user()
            return scen.trace(m)
        import os
        for d in ('ref', 'sys'):
            os.makedirs(ctx.path(d), exist_ok=True)
        ref = engine.fork_call(plain)
        m = scen.build(dict(spec, uncertain=not case['late']), ctx.path('sys'))
        um = user()
        m.movers += um
        if case['late']:
            m.uncertain = True
        for op in case['ops']:
            k = op['op']
            ctx.count('op:' + k)
            m.rewind()
            if k == 'step':
                for i in range(op['n']):
                    try_step(m)
            elif k == 'full':
                m.full_run()
            elif k == 'fail':
                um.plan = {'where': op['where'], 'step': 2 * op['n'] - 1}
                um.n = 0
                try:
                    m.full_run()
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                um.plan = None
            elif k == 'interrupt':
                for i in range(op['n']):
                    try_step(m)
                nc = engine.fork_call(faults.count_calls, lambda: try_step(m))
                with faults.CallPoints(1 + int(op['frac'] * nc), 'KeyboardInterrupt') as cp:
                    try:
                        try_step(m)
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                if cp.fired:
                    ctx.count('fault:KeyboardInterrupt')
            elif k == 'toggle':
                m.uncertain = False
                for i in range(op['n']):
                    try_step(m)
                m.uncertain = True
        m.rewind()
        n, differ = 0, False
        while True:
            try:
                m.step()
            except StopIteration:
                break
            ctx.simtime(spec['ts'])
            s = scen.snapshot(m)
            if n >= len(ref):
                raise V('steps', 'the uncertain run has more than %d steps' % len(ref))
            if len(s['sc']) != 2:
                raise V('containers', 'an uncertain model has %d containers' % len(s['sc']))
            d = scen.snaps_differ(forecast(s), forecast(ref[n]))
            if d:
                raise V('forecast', 'with uncertainty the forecast differs: %s' % d)
            a, b = s['sc'][0]['arrays'], s['sc'][1]['arrays']
            if len(a['id']) and n:
                ctx.count('probe:compared')
                ctx.nontrivial = ctx.nontrivial or n > 1
                differ = differ or scen.arrays_differ(a, b, ()) is not None
            ctx.state(scen.coarse_state(m))
            n += 1
        if n != len(ref):
            raise V('steps', 'the uncertain run has %d steps, the other %d' % (n, len(ref)))
        if differ:
            ctx.count('probe:uncertain-differs')
        ctx.event(n, differ, len(m.spills.items()[0]))
