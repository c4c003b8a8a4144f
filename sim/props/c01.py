"""C01: rewind restores the initial conditions completely, whatever happened before."""
from datetime import timedelta

from .. import edits, engine, scen, faults
from .base import Prop


def gen_ops(rng, nsteps, nmax=6, spec=None):
    ops = []
    for i in range(rng.randint(1, nmax)):
        k = scen.pick(rng, step=5, full=1, rewind=2, interrupt=4, userfail=3, iter=1, cont=1,
                      toggle_unc=1, toggle_ts=1, toggle_start=1, toggle_cache=1, remap=1, addrm_mover=1,
                      addrm_spill=1, read=1, restart=1, toggle_on=1, irewind=1, edit=12 if spec else 0)
        if k == 'edit':
            ops.append(edits.gen(rng, spec))
            continue
        op = {'op': k}
        if k in ('step', 'iter', 'toggle_start'):
            op['n'] = rng.randint(1, nsteps + 1)
        if k in ('interrupt', 'irewind'):
            op['frac'] = round(rng.random(), 4)
            op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            if k == 'interrupt':
                op['pre'] = rng.randint(1, nsteps)
        if k == 'userfail':
            op['where'] = rng.choice(['prepare', 'prepare_step', 'move', 'done'])
            op['step'] = rng.randint(0, 2 * nsteps)
        if k in ('toggle_on',):
            op['i'] = rng.randint(0, 9)
        ops.append(op)
    return ops


def safe_step(model):
    try:
        return model.step()
    except StopIteration:
        return None


class History(object):
    """applies history operations to a model; all but the edits leave the configuration equal"""

    def __init__(self, model, spec, ctx, user):
        self.m = model
        self.um = user
        self.ed = edits.Editor(model, spec, ctx.scratch, [user])
        self.spec = spec
        self.ctx = ctx
        self.dirty = False

    # operations that go on with whatever an interrupted operation left behind: they may fail
    GO_ON = ('step', 'cont', 'interrupt', 'irewind', 'read')
    # operations that begin with a complete rewind
    REWINDS = ('full', 'rewind', 'iter', 'userfail')

    def apply(self, op):
        m, ctx, k = self.m, self.ctx, op['op']
        ctx.count('op:' + k)
        if self.dirty:
            if k in self.GO_ON:
                try:
                    self._apply(op)
                except Exception as e:
                    ctx.count('probe:continuing-after-interrupt-failed')
                return
            if k not in self.REWINDS:
                m.rewind()
            self.dirty = False
        self._apply(op)

    def _apply(self, op):
        m, ctx, k = self.m, self.ctx, op['op']
        if k == 'step':
            for i in range(op['n']):
                safe_step(m)
        elif k == 'full':
            m.full_run()
        elif k == 'cont':
            m.full_run(rewind=False)
        elif k == 'rewind':
            m.rewind()
        elif k == 'iter':
            for i, _ in enumerate(m):
                if i + 1 >= op['n']:
                    break
        elif k == 'interrupt':
            for i in range(op['pre']):
                safe_step(m)
            if m.current_time_step < 0:
                return      # the set-up reorganises the user's collections: not interrupted
            n = engine.fork_call(faults.count_calls, lambda: safe_step(m))
            at = 1 + int(op['frac'] * n)
            with faults.CallPoints(at, op['exc']) as cp:
                try:
                    safe_step(m)
                except (faults.SimInterrupt, faults.SimNoMemory):
                    pass
            if cp.fired:
                ctx.count('fault:' + op['exc'])
                ctx.event('interrupted', cp.fired)
                self.dirty = True
        elif k == 'irewind':
            n = engine.fork_call(faults.count_calls, m.rewind)
            with faults.CallPoints(1 + int(op['frac'] * n), op['exc']) as cp:
                try:
                    m.rewind()
                except (faults.SimInterrupt, faults.SimNoMemory):
                    pass
            if cp.fired:
                ctx.count('fault:' + op['exc'])
                self.dirty = True
        elif k == 'userfail':
            um = self.um
            um.plan = {'where': op['where'], 'step': op['step']}
            f0 = um.fired
            try:
                m.full_run()
            except scen.UserError:
                pass
            um.plan = None
            um.n = 0
            if um.fired > f0:
                self.dirty = True
                ctx.count('fault:component-' + op['where'])
        elif k == 'toggle_unc':
            m.uncertain = not m.uncertain
            safe_step(m)
            m.uncertain = not m.uncertain
        elif k == 'toggle_ts':
            ts = m.time_step
            m.time_step = ts / 2
            try:
                safe_step(m)
                safe_step(m)
            except ValueError:
                pass    # too few elements for that many steps is refused
            m.time_step = ts
        elif k == 'toggle_start':
            start = m.start_time
            m.start_time = start + (1 if self.spec['backwards'] else -1) * \
                timedelta(seconds=m.time_step * (op['n'] % 3 + 1))
            for i in range(op['n']):
                safe_step(m)
            m.start_time = start
        elif k == 'toggle_cache':
            m.cache_enabled = not m.cache_enabled
            safe_step(m)
            m.cache_enabled = not m.cache_enabled
        elif k == 'remap':
            m.map = m.map
            safe_step(m)
        elif k == 'restart':
            m.start_time = m.start_time
        elif k == 'addrm_mover':
            from gnome.movers import SimpleMover
            mv = SimpleMover(velocity=(1, 0, 0))
            m.movers += mv
            safe_step(m)
            del m.movers[mv.id]
        elif k == 'addrm_spill':
            import gnome.scripting as gs
            sp = gs.point_line_spill(3, (scen.LON0, scen.LAT0, 0), scen.t_at(0),
                                     substance=m.spills[0].substance)
            m.rewind()
            m.spills += sp
            safe_step(m)
            safe_step(m)
            m.rewind()
            m.spills.remove(sp.id)
        elif k == 'toggle_on':
            # (switching a weatherer on makes the model add spreading to the user's
            # collection, which stays: only off-and-on leaves the configuration equal)
            comps = [x for x in m.movers if x is not self.um] + [w for w in m.weatherers if w.on]
            if comps:
                c = comps[op['i'] % len(comps)]
                c.on = not c.on
                m.rewind()
                safe_step(m)
                safe_step(m)
                c.on = not c.on
                m.rewind()
        elif k == 'edit':
            running = m.current_time_step >= 0
            if self.ed.apply(op) is not False:
                ctx.count('op:edit-' + op['kind'])
                if running:
                    self.dirty = True       # going on without a rewind may fail
        elif k == 'read':
            if m.current_time_step >= 0:
                m.get_spill_property('positions')
                m.list_spill_properties()
            m.check_inputs()
        else:
            raise engine.HarnessError('unknown op %s' % k)
        ctx.state(k, scen.coarse_state(m))


class PROP(Prop):
    id = 'C01'
    quick_n = 500
    thorough_n = 12000
    rule = ('seeded model configuration and history (steps, partial iterations, full runs, '
            'exceptions of user components, interrupts and failed allocations at an arbitrary '
            'call inside a step or a rewind, settings changed and changed back, ...), then a rewind '
            'and a complete run compared step by step with a fresh process. Non-trivial: '
            'elements existed in the compared run and the history ran at least one step.')
    fault_kinds = ('KeyboardInterrupt', 'MemoryError', 'component-*')

    def gen(self, rng, index):
        spec = scen.gen_spec(rng)
        return {'spec': spec, 'ops': gen_ops(rng, spec['nsteps'], spec=spec)}

    def make(self, spec, ctx):
        m = scen.build(spec, ctx.scratch)
        m.movers += scen.user_classes()['mover']()
        return m

    def run(self, case, ctx):
        m = self.make(case['spec'], ctx)
        h = History(m, case['spec'], ctx, m.movers[-1])
        for op in case['ops']:
            h.apply(op)
        spec = h.ed.spec
        if case['spec']['weatherers']:
            spec['envs'] = True

        def ref():
            return scen.trace(self.make(spec, ctx))
        expected = engine.fork_call(ref)
        got = scen.trace(m)
        ctx.simtime(spec['ts'] * (len(got) + len(expected)))
        if len(got) != len(expected):
            raise engine.Violation('length', '%d steps after rewind, %d in a fresh model'
                                   % (len(got), len(expected)))
        # the model keeps the spreading it added when a weatherer needed it; when none of them
        # needs it any more, its arrays are of no use
        ignore = set()
        if not any(w.on and 'area' in w.array_types for w in h.ed.weatherers):
            for w in m.weatherers:
                if w not in h.ed.weatherers:
                    ignore |= set(w.array_types)
        for a, b in zip(got, expected):
            ctx.state('run', a['step'], [len(x['arrays'].get('positions', ())) for x in a['sc']])
            d = scen.snaps_differ(a, b, ignore)
            if d:
                raise engine.Violation('not-reproduced', 'after %s, rewind and run: %s' % (
                    [o['op'] + ('-' + o['kind'] if 'kind' in o else '') for o in case['ops']], d))
        ctx.event(len(got), [x['mb'] for x in got[-1]['sc']],
                  [x['arrays']['positions'].tobytes() for x in got[-1]['sc']])
        ctx.nontrivial = bool(got) and len(got[-1]['sc'][0]['arrays']['positions']) > 0 \
            and bool(case['ops'])
