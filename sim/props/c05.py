"""C05: the model clock: every step exactly once, in order, at the right time, to the end."""
from datetime import timedelta

from .. import engine, scen, faults
from .base import Prop


def make_recorders(log):
    """components a script author would write: they note when the model calls them"""
    import numpy as np
    from gnome.movers import Mover, ProcessSchema
    from gnome.outputters import Outputter, BaseOutputterSchema
    from gnome.weatherers.core import Weatherer
    from gnome.environment.environment import Environment
    from gnome.persist.base_schema import ObjTypeSchema

    class NotingMover(Mover):
        _schema = ProcessSchema
        plan = None

        def _maybe(self, where):
            if self.plan and self.plan[0] == where:
                self.plan[1] -= 1
                if self.plan[1] < 0:
                    self.plan = None
                    raise scen.UserError('injected in ' + where)

        def prepare_for_model_run(self):
            log.append(('mover-run',))
            self._maybe('prepare')

        def prepare_for_model_step(self, sc, time_step, model_time_datetime):
            super().prepare_for_model_step(sc, time_step, model_time_datetime)
            if not sc.uncertain:
                log.append(('mover-step', time_step, model_time_datetime))
            self._maybe('prepare_step')

        def get_move(self, sc, time_step, model_time_datetime):
            if not sc.uncertain:
                log.append(('mover-move', time_step, model_time_datetime))
            self._maybe('move')
            return np.zeros((len(sc['positions']), 3))

        def model_step_is_done(self, sc=None):
            if not sc.uncertain:
                log.append(('mover-done',))
            self._maybe('done')

        def post_model_run(self):
            log.append(('mover-post',))

    class SecondMover(Mover):
        _schema = ProcessSchema

        def prepare_for_model_run(self):
            log.append(('mover2-run',))

        def prepare_for_model_step(self, sc, time_step, model_time_datetime):
            super().prepare_for_model_step(sc, time_step, model_time_datetime)
            if not sc.uncertain:
                log.append(('mover2-step', time_step, model_time_datetime))

        def get_move(self, sc, time_step, model_time_datetime):
            if not sc.uncertain:
                log.append(('mover2-move', time_step, model_time_datetime))
            return np.zeros((len(sc['positions']), 3))

        def model_step_is_done(self, sc=None):
            if not sc.uncertain:
                log.append(('mover2-done',))

        def post_model_run(self):
            log.append(('mover2-post',))

    class NotingWeatherer(Weatherer):
        def prepare_for_model_run(self, sc):
            log.append(('weath-run',))

        def prepare_for_model_step(self, sc, time_step, model_time_datetime):
            super().prepare_for_model_step(sc, time_step, model_time_datetime)
            log.append(('weath-step', time_step, model_time_datetime))

        def weather_elements(self, sc, time_step, model_time):
            log.append(('weath', time_step, model_time))

        def model_step_is_done(self, sc=None):
            if not sc.uncertain:
                log.append(('weath-done',))

        def post_model_run(self):
            log.append(('weath-post',))

    class NotingEnvironment(Environment):
        _schema = ObjTypeSchema

        def prepare_for_model_run(self, model_time):
            log.append(('env-run', model_time))

        def prepare_for_model_step(self, model_time):
            log.append(('env-step', model_time))

        def post_model_run(self):
            log.append(('env-post',))

    class NotingOutputter(Outputter):
        _schema = BaseOutputterSchema
        plan = None

        def prepare_for_model_run(self, *a, **k):
            super().prepare_for_model_run(*a, **k)
            log.append(('out-run', k.get('model_start_time')))

        def write_output(self, step_num, islast_step=False):
            super().write_output(step_num, islast_step)
            log.append(('out', step_num, bool(islast_step),
                        self.cache.load_timestep(step_num)._spill_container.current_time_stamp))
            if self.plan is not None:
                self.plan -= 1
                if self.plan < 0:
                    self.plan = None
                    raise scen.UserError('injected in write_output')
            return {'n': step_num}

        def post_model_run(self):
            log.append(('out-post',))

    return NotingMover(), NotingOutputter(), SecondMover(), NotingWeatherer(), NotingEnvironment()


class PROP(Prop):
    id = 'C05'
    quick_n = 700
    thorough_n = 20000
    fault_kinds = ('component-*', 'KeyboardInterrupt', 'MemoryError')
    rule = ('seeded histories of stepping, iterating, running, continuing, rewinding, changing '
            'start, step, duration and direction, and failing components, against a small model '
            'of the clock; recording components note every call. Non-trivial: at least two '
            'steps were taken.')

    def gen(self, rng, index):
        spec = scen.gen_spec(rng, weathering=rng.random() < 0.15, maps=('global',), det=True,
                             nsteps=rng.randint(1, 9), max_spills=2)
        spec['rem'] = rng.choice([0, 0, 0, 1, spec['ts'] - 1, spec['ts'] // 2])
        spec['backwards'] = back = rng.random() < 0.3
        if back:
            spec['weatherers'] = []
        # (rising elements cannot be run backwards)
        spec['movers'] = [x for x in spec['movers'] if x['t'] != 'rise']
        for s in spec['spills']:
            s['start'], s['end'] = 0, None
            s['n'] = rng.randint(1, 5)
        ops = []
        for i in range(rng.randint(2, 9)):
            k = scen.pick(rng, step=6, iter=2, full=1, cont=2, rewind=2, dur=2, ts=1.5, start=1,
                          back=1, fail=3, failout=1, interrupt=1, unc=1)
            op = {'op': k}
            if k in ('step', 'iter'):
                op['n'] = rng.randint(1, spec['nsteps'] + 2)
            elif k == 'dur':
                op['steps'] = rng.randint(0, 12)
                op['rem'] = rng.choice([0, 0, 1, 299])
                op['neg'] = rng.random() < 0.5
            elif k == 'ts':
                op['ts'] = rng.choice([300, 450, 600, 900, 1800])
                op['as'] = rng.choice(['int', 'timedelta', 'float'])
                op['neg'] = rng.random() < 0.5
            elif k == 'start':
                op['shift'] = rng.choice([0, -60, -3600, -86400])
            elif k == 'fail':
                op['where'] = rng.choice(['prepare', 'prepare_step', 'move', 'done'])
                op['n'] = rng.randint(0, 2 * spec['nsteps'])
            elif k == 'failout':
                op['n'] = rng.randint(0, spec['nsteps'])
            elif k == 'interrupt':
                op['pre'] = rng.randint(1, spec['nsteps'])
                op['frac'] = round(rng.random(), 4)
                op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            ops.append(op)
        if not back and rng.random() < 0.5:
            spec['substeps'] = rng.choice([1, 2, 3, 7, 11])
        return {'spec': spec, 'ops': ops, 'more': rng.random() < 0.6}

    def run(self, case, ctx):
        spec = case['spec']
        log = []
        m = scen.build(spec, ctx.scratch)
        mv, out, mv2, we, en = make_recorders(log)
        m.movers += mv
        m.outputters += out
        more = case.get('more')
        weath = bool(more) and not spec['backwards']      # (there is no weathering backwards)
        if more:
            m.movers += mv2
            if weath:
                m.weatherers += we
            m.environment += en
        told = {('mover-post',), ('out-post',)}
        if more:
            told |= {('mover2-post',), ('env-post',)}
        if weath:
            told |= {('weath-post',)}
        sign = -1 if spec['backwards'] else 1
        R = {'start': scen.t_at(0), 'ts': spec['ts'] * sign,
             'dur': (spec['ts'] * spec['nsteps'] + spec['rem']) * sign, 'cur': -1,
             'back': spec['backwards']}

        def nsteps():
            return 1 + abs(R['dur']) // abs(R['ts'])

        def time_of(k):
            return R['start'] + timedelta(seconds=k * R['ts'])

        def look(what):
            if m.current_time_step != R['cur']:
                raise engine.Violation('step-number', 'after %s the model is at step %s, '
                                       'expected %s' % (what, m.current_time_step, R['cur']))
            if m.num_time_steps != nsteps():
                raise engine.Violation('number-of-steps', 'after %s the model has %s steps, '
                                       'expected %s' % (what, m.num_time_steps, nsteps()))
            want = R['start'] if R['cur'] < 0 else time_of(R['cur'])
            if m.model_time != want:
                raise engine.Violation('model-time', 'after %s the model time is %s, expected %s'
                                       % (what, m.model_time, want))
            if R['cur'] >= 0 and not R.get('failed'):
                for sc in m.spills.items():
                    if sc.current_time_stamp != want:
                        raise engine.Violation('time-stamp', 'after %s the elements are stamped '
                                               '%s, expected %s' % (what, sc.current_time_stamp,
                                                                    want))

        def info_ok(info, what):
            k = R['cur']
            want = time_of(k).isoformat(timespec='minutes')
            if info.get('step_num') != k or info.get('step_time') != want \
                    or info.get('NotingOutputter') != {'n': k}:
                raise engine.Violation('output-info', '%s returned %s for step %d at %s' % (
                    what, {a: info.get(a) for a in ('step_num', 'step_time',
                                                    'NotingOutputter')}, k, want))

        def calls_ok(what, seen, k):
            """what the components of the model were told about step k"""
            seen = [e for e in seen]
            if k == 0:
                want = ([('mover-run',)] if mv.on else [])
                if more:
                    want += [('mover2-run',)] + [('weath-run',)] * weath + [('env-run', R['start'])]
                want.append(('out-run', R['start']))
            else:
                t = time_of(k - 1)
                want = [('mover-step', R['ts'], t)]
                if more:
                    want += [('mover2-step', R['ts'], t)]
                    if weath:
                        want += [('weath-step', R['ts'], t)]
                    want += [('env-step', t)]
                if ('mover-move', R['ts'], t) in seen or R['had']:
                    want.append(('mover-move', R['ts'], t))
                    if more:
                        want.append(('mover2-move', R['ts'], t))
                if weath:
                    # the time step may be divided for the weathering; together the parts are
                    # the step, without gaps
                    parts = [e for e in seen if e[0] == 'weath']
                    n, at = spec.get('substeps', 1), t
                    for p in parts:
                        if p[2] != at or p[1] <= 0:
                            raise engine.Violation('calls', '%s: weathered %s, expected to go '
                                                   'on at %s' % (what, parts, at))
                        at = at + timedelta(seconds=p[1])
                    if at != time_of(k) or not n <= len(parts) <= n + 1 \
                            or (n == 1 and len(parts) > 1):
                        raise engine.Violation('calls', '%s: weathered in %s, the step goes from '
                                               '%s to %s in %d parts' % (what, parts, t,
                                                                         time_of(k), n))
                    want += parts
                want.append(('mover-done',))
                if more:
                    want += [('mover2-done',)] + [('weath-done',)] * weath
            want.append(('out', k, k == nsteps() - 1, time_of(k)))
            if seen != want:
                raise engine.Violation('calls', '%s: components were called %s, expected %s'
                                       % (what, seen, want))

        def one(what, fn):
            """one step through `fn`; returns False at the end of the run"""
            del log[:]
            R['had'] = any(len(sc) for sc in m.spills.items())
            if R['cur'] >= nsteps() - 1:
                try:
                    r = fn()
                except StopIteration:
                    R['ended'] = True
                    if told - set(log):
                        raise engine.Violation('calls', 'components were not told that the run '
                                               'is over: %s' % sorted(told - set(log)))
                    if [e for e in log if not e[0].endswith('-post')]:
                        raise engine.Violation('calls', 'components ran after the end: %s' % log)
                    if m.current_time_step != R['cur'] or m.model_time != time_of(R['cur']):
                        raise engine.Violation('step-number', 'the clock moved on after the end')
                    return False
                raise engine.Violation('no-end', '%s after the last of %d steps ran on: %s'
                                       % (what, nsteps(), r))
            try:
                r = fn()
            except StopIteration:
                raise engine.Violation('early-end', '%s ended the run at step %d of %d'
                                       % (what, R['cur'], nsteps()))
            R['cur'] += 1
            R['failed'] = False
            R['taken'] = R.get('taken', 0) + 1
            ctx.simtime(R['ts'])
            look(what)
            info_ok(r, what)
            calls_ok(what, list(log), R['cur'])
            return True

        def whole(what, rewind):
            if rewind:
                R['cur'] = -1
            first = R['cur'] + 1
            del log[:]
            infos = m.full_run(rewind=rewind)
            nums = list(range(first, nsteps()))
            if [i['step_num'] for i in infos] != nums:
                raise engine.Violation('steps', '%s ran steps %s, expected %s' % (
                    what, [i['step_num'] for i in infos], nums))
            outs = [e for e in log if e[0] == 'out']
            if outs != [('out', k, k == nsteps() - 1, time_of(k)) for k in nums]:
                raise engine.Violation('steps', '%s: outputter saw %s' % (what, outs))
            for k, i in zip(nums, infos):
                R['cur'] = k
                info_ok(i, what)
            if told - set(log):
                raise engine.Violation('calls', 'components were not told the run is over: %s'
                                       % sorted(told - set(log)))
            R['taken'] = R.get('taken', 0) + len(nums)
            ctx.simtime(R['ts'] * len(nums))
            R['cur'] = max(R['cur'], first - 1)
            R['failed'] = R.get('failed', False) and not nums
            look(what)

        look('construction')
        for op in case['ops']:
            k = op['op']
            ctx.count('op:' + k)
            if k == 'step':
                for i in range(op['n']):
                    one('step', m.step)
            elif k == 'iter':
                it = iter(m)
                R['cur'] = -1
                look('iter')
                for i in range(op['n']):
                    if not one('next', lambda: next(it)):
                        break
            elif k in ('full', 'cont'):
                whole('full_run' if k == 'full' else 'full_run(rewind=False)', k == 'full')
            elif k == 'rewind':
                m.rewind()
                R['cur'] = -1
            elif k == 'dur':
                new = abs(R['ts']) * op['steps'] + op['rem']
                d = -new if (R['back'] and op['neg']) else new
                shorter = new < abs(R['dur'])
                m.duration = timedelta(seconds=d)
                R['dur'] = new * (-1 if R['back'] else 1)
                if shorter:
                    R['cur'] = -1
            elif k == 'ts':
                new = -op['ts'] if (R['back'] and op['neg']) else op['ts']
                m.time_step = {'int': new, 'timedelta': timedelta(seconds=new),
                               'float': float(new)}[op['as']]
                R['ts'] = op['ts'] * (-1 if R['back'] else 1)
                R['cur'] = -1
            elif k == 'start':
                new = R['start'] + timedelta(seconds=op['shift'])
                if R['back'] and op['shift']:
                    continue
                m.start_time = new
                R['start'], R['cur'] = new, -1
            elif k == 'back':
                if spec['weatherers'] or weath or R['start'] != scen.t_at(0):
                    continue
                R['back'] = not R['back']
                m.run_backwards = R['back']
                R['dur'], R['ts'], R['cur'] = -R['dur'], -R['ts'], -1
            elif k == 'unc':
                m.uncertain = not m.uncertain
                R['cur'] = -1
            elif k == 'fail':
                mv.plan = [op['where'], op['n']]
                try:
                    while one('step', m.step):
                        pass
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                    if R['cur'] < 0:
                        m.rewind()
                    else:
                        # a failed step does not count; outputters may close their files
                        if m.current_time_step != R['cur'] or m.model_time != time_of(R['cur']):
                            raise engine.Violation('step-number', 'a failed step moved the '
                                                   'clock to step %s' % m.current_time_step)
                        if ('out-post',) not in log:
                            raise engine.Violation('calls', 'outputters were not told that the '
                                                   'run failed')
                        ctx.state('failed', op['where'], min(R['cur'], 3))
                        mv.plan = None
                        R['failed'] = True
                        continue     # and go on from there
                mv.plan = None
            elif k == 'failout':
                out.plan = op['n']
                try:
                    while one('step', m.step):
                        pass
                except scen.UserError:
                    ctx.count('fault:component-output')
                    m.rewind()
                    R['cur'] = -1
                out.plan = None
            elif k == 'interrupt':
                for i in range(op['pre']):
                    one('step', m.step)
                n = engine.fork_call(faults.count_calls, lambda: try_step(m))
                with faults.CallPoints(1 + int(op['frac'] * n), op['exc']) as cp:
                    try:
                        try_step(m)
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                if cp.fired:
                    ctx.count('fault:' + op['exc'])
                m.rewind()
                R['cur'] = -1
            if not (k == 'fail' or (R['cur'] >= 0 and m.current_time_step < 0)):
                look(k)
            ctx.state(k, R['cur'] < 0, R['cur'] >= nsteps() - 1, R['back'], min(nsteps(), 4))
            ctx.event(k, R['cur'], str(m.model_time))
        ctx.nontrivial = R.get('taken', 0) >= 2


def try_step(m):
    try:
        m.step()
    except StopIteration:
        pass
