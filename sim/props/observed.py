"""Runs of a model under a seeded history, with an invariant evaluated after every step."""
from .. import engine, scen, faults
from .base import Prop


def gen_ops(rng, nsteps, faulty=True):
    """a history that reaches the end of the run at least once, most of the time"""
    ops = []
    if faulty and rng.random() < 0.6:
        for i in range(rng.randint(1, 3)):
            k = scen.pick(rng, step=3, fail=4, rewind=1, interrupt=2, full=1, toggle_unc=1)
            op = {'op': k}
            if k == 'step':
                op['n'] = rng.randint(1, nsteps)
            elif k == 'fail':
                op['where'] = rng.choice(['prepare_step', 'move', 'done', 'prepare'])
                op['step'] = rng.randint(0, 2 * nsteps)
            elif k == 'interrupt':
                op['pre'] = rng.randint(1, nsteps)
                op['frac'] = round(rng.random(), 4)
                op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            ops.append(op)
    ops.append({'op': 'rest'})
    return ops


class Observed(Prop):
    """subclasses: init_state(model, case), check(model, st, ctx), optionally finish(...)"""

    #: does the invariant also cover steps that follow a failed step without a rewind?
    survives_failure = False

    def gen(self, rng, index):
        spec = self.gen_spec(rng, index)
        return {'spec': spec, 'ops': gen_ops(rng, spec['nsteps'])}

    def gen_spec(self, rng, index):
        return scen.gen_spec(rng)

    def make(self, case, ctx):
        m = scen.build(case['spec'], ctx.scratch)
        m.movers += scen.user_classes()['mover']()
        return m

    def run(self, case, ctx):
        spec = case['spec']
        m = self.make(case, ctx)
        st = self.init_state(m, case)
        dirty = False     # a failed or interrupted step not followed by a rewind

        def step():
            nonlocal st
            try:
                m.step()
            except StopIteration:
                return False
            ctx.simtime(spec['ts'])
            if not dirty:
                self.check(m, st, ctx)
            elif dirty == 'failed' and self.survives_failure:
                self.check(m, st, ctx)
            ctx.state(scen.coarse_state(m))
            return True

        for op in case['ops']:
            k = op['op']
            ctx.count('op:' + k)
            if dirty and k != 'rewind' and (dirty == 'interrupted'
                                            or not self.survives_failure):
                m.rewind()
                st = self.init_state(m, case)
                dirty = False
            if k == 'step':
                for i in range(op['n']):
                    if not step():
                        break
            elif k == 'rest' or k == 'full':
                if k == 'full' or m.current_time_step >= m.num_time_steps - 1:
                    m.rewind()
                    st = self.init_state(m, case)
                    dirty = False
                for i in range(300):
                    if not step():
                        break
                else:
                    raise engine.Violation('endless', 'the run did not end')
                if dirty is False or (dirty == 'failed' and self.survives_failure):
                    self.finish(m, st, ctx)
            elif k == 'rewind':
                m.rewind()
                st = self.init_state(m, case)
                dirty = False
            elif k == 'toggle_unc':
                m.uncertain = not m.uncertain
                st = self.init_state(m, case)
                dirty = False
            elif k == 'fail':
                um = m.movers[-1]
                um.plan = {'where': op['where'], 'step': op['step']}
                um.n = 0
                f0 = um.fired
                try:
                    for i in range(spec['nsteps'] + 2):
                        if not step():
                            break
                except scen.UserError:
                    # (a failure while the run is being set up needs a rewind)
                    dirty = 'failed' if m.current_time_step >= 0 else 'interrupted'
                    self.failed(m, st, ctx)
                um.plan = None
                if um.fired > f0:
                    ctx.count('fault:component-' + op['where'])
            elif k == 'interrupt':
                for i in range(op['pre']):
                    if not step():
                        break
                if m.current_time_step < 0:
                    continue
                n = engine.fork_call(faults.count_calls, m.step)
                with faults.CallPoints(1 + int(op['frac'] * n), op['exc']) as cp:
                    try:
                        m.step()
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                    except StopIteration:
                        pass
                if cp.fired:
                    ctx.count('fault:' + op['exc'])
                    dirty = 'interrupted'
                else:
                    m.rewind()
                    st = self.init_state(m, case)
            else:
                raise engine.HarnessError(k)
        scs = list(m.spills.items())
        ctx.event([(len(sc), {k: repr(v) for k, v in scen._plain(dict(sc.mass_balance)).items()})
                   for sc in scs])
        ctx.nontrivial = bool(st.get('seen', 0) > 0)

    def init_state(self, m, case):
        return {'spec': case['spec']}

    def check(self, m, st, ctx):
        raise NotImplementedError

    def failed(self, m, st, ctx):
        pass

    def finish(self, m, st, ctx):
        pass
