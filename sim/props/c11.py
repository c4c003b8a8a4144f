"""C11: saving replaces a save file completely or not at all."""
import os
import sys

from .. import engine, faults, scen
from .base import Prop
from .c05 import try_step
from .c10 import settings, run_trace, differ, as_saved


class Unsavable(Exception):
    pass


def unsavable_mover(exc):
    """a user's component that cannot be saved"""
    from gnome.movers import RandomMover

    class Bad(RandomMover):
        def to_dict(self, json_=None):
            raise exc('cannot be saved')
    return Bad()


class PROP(Prop):
    id = 'C11'
    quick_n = 500
    thorough_n = 9000
    fault_kinds = ('disk-enospc', 'disk-eio', 'disk-torn', 'crash', 'torn-crash', 'interrupt',
                   'nomemory', 'unsavable', 'unreadable-data', 'load-enospc', 'load-eio')
    state_measure = ('(fault kind, operation the fault hit, whether an earlier save existed, '
                     'outcome) reached, hashed')
    rule = ('a model is saved, changed, and saved again over the first file while a seeded fault '
            'hits one of the file operations or calls of the save (error, torn write, process '
            'kill, interrupt, failed allocation, data file that cannot be read, component that cannot be saved); a fresh '
            'process then loads the file. Non-trivial: the fault fired.')

    def gen(self, rng, index):
        spec = scen.gen_spec(rng, nsteps=rng.randint(2, 5), max_spills=2)
        kind = scen.pick(rng, enospc=2, eio=1, torn=2, crash=3, torn_crash=2, interrupt=2,
                         nomemory=1, unsavable=1, unread=2, none=0.5)
        return {'spec': spec, 'first': rng.random() < 0.8, 'kind': kind,
                'at': round(rng.random() ** 2 if rng.random() < 0.5 else rng.random(), 6),
                'part': rng.choice([0.0, 0.2, 0.7]), 'sticky': rng.random() < 0.5,
                'steps': rng.choice([0, 0, rng.randint(1, spec['nsteps'])]),
                'dir': rng.random() < 0.3,
                'over': rng.random() < 0.9,
                'change': rng.sample(['name', 'mover', 'spill', 'dur', 'unc'], rng.randint(1, 3)),
                'load': rng.choice([None, None, ['enospc', round(rng.random(), 6)],
                                    ['eio', round(rng.random(), 6)]])}

    def build(self, case, ctx):
        os.makedirs(ctx.path('work'), exist_ok=True)
        m = scen.build(case['spec'], ctx.path('work'), substance_hook=as_saved)
        m.name = 'model'
        return m

    def change(self, m, case):
        import gnome.scripting as gs
        spec = case['spec']
        for c in case['change']:
            if c == 'name' and not case['dir']:
                m.name = 'changed'
            elif c == 'mover':
                m.movers += gs.RandomMover(diffusion_coef=777)
            elif c == 'spill':
                s = m.spills[0]
                m.spills.remove(s.id)
            elif c == 'dur':
                m.duration = m.duration * 2
            elif c == 'unc':
                m.uncertain = not m.uncertain
        m.movers += gs.RandomMover(diffusion_coef=4242, name='second')

    def target(self, case, ctx):
        if case['dir']:
            return ctx.path('save')
        return ctx.path('save', 'm.gnome')

    def run(self, case, ctx):
        os.makedirs(ctx.path('save'))
        os.makedirs(ctx.path('cwd'))
        os.chdir(ctx.path('cwd'))
        path = ctx.path('save', 'model.gnome' if case['dir'] else 'm.gnome')
        kind = case['kind']

        def first():
            m = self.build(case, ctx)
            for i in range(case['steps']):
                try_step(m)
            if case['first']:
                m.save(self.target(case, ctx))
            return settings(m), run_trace(m)

        def second(where, fault):
            """the save under test; in `where`, under fault"""
            m = self.build(case, ctx)
            self.change(m, case)
            for i in range(case['steps']):
                try_step(m)
            if kind == 'unsavable' and fault:
                m.movers += unsavable_mover(Unsavable)
            res = {'n': 0, 'fired': None, 'raised': None, 'calls': 0}
            cp = None
            try:
                if kind in ('interrupt', 'nomemory') and fault is not None:
                    cp = faults.CallPoints(fault.get('at'), 'KeyboardInterrupt' if kind ==
                                           'interrupt' else 'MemoryError')
                    with cp:
                        m.save(where)
                else:
                    plan = fault if fault and 'kind' in fault else None
                    if kind == 'unread':
                        fs = faults.FS(ctx.path('work'), plan, reads=True)
                    else:
                        fs = faults.FS(ctx.path('save'), plan)
                    with fs:
                        try:
                            m.save(where)
                        finally:
                            res['n'], res['fired'] = fs.n, fs.fired
            except (OSError, faults.SimInterrupt, faults.SimNoMemory, Unsavable) as e:
                res['raised'] = repr(e)
            if cp is not None:
                res['n'], res['fired'] = cp.n, cp.fired
            if kind == 'unsavable' and fault:
                res['fired'] = 'unsavable'
                m.movers.remove(m.movers[-1].id)
            # the model itself is none the worse
            return res, settings(m), run_trace(m)

        set_a, tr_a = engine.fork_call(first)
        before = None
        if case['first']:
            with open(path, 'rb') as f:
                before = f.read()
        # how many points are there?  (a rehearsal elsewhere)
        os.makedirs(ctx.path('save', 'r'))

        def rehearse():
            return second(ctx.path('save', 'r') if case['dir'] else
                          ctx.path('save', 'r', 'm.gnome'),
                          {} if kind in ('interrupt', 'nomemory') else None)
        res0, set_b, tr_b = engine.fork_call(rehearse)
        if res0['raised']:
            raise engine.Violation('save', 'saving fails: %s' % res0['raised'])
        for f in os.listdir(ctx.path('save', 'r')):
            os.remove(ctx.path('save', 'r', f))
        os.rmdir(ctx.path('save', 'r'))
        at = 1 + int(case['at'] * res0['n'])
        fault = {'at': at, 'kind': kind, 'part': case['part'], 'sticky': case['sticky']}
        if kind in ('interrupt', 'nomemory'):
            fault = {'at': at}
        elif kind == 'none':
            fault = None
        elif kind == 'unsavable':
            fault = {'unsavable': True}
        try:
            out = engine.fork_call(lambda: second(self.target(case, ctx), fault))
        except engine.ForkDied as e:
            if e.code != faults.CRASH_CODE:
                raise
            out = None
        if out is None:
            ctx.count('fault:' + kind.replace('_', '-'))
            outcome = 'killed'
            ctx.nontrivial = True
        else:
            res, set_b2, tr_b2 = out
            outcome = 'failed' if res['raised'] else 'saved'
            if res['fired']:
                ctx.count('fault:' + {'interrupt': kind, 'nomemory': kind, 'unsavable': kind,
                                        'unread': 'unreadable-data'}.get(
                    kind, 'disk-' + kind))
                ctx.nontrivial = True
            if kind == 'none' and res['raised']:
                raise engine.Violation('save', 'saving fails: %s' % res['raised'])
            if set_b2 != set_b or differ(tr_b2, tr_b):
                raise engine.Violation('model', 'the model is changed by a save that %s: %s' % (
                    outcome, differ(tr_b2, tr_b)))
            ctx.state(kind, str(res['fired'])[-30:], case['first'], outcome)
        ctx.event(outcome, kind, at, case['part'], len(tr_b), [x['mb'] for x in tr_b[-1]['sc']])
        self.verify(case, ctx, path, outcome, before, (set_a, tr_a), (set_b, tr_b))
        # whatever happened, saving again works
        engine.fork_call(lambda: second(self.target(case, ctx), None))
        self.verify(case, ctx, path, 'saved', None, (set_a, tr_a), (set_b, tr_b))
        if os.listdir('.'):
            raise engine.Violation('litter', 'saving left %s in the working directory'
                                   % os.listdir('.'))

    def verify(self, case, ctx, path, outcome, before, a, b):
        exists = os.path.exists(path)
        if not exists:
            if before is not None or outcome == 'saved':
                raise engine.Violation('lost', 'the save file is gone after a save that %s'
                                       % outcome)
            return

        def load(plan):
            from gnome.model import Model
            if plan is None:
                m = Model.load(path)
                return settings(m), run_trace(m)
            with faults.FS(os.environ['TMPDIR'], plan) as fs:
                try:
                    Model.load(path)
                except OSError:
                    pass
            return fs.n, fs.fired

        if outcome == 'saved' and before is not None and case['load']:
            n, fired = engine.fork_call(lambda: load({'at': -1, 'kind': 'enospc'}))
            at = 1 + int(case['load'][1] * n)
            n, fired = engine.fork_call(lambda: load({'at': at, 'kind': case['load'][0],
                                                      'sticky': True}))
            if fired:
                ctx.count('fault:load-' + case['load'][0])
        try:
            got_set, got = engine.fork_call(lambda: load(None))
        except engine.Violation as e:
            if outcome != 'saved' and before is None:
                # (a first save that failed may leave a file, but not one that loads)
                ctx.count('probe:remains')
                return
            raise engine.Violation('unreadable', 'after a save that %s, the file cannot be '
                                   'loaded: %s' % (outcome, e.message[-300:]))
        ctx.simtime(case['spec']['ts'] * len(got))
        # (a wind given as u, v is rounded by the file's decimal text)
        oil = (case['spec'].get('wuv')
               or case['spec']['spills'][0]['sub'] != 'none')
        is_b = got_set == b[0] and not differ(got, b[1], oil)
        is_a = case['first'] and got_set == a[0] and not differ(got, a[1], oil)
        ctx.event(is_a, is_b)
        if outcome == 'saved':
            if not is_b:
                raise engine.Violation('wrong', 'saved file loads as something else: %s'
                                       % differ(got, b[1], oil))
        elif not (is_a or is_b):
            raise engine.Violation('mixed', 'after a save that %s, the file is neither the old '
                                   'nor the new model: %s' % (outcome, differ(got, b[1], oil)))
