"""C13: components act exactly while they are on and active."""
import json

import numpy as np

from .. import engine, scen, faults
from .base import Prop

SOLO = ['simple', 'random', 'wind', 'cgrid', 'cgridwind', 'pycur', 'pywind', 'cats', 'comp']


def window(rng, ts, n):
    """a window that can lie anywhere relative to the run and to the steps"""
    span = n * ts
    k = rng.choice(['aligned', 'any', 'short', 'before', 'after', 'open', 'openl'])
    if k == 'aligned':
        a = rng.randint(-1, n) * ts
        return [a, a + rng.randint(1, n) * ts]
    if k == 'any':
        a = rng.randint(-ts, span)
        return [a, a + rng.randint(1, span)]
    if k == 'short':
        a = rng.randint(0, span - 1)
        return [a, a + rng.randint(1, ts - 1)]
    if k == 'before':
        a = -rng.randint(2, 5) * ts
        return [a, a + rng.randint(1, 2 * ts)]
    if k == 'after':
        a = span + rng.randint(1, 3 * ts)
        return [a, a + rng.randint(1, 3 * ts)]
    if k == 'open':
        return [rng.randint(-ts, span), None]
    return [None, rng.randint(-ts, span)]


class PROP(Prop):
    id = 'C13'
    quick_n = 600
    thorough_n = 15000
    rule = ('seeded component, window and on/off switches; (absent) a component that is off or '
            'whose window lies outside the run against a run without it, (prefix) the steps '
            'before the window against a run without it, (solo) motion exactly in the steps '
            'whose middle lies in the window, with switches during the run, (amount) the amount '
            'a skimmer or observed beaching removed by each time, (order) weatherers added in another '
            'order. Non-trivial: elements existed '
            'in a compared step.')

    def gen(self, rng, index):
        mode = scen.pick(rng, absent=3, prefix=3, solo=4, amount=3, order=1.2)
        c = {'mode': mode}
        if mode == 'order':
            sp = scen.gen_spec(rng, weathering=True)
            sp['weatherers'] += [{'t': k, 'on': True, 'active': None} for k in ('evap', 'disp')
                                 if k not in [w['t'] for w in sp['weatherers']]]
            c['spec'] = sp
            c['perm'] = rng.sample(range(len(sp['weatherers'])), len(sp['weatherers']))
        elif mode in ('absent', 'prefix'):
            sp = scen.gen_spec(rng, cleanup=False)
            sp['weatherers'] = [w for w in sp['weatherers'] if w['t'] != 'halflife']
            kinds = ['simple', 'random', 'wind', 'rise', 'random3d', 'cgrid', 'cgridwind',
                     'pycur', 'pywind', 'cats', 'comp']
            if sp['weatherers'] and rng.random() < 0.5:
                t = {'t': rng.choice(['evap', 'disp', 'emul', 'skim', 'burn', 'chem',
                                      'obsbeach']),
                     'frac': scen.r(rng, .05, .7), 'eff': scen.r(rng, .1, 1.0), 'cls': 'w'}
                sp['weatherers'] = [w for w in sp['weatherers']
                                    if w['t'] not in (t['t'], 'evap' if t['t'] != 'evap'
                                                      else 'disp')]
            else:
                t = scen.gen_mover(rng, sp['ts'], sp['nsteps'], kinds)
                t['cls'] = 'm'
            n, ts = sp['nsteps'], sp['ts']
            t['on'] = True
            if mode == 'absent':
                k = rng.choice(['off', 'before', 'after'])
                if k == 'off':
                    t['on'] = False
                    t['active'] = [0, n * ts] if rng.random() < .5 else [-ts, 3 * n * ts]
                elif k == 'before':
                    a = -rng.randint(4, 9) * ts
                    t['active'] = [a, a + rng.randint(1, 3 * ts)]
                else:
                    a = n * ts + rng.randint(0, 3) * ts + rng.choice([0, 1, ts // 2])
                    t['active'] = [a, a + rng.randint(1, 9 * ts)]
                    if t['t'] == 'burn':
                        t['active'][1] = a + 99 * ts
            else:
                a = rng.randint(0, n) * ts + rng.choice([0, 0, 1, ts // 2, ts - 1])
                t['active'] = [a, a + rng.randint(1, 2 * n) * ts]
            c['spec'], c['target'] = sp, t
            c['where'] = rng.randint(0, 3)
        elif mode == 'solo':
            sp = scen.gen_spec(rng, weathering=False, maps=('global', 'global', 'box'),
                               spill_kinds=('point',), backwards=rng.random() < 0.2)
            # (a long run leaves the grid)
            kinds = [k for k in SOLO if not (k in ('cgrid', 'cgridwind', 'cats', 'comp') and
                                             (sp['backwards'] or sp['ts'] * sp['nsteps'] > 25000))]
            t = scen.gen_mover(rng, sp['ts'], sp['nsteps'], kinds)
            t.update(on=rng.random() < .9, active=window(rng, sp['ts'], sp['nsteps']))
            if sp['backwards']:
                t['active'] = [None if x is None else -x for x in t['active']][::-1]
            if t['t'] == 'simple':
                t['vel'] = [scen.r(rng, .2, 1.5), scen.r(rng, .2, 1.5), 0.0]
            if t['t'] in ('wind', 'pycur', 'cgrid', 'cgridwind'):
                t['speed'] = scen.r(rng, .5, 1.2)
                t['uv'] = [[.7, .6, .1]] * len(t.get('uv', []))
            if t['t'] in ('cats', 'comp'):
                t.update(uv=[[.7, .6, .6, .5], [.2, .8, .3, .7]], tide=None)
            sp['wind'] = [[0, scen.r(rng, 3, 15), scen.r(rng, 0, 359)]]
            for s in sp['spills']:
                s['z'] = 0.0
                w = scen.r(rng, .01, .04)
                s['windage'] = [w, round(w + .01, 4)]
            sp['movers'] = [t]
            c['spec'] = sp
            c['ops'] = []
            for i in range(rng.choice([0, 0, 1, 2, 3])):
                c['ops'].append({'at': rng.randint(0, sp['nsteps']),
                                 'do': rng.choice(['on', 'off', 'range']),
                                 'active': window(rng, sp['ts'], sp['nsteps'])})
                if sp['backwards']:
                    c['ops'][-1]['active'] = [None if x is None else -x
                                              for x in c['ops'][-1]['active']][::-1]
        else:
            sp = scen.gen_spec(rng, weathering=True, maps=('global',), spill_kinds=('point',),
                               max_spills=2)
            for s in sp['spills']:
                s.update(start=0, end=None, z=0.0, amount=scen.r(rng, 5e4, 5e5, 1), units='kg',
                         on=True)
            n, ts = sp['nsteps'], sp['ts']
            w = window(rng, ts, n)
            if w[0] is None or w[1] is None:
                w = [0, n * ts]
            t = {'t': rng.choice(['skim', 'obsbeach']), 'on': True, 'active': w,
                 'kg': scen.r(rng, 10, 4000, 1), 'eff': scen.r(rng, .1, 1.0),
                 'units': rng.choice(['kg', 'm^3', 'ton'])}
            if t['t'] == 'obsbeach':
                k = rng.randint(0, 2)
                ins = sorted(set(rng.randint(w[0] + 1, max(w[0] + 2, w[1] - 1))
                                 for i in range(k)) - {w[1]})
                ins = [x for x in ins if w[0] < x < w[1]]
                t['series'] = [[x, scen.r(rng, 1, 2000, 1)] for x in ins] + [
                    [w[1], scen.r(rng, 1, 2000, 1)]]
            sp['weatherers'] = []
            sp['movers'] = []
            sp['substeps'] = rng.choice([1, 1, 2, 3])
            c['spec'], c['target'] = sp, t
            c['ops'] = [{'at': rng.randint(1, n), 'on': rng.random() < .5}
                        for i in range(rng.choice([0, 0, 1, 2, 3]))]
        c['pre'] = []
        for i in range(rng.choice([0, 0, 1, 2])):
            c['pre'].append({'op': rng.choice(['step', 'fail', 'interrupt', 'full']),
                             'n': rng.randint(1, 6), 'frac': round(rng.random(), 4),
                             'where': rng.choice(['move', 'prepare_step', 'done'])})
        return c

    # ------------------------------------------------------------------

    def prelude(self, m, case, ctx):
        um = scen.user_classes()['mover']()
        if case['pre']:
            m.movers += um
        for op in case['pre']:
            ctx.count('op:' + op['op'])
            try:
                if op['op'] == 'step':
                    for i in range(op['n']):
                        m.step()
                elif op['op'] == 'full':
                    for i in range(400):
                        m.step()
                elif op['op'] == 'fail':
                    um.plan = {'where': op['where'], 'step': op['n']}
                    for i in range(400):
                        m.step()
                else:
                    for i in range(op['n']):
                        m.step()
                    nc = engine.fork_call(faults.count_calls, m.step)
                    with faults.CallPoints(1 + int(op['frac'] * nc)) as cp:
                        m.step()
                    if cp.fired:
                        ctx.count('fault:KeyboardInterrupt')
            except StopIteration:
                pass
            except scen.UserError:
                ctx.count('fault:component-' + op['where'])
            except (faults.SimInterrupt, faults.SimNoMemory):
                ctx.count('fault:KeyboardInterrupt')
            um.plan = None
            m.rewind()

    def with_target(self, case):
        sp = json.loads(json.dumps(case['spec']))
        t = case['target']
        lst = sp['movers'] if t['cls'] == 'm' else sp['weatherers']
        lst.insert(min(case.get('where', 0), len(lst)), t)
        return sp

    def run(self, case, ctx):
        mode = case['mode']
        ctx.count('probe:' + mode)
        if mode in ('absent', 'prefix'):
            self.run_compare(case, ctx)
        elif mode == 'order':
            self.run_order(case, ctx)
        elif mode == 'solo':
            self.run_solo(case, ctx)
        else:
            self.run_amount(case, ctx)

    def run_compare(self, case, ctx):
        t = case['target']
        case = json.loads(json.dumps(case))
        if t['cls'] == 'w':
            # both runs weather, so that both use the same spreading and environment
            case['spec']['weatherers'].insert(
                0, {'t': 'evap' if t['t'] != 'evap' else 'disp', 'on': True, 'active': None})
        ref = engine.fork_call(self.trace_of, case['spec'], [], None, ctx.scratch)
        got = self.trace_of(self.with_target(case), case, ctx, ctx.scratch)
        ts = case['spec']['ts']
        for a, b in zip(got, ref):
            k = a['step']
            ctx.simtime(ts)
            if case['mode'] == 'prefix':
                # step k covers (k-1) ts .. k ts (clean-up starts on time, others half a step in)
                if k > 0 and k * ts > t['active'][0]:
                    break
            d = self.differ(a, b)
            if d:
                raise engine.Violation(case['mode'], 'a %s that is %s changes the run: %s' % (
                    t['t'], 'off' if not t['on'] else 'active %s s' % t['active'], d))
            ctx.event(k, len(a['sc'][0]['arrays']['id']))
            if len(a['sc'][0]['arrays']['id']):
                ctx.nontrivial = True
            ctx.state(case['mode'], t['t'], k, len(a['sc'][0]['arrays']['id']) > 0)
        if len(got) != len(ref):
            raise engine.Violation(case['mode'], '%d steps, %d without it' % (len(got), len(ref)))

    def run_order(self, case, ctx):
        """the order in which weatherers are added makes no difference"""
        sp = case['spec']
        perm = [i for i in case['perm'] if i < len(sp['weatherers'])]
        other = dict(sp, weatherers=[sp['weatherers'][i] for i in perm])
        if len(other['weatherers']) != len(sp['weatherers']):
            raise engine.HarnessError('not a permutation')
        ref = engine.fork_call(self.trace_of, sp, [], None, ctx.scratch)
        got = self.trace_of(other, case, ctx, ctx.scratch)
        for a, b in zip(got, ref):
            ctx.simtime(sp['ts'])
            d = scen.snaps_differ(a, b)
            if d:
                raise engine.Violation('order', 'weatherers added in the order %s: %s' % (
                    [w['t'] for w in other['weatherers']], d))
            ctx.event(a['step'], len(a['sc'][0]['arrays']['id']))
            ctx.state('order', a['step'], len(perm))
            if len(a['sc'][0]['arrays']['id']):
                ctx.nontrivial = True

    def differ(self, a, b):
        for x, y in zip(a['sc'], b['sc']):
            common = set(x['arrays']) & set(y['arrays'])
            for s in (x, y):
                s['arrays'] = {k: v for k, v in s['arrays'].items() if k in common}
            for k in set(x['mb']) ^ set(y['mb']):
                v = x['mb'].pop(k, None)
                y['mb'].pop(k, None)
                if v not in (None, 0, 0.0, {}):
                    return 'step %d: mass balance reports %s = %r' % (a['step'], k, v)
        return scen.snaps_differ(a, b)

    def trace_of(self, spec, case, ctx, scratch):
        m = scen.build(spec, scratch)
        if ctx is not None:
            self.prelude(m, case, ctx)
        return scen.trace(m)

    # ------------------------------------------------------------------

    def run_solo(self, case, ctx):
        sp = case['spec']
        m = scen.build(sp, ctx.scratch)
        self.prelude(m, case, ctx)
        t = sp['movers'][0]
        mv = m.movers[0]
        on, act = t['on'], t['active']
        # a prelude leaves the settings alone
        ts = sp['ts'] * (-1 if sp['backwards'] else 1)
        m.rewind()
        prev = {}
        for k in range(sp['nsteps'] + 1):
            for op in case['ops']:
                if op['at'] == k:
                    ctx.count('op:' + op['do'])
                    if op['do'] == 'range':
                        act = op['active']
                        mv.active_range = scen.active_of(act)
                    else:
                        on = op['do'] == 'on'
                        mv.on = on
            try:
                m.step()
            except StopIteration:
                break
            ctx.simtime(ts)
            mid = (k - 0.5) * ts if k > 0 else None
            want = (on and mid is not None and (act[0] is None or act[0] <= mid)
                    and (act[1] is None or mid <= act[1]))
            for sc in m.spills.items():
                ids = np.asarray(sc['id']).tolist()
                pos = np.array(sc['positions'])
                old = prev.get(sc.uncertain, {})
                for i, e in enumerate(ids):
                    if e not in old:
                        continue
                    ctx.nontrivial = True
                    moved = not np.array_equal(pos[i], old[e])
                    if moved != want:
                        raise engine.Violation(
                            'moved' if moved else 'idle', '%sstep %d (%s to %s s): the %s mover, '
                            'on=%s, active %s s, %s element %d' % (
                                'uncertain ' if sc.uncertain else '', k, (k - 1) * ts, k * ts,
                                t['t'], on, act, 'moved' if moved else 'did not move', e))
                prev[sc.uncertain] = dict(zip(ids, pos))
            ctx.event(k, want)
            ctx.state('solo', t['t'], k, want)

    # ------------------------------------------------------------------

    def run_amount(self, case, ctx):
        sp, t = case['spec'], case['target']
        from gnome import weatherers as W
        import gnome.scripting as gs
        import nucos as uc
        m = scen.build(sp, ctx.scratch)
        env = {'Water': scen.build_water(sp)}
        m.environment += [env['Water'], gs.Waves(m.environment[0], env['Water'])]
        act = scen.active_of(t['active'])
        rho = m.spills[0].substance.standard_density

        def kg(x):
            return (uc.convert('Volume', t['units'], 'm^3', x) * rho
                    if t['units'] == 'm^3' else uc.convert('Mass', t['units'], 'kg', x))
        f = 1.0 / kg(1.0)
        if t['t'] == 'skim':
            w = W.Skimmer(amount=t['kg'] * f, units=t['units'], efficiency=t['eff'],
                          water=env.get('Water'), active_range=act)
            knots = [(t['active'][0], t['active'][1], t['kg'] * t['eff'])]
            key = 'skimmed'
        else:
            w = W.Beaching(active_range=act, units=t['units'],
                           timeseries=[(scen.t_at(x), v * f) for x, v in t['series']],
                           water=env.get('Water'))
            knots, a = [], t['active'][0]
            for x, v in t['series']:
                knots.append((a, x, v))
                a = x
            key = 'observed_beached'
        m.weatherers += w
        self.prelude(m, case, ctx)
        m.rewind()
        ts = sp['ts']
        want, on = 0.0, True
        for k in range(sp['nsteps'] + 1):
            for op in case.get('ops', ()):
                if op['at'] == k:
                    w.on = on = op['on']
                    ctx.count('op:on' if on else 'op:off')
            try:
                m.step()
            except StopIteration:
                break
            ctx.simtime(ts)
            now = k * ts
            for a, b, v in knots:
                if on and k > 0:
                    want += v * max(0.0, min(b, now) - max(a, now - ts)) / float(b - a)
            sc = list(m.spills.items())[0]
            got = float(sc.mass_balance.get(key, 0.0))
            if want > 0:
                ctx.nontrivial = True
            if abs(got - want) > 1e-6 * max(want, 1.0):
                raise engine.Violation('amount', '%s %r kg at %d s, %r kg were to be by then: '
                                       'window %s s, switches %s, time step %d s, %d substeps' % (
                                           key, got, now, want, t['active'],
                                           [(o['at'], o['on']) for o in case.get('ops', ())],
                                           ts, sp.get('substeps', 1)))
            ctx.event(k, round(got, 6))
            ctx.state('amount', t['t'], k, want > 0)
