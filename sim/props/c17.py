"""C17: the model broadcaster gets each answer from the model it asked, and cleans up."""
import gc
import os

import numpy as np

from .. import engine, scen, net as simnet
from .base import Prop

V = engine.Violation
keep = []


def clean(out):
    """a step's output without what depends on the wall clock"""
    if isinstance(out, dict):
        return {k: clean(v) for k, v in out.items() if k != 'response_time'}
    if isinstance(out, (list, tuple)):
        return [clean(v) for v in out]
    return scen._plain(out)


def winds_of(m):
    from gnome.environment import Wind
    return [e for e in m.environment if isinstance(e, Wind)]


def weathering_output():
    from gnome.outputters import WeatheringOutput
    return WeatheringOutput()


class PROP(Prop):
    id = 'C17'
    quick_n = 400
    thorough_n = 5000
    fault_kinds = ('kill', 'kill_after', 'slow', 'fork', 'timeout')
    state_measure = ('(operation, number of consumers, outcome, faults fired so far) reached, hashed')
    stub = ('zmq sockets, event loop, process start/termination and clock (simulated, virtual time); '
            'tblib; gridded')
    real = ('gnome.multi_model_broadcast (broadcaster in the parent, consumers in forks with their own '
            'copy of the model) and all of gnome')
    rule = ('seeded models handed to a ModelBroadcaster on a simulated host: seeded message delays, slow '
            'starts, slow, crashing and unstartable consumers, commands to one, by uncertainty or to '
            'all (in parallel or one by one, with and without a time limit), failing commands; each '
            'answer is compared with what the addressed variation of the model answers when it is set '
            'up directly in a process of its own; at the end no consumer and no socket file is left '
            'and the parent model is untouched. Non-trivial: at least three answers compared.')

    def gen(self, rng, index):
        spec = scen.gen_spec(rng, weathering=rng.random() < 0.7, nsteps=rng.randint(2, 5),
                             max_spills=2)
        spec['windunc'] = rng.choice([0.0, 0.3, 0.45])
        vals = ['down', 'normal', 'up']
        w = rng.sample(vals, rng.choice([1, 1, 2, 3]))
        a = rng.sample(vals, rng.choice([1, 2, 2, 3]) if len(w) < 3 else 1)
        n = len(w) * len(a)
        ops = []
        for i in range(rng.randint(2, 9)):
            k = scen.pick(rng, step=6, rewind=1.5, full_run=1, get_spill_amounts=1.5,
                          get_wind_timeseries=1, num_time_steps=1, get_cache_dir=0.5,
                          get_outputters=0.5, get_spill_container_uncertainty=0.5, sleep=1.2,
                          nonsense=0.25, badargs=0.2)
            op = {'cmd': k, 'to': scen.pick(rng, idx=2, unc=2, all=4, seq=1),
                  'i': rng.randrange(n), 'secs': rng.choice([1, 3, 8, 12])}
            if op['to'] in ('all', 'seq') and rng.random() < 0.4:
                op['timeout'] = rng.choice([2, 5, 20])
            ops.append(op)
        faults = []
        if rng.random() < 0.4:
            kind = scen.pick(rng, kill=2, kill_after=1.5, slow=2, fork=0.7)
            f = {'kind': kind, 'c': rng.randrange(n), 'at': rng.randint(0, 12)}
            if kind == 'slow':
                f['secs'] = rng.choice([0.5, 3, 15])
            if kind == 'fork':
                f['at'] = f.pop('c')
            faults.append(f)
        return {'spec': spec, 'w': w, 'a': a, 'ops': ops, 'pre': rng.randint(0, 3),
                'scale': rng.choice([0.0, 0.5, 1.0]), 'extra': rng.random() < 0.4,
                'end': rng.choice(['stop', 'stop', 'del']),
                'plan': {'lat': [round(rng.choice([0.0005, 0.01, 0.05]) * (1 + rng.random()), 5)
                                 for i in range(rng.randint(1, 9))],
                         'start': [round(rng.choice([0, 0.1, 1.5]), 3) for i in range(3)],
                         'work': [round(rng.choice([0.001, 0.02]) * (1 + rng.random()), 5)
                                  for i in range(rng.randint(1, 5))],
                         'faults': faults}}

    # ---- what each variation of the model answers

    def reference(self, m, w, a):
        # a cache of its own (the inherited one belongs to the parent, and is kept alive)
        from gnome.utilities.cache import ElementCache
        keep.append(m._cache)
        m._cache = ElementCache(enabled=False)
        for o in m.outputters:
            o.cache = m._cache
        m.spills.uncertain = False
        for x in winds_of(m):
            x.set_speed_uncertainty(w)
        for s in m.spills:
            s.set_amount_uncertainty(a)
        for o in [o for o in m.outputters if type(o).__name__ != 'WeatheringOutput']:
            del m.outputters[o.id]
        res = {'amounts': [s.amount for s in m.spills], 'nsteps': m.num_time_steps,
               'winds': [[float(v) for v in t['value']] for x in winds_of(m)
                         for t in x.get_wind_data()],
               'nout': len(m.outputters)}

        def rest():
            out = []
            while True:
                try:
                    out.append(clean(m.step()))
                except StopIteration:
                    return out
        res['A'] = rest()
        m.rewind()
        res['B'] = rest()
        return res

    def run(self, case, ctx):
        import gnome.scripting  # noqa
        spec, plan = case['spec'], case['plan']
        ipc = ctx.path('ipc')
        os.makedirs(ipc)
        m = scen.build(spec, ctx.scratch)
        m.outputters += weathering_output()
        if case['extra']:
            from gnome.outputters import TrajectoryGeoJsonOutput
            m.outputters += TrajectoryGeoJsonOutput()
        for s in m.spills:
            s.amount_uncertainty_scale = case['scale']
        for i in range(case['pre']):
            try:
                m.step()
            except StopIteration:
                break
        combos = [(w, a) for w in case['w'] for a in case['a']]
        ref = [engine.fork_call(self.reference, m, w, a) for w, a in combos]

        def parent_rest():
            cached = []
            if m._cache.enabled:
                for k in range(max(0, m.current_time_step - 1)):
                    p = m._cache.load_timestep(k).items()[0]
                    cached.append({x: np.array(p[x]).tolist() for x in ('positions', 'id', 'mass')})
            out = []
            while True:
                try:
                    m.step()
                except StopIteration:
                    return cached, out
                out.append(scen.snapshot(m))
        alone = engine.fork_call(parent_rest)
        host = simnet.Net(plan)
        mod = host.load()
        t0 = host.now
        bc = None
        quiet = {'n': 0}
        try:
            bc = mod.ModelBroadcaster(m, tuple(case['w']), tuple(case['a']), ipc_folder=ipc)
        except Exception as e:
            # only if something was wrong with a consumer
            if not host.fired:
                raise V('start', 'the broadcaster does not start: %s: %s (%s)' % (
                    type(e).__name__, e, host.log[-3:]))
            del e
        if bc is not None:
            if len(bc.tasks) != len(combos):
                raise V('start', '%d tasks for %d variations' % (len(bc.tasks), len(combos)))
            self.talk(case, ctx, host, mod, bc, ref, combos, quiet)
            if case['end'] == 'stop':
                bc.stop()
                bc.stop()
                if bc.cmd('step', {}) is not None:
                    raise V('stopped', 'a stopped broadcaster answers')
            bc = None
        gc.collect()
        # bounded: whatever happens, a call ends within the limits of its sockets
        calls = 8 * len(combos) + sum(len(combos) for o in case['ops'])
        if host.now - t0 > 25 * calls:
            raise V('slow', '%.0f s of simulated time for %d requests' % (host.now - t0, calls))
        left = [p.k for p in host.procs if p.alive]
        if left:
            raise V('left-over', 'the consumers %s are still running' % left)
        fs = os.listdir(ipc)
        if fs and case['end'] == 'stop' and not any(k.startswith('fork') for k in host.fired):
            raise V('left-over', 'socket files are left: %s' % len(fs))
        for f in host.fired:
            ctx.count('fault:' + f)
        # the parent's own run goes on as if nothing had happened
        try:
            mine = parent_rest()
        except OSError as e:
            raise V('parent', 'the model of the parent lost its cache: %s' % e)
        if mine[0] != alone[0]:
            raise V('parent', 'the cached steps of the parent model changed')
        if len(mine[1]) != len(alone[1]):
            raise V('parent', 'the parent model has %d more steps, not %d' % (len(mine[1]),
                                                                              len(alone[1])))
        for x, y in zip(mine[1], alone[1]):
            d = scen.snaps_differ(x, y)
            if d:
                raise V('parent', 'the parent model was affected: %s' % d)
        ctx.simtime(host.now - t0)
        ctx.nontrivial = quiet['n'] >= 3
        ctx.event(host.log, round(host.now, 6))

    def talk(self, case, ctx, host, mod, bc, ref, combos, quiet):
        n = len(combos)
        state = [['A', 0] for c in combos]
        LIMIT = 10.0

        def expected(i, op):
            """answer of consumer i: ('value', x) or ('raise', type name)"""
            s, r, k = state[i], ref[i], op['cmd']
            if k == 'step':
                if s[1] >= len(r[s[0]]):
                    return 'raise', 'StopIteration'
                s[1] += 1
                return 'value', r[s[0]][s[1] - 1]
            if k == 'rewind':
                s[:] = ['B', 0]
                return 'value', None
            if k == 'full_run':
                s[:] = ['B', len(r['B'])]
                return 'value', r['B']
            if k == 'sleep':
                return 'value', None
            if k == 'nonsense':
                return 'raise', 'AttributeError'
            if k == 'badargs':
                return 'raise', 'TypeError'
            return 'value', {'get_spill_amounts': r['amounts'], 'get_wind_timeseries': r['winds'],
                             'num_time_steps': r['nsteps'], 'get_cache_dir': Ellipsis,
                             'get_outputters': r['nout'],
                             'get_spill_container_uncertainty': False}[k]

        def same(op, got, want):
            k = op['cmd']
            if want is Ellipsis:
                return isinstance(got, str) and os.path.isdir(got)
            if k == 'get_outputters':
                return (len(got) == want and
                        all(type(o).__name__ == 'WeatheringOutput' for o in got))
            return scen.same_value(clean(got), want)

        for op in case['ops']:
            k = op['cmd']
            args = {'secs': op['secs']} if k == 'sleep' else {'zz': 1} if k == 'badargs' else {}
            name = 'rewind' if k == 'badargs' else k
            kw = {}
            if op['to'] == 'idx':
                who, kw = [op['i']], {'idx': op['i']}
            elif op['to'] == 'unc':
                who, kw = [op['i']], {'uncertainty_values': combos[op['i']]}
            else:
                who = list(range(n))
                kw = {'in_parallel': op['to'] == 'all'}
                if op.get('timeout'):
                    kw['timeout'] = op['timeout']
            limit = op.get('timeout') or LIMIT
            want = [expected(i, op) for i in who]
            nf = len(host.fired)
            running = [p.alive for p in host.procs]
            t1 = host.now
            res, err = None, None
            try:
                res = bc.cmd(name, args, **kw)
            except Exception as e:
                err = type(e).__name__
                e = None
            ctx.count('op:%s-%s' % (k, op['to']))
            single = op['to'] in ('idx', 'unc')
            # (a consumer that was killed or slowed down, now or before)
            faulty = (len(host.fired) > nf or not all(running[i] for i in who) or
                      bool(host.fired))
            late = k == 'sleep' and op['secs'] > limit
            what = 'cmd(%s) to %s of %d' % (k, op['to'], n)
            if host.now - t1 > limit * len(who) + 1 + (op['secs'] * len(who)
                                                        if k == 'sleep' and not late else 0):
                raise V('slow', '%s took %.1f s with a limit of %s s' % (what, host.now - t1, limit))
            raises = [x[1] for x in want if x[0] == 'raise']
            stopped = len(bc.tasks) == 0
            ctx.state(k, op['to'], n, err, res is None, bool(host.fired))
            if late or faulty and (err or (res is None and not single and stopped)):
                # no answer in time: nothing, or an error, but never something else
                if late:
                    ctx.count('fault:timeout')
                    if err is None and (res is not None or (not single and not stopped)):
                        raise V('timeout', '%s answered %r after its time limit of %s s' % (
                            what, res, limit))
                if op['to'] == 'all' and err is None and not stopped:
                    raise V('timeout', '%s timed out and the broadcaster goes on' % what)
                if op['to'] == 'all' and late and err is not None:
                    raise V('timeout', '%s raised %s at its time limit' % (what, err))
                return
            if raises:
                if err != raises[0]:
                    raise V('error', '%s: the model raises %s, the command gave %s' % (
                        what, raises[0], err or repr(res)[:100]))
                if not stopped:
                    raise V('error', '%s failed and the broadcaster is not stopped' % what)
                if bc.cmd('step', {}) is not None:
                    raise V('stopped', 'a stopped broadcaster answers')
                return
            if err is not None:
                raise V('error', '%s raised %s' % (what, err))
            if stopped:
                raise V('stopped', '%s stopped the broadcaster' % what)
            got = [res] if single else res
            if not isinstance(got, list) or len(got) != len(who):
                raise V('answers', '%s gave %s answers' % (what, got if got is None else len(got)))
            for i, g, (x, w) in zip(who, got, want):
                if not same(op, g, w):
                    raise V('answer', '%s: the model %s answered %s, expected %s' % (
                        what, combos[i], str(clean(g) if k != 'get_outputters' else g)[:300],
                        str(w)[:300]))
                quiet['n'] += 1
                ctx.count('probe:answers')
            if k == 'get_cache_dir' and len(set(got)) != len(got):
                raise V('answer', 'two consumers share a cache directory')
