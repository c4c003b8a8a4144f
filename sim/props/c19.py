"""C19: a model updated with JSON, at any moment, is the model the JSON describes."""
import copy
import json

from .. import edits, engine, faults, scen, world
from .base import Prop
from .c05 import try_step
from .c10 import as_saved, differ, run_trace, settings

COLLS = ('environment', 'movers', 'weatherers', 'spills', 'outputters')


def state(m):
    return json.loads(json.dumps(m.serialize()))


def walk(a, b, fn, path=''):
    """calls fn(path, x, y) for each pair of leaves that does not match"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k in a and k in b:
                walk(a[k], b[k], fn, path + '/' + k)
            else:
                fn(path + '/' + k, a.get(k, '(nothing)'), b.get(k, '(nothing)'))
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            walk(x, y, fn, '%s/%d' % (path, i))
    elif isinstance(a, float) and isinstance(b, (int, float)) and not isinstance(b, bool):
        if abs(a - b) > 1e-9 * max(abs(a), abs(b)):
            fn(path, a, b)
    elif a != b:
        fn(path, a, b)


def json_diff(want, got):
    """settings that differ (identifiers of new objects are the server's choice; `time` of a wind, not
    public, follows from its time series; what the JSON does not mention is left alone)"""
    out = []

    def note(path, a, b):
        if not path.endswith('/id') and a != '(nothing)' and '/time/' not in path:
            out.append('%s is %s, expected %s' % (path, str(b)[:60], str(a)[:60]))
    walk(want, got, note)
    return out


def ids_at(x, path=''):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'id' and isinstance(v, str):
                yield path, v
            else:
                yield from ids_at(v, path + '/' + k)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from ids_at(v, '%s/%d' % (path, i))


def sharing(want, got):
    """places that share an object in one of the two states only"""
    a, b = dict(ids_at(want)), dict(ids_at(got))
    there, back = {}, {}
    for p in sorted(set(a) & set(b)):
        if '/time' in p or '/distribution' in p:
            continue
        q = there.setdefault(a[p], p)
        if b[q] != b[p]:
            return '%s and %s are one object in the JSON, not in the model' % (q, p)
        q = back.setdefault(b[p], p)
        if a[q] != a[p]:
            return '%s and %s are one object in the model, not in the JSON' % (q, p)


def id_map(js, live, known):
    def note(path, a, b):
        if path.endswith('/id'):
            known[a] = b
    walk(js, live, note)


def translate(x, known):
    if isinstance(x, dict):
        return {k: known.get(v, v) if k == 'id' and isinstance(v, str) else translate(v, known)
                for k, v in x.items()}
    if isinstance(x, list):
        return [translate(v, known) for v in x]
    return x


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            if k not in ('id', 'obj_type', 'substance'):
                yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def by_id(m):
    return {x.id: x for c in COLLS for x in getattr(m, c)}


class PROP(Prop):
    id = 'C19'
    quick_n = 400
    thorough_n = 12000
    fault_kinds = ('KeyboardInterrupt', 'MemoryError', 'bad-value', 'component-move')
    state_measure = '(operation, form of the update, whether mid-run, whether after a fault)'
    rule = ('seeded model, seeded chain of lasting changes made directly in one process; the JSON of '
            'the states is given, in a seeded order, in one of three forms (all of it, what differs, '
            'component by component), to a model of another process that steps, '
            'runs, fails and is interrupted in between, also inside an update. Compared: JSON, '
            'component objects, complete run. Non-trivial: the compared run had elements and an update '
            'changed something.')

    def gen(self, rng, index):
        spec = scen.gen_spec(rng)
        chain = [[edits.gen(rng, spec) for i in range(rng.randint(1, 3))]
                 for j in range(rng.randint(1, 3))]
        ops = []
        for i in range(rng.randint(0, 4)):
            k = scen.pick(rng, step=3, run=1, fail=1, own=2, to=4, bad=1, interrupt=2)
            ops.append({'op': k, 'n': rng.randint(1, 4), 'to': rng.randint(0, len(chain)),
                        'form': scen.pick(rng, full=2, diff=2, parts=2),
                        'at': round(rng.random(), 6), 'exc': rng.choice(['KeyboardInterrupt',
                                                                         'MemoryError']),
                        'value': rng.choice(['x', {'bad': 1}])})
        return {'spec': spec, 'chain': chain, 'ops': ops,
                'form': scen.pick(rng, full=2, diff=2, parts=2)}

    def make(self, case, ctx):
        world._ids.update(n=0, proc=0)      # the same identifiers in both processes
        m = scen.build(case['spec'], ctx.scratch, substance_hook=as_saved)
        return m, state(m)

    def update(self, m, js, form):
        """gives the model the JSON state js"""
        js = copy.deepcopy(js)
        if form == 'full':
            return m.update_from_dict(js)
        if form == 'parts':
            mine = by_id(m)
            for c in COLLS:
                for x in js[c]:
                    o = mine.get(x['id'])
                    if o is not None and json_diff(x, json.loads(json.dumps(o.serialize()))):
                        o.update_from_dict(copy.deepcopy(x))
        now = state(m)
        part = {k: v for k, v in js.items() if k in ('obj_type', 'id') or k not in now
                or json_diff(v, now[k]) or
                (k in COLLS and [x['id'] for x in v] != [x['id'] for x in now[k]])}
        return m.update_from_dict(part)

    def run(self, case, ctx):
        spec = case['spec']

        def direct():
            m, first = self.make(case, ctx)
            world._ids['proc'] += 101
            ed = edits.Editor(m, spec, ctx.scratch)
            states = [first]
            for batch in case['chain']:
                for e in batch:
                    ed.apply(e)
                m.rewind()
                states.append(state(m))
            return states, settings(m), run_trace(m)

        def rebuilt(js):
            from gnome.model import Model
            m = Model.deserialize(copy.deepcopy(js))
            return state(m), settings(m), run_trace(m)

        # (rounding: amounts converted to mass and back, winds given as u and v)
        near = any(x['sub'] != 'none' for x in spec['spills']) or spec['wuv'] or \
            any(e.get('wuv') for b in case['chain'] for e in b)
        states, want_set, want = engine.fork_call(direct)
        got_js, got_set, got = engine.fork_call(rebuilt, states[-1])
        self.compare('a model built from the JSON', states[-1], got_js, want_set, got_set, want, got,
                     near)
        known = {}
        m, first = self.make(case, ctx)
        if first != states[0]:
            raise engine.HarnessError('the models differ: %s' % json_diff(states[0], first)[:2])
        world._ids['proc'] += 202
        changed = dirty = False
        for n, op in enumerate(case['ops'] + [{'op': 'to', 'to': len(states) - 1,
                                               'form': case['form']}]):
            k = op['op']
            ctx.state(k, op.get('form'), m.current_time_step > 0, dirty)
            if dirty and k in ('step', 'run', 'fail', 'own'):
                continue
            if k == 'step':
                for i in range(op['n']):
                    try_step(m)
            elif k == 'run':
                m.full_run()
            elif k == 'fail':
                ctx.count('fault:component-move')
                u = scen.user_classes()['mover'](plan={'where': 'move', 'step': 0})
                m.movers += u
                try:
                    try_step(m)
                except scen.UserError:
                    pass
                m.movers.remove(u.id)
            elif k == 'own':
                before, objs = state(m), by_id(m)
                if self.update(m, before, 'full'):
                    raise engine.Violation('own', 'operation %d: updating a model with its own JSON '
                                           'is said to change it' % n)
                d = json_diff(before, state(m))
                if d:
                    raise engine.Violation('own', 'operation %d: updating a model with its own JSON '
                                           'changes it: %s' % (n, '; '.join(d[:3])))
                self.same_objects(n, m, before, objs)
            else:
                js = translate(states[op['to'] % len(states)], known)
                objs = by_id(m)
                if k == 'bad':
                    js = copy.deepcopy(js)
                    ls = list(leaves(js))
                    p = ls[int(op['at'] * len(ls)) % len(ls)]
                    x = js
                    for q in p[:-1]:
                        x = x[q]
                    x[p[-1]] = op['value']
                    try:
                        self.update(m, js, op['form'])
                        ctx.event('taken')
                        return              # (a value the schema takes is an ordinary update)
                    except Exception:
                        ctx.count('fault:bad-value')
                        dirty = True
                elif k == 'interrupt':
                    with faults.CallPoints(int(10 ** (op['at'] * 4)), op['exc']) as cp:
                        try:
                            self.update(m, js, op['form'])
                        except (KeyboardInterrupt, MemoryError):
                            pass
                    if cp.fired:
                        dirty = True            # half an update: nothing but another one is claimed
                        ctx.count('fault:' + op['exc'])
                else:
                    self.update(m, js, op['form'])
                    live = state(m)
                    d = json_diff(js, live)
                    if d:
                        raise engine.Violation('json', 'operation %d (%s): %s' % (
                            n, op['form'], '; '.join(d[:3])))
                    if not dirty:
                        self.same_objects(n, m, js, objs)
                    else:
                        m.rewind()
                    dirty = False
                    id_map(states[op['to'] % len(states)], live, known)
                    changed = changed or op['to'] > 0
        got_js, got_set = state(m), settings(m)
        got = run_trace(m)
        ctx.simtime(spec['ts'] * (len(got) + len(want)))
        self.compare('the updated model', states[-1], got_js, want_set, got_set, want, got, near)
        ctx.event(len(got), [x['mb'] for x in got[-1]['sc']])
        ctx.nontrivial = changed and len(got[-1]['sc'][0]['arrays']['positions']) > 0

    def same_objects(self, n, m, js, before):
        for c in COLLS:
            for x, o in zip(js[c], getattr(m, c)):
                if x['id'] in before and before[x['id']] is not o:
                    raise engine.Violation('identity', 'operation %d: %s %s of the model was replaced by '
                                           'another object' % (n, c, x['name']))

    def compare(self, what, js, got_js, want_set, got_set, want, got, near):
        d = json_diff(js, got_js)
        if d:
            raise engine.Violation('json', '%s: %s' % (what, '; '.join(d[:3])))
        d = sharing(js, got_js)
        if d:
            raise engine.Violation('sharing', '%s: %s' % (what, d))
        if got_set != want_set:
            ks = [k for k in want_set if want_set[k] != got_set.get(k)]
            raise engine.Violation('settings', '%s has %s, expected %s' % (
                what, {k: got_set.get(k) for k in ks}, {k: want_set[k] for k in ks}))
        d = differ(got, want, oil=near)
        if d:
            raise engine.Violation('run', '%s runs differently: %s' % (what, d))
