"""C15: the component collections of a model behave as ordered lists, whatever happens to them."""
import os

from .. import engine, scen
from .base import Prop

V = engine.Violation


class CallbackError(Exception):
    pass


class Elem(object):
    def __init__(self, name):
        self.id = 'e%d' % name
        self.name = name

    def __repr__(self):
        return 'E%s' % self.name


class Bare(object):
    """an element without an id of its own"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'B%s' % self.name


def ident_of(e):
    return e.id if hasattr(e, 'id') else str(id(e))


def check_views(c, ref, pool, slices, what):
    """every way of looking at the collection agrees with the reference list"""
    def bad(view, got):
        raise V('views', '%s: %s gives %s, expected %s' % (what, view, got, ref))

    def same(a, b):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if len(c) != len(ref):
        bad('len', len(c))
    if not same(list(c), ref):
        bad('iteration', list(c))
    if hasattr(c, 'values') and not same(c.values(), ref):
        bad('values()', c.values())
    n = len(ref)
    for i, e in enumerate(ref):
        for j in (i, i - n):
            if c[j] is not e:
                bad('[%d]' % j, c[j])
        if c[ident_of(e)] is not e:
            bad('access by id', c[ident_of(e)])
        if c.index(e) != i:
            bad('index(%r)' % e, c.index(e))
        if e not in c:
            bad('%r in' % e, False)
    for e in pool:
        if any(e is x for x in ref):
            continue
        if e in c:
            bad('%r in' % e, True)
        try:
            c.index(e)
            bad('index(%r)' % e, 'no error')
        except ValueError:
            pass
        try:
            c[ident_of(e)]
            bad('[id of %r]' % e, 'no error')
        except KeyError:
            pass
    for j in (n, -n - 1):
        try:
            c[j]
            bad('[%d]' % j, 'no error')
        except IndexError:
            pass
    for a, b, s in slices:
        if not same(c[a:b:s], ref[a:b:s]):
            bad('[%s:%s:%s]' % (a, b, s), c[a:b:s])


class PROP(Prop):
    id = 'C15'
    quick_n = 4000
    thorough_n = 40000
    fault_kinds = ('callback-failure', 'rejected-element')
    state_measure = ('(kind of collection, operation, number of elements, whether a hole was left by '
                     'a removal before) reached, hashed')
    rule = ('seeded histories of adding, removing, replacing and reordering, valid and rejected, with '
            'callbacks that fail, on collections of plain elements, of model components and on the '
            'spills of a model (with and without uncertainty, in the middle of runs); after every '
            'operation every view is compared with a reference list, and the callbacks received with '
            'the events due. Non-trivial: a collection of at least two elements was changed after a '
            'removal.')

    def gen(self, rng, index):
        target = scen.pick(rng, oc=4, bare=1, movers=2, environment=1, spills=4)
        npool = rng.randint(4, 9) if target in ('oc', 'bare') else rng.randint(3, 5)
        ops = []
        for i in range(rng.randint(4, 30) if target in ('oc', 'bare') else rng.randint(3, 12)):
            w = dict(add=5, addlist=1.5, addbad=0.7, remove=3, removebad=0.5, replace=3,
                     replacebad=0.5, remake=0.5, update=0.5, clear=0.15)
            if target == 'spills':
                w = dict(add=5, addlist=1, remove=3, removebad=0.5, replace=3, step=2, rewind=1,
                         toggle=1, full=0.3)
            if target in ('movers', 'environment'):
                w = dict(add=5, addlist=1, addbad=0.5, remove=3, replace=3, remake=0.3, step=2,
                         rewind=0.5)
            k = scen.pick(rng, **w)
            ops.append({'op': k, 'e': rng.randrange(npool), 'l': [rng.randrange(npool) for j in
                                                                  range(rng.randint(0, 3))],
                        'by': rng.choice(['idx', 'neg', 'id']), 'at': rng.randrange(20),
                        'fail': rng.random() < 0.12 and target in ('oc', 'bare'),
                        'sl': [rng.choice([None, rng.randint(-9, 9)]),
                               rng.choice([None, rng.randint(-9, 9)]),
                               rng.choice([None, 1, 2, -1, -2])]})
        return {'target': target, 'npool': npool, 'ops': ops,
                'init': [rng.randrange(npool) for j in range(rng.randint(0, 3))],
                'uncertain': rng.random() < 0.6}

    def run(self, case, ctx):
        t = case['target']
        model = None
        if t in ('oc', 'bare'):
            from gnome.utilities.orderedcollection import OrderedCollection
            cls = Elem if t == 'oc' else Bare
            pool = [cls(i) for i in range(case['npool'])]
            ref = []
            for i in case['init']:
                if not any(pool[i] is x for x in ref):
                    ref.append(pool[i])
            c = OrderedCollection(list(ref), dtype=cls)
            alien = object()
        else:
            import gnome.scripting as gs
            from gnome.movers import SimpleMover
            model = gs.Model(time_step=900, start_time=scen.EPOCH, duration=gs.hours(2),
                             uncertain=case['uncertain'] if t == 'spills' else False)
            if t == 'movers':
                pool = [SimpleMover(velocity=(0.1 * i, 0, 0)) for i in range(case['npool'])]
                c = model.movers
                model.spills += gs.point_line_spill(2, (0, 0, 0), scen.EPOCH)
            elif t == 'environment':
                pool = [gs.Water(280 + i) for i in range(case['npool'])]
                c = model.environment
            else:
                pool = [gs.point_line_spill(2 + i, (0.01 * i, 0, 0), scen.EPOCH)
                        for i in range(case['npool'])]
                c = model.spills
            ref = []
            alien = gs.constant_wind(1, 1, 'm/s') if t == 'movers' else 5
        got, fail = [], [0]
        if t != 'spills':
            for ev in ('add', 'remove', 'replace'):
                def cb(e, ev=ev):
                    got.append((ev, e))
                    if fail[0]:
                        fail[0] = 0
                        raise CallbackError(ev)
                c.register_callback(cb, ev)
            twice = []
            c.register_callback(lambda e: twice.append(e), ('add', 'replace', 'remove'))
        removed = 0
        for n, op in enumerate(case['ops']):
            k, e = op['op'], pool[op['e']]
            what = 'operation %d (%s)' % (n, k)
            fail[0] = int(op['fail'])
            del got[:]
            due = None
            old = list(ref)
            new = None
            pos = op['at'] % len(ref) if ref else None
            ctx.count('op:' + k)

            def sel(i):
                return {'idx': i, 'neg': i - len(ref), 'id': ident_of(ref[i])}[op['by']]

            def has(x, l):
                return any(x is y for y in l)
            try:
                if k == 'add':
                    new = old + ([] if has(e, old) else [e])
                    due = [('add', x) for x in new[len(old):]]
                    if op['at'] % 2:
                        c += e
                    else:
                        c.append(e)
                elif k == 'addlist':
                    l = [pool[i] for i in op['l']]
                    new = list(old)
                    for x in l:
                        if not has(x, new):
                            new.append(x)
                    due = [('add', x) for x in new[len(old):]]
                    c += l
                elif k == 'addbad':
                    ctx.count('fault:rejected-element')
                    try:
                        c.add(alien)
                    except TypeError:
                        pass
                    else:
                        raise V('accepted', '%s: an element of another type was accepted' % what)
                    new, due = old, []
                elif k == 'remove':
                    if pos is None:
                        continue
                    new = old[:pos] + old[pos + 1:]
                    due = [('remove', old[pos])]
                    if op['at'] % 3:
                        c.remove(sel(pos))
                    else:
                        del c[sel(pos)]
                    removed += 1
                elif k == 'removebad':
                    new, due = old, []
                    x = 'nobody' if op['by'] == 'id' else len(old) + op['at']
                    try:
                        c.remove(x)
                    except (KeyError, IndexError):
                        pass
                    else:
                        raise V('accepted', '%s: %r was removed' % (what, x))
                elif k == 'replace':
                    if pos is None:
                        continue
                    # replacing by an element that is in another place moves it
                    new = [e if i == pos else x for i, x in enumerate(old)
                           if i == pos or x is not e]
                    due = [('replace', e)]
                    if op['at'] % 2 or t == 'spills':
                        c[sel(pos)] = e
                    else:
                        c.replace(sel(pos), e)
                elif k == 'replacebad':
                    new, due = old, []
                    try:
                        c.replace('nobody' if op['by'] == 'id' else len(old) + op['at'], e)
                    except (KeyError, IndexError):
                        pass
                    else:
                        raise V('accepted', '%s was accepted' % what)
                elif k == 'remake':
                    new, due = old, []
                    c.remake()
                elif k == 'update':
                    l = [pool[i] for i in op['l']]
                    new = []
                    for x in l:
                        if not has(x, new):
                            new.append(x)
                    c.update(l)
                elif k == 'clear':
                    new = []
                    c.clear()
                elif k == 'toggle':
                    new = old
                    model.uncertain = not model.uncertain
                elif k in ('step', 'full'):
                    new = old
                    if k == 'full':
                        model.rewind()
                    for i in range(99 if k == 'full' else 1 + op['at'] % 3):
                        try:
                            model.step()
                        except StopIteration:
                            break
                        ctx.simtime(900)
                elif k == 'rewind':
                    new = old
                    model.rewind()
            except CallbackError:
                ctx.count('fault:callback-failure')
                # the change was made, or not: in either case all views agree
                now = list(c)
                if len(now) == len(old) and all(x is y for x, y in zip(now, old)):
                    new = old
                elif k == 'addlist':
                    new = new[:len(now)]
                elif k == 'update':
                    new = new[:len(now)]
                due = None
            fail[0] = 0
            if t != 'spills' and due is not None:
                if len(got) != len(due) or any(a[0] != b[0] or a[1] is not b[1]
                                               for a, b in zip(got, due)):
                    raise V('events', '%s: the callbacks were %s, due were %s' % (what, got, due))
            if due and removed and len(new) > 1:
                ctx.nontrivial = True
            ref = new
            if t == 'spills':
                self.check_spills(model, ref, pool, what, op['sl'])
            else:
                check_views(c, ref, pool, [op['sl']], what)
            if model is not None and k not in ('step', 'full'):
                if due and k in ('add', 'addlist', 'replace') and t == 'movers' \
                        and model.current_time_step != -1:
                    raise V('rewind', '%s: the model was not rewound' % what)
            ctx.state(t, k, len(ref), removed > 0, case['uncertain'])
            ctx.event(k, [getattr(x, 'name', '') for x in ref] if t in ('oc', 'bare')
                      else len(ref))

    def check_spills(self, model, ref, pool, what, sl):
        c = model.spills

        def names(l):
            return [pool.index(x) if x in pool else x for x in l]
        if len(c) != len(ref) or any(x is not y for x, y in zip(c, ref)):
            raise V('views', '%s: the spills are %s, expected %s' % (
                what, [x.name for x in c], [x.name for x in ref]))
        for i, e in enumerate(ref):
            if c[i] is not e or c[e.id] is not e or c.index(e) != i or c[i - len(ref)] is not e:
                raise V('views', '%s: spill %d is not what the collection returns' % (what, i))
        got = c[slice(*sl)]
        want = ref[slice(*sl)]
        if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
            raise V('views', '%s: the slice %s has %d spills, expected %d' % (
                what, sl, len(got), len(want)))
        if model.uncertain:
            u = list(model.spills.items()[1].spills)
            if [x.num_elements for x in u] != [x.num_elements for x in ref]:
                raise V('uncertain', '%s: the uncertain container has the spills of %s elements, the '
                        'forecast %s' % (what, [x.num_elements for x in u],
                                         [x.num_elements for x in ref]))
