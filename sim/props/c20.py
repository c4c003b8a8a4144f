"""C20: the images of a run show the elements the model had, at the steps that were due."""
import math
import os
from datetime import timedelta

import numpy as np

from .. import engine, scen, faults, images
from .base import Prop
from .c05 import try_step
from .c07 import expected, gen_outputter
from .c08 import snap
from .c09 import tree, restore

V = engine.Violation
BLACK, RED, GREEN, WHITE, LAND = ((0, 0, 0), (255, 0, 0), (0, 255, 0), (255, 255, 255),
                                  (255, 204, 153))
KNOWN = (BLACK, RED, GREEN, WHITE, LAND)
STRIP = 22                     # rows at the bottom with the time


def build(o, m, work, spec, back):
    import gnome.outputters as G
    kw = dict(on=o['on'], output_zero_step=o['zero'], output_last_step=o['last'],
              output_single_step=o['single'],
              output_timestep=None if o['every'] is None else timedelta(seconds=o['every']),
              output_start_time=None if o['start'] is None
              else scen.t_at(-o['start'] if back else o['start']))
    d = './img' if o['rel'] else os.path.join(work, 'img')
    kw['timestamp_attrib'] = {'on': o['stamp'], 'format': '%Y-%m-%d %H:%M:%S', 'size': 'tiny'}
    if o['ramp']:
        kw.update(depth_colors='viridis', max_color_depth=50)
    return G.Renderer(m.map.filename if spec['map']['t'] == 'bna' else None, output_dir=d,
                      image_size=tuple(o['size']), viewport=bounds(o['view']),
                      draw_back_to_fore=o['both'], formats=o['formats'], draw_ontop=o['top'],
                      point_size=o['dot'], **kw)


def bounds(v):
    return ((scen.LON0 + v[0] - v[2], scen.LAT0 + v[1] - v[3]),
            (scen.LON0 + v[0] + v[2], scen.LAT0 + v[1] + v[3]))


def to_pixels(view, size, pos):
    """pixels of positions in the flat projection that shows all of the viewport"""
    (w, s), (e, n) = view
    c = math.cos(math.radians((s + n) / 2))
    k = min(size[0] / ((e - w) * c), size[1] / (n - s))
    pos = np.asarray(pos, float).reshape(-1, np.shape(pos)[-1] if len(pos) else 3)
    return np.stack([(pos[:, 0] - (w + e) / 2) * k * c + size[0] / 2,
                     (pos[:, 1] - (s + n) / 2) * -k + size[1] / 2], axis=1)


def stamp_image(size, t):
    """what the time looks like: drawn by the graphics library on a colour of its own"""
    import py_gd
    im = py_gd.Image(width=size[0], height=size[1], preset_colors='web')
    im.clear('fuchsia')
    im.draw_text(t.strftime('%Y-%m-%d %H:%M:%S'), (size[0] / 2, size[1]), 'tiny', 'black', 'cb',
                 'white')
    a = np.asarray(im)                       # indexed x, y
    col = dict((n, i) for i, n in enumerate(im.get_color_names()))
    res = np.full(a.shape, -1)
    res[a == col['white']] = 1
    res[a == col['black']] = 0
    return res.T


def check_image(o, view, path, state, land, what):
    try:
        img = images.read_png(path)
    except images.BadImage as e:
        raise V('file', '%s cannot be read: %s' % (what, e))
    except FileNotFoundError:
        raise V('file', '%s is missing' % what)
    w, h = o['size']
    if img.shape[:2] != (h, w):
        raise V('file', '%s is %s pixels, expected %s' % (what, img.shape[1::-1], (w, h)))
    # classes of elements in the order they are drawn
    order = []
    scs = list(zip(state, (BLACK, RED)))
    if len(scs) == 2 and o['top'] == 'forecast':
        scs.reverse()
    for s, col in scs:
        a = s['arrays']
        px = to_pixels(view, o['size'], a['positions'])
        st = a['status_codes']
        land_, flat = st == 3, st == 32
        order += [(col, px[land_]), (GREEN, px[flat]),
                  (None if o['ramp'] else col, px[~land_ & ~flat])]
    last = h - (STRIP if o['stamp'] else 0)
    r = o['dot'] / 2.0 + 2.0

    def is_col(c, col):
        return tuple(c) == col if col is not None else tuple(c) not in (WHITE, LAND)

    n = 0
    for i, (col, px) in enumerate(order):
        later = [p for _, p in order[i + 1:] if len(p)]
        later = np.concatenate(later) if later else np.zeros((0, 2))
        for x, y in px:
            if not (3 <= x < w - 3 and 3 <= y < last - 3):
                continue
            n += 1
            area = img[int(y) - 1:int(y) + 2, int(x) - 1:int(x) + 2].reshape(-1, 3).tolist()
            if any(is_col(c, col) for c in area):
                continue
            if len(later) and (np.abs(later - (x, y)).max(axis=1) <= r + 1).any():
                continue
            raise V('element', '%s does not show an element (%s) at pixel %.1f, %.1f: %s'
                    % (what, col, x, y, area[4]))
    # and nothing else
    ys, xs = np.nonzero((img[:last] != 255).any(axis=2) & (img[:last] != LAND).any(axis=2))
    for x, y in zip(xs, ys):
        c = tuple(int(v) for v in img[y, x])
        for col, px in order:
            if len(px) and (col == c or (col is None and c not in (RED, GREEN))) and \
                    (np.abs(px - (x + .5, y + .5)).max(axis=1) <= r).any():
                break
        else:
            raise V('other', '%s shows %s at pixel %d, %d, where there is no such element'
                    % (what, c, x, y))
    if o['stamp']:
        exp = stamp_image(o['size'], state[0]['time'])
        text = np.where((img == 0).all(axis=2), 0, np.where((img == 255).all(axis=2), 1, 2))
        bad = (exp >= 0) & (exp != text)
        if bad.any():
            raise V('stamp', '%s does not show the time %s' % (what, state[0]['time']))
    ground(o, view, img, land if o['both'] else [], last, what, dots=True)
    return n


def ground(o, view, img, land, last, what, dots=False):
    """land where there is land"""
    import shapely
    from shapely.geometry import box
    w, h = o['size']
    seen = (img == LAND).all(axis=2)
    if not land:
        if seen[:last].any():
            raise V('land', '%s shows land, there is none' % what)
        return
    polys = []
    for r in land:
        p = to_pixels(view, o['size'], [(r[0], r[1], 0), (r[2], r[3], 0)])
        polys.append(box(p[0][0], p[1][1], p[1][0], p[0][1]))
    u = shapely.unary_union(polys)
    ys, xs = np.mgrid[0:last, 0:w]
    d = shapely.distance(u.boundary, shapely.points(xs + .5, ys + .5))
    ins = shapely.contains(u, shapely.points(xs + .5, ys + .5))
    far = d > 2
    free = (img[:last] == 255).all(axis=2)
    wrong = far & (seen[:last] & ~ins | free & ins)
    if wrong.any():
        y, x = np.argwhere(wrong)[0]
        raise V('land', '%s: pixel %d, %d is %s, the map has %s there' % (
            what, x, y, 'land' if seen[y, x] else 'water', 'land' if ins[y, x] else 'water'))


class PROP(Prop):
    id = 'C20'
    quick_n = 2000
    thorough_n = 7000
    fault_kinds = ('component-*', 'KeyboardInterrupt')
    rule = ('seeded models with a Renderer (viewport, image size, formats, output schedule, order of '
            'drawing, time stamp, depth colours) through seeded histories of steps, full, failing and '
            'interrupted runs and changes of the viewport and the settings, ending in a complete, '
            'failing or continued run; the images are decoded and every element, the land, the time '
            'and the set of files compared with the state recorded at every step. Non-trivial: '
            'elements seen in at least two images.')

    def gen(self, rng, index):
        back = rng.random() < 0.1
        spec = scen.gen_spec(rng, backwards=back, uncertain=rng.random() < 0.5, max_spills=2,
                             nsteps=rng.randint(2, 6))
        if back:
            spec['movers'] = [x for x in spec['movers'] if x['t'] not in ('rise', 'random3d')]
        o = gen_outputter(rng, spec['ts'], spec['nsteps'], ('Renderer',))
        o['on'] = rng.random() < 0.95
        o.update(self.gen_set(rng), size=[rng.randint(60, 160), rng.randint(60, 120)],
                 rel=rng.random() < 0.3, ramp=rng.random() < 0.15, stamp=rng.random() < 0.4)
        if o['stamp']:
            o['size'][0] = max(o['size'][0], 130)
        ops = []
        for i in range(rng.randint(0, 3)):
            k = scen.pick(rng, step=2, full=2, fail=2, interrupt=2, unc=1, set=2)
            ops.append({'op': k, 'n': rng.randint(1, spec['nsteps']),
                        'where': rng.choice(['prepare_step', 'move', 'done']),
                        'frac': round(rng.random(), 4), 'set': self.gen_set(rng),
                        'how': rng.choice(['BB', 'centre', 'zoom', 'shift'])})
        end = scen.pick(rng, run=4, fail=3, ext=1.5)
        if end == 'ext' and (back or 'gif' in o['formats'] or
                             any('gif' in x['set']['formats'] for x in ops)):
            end = 'run'          # (an animation is closed at the end of the run)
        last = {'how': end, 'n': rng.randint(0, spec['nsteps'] * (2 if spec['uncertain'] else 1)),
                'where': rng.choice(['prepare_step', 'move', 'done']), 'ext': rng.randint(1, 3)}
        mid = None
        if rng.random() < 0.4:                 # look elsewhere in the middle of the run
            mid = {'at': rng.randint(1, spec['nsteps']), 'set': self.gen_set(rng),
                   'frac': round(rng.random(), 4),
                   'how': rng.choice(['BB', 'centre', 'zoom', 'shift'])}
        return {'spec': spec, 'out': o, 'ops': ops, 'last': last, 'mid': mid}

    def gen_set(self, rng):
        h = round(rng.uniform(0.01, 0.15), 4)
        return {'view': [round(rng.uniform(-.03, .03), 4), round(rng.uniform(-.03, .03), 4),
                         round(h * rng.choice([1, 1, .5, 2]), 5), h],
                'both': rng.random() < 0.7, 'top': rng.choice(['forecast', 'uncertain']),
                'formats': rng.choice([['png'], ['png', 'gif'], ['gif', 'png'], 'png', ['bmp', 'png'],
                                       ['png', 'bmp'], ['png', 'gif', 'bmp']]),
                'dot': rng.choice([2, 2, 3, 4])}

    def run(self, case, ctx):
        spec, back = case['spec'], case['spec']['backwards']
        o, last, ts = dict(case['out']), case['last'], case['spec']['ts']
        work = ctx.path('work')
        d = os.path.join(work, 'img')
        os.makedirs(d)
        os.chdir(work)
        other = {'notes.txt': b'a', 'foreground_1.txt': b'b', 'my_background_map.png': b'c'}
        for f, t in other.items():
            with open(os.path.join(d, f), 'wb') as fd:
                fd.write(t)
        os.makedirs(ctx.path('w1'), exist_ok=True)
        m = scen.build(spec, ctx.path('w1'))
        um = scen.user_classes()['mover']()
        m.movers += um
        g = build(o, m, work, spec, back)
        g.graticule.set_max_lines(0)             # no grid lines and labels over the elements
        view = bounds(o['view'])
        m.outputters += g
        for op in case['ops']:
            k = op['op']
            ctx.count('op:' + k)
            m.rewind()
            if k == 'step':
                for i in range(op['n']):
                    try_step(m)
            elif k == 'full':
                m.full_run()
            elif k == 'fail':
                um.plan = {'where': op['where'], 'step': op['n']}
                um.n = 0
                try:
                    m.full_run()
                except scen.UserError:
                    ctx.count('fault:component-' + op['where'])
                um.plan = None
            elif k == 'interrupt':
                for i in range(op['n']):
                    try_step(m)
                before = tree(work)
                nc = engine.fork_call(faults.count_calls, lambda: try_step(m))
                restore(work, before)
                with faults.CallPoints(1 + int(op['frac'] * nc), 'KeyboardInterrupt') as cp:
                    try:
                        try_step(m)
                    except (faults.SimInterrupt, faults.SimNoMemory):
                        pass
                if cp.fired:
                    ctx.count('fault:KeyboardInterrupt')
            elif k == 'unc':
                m.uncertain = not m.uncertain
                try_step(m)
            elif k == 'set':
                view = self.change(g, o, op, view)
        m.rewind()
        if last['how'] == 'fail':
            um.plan = {'where': last['where'], 'step': last['n']}
            um.n = 0
        seq, infos, mid = [], [], case['mid']
        views = {0: (dict(o), view)}

        def go():
            try:
                while True:
                    if mid and len(seq) == mid['at']:
                        o1, v1 = views[0]
                        o1 = dict(o1)
                        # the formats stay for the rest of the run
                        op = dict(mid, set=dict(mid['set'], formats=o1['formats']))
                        views[len(seq)] = o1, self.change(g, o1, op, v1)
                        ctx.count('probe:mid-run-view')
                    info = m.step()
                    seq.append(snap(m))
                    infos.append(info)
                    ctx.simtime(ts)
            except StopIteration:
                pass
        nstep = m.num_time_steps
        failed = False
        try:
            go()
        except scen.UserError:
            failed = True
            ctx.count('fault:component-' + last['where'])
        if last['how'] == 'ext':
            m.duration = m.duration + timedelta(seconds=last['ext'] * ts)
            go()
            if len(seq) != nstep + last['ext']:
                raise V('steps', 'extended run has %d steps' % len(seq))
            ctx.count('probe:extended')
        if failed and not seq or not o['on']:
            return
        steps = [k for k in expected(o, ts, nstep) if k < len(seq)]
        if len(seq) > nstep:
            b = expected(dict(o, last=False), ts, len(seq))
            steps = sorted(set(steps) | {k for k in b if k >= nstep} |
                           ({len(seq) - 1} if o['last'] else set()))
        fm = [o['formats']] if isinstance(o['formats'], str) else list(o['formats'])
        still = [f for f in fm if f != 'gif']
        land = []
        if spec['map']['t'] == 'bna':
            land = [(scen.LON0 + i[0], scen.LAT0 + i[1], scen.LON0 + i[2], scen.LAT0 + i[3])
                    for i in spec['map']['islands']]
        names = sorted(['foreground_%05d.%s' % (k, f) for k in steps for f in still] +
                       ['background_map.' + f for f in still] + list(other))
        have = sorted(f for f in os.listdir(d) if not f.endswith('anim.gif'))
        if have != names:
            raise V('files', 'there are %s, expected %s' % (
                sorted(set(have) - set(names)) or 'no other files',
                sorted(set(names) - set(have)) or 'nothing else'))
        for f, t in other.items():
            with open(os.path.join(d, f), 'rb') as fd:
                if fd.read() != t:
                    raise V('files', '%s has been changed' % f)
        for k, info in enumerate(infos):
            r = info.get('Renderer')
            if (r is not None) != (k in steps):
                raise V('info', 'step %d: the information is %s' % (k, r))
            if r is not None and r['time_stamp'] not in (seq[k][0]['time'],
                                                         seq[k][0]['time'].isoformat()):
                raise V('info', 'step %d: the time is %s, expected %s'
                        % (k, r['time_stamp'], seq[k][0]['time']))
            if r is not None and not os.path.exists(r['image_filename']):
                raise V('info', 'step %d: the image named is %s' % (k, r['image_filename']))
        if 'png' in still:
            try:
                bg = images.read_png(os.path.join(d, 'background_map.png'))
            except images.BadImage as e:
                raise V('file', 'background_map.png cannot be read: %s' % e)
            ground(o, view, bg, land, o['size'][1], 'background_map.png')
            ns = []
            for k in steps:
                f = 'foreground_%05d.png' % k
                o1, v1 = views[max(i for i in views if i <= k)]
                ns.append(check_image(o1, v1, os.path.join(d, f), seq[k], land, f))
            ctx.nontrivial = sum(1 for n in ns if n) >= 2
            ctx.event(steps, ns)
        if 'gif' in fm:
            gifs = [f for f in os.listdir(d) if f.endswith('anim.gif')]
            if len(gifs) != 1:
                raise V('files', 'there are the animations %s' % gifs)
            try:
                size, delays, closed = images.read_gif(os.path.join(d, gifs[0]))
            except images.BadImage as e:
                raise V('file', 'the animation cannot be read: %s' % e)
            if not closed or list(size) != o['size']:
                raise V('file', 'the animation is %s' % ('not closed' if not closed else size))
            # equal frames are merged (and the time of the last of them lost) by py_gd
            full = 50 * (len(steps) + 1)
            exact = False
            if 'png' in still:
                a = [bg] + [images.read_png(os.path.join(d, 'foreground_%05d.png' % k)) for k in steps]
                exact = len(steps) and all((x != y).any() for x, y in zip(a, a[1:]))
            if sum(delays) > full or exact and sum(delays) != full:
                raise V('frames', 'the animation lasts %d, expected %d for %d steps and the map'
                        % (sum(delays), full, len(steps)))
            ctx.count('probe:animation' + ('-exact' if exact else ''))
        ctx.state(last['how'], m.uncertain, spec['map']['t'], o['both'], o['top'], str(o['formats']),
                  o['stamp'], o['ramp'], back)

    def change(self, g, o, op, view):
        s = op['set']
        for k, a in (('both', 'draw_back_to_fore'), ('top', 'draw_ontop'), ('formats', 'formats'),
                     ('dot', 'point_size')):
            o[k] = s[k]
            setattr(g, a, s[k])
        (w, s_), (e, n) = view
        cx, cy, hw, hh = (w + e) / 2, (s_ + n) / 2, (e - w) / 2, (n - s_) / 2
        if op['how'] == 'BB':
            view = bounds(s['view'])
            g.viewport = view
            return view
        if op['how'] == 'centre':
            (w, s_), (e, n) = bounds(s['view'])
            cx, cy, hw, hh = (w + e) / 2, (s_ + n) / 2, (e - w) / 2, (n - s_) / 2
            deg = 8.9992801e-06
            g.set_viewport(center=(cx, cy), height=2 * hh / deg,
                           width=2 * hw / deg * math.cos(math.radians(cy)))
        elif op['how'] == 'zoom':
            f = 0.5 + op['frac']
            hw, hh = hw * f, hh * f
            g.zoom(f)
        else:
            dx, dy = s['view'][0] / 4, s['view'][1] / 4
            cx, cy = cx + dx, cy + dy
            g.shift_viewport((dx, dy))
        return ((cx - hw, cy - hh), (cx + hw, cy + hh))
